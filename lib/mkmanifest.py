"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATE = 'TLA+ replay state machine: exhaustive TLC exploration with every transition replayed in the code, plus trace validation of random and real histories'
STATE_NOTE = ('Exhaustive for the small alphabets of spec/StateMC.tla up to the stated depth; sampled (seeded) for larger histories and real replays. '
              'Trusts the projection in harness/src/st.rs and per-step resynchronisation.')
CHECKS = {p: ('checks/state.py', 'model_checking', STATE, STATE_NOTE) for p in 'C03 C04 C05 C06 C07 C08 C09 C10'.split()}
WIRE = 'TLA+ specification of both encodings and both protocol layouts: streams enumerated by TLC and generated values, decoded by the code and judged bit by bit by TLC (trace validation)'
WIRE_NOTE = ('Exhaustive over the bounded value sets of spec/WireMC.tla (C12, C13); seeded sampling of values of the whole protocol layout, of damaged streams and of recorded sectors elsewhere. '
             'Trusts the layout transcription spec/Proto.tla and the value projection in harness/src/wire.rs.')
CHECKS.update({p: ('checks/wire.py', 'model_checking', WIRE, WIRE_NOTE) for p in 'C12 C13 C14 C15 C16 C21 C23'.split()})
MERGE = 'TLA+ machine of two look-ahead streams explored by TLC; its behaviours, random, damaged and recorded streams run through the iterator and judged from their bytes by TLC'
MERGE_NOTE = ('Exhaustive over the short streams of spec/MergeMC.tla; seeded sampling of longer, damaged and recorded streams. Trusts spec/Proto.tla and the projection of items in harness/src/iter.rs.')
CHECKS.update({p: ('checks/merge.py', 'model_checking', MERGE, MERGE_NOTE) for p in 'C01 C02 C11'.split()})
CHECKS['C17'] = ('checks/lobby.py', 'model_checking', 'TLA+ machine of the lobby join explored by TLC; every small lobby and random and recorded ones joined by the code and judged by TLC',
                 'Exhaustive over lobbies of up to three players and slots with two slot numbers; seeded sampling beyond. Lobby and details of a case are those the readers returned (C23).')
CHECKS['C20'] = ('checks/balance.py', 'model_checking', 'TLA+ machine of the name lookup explored by TLC over all small tables; every table looked up in the code, plus random, written and re-read, shipped tables and replays, judged by TLC',
                 'Exhaustive over the small tables of spec/BalanceMC.tla; seeded sampling beyond. Unit type names are taken to be file names without separators.')
CHECKS['C22'] = ('checks/clock.py', 'model_checking', 'TLA+ specification of calendar and loop arithmetic in unbounded integers; conversions of the code judged by TLC (trace validation)',
                 'Exhaustive over all loops below 2^21 (2^24 thorough) by runs of equal seconds; sampled dates over the whole 64-bit range.')
CHECKS['C18'] = ('checks/export.py', 'model_checking', 'TLA+ machine of worker threads sharing one locked writer per table explored by TLC; exports of replay sets in every mode and several thread counts judged row by row by TLC',
                 'All interleavings of the model of spec/ExportMC.tla; of the code the schedules that occur in runs with one to eight threads. Rows are those of the library iterators (C01 to C23) in the specification of spec/ExportOps.tla.')
CHECKS['C19'] = ('checks/scan.py', 'model_checking', 'TLA+ machine of a depth and count limited directory walk explored by TLC; every small tree and random ones built and scanned by the code and judged by TLC',
                 'Exhaustive over the trees of spec/DirMC.tla (sampled in the quick run); seeded sampling beyond. No cyclic links.')
CHECKS['C24'] = ('checks/mapfile.py', 'model_checking', 'TLA+ machine that writes, damages and reads map files explored by TLC; every file and random ones, alone and in archives, read by the code and judged by TLC',
                 'Exhaustive over the small files of spec/MapFilesMC.tla with every cut and damaged magic number; seeded sampling beyond. English text fields only; derived terrain_right_top not covered.')
CHECKS['C26'] = ('checks/save.py', 'model_checking', 'TLA+ machine of two iterators, one saved and restored between calls, explored by TLC with a negative control per part of an iterator; its behaviours, random and recorded replays run with the same saves and judged by TLC',
                 'Exhaustive over the streams of spec/SaveMC.tla (half of them run in the quick tier); seeded sampling beyond. JSON only; contents are compared by digests of their complete Debug form.')
CHECKS['C27'] = ('checks/coords.py', 'model_checking', 'TLA+ machine of a unit walking over a map explored by TLC; its positions and random ones converted by the code and judged by TLC',
                 'Positions in 4096ths up to 512; negative positions are don\'t-care.')
CHECKS['C28'] = ('checks/units.py', 'model_checking', 'TLA+ schema and reader of unit documents; TLC edits the smallest and the fullest document step by step, every document and random ones and directories read by the code and judged by TLC',
                 'Exhaustive over one edit of the full and two of the minimal document (a sample of the latter in the quick tier); seeded sampling beyond. Weapon effects are a known finding.')
CHECKS['C25'] = ('checks/morph.py', 'model_checking', 'TLA+ specification of the layout the generator has to give each declaration, explored by TLC over every small bit-packed type (enough bits for every value and no more); the sources generated for these types and for random descriptions are compiled and their readers run, and TLC judges every result',
    'Bounds: the enumerated types and eight random descriptions of about 50 declarations per run (40 in thorough).  Left out because the generator does not take them: blobs, texts and bit arrays inside bit-packed structures, integers and lists inside choices, lists of anything but named types, integers with a lower bound that is neither 0 nor that of a signed number.')
NA = {}
PENDING = 'Check not built yet.'
def main():
    props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': [], 'not_applicable': []}
    for p in props:
        if p in CHECKS:
            f, level, tech, note = CHECKS[p]
            m['checks'].append({'property': p, 'quick_cmd': 'python3 %s %s' % (f, p), 'thorough_cmd': 'python3 %s %s' % (f, p),
                                'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': level, 'level_note': note})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, PENDING)})
    with open(ROOT + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
