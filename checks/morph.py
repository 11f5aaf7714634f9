"""C25: sources generated from protocol descriptions, compiled and run, against spec/Generator.tla."""
import json, os, random, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, merge, morph
from vh import *

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    mc = tlc_start('GenMC', 'GenMC.cfg', env=dict(DEEP='1' if THOROUGH else '0'), workers=3, xmx='6g')
    build()
    R = random.Random('morph/%d' % SEED)
    r = tlc_wait(mc)
    chk.add('states', r.distinct)
    vectors = [json.loads(v) for v in sorted(r.marked('VEC'))]
    descs = []
    for ds, cs in morph.exhaustive(vectors):
        descs.append((ds, cs))
        chk.add('types_enumerated', len(ds) - 1)
    for _ in range(40 if THOROUGH else 8):
        ds = morph.Maker(R).description()
        descs.append((ds, morph.cases(R, ds, 25 if THOROUGH else 9)))
    chk.add('descriptions', len(descs))
    inp, out = os.path.join(wd, 'in'), os.path.join(wd, 'out')
    with open(inp, 'w') as f:
        for ds, _ in descs:
            f.write(json.dumps({'json': morph.to_json(ds)}) + '\n')
    harness('generate', inp, out, wd)
    got = [json.loads(l) for l in open(out)]
    if len(got) != len(descs):
        raise ToolError('%d of %d descriptions' % (len(got), len(descs)))
    log('generated')
    lines, live, types = [], {}, {}
    for i, ((ds, cs), g) in enumerate(zip(descs, got)):
        if g['k'] != 'ok':
            lines.append(json.dumps({'k': 'failed', 'id': 'description %d' % i, 'm': g['m'][:300]}))
        else:
            live[i] = g['text']
            types[i] = morph.types_of(g['text'])
    def dispatch():
        out = []
        for i in live:
            declared = {(h, t) for h, t in types[i]}
            for b, t in sorted(declared & {(b, d['rust']) for d in descs[i][0] for b in (0, 1) if morph.selected(d, b)}):
                out.append('        "%d.%d.%s" => %s,' % (i, b, t, 'bits!(d%d::bit_packed::%s, b, s)' % (i, t) if b else 'bytes!(d%d::byte_aligned::%s, b)' % (i, t)))
        return out
    exe, bad = morph.program(live, dispatch())
    while exe is None:
        if set(bad) == {-1}:
            # the sources themselves are sound, the types do not have the expected readers
            for i in live:
                lines.append(json.dumps({'k': 'failed', 'id': 'all descriptions', 'm': 'the generated types have no usable readers: ' + '; '.join(bad[-1])[:600]}))
            live = {}
            break
        for i in bad:
            if i >= 0:
                lines.append(json.dumps({'k': 'failed', 'id': 'description %d' % i, 'm': 'the generated source does not compile: ' + '; '.join(bad[i])[:600]}))
                live.pop(i, None)
        if not live:
            break
        exe, bad = morph.program(live, dispatch())
    log('compiled %d of %d' % (len(live), len(descs)))
    flat = [(i, c) for i in live for c in descs[i][1]]
    if flat:
        rust = {i: {d['full']: d['rust'] for d in descs[i][0]} for i in live}
        text = ''.join('%d.%d.%s %d %s\n' % (i, c['bits'], rust[i][c['full']], c['s'], bytes(c['bs']).hex()) for i, c in flat)
        p = subprocess.run([exe], input=text, stdout=subprocess.PIPE, text=True, timeout=300)
        res = p.stdout.split('\n')[:-1]
        if p.returncode != 0 or len(res) != len(flat):
            # something that cannot be caught, like running out of memory
            i, c = flat[min(len(res), len(flat) - 1)]
            lines.append(json.dumps({'k': 'failed', 'id': 'description %d' % i, 'm': 'the generated reader of %s ended the program (%s) on %s' % (c['full'], p.returncode, c['bs'][:200])}))
        by = {}
        for (i, c), t in zip(flat, res):
            if t == 'unknown':
                continue                                     # reported as not declared
            if t.startswith('ok\t'):
                _, at, v = t.split('\t', 2)
                g = {'k': 'ok', 'p': int(at), 'v': morph.shown(v)}
                chk.add('values_read', 1)
            else:
                g = {'k': t}
                chk.add('inputs_refused', 1)
            by.setdefault(i, []).append(dict(c, got=g))
        for i, cs in by.items():
            ds = descs[i][0]
            lines.append(json.dumps({'k': 'declared', 'id': 'description %d' % i, 'ds': ds, 'types': types[i]}))
            for a in range(0, len(cs), 60):
                lines.append(json.dumps({'k': 'read', 'id': 'description %d' % i, 'ds': ds, 'cases': cs[a:a + 60]}))
        chk.sample({'declaration': descs[flat[-1][0]][0][20], 'case': flat[-1][1]})
    merge.judge(chk, 'GenTrace', lines, wd, prop)
    chk.assumptions.append('bounds start at 0 or are those of a signed number; lists include their largest length')
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
