"""C18: Arrow exports of sets of replays.

TLC explores the workers, the lock and the shared file of an export (ExportMC) for every short list of sources; every list
and mode becomes replays that the library exports, table by table, as a snapshot, and as a command over a directory, serially
and in parallel.  The files are read back column by column and TLC decides whether they hold exactly the rows of the
readable sources (ExportTrace), from the events and change hints that the iterator returns for each source."""
import json, os, random, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, wire, merge
from vh import *
from replaygen import *
from wiregen import ANY

TABLES = ['details', 'stats', 'upgrades', 'unit_born', 'unit_died', 'cmd_target_point', 'cmd_target_unit', 'once']
UNREADABLE = ['gone', 'garbage', 'void', 'notracker', 'nogame', 'nodetails']

def command(R):
    tag = lambda: (R.choice([0, 1, 2, 5]) << 18) + 1
    v = {'m_data': R.choice([('TargetPoint', ANY), ('TargetPoint', ANY), ('TargetUnit', {'m_tag': tag()}), ('TargetUnit', ANY), ('None', ANY), ANY])}
    if R.random() < .8:
        v['m_abil'] = {'m_abil_link': R.randrange(200), 'm_abil_cmd_index': R.randrange(4)}
    return v

def streams(a, n, m):
    R = a.R
    step = R.choice([lambda: R.choice([0, 1, 2]), lambda: R.randrange(300), lambda: R.choice([0, 5, 4000, 100000])])
    t = [(k, step(), small(R, k)) for k in R.choices(T_OK, weights=[1, 3, 2, 1, 2, 2, 2, 2, 1, 1], k=n)]
    users = R.sample([0, 1, 2, 3], 2)
    g = []
    for _ in range(m):
        r = R.random()
        k = 'ESelectionDelta' if r < .25 else 'ECmd' if r < .75 else R.choice(G_OK)
        v = command(R) if k == 'ECmd' else small_g(R, k)
        if k == 'ESelectionDelta':
            v['m_delta']['m_add_unit_tags'] = [(i << 18) + 1 for i in R.sample([0, 1, 2, 5], R.randrange(1, 4))]
            v['m_control_group_id'] = 10
        g.append((k, step(), R.choice(users), v))
    setup = [('EPlayerSetup', 0, {'m_player_id': (u + 1) % 4, 'm_user_id': u, 'm_slot_id': i}) for i, u in enumerate(users)]
    alive = [('EUnitBorn', 0, dict(small(R, 'EUnitBorn'), m_unit_tag_index=i)) for i in R.sample([0, 1, 2, 5], 3)]
    return a.tracker(setup + alive + t), a.game(g)

def source(S, R, kind, num, n=None, m=None):
    a = merge.archive(S, R)
    full = kind != 'empty'
    t, g = streams(a, R.choice([3, 8, 15]) if n is None else n, R.choice([3, 8, 20]) if m is None else m) if full else (b'', b'')
    ids = R.sample([0, 1, 2, 3], R.choice([1, 2, 3]))
    if kind == 'full' and R.random() < .1:
        g = b''
    # file times of any date, mostly of the present; the date column holds the years 1677 to 2262
    span = (24000000000000000, 208000000000000000)
    edge = lambda e: 116444736000000000 + (92233720368547758 if e else -92233720368547759) + R.choice([0, 1, -1, 9, 10, 11, -9, -11, 100])
    a.details = {'m_time_utc': R.randrange(130000000000000000, 135000000000000000) if R.random() < .7 else R.choice([R.randrange(*span), edge(0), edge(1), 0, 1, (1 << 63) - 1])}
    a.details['m_time_local_offset'] = R.choice([0, 36000000000, -252000000000, R.randrange(1 << 40)])
    pl = [(R.choice([b'Ann', b'Bob', 'Zo\u00eb'.encode()]) + b'%d' % i, i) for i in range(len(ids))]
    c = a.case('s', t, g, pl, [(i, ids[i]) for i in range(len(ids))])
    c['kind'] = 'full' if kind == 'empty' else R.choice(UNREADABLE) if kind == 'gone' else kind
    c['id'] = str(num)
    return c

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    S = wire.schemas()
    R = random.Random('export/%d' % SEED)
    k = 8 if THOROUGH else 1
    r = tlc('ExportMC', env=dict(DEEP='0'), workers=4)
    chk.add('states', r.distinct)
    lists = {(tuple(v['src']), v['serial']) for v in map(json.loads, r.marked('VEC'))}
    deep = tlc('ExportMC', env=dict(DEEP='1'), workers=4)
    chk.add('states', deep.distinct)
    lists |= set(R.sample(sorted({(tuple(v['src']), v['serial']) for v in map(json.loads, deep.marked('VEC'))} - lists), 150 if THOROUGH else 25))
    # The property is not vacuous: without the lock, batches mix.
    free = tlc('ExportMC', 'ExportNoLock.cfg', env=dict(DEEP='0'), workers=4, allow_violation=True)
    if 'Invariant Whole is violated' not in free.out:
        raise ToolError('the model without a lock should mix batches')
    chk.add('source_lists', len(lists))
    cases = []
    ids = lambda n: R.sample([0, 1, 2, 3, 9, 77, 65536, (1 << 53) + 1, (1 << 63), (1 << 64) - 1], n)
    def put(cid, op, serial, src, **more):
        cases.append(dict(dict(id=cid, op=op, serial=serial, fine=True, threads=R.choice([2, 4, 8]), src=src, min=-1, max=-1, take=10 ** 9, scan=10 ** 9, depth=3, twice=R.random() < .4), **more))
    for _ in range(k):
        for kinds, serial in sorted(lists):
            ns = ids(len(kinds))
            put('list %s %s' % (list(kinds), 'serial' if serial else 'parallel'), R.choice(TABLES + ['snapshot'] * 3), serial, [source(S, R, x, n) for x, n in zip(kinds, ns)])
    for n in range(16 * k):        # every table alone, in both modes
        for serial in (True, False):
            put('single %d' % n, TABLES[n % len(TABLES)], serial, [source(S, R, 'full', i, 20, 40) for i in ids(R.choice([1, 2]))])
    for n in range(30 * k):        # whole snapshots and commands over directories
        put('snapshot %d' % n, 'snapshot', R.random() < .5, [source(S, R, R.choice(['full', 'full', 'empty', 'gone', 'noinit']), i) for i in ids(R.randrange(1, 7))])
        m = R.randrange(0, 8)
        src = [source(S, R, R.choice(['full', 'full', 'full', 'empty', 'gone', 'noinit']), 0) for _ in range(m)]
        builds = sorted(s['build'] for s in src) or [0]
        bound = lambda: R.choice(builds) + R.choice([0, 0, 1, -1]) if R.random() < .5 else -1
        put('command %d' % n, 'cmd', R.random() < .5, src, min=bound(), max=bound(), take=R.choice([10 ** 9, 10 ** 9, 0, 1, 2, m]), scan=R.choice([10 ** 9, 10 ** 9, m, 1, 2]))
    for n in range(3 * k):         # directories of many replays, with and without limits
        kinds = [source(S, R, 'full', 0, 3, 3) for _ in range(4)] + [source(S, R, 'gone', 0)]
        m = R.choice([70, 140, 270])
        src = [dict(R.choice(kinds)) for _ in range(m)]
        builds = sorted(s['build'] for s in src)
        put('many %d' % n, 'cmd', n % 2 == 0, src, min=[-1, builds[m // 8], -1][n % 3], take=[10 ** 9, m // 2, m - 1][n % 3])
    # long replays, with more rows than any batch
    for n in range(3 * k):
        a = merge.archive(S, R)
        t = [('EUnitBorn', 0, dict(small(R, 'EUnitBorn'), m_unit_tag_index=i)) for i in range(3)]
        long = R.choice([1030, 1200, 2050])
        ks = [['EPlayerStats'], ['EUpgrade'], ['EUnitBorn', 'EUnitDied']][n % 3]
        t += [(ks[i % len(ks)], 1, dict(small(R, ks[i % len(ks)]), **({'m_unit_tag_index': i // 2} if len(ks) > 1 else {}))) for i in range(long * len(ks) if n % 3 == 2 else long)]
        us = [(i << 18) + 1 for i in range(3)]
        g = [('ESelectionDelta', 0, 1, {'m_control_group_id': 10, 'm_delta': {'m_add_unit_tags': us, 'm_add_subgroups': []}})]
        g += [('ECmd', 1, 1, {'m_data': (['TargetPoint', 'TargetUnit'][(n + i // 500) % 2], ANY), 'm_abil': {'m_abil_link': 5}}) for i in range(40 if n % 3 else 800)]
        c = a.case('s', a.tracker(t), a.game(g), [(b'Ann', 0), (b'Bob', 1)], [(0, 1), (1, 2)])
        c.update(kind='full', id=str(7 + n))
        put('long %d' % n, 'snapshot', R.random() < .5, [c] + [source(S, R, 'full', 3)])
    # many replays of one size or of very different sizes at once: contention and reordering
    for n in range(10 * k):
        table = ['upgrades', 'unit_born', 'stats', 'unit_died', 'cmd_target_point', 'cmd_target_unit', 'snapshot', 'upgrades', 'stats', 'unit_born'][n % 10]
        count = 24 if table == 'snapshot' else 48
        kinds = [table_chunk(S, R, table) for _ in range(2)]
        src = []
        for i in range(count):
            s = dict(kinds[i % 2])
            s.update(id=str(1000 + i), kind='full' if R.random() < .9 else R.choice(UNREADABLE), repeat=6 if n % 2 else R.choice([1, 2, 10, 30]))
            src.append(s)
        put('crowd %d' % n, table, False, src, fine=False, threads=8)
    log(len(cases), 'exports')
    lines = run_export(chk, cases, wd)
    log('harness done')
    seen = Counter()
    for ln in lines:
        x = json.loads(ln)
        seen['%s %s' % ('serial' if x['serial'] else 'parallel', x['got']['k'])] += 1
        if x['got']['k'] == 'ok':
            for t, v in x['got']['tables'].items():
                rows = v.get('v', [])
                chk.add('rows', len(rows))
                seen['rows of ' + t] += len(rows) if x['fine'] else 0
                if not x['serial'] and t != 'details':
                    got = [r[1]['ext_fs_id'] if x['fine'] else r[0] for r in rows]
                    order = [i for n, i in enumerate(got) if n == 0 or got[n - 1] != i]
                    src = [s.get('id') for s in x['src']]
                    at = [src.index(o) for o in order if o in src]
                    seen['reordered files'] += at != sorted(at)
    chk.cov['results'] = dict(seen)
    chk.sample({k: (v if k != 'src' else [s['kind'] for s in v]) for k, v in cases[0].items()})
    merge.judge(chk, 'ExportTrace', lines, wd, prop)
    if not chk.violations:
        for t in TABLES[:7]:
            if seen['rows of ' + t] < 40:
                raise ToolError('only %d rows of %s' % (seen['rows of ' + t], t))
        if seen['reordered files'] < 3:
            raise ToolError('only %d files with another order' % seen['reordered files'])
    return chk.finish()

def table_chunk(S, R, table):
    a = merge.archive(S, R)
    setup = [('EUnitBorn', 0, dict(small(R, 'EUnitBorn'), m_unit_tag_index=i)) for i in [0, 1, 2]]
    kind = dict(upgrades=['EUpgrade'], stats=['EPlayerStats'], unit_born=['EUnitBorn'], unit_died=['EUnitBorn', 'EUnitDied']).get(table, T_OK)
    t = setup + [(k, 1, dict(small(R, k), m_unit_tag_index=i % 3) if k.startswith('EUnit') and k != 'EUnitPosition' else small(R, k)) for i in range(30 // len(kind)) for k in kind]
    users = [1, 2]
    g = []
    if table not in ('upgrades', 'stats', 'unit_born', 'unit_died'):
        what = {'cmd_target_point': 'TargetPoint', 'cmd_target_unit': 'TargetUnit'}.get(table)
        g = [('ESelectionDelta', 0, 1, {'m_control_group_id': 10, 'm_delta': {'m_add_unit_tags': [1, (1 << 18) + 1, (2 << 18) + 1], 'm_add_subgroups': []}})]
        g += [('ECmd', 1, 1, {'m_data': (what or R.choice(['TargetPoint', 'TargetUnit']), ANY), 'm_abil': {'m_abil_link': 5}}) for _ in range(20)]
    return a.case('s', a.tracker(t), a.game(g), [(b'Ann', 0), (b'Bob', 1)], [(0, 1), (1, 2)])

def run_export(chk, cases, wd, procs=3):
    return parallel('export', cases, procs, 'exporting', timeout=500)

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
