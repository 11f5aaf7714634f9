"""C19: directory scans.

TLC explores the scan of every small directory tree with every pair of limits, in every order of the entries (DirMC); every
tree is built and scanned by the library, together with random trees of all kinds of entries; the statistics run over trees
of replays, serially and in parallel.  TLC decides which files and counts are right (DirTrace)."""
import json, os, random, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, wire, merge
from vh import *
from replaygen import *
from wiregen import ANY

GOOD = ['%s.SC2Replay', '%s.x.SC2Replay', '.%s.SC2Replay', '%s .SC2Replay', '%s..SC2Replay', '\u65e5%s.SC2Replay', '\udcff%s.SC2Replay']
WRONG = ['%s.sc2replay', '%s.SC2Replay.bak', '%s', '%s.SC2ReplayX', '%sSC2Replay', '%s.SC2Replay ', '%s.SC2replay', '%s.', '%s.XSC2Replay', '%s.SC2Map']
EMPTY = {'radius': [], 'abilities': [], 'trains': [], 'builds': [], 'researches': []}
def raw(s):
    return list(s.encode('utf-8', 'surrogateescape'))

def small_tree(t, n=[0]):
    out = []
    for e in t:
        n[0] += 1
        name = {'replay': 'r%d.SC2Replay', 'other': 'o%d.txt', 'dir': 'd%d'}[e['k']] % n[0]
        out.append({'n': raw(name), 'k': 'dir' if e['k'] == 'dir' else 'file', 'd': small_tree(e['d'], n)})
    return out

def random_tree(R, depth, width, n):
    out = []
    for _ in range(R.randrange(width + 1)):
        n[0] += 1
        name = (R.choice(GOOD if R.random() < .6 else WRONG)) % n[0]
        if R.random() < .02 and not any(e['n'] == raw('.SC2Replay') for e in out):
            name = '.SC2Replay'
        k = R.choices(['file', 'dir', 'filelink', 'dirlink', 'dangling', 'socket'], weights=[10, 6 if depth else 0, 2, 1 if depth else 0, 1, 1])[0]
        out.append({'n': raw(name), 'k': k, 'd': random_tree(R, depth - 1, width, n) if k in ('dir', 'dirlink') else []})
    return out

def chain(R, levels):
    t = []
    for i in range(levels, 0, -1):
        here = [{'n': raw('r%d.SC2Replay' % i), 'k': 'file', 'd': []}]
        if t:
            here.append({'n': raw('d%d' % i if R.random() < .5 else 'd%d.SC2Replay' % i), 'k': 'dir', 'd': t})
        t = here
    return t

def stats_case(S, R, cid, size, many=False):
    files, kinds, nodes = [], [], []
    names = [b'Ann', b'Bob', b'Cy', b'Dee', 'Zo\u00eb'.encode(), b'', b'ann', b'Ann '] + [b'p%d' % i for i in range(400 if many else R.choice([0, 10, 20]))]
    maps = [b'Map A', b'Map B', 'K\u00e4rte'.encode(), b''] + [b'm%d' % i for i in range(300 if many else R.choice([0, 9, 30]))]
    builds = R.sample(merge.BUILDS, R.randrange(1, 5))
    for i in range(size):
        a = Archive(S, R, R.choice(builds))
        a.g.k['cap'] = 2
        players = []
        for j in range(R.choice([0, 1, 2, 2, 4])):
            players.append((R.choice(names[:len(names) if many else R.choice([2, len(names)])]), j, {'m_observe': (R.choice(['ENone', 'ENone', 'ENone', 'ESpectator', 'EReferee']), ANY)}))
        d, ini = a.lobby(players, [(j, j) for j in range(len(players))] or [(0, 0)], title=R.choice(maps[:len(maps) if many else R.choice([2, len(maps)])]))
        files.append({'build': a.build, 't': [], 'g': [], 'd': list(d), 'i': list(ini)})
        kind = R.choice(['full'] * 6 + ['garbage', 'void', 'noinit', 'nodetails', 'notracker', 'nogame', 'nouser'])
        nodes.append({'n': raw(R.choice(GOOD[:6]) % i), 'k': R.choice(['file', 'file', 'filelink']), 'd': [], 'c': kind, 'f': i, 'build': a.build})
    if R.random() < .5:
        nodes.append({'n': raw('x\udcff.SC2Replay'), 'k': 'file', 'd': [], 'c': 'garbage', 'f': 0, 'build': 0})
    for i in range(R.randrange(4)):
        nodes.append({'n': raw(R.choice(WRONG) % i), 'k': 'file', 'd': [], 'c': 'full' if files else 'garbage', 'f': 0, 'build': files[0]['build'] if files else 0})
    # directories around them, down to eleven levels
    tree = []
    for e in nodes:
        at = tree
        for l in range(R.choice([0, 0, 1, 2, 9, 10])):
            d = next((x for x in at if x['k'] == 'dir'), None)
            if d is None:
                d = {'n': raw('sub'), 'k': 'dir', 'd': []}
                at.append(d)
            at = d['d']
        if not any(x['n'] == e['n'] for x in at):
            at.append(e)
    tables = {str(b): {'Marine': EMPTY} for b in R.sample(builds + [1], R.randrange(len(builds) + 1))}
    if R.random() < .5:       # several entries of one version
        for t in tables.values():
            t['Zealot'] = EMPTY
    return dict(id=cid, op='stats', root='dir', tree=tree, files=files, max=-1, depth=10, tables=tables, included=False, serial=R.random() < .5)

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    S = wire.schemas()
    R = random.Random('scan/%d' % SEED)
    k = 8 if THOROUGH else 1
    r = tlc('DirMC', env=dict(DEEP='1'), workers=6, xmx='8g')
    chk.add('states', r.distinct)
    vs = [json.loads(v) for v in r.marked('VEC')]
    chk.add('trees_enumerated', len(vs))
    cases = []
    for n, v in enumerate(vs if THOROUGH else R.sample(vs, 3500)):
        cases.append(dict(id='tree %d' % n, op='files', root='dir', tree=small_tree(v['t']), max=v['max'], depth=v['depth']))
    for n in range(1500 * k):
        depth = R.choice([1, 2, 3, 5])
        t = random_tree(R, depth, R.choice([2, 4, 8 if depth < 3 else 3]), [0])
        cases.append(dict(id='random %d' % n, op='files', root='dir', tree=t, max=R.choice([-1, 0, 1, 2, 3, 5, 10, 20, 10 ** 6]), depth=R.choice([0, 1, 2, 3, 4, 6, 10])))
    for n in range(60):
        cases.append(dict(id='chain %d' % n, op='files', root='dir', tree=chain(R, R.randrange(1, 13)), max=R.choice([-1, 1, 3, 11, 12]), depth=R.choice([0, 1, 2, 3, 9, 10, 11, 12, 13])))
    # crowded directories and long chains of single directories
    flat = lambda m, tag: [{'n': raw('%s%d.SC2Replay' % (tag, i)), 'k': 'file', 'd': []} for i in range(m)]
    for n, m in enumerate([255, 256, 257, 300, 520, 1030] * k):
        t = flat(m, 'r')
        at = [(m, 1)]
        if n % 2:
            t = [{'n': raw('d%d' % i), 'k': 'dir', 'd': flat(7, 's')} for i in range(m // 7 + 1)] + flat(3, 'r')
            at = [(7 * (m // 7 + 1) + 3, 2), (3, 1)]
        for total, depth in at:
            for mx in (-1, total, total - 1, R.randrange(total)):
                cases.append(dict(id='crowd %d %d %d' % (n, depth, mx), op='files', root='dir', tree=t, max=mx, depth=depth))
    for n, m in enumerate([17, 33, 40] * k):
        for depth in (m - 1, m, m + 1, 1000):
            cases.append(dict(id='long chain %d %d' % (m, depth), op='files', root='dir', tree=chain(R, m), max=-1, depth=depth))
    for root in ('file', 'missing'):
        for d in (0, 1, 5):
            cases.append(dict(id=root, op='files', root=root, tree=[], max=5, depth=d))
        cases.append(dict(id=root + ' stats', op='stats', root=root, tree=[], files=[], max=-1, depth=10, tables={}, included=False, serial=True))
    for n in range(150 * k):
        cases.append(stats_case(S, R, 'stats %d' % n, R.choice([0, 1, 3, 12, 25, 40])))
    for n in range(3 * k):      # hundreds of replays, players and maps
        cases.append(stats_case(S, R, 'crowd of replays %d' % n, R.choice([260, 300, 400]), many=n % 3 > 0))
    for n in range(2):
        c = stats_case(S, R, 'included %d' % n, 10)
        c.update(included=True, tables={})
        cases.append(c)
    log(len(cases), 'scans')
    lines = run_scan(chk, cases, wd)
    log('harness done')
    seen = Counter()
    for ln in lines:
        x = json.loads(ln)
        seen[x['op'] + ' ' + x['got']['k']] += 1
        if x['got']['k'] == 'ok' and x['op'] == 'files':
            chk.add('files_found', len(x['got']['v']))
            seen['at the limit'] += 0 < x['max'] == len(x['got']['v'])
        elif x['got']['k'] == 'ok':
            for t in ('total', 'supported', 'abilities'):
                seen[t] += x['got']['v'][t]
            seen['cut lists'] += sum(len(x['got']['v'][t]) == 10 for t in ('players', 'maps'))
    chk.cov['results'] = dict(seen)
    chk.sample(cases[0])
    merge.judge(chk, 'DirTrace', lines, wd, prop)
    if not chk.violations and (min(seen['at the limit'], seen['abilities']) < 30 or seen['cut lists'] < 10 or seen['total'] < 1.1 * seen['supported']):
        raise ToolError('only %s' % dict(seen))
    return chk.finish()

def run_scan(chk, cases, wd, procs=6):
    return parallel('scan', cases, procs, 'scanning')

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
