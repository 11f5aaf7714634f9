"""C20: ability names from balance data.

TLC explores the lookup machine of BalanceMC for every small table and prints each table with the name it yields; these,
tables of random contents, tables written to JSON or XML and read back by the library, the tables shipped with the library,
and replays with commands under several loaded versions are run in the code and judged by BalanceTrace."""
import glob, json, os, random, sys
from collections import Counter
from xml.sax.saxutils import quoteattr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, wire, merge
from vh import *
from replaygen import *

TYPES = ['Zealot', 'Marine', 'Probe', 'Hatchery', 'SCV', 'ZealotACGluescreenDummy', 'Larva', 'Marine2']
IDS = ['stop', 'move', 'attack', 'GatewayTrain', 'a', 'a.b', '', 'ä', 'x"y&<z>']

def dyadic(f):
    if f == 0:
        return [0, 0]
    import struct
    f = struct.unpack('<f', struct.pack('<f', f))[0]
    m, d = f.as_integer_ratio()
    e = -(d.bit_length() - 1)
    while m % 2 == 0:
        m, e = m // 2, e + 1
    return [m, e]

class Tables:
    """Random balance tables over numbers that often coincide."""
    def __init__(self, R, wide=False):
        self.R = R
        self.links = [0, 1, 2] if not wide else [0, 1, 255, 256, 257, 65535]
        self.cmds = [0, 1, 2] if not wide else [0, 1, 255, 256, -1, (1 << 31), (1 << 63) - 1, -(1 << 63)]
        self.n = 0
    def name(self):
        self.n += 1
        return self.R.choice(IDS) + str(self.n)
    def opt(self, v):
        return [self.R.choice(v)] if self.R.random() < .85 else []
    def ref(self):
        return {'id': self.name(), 'ability': self.opt(self.links), 'index': self.opt(self.cmds)}
    def unit(self):
        R = self.R
        many = lambda f, ns: [f() for _ in range(R.choice(ns))]
        cmd = lambda: {'id': [self.name()] if R.random() < .8 else [], 'index': R.choice(self.cmds)}
        return {'radius': [dyadic(R.choice([0, .375, 1.75, .5, 2, 0.45, 13]))] if R.random() < .7 else [],
                'abilities': many(lambda: {'id': self.name(), 'index': self.opt(self.links), 'cmds': many(cmd, [0, 1, 2, 3])}, [0, 0, 1, 2, 4]),
                'trains': many(self.ref, [0, 0, 1, 3]), 'builds': many(self.ref, [0, 0, 1, 3]),
                'researches': many(lambda: {'id': self.name(), 'ability': [R.choice(self.links)], 'index': [R.choice(self.cmds)]}, [0, 0, 1, 3])}
    def large(self, n):
        """A unit with n entries in each list, and the pairs that name something."""
        R, u = self.R, self.unit()
        two = lambda i: (R.randrange(n) if R.random() < .5 else i, R.choice([0, 1, 2, i]))
        seen = []
        for k in ('trains', 'builds', 'researches'):
            u[k] = []
            for i in range(n):
                l, c = two(i)
                u[k].append({'id': self.name(), 'ability': [l], 'index': [c]})
                seen.append((l, c))
        u['abilities'] = []
        for i in range(n // 2):
            l, c = two(i)
            u['abilities'].append({'id': self.name(), 'index': [l], 'cmds': [{'id': [self.name()], 'index': j} for j in range(R.choice([0, 1, 3]) if i % 40 else 300)]})
            seen += [(l, x['index']) for x in u['abilities'][-1]['cmds']]
        return u, seen
    def table(self, types=TYPES):
        return {t: self.unit() for t in self.R.sample(types, self.R.randrange(1, len(types) + 1 if len(types) < 5 else 5))}
    def versions(self, among):
        return {str(v): self.table() for v in self.R.sample(among, self.R.randrange(1, 4))}
    def ask(self, tables, n):
        R = self.R
        return [[R.choice(list(tables) + ['1']), R.choice(TYPES + ['Ghost', '']), R.choice(self.links), R.choice(self.cmds)] for _ in range(n)]

def xml(name, b):
    """The balance data of a unit as the game's editor exports it."""
    def tag(n, attrs, inner=''):
        a = ''.join(' %s=%s' % (k, quoteattr(str(v))) for k, v in attrs.items() if v is not None)
        return '<%s%s>%s</%s>' % (n, a, inner, n) if inner else '<%s%s/>' % (n, a)
    one = lambda o: o[0] if o else None
    meta = tag('meta', {'name': 1, 'tooltip': 2})
    radius = one(b['radius'])
    out = meta + tag('life', {'start': 1, 'max': 2}) + tag('armor', {'start': 0, 'max': 0}) + tag('shieldArmor', {'start': 0, 'max': 0}) + tag('score', {'build': 1})
    out += tag('misc', {'radius': None if radius is None else radius[0] * 2.0 ** radius[1], 'supply': 1})
    if b['abilities']:
        out += tag('abilities', {}, ''.join(tag('ability', {'id': a['id'], 'index': one(a['index'])}, ''.join(tag('command', {'id': one(c['id']), 'index': c['index']}, meta) for c in a['cmds'])) for a in b['abilities']))
    for n in ('trains', 'builds'):
        if b[n]:
            out += tag(n, {}, ''.join(tag('unit', {'id': r['id'], 'ability': one(r['ability']), 'index': one(r['index'])}) for r in b[n]))
    if b['researches']:
        out += tag('researches', {}, ''.join(tag('upgrade', {'id': r['id'], 'ability': one(r['ability']), 'index': one(r['index'])}, meta + tag('cost', {'minerals': 1})) for r in b['researches']))
    return '<?xml version="1.0" encoding="utf-8"?>\n' + tag('unit', {'id': name}, out) + '\n'

def spec_of(j):
    """The specification form of a unit in the shipped JSON (read here, not by the library)."""
    opt = lambda v: [] if v is None else [v]
    ref = lambda r: {'id': r['@id'], 'ability': opt(r.get('@ability')), 'index': opt(r.get('@index'))}
    inner = lambda n, m: (j.get(n) or {}).get(m) or []
    return {'radius': [dyadic(j['misc']['@radius'])] if j['misc'].get('@radius') is not None else [],
            'abilities': [{'id': a['@id'], 'index': opt(a.get('@index')), 'cmds': [{'id': opt(c.get('@id')), 'index': c['@index']} for c in a.get('command', [])]} for a in inner('abilities', 'ability')],
            'trains': [ref(r) for r in inner('trains', 'unit')], 'builds': [ref(r) for r in inner('builds', 'unit')],
            'researches': [ref(r) for r in inner('researches', 'upgrade')]}

def asset_cases(R, wd, all_versions):
    out, data = [], {}
    for f in glob.glob(REPO + '/assets/BalanceData/*/*.json'):
        data.setdefault(os.path.basename(os.path.dirname(f)), {})[os.path.basename(f)[:-5]] = spec_of(json.load(open(f)))
    vs = sorted(data) if all_versions else R.sample(sorted(data), 2)
    for v in vs:
        ask = []
        for u, b in data[v].items():
            seen = [(a['index'][0], c['index']) for a in b['abilities'] if a['index'] for c in a['cmds']]
            seen += [(r['ability'][0], r['index'][0]) for n in ('trains', 'builds', 'researches') for r in b[n] if r['ability'] and r['index']]
            ask += [[v, u, l, c] for l, c in set(seen)] + [[v, u, R.randrange(400), R.randrange(4)] for _ in range(2)]
        out.append({'id': 'shipped ' + v, 'via': 'assets', 'tables': {v: data[v]}, 'all': sorted(data), 'ask': ask})
        u = R.sample(sorted(data[v]), 60)
        some = {x: data[v][x] for x in u}
        d = os.path.join(wd, 'shipped-' + v)
        os.makedirs(d)
        out.append({'id': 'shipped %s written' % v, 'via': 'json', 'dir': d, 'tables': {v: some}, 'ask': [q for q in ask if q[1] in some]})
    return out

def replay_case(S, R, n):
    build = R.choice([94137, 96883, 87702, 75689, 75690, 89720, 15405, 5, 1])
    a = Archive(S, R, build)
    t = Tables(R)
    versions = {build: t.table(['Zealot', 'Marine', 'Probe'])} if R.random() < .8 else {}
    for v in R.sample([build + 1, build - 1, build + 3, build + 5, build + 65536, 94137, 100, 75689], R.randrange(4)):
        versions.setdefault(v, t.table(['Zealot', 'Marine', 'Probe', 'Ghost']))
    name = lambda: R.choice([b'Zealot', b'Marine', b'Probe'])
    ts, gs = [('EUnitBorn', 0, {'m_unit_tag_index': 1, 'm_unit_tag_recycle': 1, 'm_unit_type_name': name()})], []
    for _ in range(R.randrange(3)):
        ts.append(('EUnitTypeChange', R.randrange(1, 30), {'m_unit_tag_index': 1, 'm_unit_tag_recycle': 1, 'm_unit_type_name': name()}))
    tag = (1 << 18) + 1
    gs.append(('ESelectionDelta', 1, 0, {'m_control_group_id': 10, 'm_delta': {'m_add_unit_tags': [tag], 'm_add_subgroups': []}}))
    for _ in range(R.randrange(2, 20) if n % 40 else 300):
        gs.append(('ECmd', R.randrange(6), 0, {'m_abil': {'m_abil_link': R.choice(t.links), 'm_abil_cmd_index': R.choice(t.cmds)}}))
    c = a.case('replay %d' % n, a.tracker(ts), a.game(gs), [(b'Ann', 1)], [(1, 0)])
    return dict(c, tables={str(k): v for k, v in versions.items()})

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    S = wire.schemas()
    R = random.Random('balance/%d' % SEED)
    k = 8 if THOROUGH else 1
    r = tlc('BalanceMC', env=dict(DEEP='1' if THOROUGH else '0'), workers=6, xmx='8g')
    chk.add('states', r.distinct)
    vs = [json.loads(v) for v in r.marked('VEC')]
    chk.add('tables_enumerated', len(vs))
    cases, expect = [], {}
    vs = R.sample(vs, min(len(vs), 200000))
    for n in range(0, len(vs), 20):
        part = vs[n:n + 20]
        cases.append({'id': 'vectors %d' % n, 'via': 'map', 'tables': {'7': {'T%d' % i: v['t'] for i, v in enumerate(part)}}, 'ask': [['7', 'T%d' % i, 1, 0] for i in range(len(part))]})
        expect[cases[-1]['id']] = [v['name'] for v in part]
    for n in range(300 * k):
        t = Tables(R, R.random() < .4)
        tables = t.versions([1, 7, 75689, 94137, 96883, (1 << 32) - 1])
        d = os.path.join(wd, 'tables-%d' % n)
        os.makedirs(d)
        via = R.choice(['map', 'json', 'json', 'read-xml', 'read-xml'])
        if via != 'map' and R.random() < .4:          # things that are no balance data
            os.makedirs(d + '/notes')
            for f in ('readme.txt', 'notes/Zealot.json', 'notes/Zealot.xml'):
                with open(os.path.join(d, f), 'w') as fh:
                    fh.write('nothing')
        if via == 'read-xml':
            os.makedirs(d + '/123456')
            for v, tb in tables.items():
                os.makedirs('%s/%s/BalanceData' % (d, v))
                for u, b in tb.items():
                    with open('%s/%s/BalanceData/%s.xml' % (d, v, R.choice([u, u.lower(), 'file ' + u])), 'w') as fh:
                        fh.write(xml(u, b))
                if R.random() < .5:
                    with open('%s/%s/BalanceData/broken.xml' % (d, v), 'w') as fh:
                        fh.write(R.choice(['', '<unit id="X">', 'text', '<unit/>']))
                    with open('%s/%s/BalanceData/Other.txt' % (d, v), 'w') as fh:
                        fh.write(xml('Ghost', next(iter(tb.values()))))
        cases.append({'id': 'random %d %s' % (n, via), 'via': via, 'dir': d, 'tables': tables, 'ask': t.ask(tables, 150)})
    for n in range(4 * k):       # many units, and units with long lists
        t = Tables(R, True)
        d = os.path.join(wd, 'large-%d' % n)
        os.makedirs(d)
        tb, ask = {'Type%d' % i: t.unit() for i in range(R.choice([260, 300, 520]))}, []
        for u in R.sample(sorted(tb), 2):
            tb[u], seen = t.large(R.choice([130, 260, 300]))
            ask += [['77', u, l, c] for l, c in R.sample(seen, 60) + seen[-20:]]
        for u, b in tb.items():
            ask += [['77', u, l, c] for l, c in [(a['index'][0], x['index']) for a in b['abilities'][:6] if a['index'] for x in a['cmds'][:2]][:1]]
        cases.append({'id': 'large %d' % n, 'via': ['map', 'json'][n % 2], 'dir': d, 'tables': {'77': tb}, 'ask': ask})
    cases += asset_cases(R, wd, THOROUGH)
    cases += [replay_case(S, R, n) for n in range(400 * k)]
    inp, out = os.path.join(wd, 'in'), os.path.join(wd, 'out')
    with open(inp, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    harness('balance', inp, out, wd)
    lines = open(out).read().split('\n')[:-1]
    if len(lines) != len(cases):
        raise ToolError('%d of %d cases' % (len(lines), len(cases)))
    seen = Counter()
    for ln in lines:
        x = json.loads(ln)
        if x['k'] == 'tables':
            chk.add('lookups', len(x['asked']))
            for q in x['asked']:
                p = q[4].split('.')[0]
                seen[p if p in ('Train', 'Build', 'Research', '') else 'ability'] += 1
            e = expect.get(x['id'])
            if e and e != [q[4] for q in x['asked']]:
                chk.violate('%s: the model names %s, the library %s' % (x['id'], e, [q[4] for q in x['asked']]), tables=x['tables'])
        elif x['k'] == 'replay':
            chk.add('commands', len(x['commands']))
            chk.add('named_commands', len([c for c in x['commands'] if c[3]]))
    chk.cov['names'] = dict(seen)
    merge.judge(chk, 'BalanceTrace', lines, wd, prop)
    if not chk.violations and (min(seen[p] for p in ('ability', 'Train', 'Build', 'Research', '')) < 100 or chk.cov['named_commands'] < 300):
        raise ToolError('only %s' % chk.cov)
    chk.sample({'table': cases[0]['tables'], 'asked': cases[0]['ask']})
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
