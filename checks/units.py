"""C28: exported unit files.

XmlMC edits the smallest and the fullest unit file step by step and TLC checks which edits matter; every document it meets, the
documents of random trees over the same schema (printed by the model), and random directories around them are written out, read
by the library, written as JSON by it and read again; XmlTrace judges all three steps."""
import json, os, random, sys
from collections import Counter
from xml.sax.saxutils import quoteattr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, merge
from vh import *

HEAD = ['<?xml version="1.0" encoding="utf-8"?>\n', '<?xml version="1.0" encoding="us-ascii"?>\n', '']
def text(el, R, head=True):
    """A document as it may be written: with or without white space, comments, and short forms of empty elements."""
    pad = R.choice(['', '', '\n', '\n    ', '\r\n\t'])
    note = lambda: '<!-- %s -->' % R.choice(['x', '<unit/>', '']) if R.random() < .02 else ''
    def go(el):
        a = ''.join(R.choice([' ', ' ', '  ', '\n']) + k + '=' + quoteattr(v) for k, v in el['a'])
        if not el['c'] and R.random() < .9:
            return '<%s%s/>' % (el['n'], a)
        return '<%s%s>' % (el['n'], a) + ''.join(pad + note() + go(c) for c in el['c']) + (pad if el['c'] else '') + '</%s>' % el['n']
    return (R.choice(HEAD[:1] * 3 + HEAD[2:]) if not go(el).isascii() else R.choice(HEAD)) + go(el) + R.choice(['', '\n'])

NAMES = ['Marine', 'Zealot', 'SCV', 'a', 'Unit 7', 'x"y&<z>\'', 'ä', '名', 'Marine.x', '.', 'json', '']
TEXTS = NAMES + ['btn-unit-terran-marine', 'Terr', '0', '-1', 'true', 'null', 'Ground,Air', 'None']
TYPES = {'u16': ['0', '1', '255', '256', '65535', '7'], 'u32': ['0', '1', '65536', '4294967295', '45', '007'], 'i64': ['0', '-1', '3', '2147483648', '9223372036854775807', '-9223372036854775808'],
         'f32': ['0', '1', '-1', '0.375', '0.45', '2.8125', '999.8437', '16777.25', '-0.5', '0.1', '999999.999999', '1.000001', '12.5000', '0.000001', '100000']}
WRONG = {'u16': ['65536', '-1', '', 'x', '1.5'], 'u32': ['4294967296', '-1', '', '1.0', 'ten'], 'i64': ['9223372036854775808', '1.0', '', 'y'], 'f32': ['', 'x', '1,5', '--1']}

class Documents:
    def __init__(self, schema, R):
        self.s, self.R, self.n, self.long = schema, R, 0, 0
    def value(self, t):
        R = self.R
        if t == 'text':
            return R.choice(TEXTS) * (R.choice([1, 1, 50, 300]) if self.long else 1)
        if t == 'f32' and R.random() < .5:
            return '%d.%s' % (R.randrange(10 ** R.randrange(1, 7)), ''.join(R.choice('0123456789') for _ in range(R.randrange(1, 7))))
        if t != 'f32' and R.random() < .4:
            return str(R.randrange(1 << {'u16': 16, 'u32': 32, 'i64': 63}[t]))
        return R.choice(TYPES[t])
    def tree(self, n, r, rich, flaw=0.):
        R, s = self.R, self.s[r]
        a, groups = [], []
        for name, t, kind in s['a']:
            if kind == 'must' and R.random() < flaw / 3:
                continue
            if kind == 'must' or R.random() < rich:
                a.append([name, R.choice(WRONG[t]) if t != 'text' and R.random() < flaw else self.value(t)])
        for name, rec, kind in s['c']:
            if name == 'effect':
                continue
            k = {'one': 0 if R.random() < flaw / 3 else 1, 'opt': R.random() < rich, 'def': R.random() < rich, 'many': R.choice([0, 1, 1, 2, 3] + [self.long] * 3 * (self.long > 0)) if R.random() < rich else 0}[kind]
            if k > 3:
                self.long = 0      # one long list per document
            groups.append([self.tree(name, rec, rich, flaw) for _ in range(k)])
        if R.random() < .05:
            groups.append([{'n': R.choice(['glossary', 'area', 'x']), 'a': [['id', '1']] if R.random() < .5 else [], 'c': [{'n': 'meta', 'a': [['name', 'inner']], 'c': []}] if R.random() < .3 else []}])
        if R.random() < .05:
            a.append([R.choice(['glossary', 'x', 'ID']), '1'])
        if R.random() < .5:
            R.shuffle(groups)
        if R.random() < .5:
            R.shuffle(a)
        return {'n': n, 'a': a, 'c': [c for g in groups for c in g]}
    def unit(self, own=True):
        R = self.R
        d = self.tree('unit', 'unit', R.choice([.1, .4, .7]), .02 if R.random() < .25 else 0.)
        self.n += 1
        if own:
            d['a'] = [[k, '%s%d' % (v[:22], self.n) if k == 'id' else v] for k, v in d['a']]
        return d

class Dirs:
    """Cases: directories on disk and their description for the specification."""
    def __init__(self, wd, R):
        self.wd, self.R, self.cases = wd, R, []
    def case(self, name, files, again=True, missing=False):
        root = os.path.join(self.wd, 'd%d' % len(self.cases))
        if not missing:
            os.makedirs(root)
        for f in files:
            p = os.path.join(root, f['dir'], f['sub'])
            os.makedirs(p, exist_ok=True)
            p = os.path.join(p, f['name'])
            if f.get('raw') is None and not f['doc']:
                os.makedirs(p, exist_ok=True)
                continue
            with open(p, 'w', newline='') as h:
                h.write(text(f['doc'][0], self.R) if f['doc'] else f['raw'])
        self.cases.append({'id': name, 'dir': root, 'json': root + '-json' if again else None,
                           'files': [{k: f[k] for k in ('dir', 'sub', 'name', 'doc')} for f in files]})

def layout(R, docs, n):
    files, seen = [], set()
    dirs = R.sample(['0', '1', '7', '94137', '96883', '4294967295', '4294967296', '99999999999999999999', 'abc', '12a', '-5', '94137.bak', '0x10', ' 7', '007', '1_000', 'BalanceData'], R.randrange(1, 6))
    shared = [docs.unit() for _ in range(2)]
    for _ in range(n):
        f = {'dir': R.choice(dirs), 'sub': R.choice(['BalanceData'] * 8 + ['Other', 'BalanceData/deep', 'balancedata', 'BalanceData2', 'x/BalanceData', '']), 'name': '', 'doc': []}
        f['name'] = R.choice(['U%d.xml'] * 8 + ['U%d.XML', 'U%d.xml.bak', 'U%d.txt', 'U%dxml', 'U.%d.b.xml', 'ä%d.xml', '.%d.xml', ' %d.xml']) % R.randrange(40) if R.random() < .97 else '.xml'
        if (f['dir'], f['sub'], f['name']) in seen or (f['sub'] == '' and f['name'] == 'BalanceData'):
            continue
        seen.add((f['dir'], f['sub'], f['name']))
        r = R.random()
        if r < .75:
            f['doc'] = [docs.unit()]
        elif r < .85:
            f['doc'] = [R.choice(shared)]
        elif r < .95:
            whole = text(docs.unit(), R).rstrip()
            f['raw'] = R.choice(['', 'no xml', '<unit', '<unit id="1">', whole[:R.randrange(len(whole) - 1)], whole[:-2], '<?xml version="1.0"?>'])
        files.append(f)
    return files

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    R = random.Random('units/%d' % SEED)
    k = 8 if THOROUGH else 1
    runs = [('full', '1'), ('min', '2')]
    hs = [tlc_start('XmlMC', 'XmlMC.cfg', env=dict(START=s, DEPTH=d), workers=4, xmx='6g', extra=['-noGenerateSpecTE']) for s, d in runs]
    vectors, schema = [], None
    for h in hs:
        r = tlc_wait(h)
        chk.add('states', r.distinct)
        vectors.append([json.loads(v) for v in sorted(r.marked('VEC'))])
        schema = json.loads(r.marked('SCHEMA')[0])
    chk.add('documents_of_the_model', sum(map(len, vectors)))
    picked = vectors[0] + (vectors[1] if THOROUGH else R.sample(vectors[1], 2500))
    R.shuffle(picked)
    D = Dirs(wd, R)
    for n in range(0, len(picked), 120):
        D.case('vectors %d' % n, [{'dir': str(i + 1), 'sub': 'BalanceData', 'name': 'u.xml', 'doc': [d]} for i, d in enumerate(picked[n:n + 120])], again=n % 240 == 0)
    docs = Documents(schema, R)
    for n in range(120 * k):
        D.case('random %d' % n, layout(R, docs, R.choice([0, 1, 3, 8, 20])), again=R.random() < .7, missing=False)
    for n in range(12 * k):      # long lists and texts
        fs = []
        for i in range(4):
            docs.long = R.choice([100, 256, 300])
            fs.append({'dir': '7', 'sub': 'BalanceData', 'name': 'U%d.xml' % i, 'doc': [docs.unit()]})
        docs.long = 0
        D.case('long %d' % n, fs)
    for n in range(k):           # many files of one version, many versions
        D.case('many files %d' % n, [{'dir': '7', 'sub': 'BalanceData', 'name': 'U%d.xml' % i, 'doc': [docs.unit()]} for i in range(520)])
        D.case('many versions %d' % n, [{'dir': str(i), 'sub': 'BalanceData', 'name': 'U.xml', 'doc': [docs.unit()]} for i in range(300)])
    D.case('nowhere', [], missing=True)
    effect = {'n': 'effect', 'a': [['id', 'ParticleBeam'], ['index', '535'], ['radius', '-1'], ['damage', '5'], ['max', '5'], ['death', 'Normal'], ['kind', 'Melee']], 'c': []}
    armed = None
    while not armed:
        d = docs.tree('unit', 'unit', 1, 0.)
        armed = [w for c in d['c'] if c['n'] == 'weapons' for w in c['c'] if w['n'] == 'weapon']
    armed[0]['c'].append(effect)
    d['a'] = [[k, 'Armed' if k == 'id' else v] for k, v in d['a']]
    D.case('weapon effects', [{'dir': '7', 'sub': 'BalanceData', 'name': 'u.xml', 'doc': [d]}])
    log(len(D.cases), 'directories')
    lines, out = parallel('units', D.cases, 4, 'reading unit files'), Counter()
    for ln in lines:
        x = json.loads(ln)
        chk.add('files', len(x['files']))
        chk.add('documents', sum(len(f['doc']) for f in x['files']))
        if x['k'] == 'units':
            chk.add('units_read', len(x['read']))
            chk.add('units_read_again', len(x['again']))
        out[x['k']] += 1
    chk.cov['results'] = dict(out)
    merge.judge(chk, 'XmlTrace', lines, wd, prop)
    if not chk.violations and (chk.cov['units_read'] < 2000 or chk.cov['documents'] - chk.cov['units_read'] < 300):
        raise ToolError('only %s' % chk.cov)
    chk.sample({'id': D.cases[1]['id'], 'files': D.cases[1]['files'][:1]})
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
