"""C12-C16, C21, C23: decoders against the bit-exact specification in spec/Wire.tla.

Cases (bytes and the reader to run on them) come from three sources: streams that TLC enumerates with the
specification's own encoder (WireMC), values of the protocol layout in spec/Proto.tla (wiregen), and the sectors of
recorded replays.  The harness runs the readers; TLC then decodes the same bytes with the specification and compares
(WireTrace).  Everything that decides is in the specification."""
import json, os, random, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vh, wiregen
from vh import *
from wiregen import Gen, Bits, kinds, ANY

REPLAYS = ['tests/Burrow.SC2Replay', 'assets/2023-04-08-2v2AI.SC2Replay', 'assets/FieldsDeath202507.SC2Replay', 'assets/SC2-Patch_4.12-2v2AI.SC2Replay']
OLD, NEW = [75689, 70154, 15405, 0], [75690, 87702, 89720, 94137, 96883, 120000, (1 << 31) - 1]
ACTIVE = ['EDropUser', 'ECmd', 'ESelectionDelta', 'EControlGroupUpdate', 'ECmdUpdateTargetPoint', 'ECmdUpdateTargetUnit', 'ECameraSave', 'ECameraUpdate']

def schemas():
    r = tlc('ProtoDump')
    s = json.loads(r.marked('SCHEMA')[0])
    return s

def vectors(mode):
    r = tlc('WireMC', env=dict(MODE=mode, DEEP='1' if THOROUGH else '0'), workers=4, xmx='8g')
    return [json.loads(v) for v in r.marked('VEC')], r

class Cases:
    def __init__(self, prop, S):
        self.prop, self.S, self.items = prop, S, []
        self.R = random.Random('%s/%d' % (prop, SEED))
    def prim(self, b, ops):
        self.items.append({'t': 'prim', 'id': len(self.items), 'b': list(b), 'ops': ops})
    def put(self, t, build, b, note=''):
        self.items.append({'t': t, 'build': build, 'id': '%s%d' % (note and note + '-', len(self.items)), 'b': list(b)})
    def build(self, old=None):
        if old is None:
            old = self.R.random() < .5
        return self.R.choice(OLD[:3] if old else NEW[:6]) if self.R.random() < .5 else (75689 if old else self.R.choice([87702, 94137]))
    def schema(self, build):
        return self.S['old' if build < 75690 else 'new']
    def gen(self, build, **k):
        return Gen(self.schema(build), self.R, **k)

# ---- sources of cases -------------------------------------------------------
def tracker_cases(c, n, **knobs):
    R = c.R
    for i in range(n):
        for w in kinds(c.S['new'], 'A_ReplayTrackerEEventId'):
            b = c.build()
            g = c.gen(b, **knobs)
            wants = [w] + [R.choice(kinds(c.S['new'], 'A_ReplayTrackerEEventId')) for _ in range(R.choice([0, 0, 1, 2]))]
            R.shuffle(wants)
            c.put('tracker', b, g.tracker(wants), w)

def game_cases(c, n, every=True, **knobs):
    R = c.R
    names = kinds(c.S['new'], 'B_GameEEventId')
    for i in range(n):
        for old in (True, False):
            for w in names if every else R.sample(names, 10) + ACTIVE:
                b = c.build(old)
                g = c.gen(b, **knobs)
                wants = [R.choice(ACTIVE)] + [w] + [R.choice(ACTIVE if R.random() < .7 else names) for _ in range(R.choice([1, 1, 2]))]
                c.put('game', b, g.events('B_GameEEventId', wants), w)

def active_cases(c, n, **knobs):
    for i in range(n):
        for w in ACTIVE:
            b = c.build()
            c.put('game', b, c.gen(b, **knobs).events('B_GameEEventId', [w, c.R.choice(ACTIVE)]), w)

def message_cases(c, n, **knobs):
    R = c.R
    names = kinds(c.S['new'], 'B_GameEMessageId')
    for i in range(n):
        b = c.build()
        c.put('message', b, c.gen(b, **knobs).events('B_GameEMessageId', [R.choice(names) for _ in range(R.choice([1, 2, 3, 5]))]), 'msg')

def details_cases(c, n, **knobs):
    for i in range(n):
        b = c.build()
        c.put('details', b, c.gen(b, **knobs).aligned({'k': 'ref', 'n': 'A_GameSDetails'}), 'details')

def header_cases(c, n, **knobs):
    for i in range(n):
        g = Gen(c.S['new'], c.R, **knobs)
        c.put('header', 87702, g.aligned({'k': 'ref', 'n': 'A_ReplaySHeader'}), 'header')

def init_cases(c, n, **knobs):
    for i in range(n):
        b = c.build()
        o = Bits()
        c.gen(b, **dict(knobs, cap=4)).packed({'k': 'ref', 'n': 'B_ReplaySInitData'}, o)
        c.put('init', b, bytes(o.b), 'init')

def real_sectors(c, wd, kinds_, limit, replays=REPLAYS):
    for rp in replays:
        f = os.path.join(wd, 'sectors')
        harness('sectors', os.path.join(REPO, rp), f)
        for ln in open(f):
            x = json.loads(ln)
            if x['t'] in kinds_:
                x['id'] = os.path.basename(rp) + ' ' + x['t']
                if x['t'] in ('tracker', 'game', 'message') and limit and len(x['b']) > limit:
                    x['b'] = x['b'][:limit]
                    x['id'] += ' first %d bytes' % limit
                c.items.append(x)

def damage(R, b):
    b = bytearray(b)
    how = R.choice(['cut', 'cut', 'flip', 'flip', 'set', 'insert', 'delete', 'tail', 'swap'])
    if not b:
        return bytes([R.randrange(256)])
    i = R.randrange(len(b))
    if how == 'cut':
        b = b[:i]
    elif how == 'flip':
        for _ in range(R.choice([1, 1, 2, 8])):
            b[R.randrange(len(b))] ^= 1 << R.randrange(8)
    elif how == 'set':
        b[i] = R.choice([0, 1, 127, 128, 255, R.randrange(256)])
    elif how == 'insert':
        b[i:i] = bytes(R.choice([0, 255, R.randrange(256)]) for _ in range(R.choice([1, 1, 2, 9])))
    elif how == 'delete':
        del b[i:i + R.choice([1, 1, 2, 8])]
    elif how == 'tail':
        b[i:] = bytes(R.randrange(256) for _ in range(R.choice([1, 4, 40])))
    else:
        j = R.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    return bytes(b)

ALIGNED_OPS = [['vlq'], ['int'], ['blob'], ['bitarray'], ['bool'], ['fourcc']] + [['tag', t] for t in 'array bitarray blob choice opt struct bool fourcc int'.split()]
def packed_op(R):
    return R.choice([['bits', R.randrange(65)], ['bits', R.randrange(65)], ['pint', R.choice(OFFSETS), R.choice([0, 1, 7, 8, 16, 31, 32, 33, 63, 64])], ['arr', R.randrange(1, 70)],
                     ['byte'], ['bbool'], ['bfourcc'], ['align'], ['null']])
OFFSETS = ['0', '1', '-2147483648', '-9223372036854775808']

def c12(c, chk, wd):
    vs, r = vectors('aligned')
    chk.add('states', r.distinct)
    chk.add('encoded_streams', len(vs))
    R = c.R
    for v in vs:
        b = v['b']
        c.prim(b, v['ops'])
        n1 = len(b)
        cuts = range(n1) if n1 <= 24 or THOROUGH else sorted(set([0, 1, 2, 3, n1 - 1, n1 - 2, n1 - 4, n1 - 5] + [R.randrange(n1) for _ in range(3)]))
        for n in cuts:
            c.prim(b[:n], v['ops'])
        if v['ops'][0][0] not in ('vlq',):
            for t in list(range(11)) + [127, 128, 255] if THOROUGH else R.sample(range(11), 3) + [R.choice([11, 128, 255])]:
                if t != b[0]:
                    c.prim([t] + b[1:], v['ops'])
    for n in range(9, 14):         # integers that do not end within 64 bits
        for last in range(0, 128, 1 if THOROUGH else 9):
            for first in (128, 129, 254, 255):
                for mid in (128, 255):
                    c.prim([first] + [mid] * (n - 2) + [last], [['vlq']])
                    if THOROUGH or last % 2:
                        c.prim([9, first] + [mid] * (n - 2) + [last], [['int']])
    # long blobs and bit arrays
    for n in sorted({127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 17000, 40000, 65535, 65536, 70000} | {R.randrange(300, 20000) for _ in range(20 if THOROUGH else 4)}):
        body = R.randbytes(n)
        for cut in (0, 1):
            c.prim(b'\x02' + wiregen.vlq(n, 0) + body[:n - cut] + b'\x09\x02' * (1 - cut), [['blob'], ['int']])
        bits = 8 * n - R.choice([0, 0, 1, 3, 7])
        c.prim(b'\x01' + wiregen.vlq(bits, 0) + body + b'\x09\x02', [['bitarray'], ['int']])
    for _ in range(60000 if THOROUGH else 6000):
        b = [R.choice([R.randrange(256), R.randrange(12), 128, 255]) for _ in range(R.randrange(1, 14))]
        c.prim(b, [R.choice(ALIGNED_OPS) for _ in range(R.randrange(1, 5))])

def c13(c, chk, wd):
    vs, r = vectors('packed')
    chk.add('states', r.distinct)
    chk.add('encoded_streams', len(vs))
    R = c.R
    quirk = [v for v in vs if ['arr', 0] in v['ops']]
    for v in vs:
        c.prim(v['b'], v['ops'])
        n = len(v['b'])
        for k in range(max(0, n - (12 if THOROUGH else 2)), n):
            c.prim(v['b'][:k], v['ops'])
    # long bit arrays, at every offset
    for n in sorted({255, 256, 511, 512, 1000, 1023, 1024, 2040, 2047, 2048, 2049, 2056, 4096, 8191, 8192, 16376, 16384, 65528, 65536, 131072} | {R.randrange(500, 40000) for _ in range(40 if THOROUGH else 8)}):
        for off in range(8) if n < 20000 else R.sample(range(8), 2):
            size = (n + off + 7) // 8
            c.prim(R.randbytes(size + 2), [['bits', off], ['arr', n], ['bits', 5], ['align']])
            if n % 3 == 1:
                c.prim(R.randbytes(size)[:(n + off) // 8], [['bits', off], ['arr', n]])
    for _ in range(80000 if THOROUGH else 8000):
        b = [R.choice([R.randrange(256), R.randrange(256), 0, 255]) for _ in range(R.randrange(0, 24))]
        c.prim(b, [['bits', R.randrange(8)]] + [packed_op(R) for _ in range(R.randrange(1, 6))])
    return quirk

LENGTHS = [127, 128, 255, 256, 257, 300, 400, 510, 511]
def long_lists(c, n, real=True):
    """Game events whose lists are as long as their counts can say."""
    R = c.R
    for _ in range(n):
        for old in (True, False):
            b = c.build(old)
            g = c.gen(b)
            tag = lambda: R.getrandbits(32)
            # the old protocol's counts of this layout may be narrower
            most = list_limit(c.schema(b))
            ln = lambda: min(R.choice(LENGTHS), most)
            mask = R.choice([('None', ANY), ('Mask', ANY), ('OneIndices', [R.randrange(min(512, most + 1)) for _ in range(ln())]), ('ZeroIndices', [R.randrange(min(512, most + 1)) for _ in range(ln())])])
            sub = [ANY] * R.choice([0, 1, ln()])
            sel = {'m_control_group_id': R.randrange(11), 'm_delta': {'m_remove_mask': mask, 'm_add_subgroups': sub, 'm_add_unit_tags': [tag() for _ in range(R.choice([0, ln(), ln()]))]}}
            ctl = {'m_mask': R.choice([('OneIndices', [R.randrange(min(512, most + 1)) for _ in range(ln())]), ('ZeroIndices', [1] * ln()), ('Mask', ANY)])}
            ev = [('ESelectionDelta', None, None, sel), ('EControlGroupUpdate', None, None, ctl)]
            R.shuffle(ev)
            c.put('game', b, g.events('B_GameEEventId', ev + [R.choice(ACTIVE)]), 'long')

def list_limit(S):
    t = S['B_GameSSelectionDelta']
    f = next(f for f in t['f'] if f['n'] == 'm_add_unit_tags')['t']
    while f['k'] == 'ref':
        f = S[f['n']]
    return (1 << f['w']) - 1

DAMAGED = [dict(), dict(drop=.04), dict(dup=.1), dict(unknown=.1), dict(wrongtag=.02), dict(range=.08), dict(utf=.2), dict(variant=.1), dict(pad=.3),
           dict(shuffle=.6, drop=.02, dup=.03, unknown=.02, range=.02, utf=.03)]
def c14(c, chk, wd):
    k = 12 if THOROUGH else 2
    tracker_cases(c, 22 * k)
    tracker_cases(c, 12 * k, shuffle=1, present=.7)
    tracker_cases(c, 4 * k, shuffle=.5, long=.2, pad=.2)
    for d in DAMAGED[1:]:
        tracker_cases(c, 6 * k, **d)
    R = c.R
    for _ in range(6 * k):         # long lists of positions, long names
        b = c.build()
        g = c.gen(b)
        items = [R.choice([R.randrange(256), R.randrange(1 << 31), -R.randrange(1 << 31)]) for _ in range(R.choice([255, 256, 257, 300, 511, 512, 513, 768, 1023, 1025, 1536]))]
        name = bytes(R.choice(b'abcdefgXYZ') for _ in range(R.choice([127, 128, 255, 256, 300, 1024, 5000])))
        c.put('tracker', b, g.tracker([('EUnitPosition', None, {'m_items': items}), (R.choice(['EUnitBorn', 'EUnitInit', 'EUnitTypeChange']), None, {'m_unit_type_name': name}),
                                       ('EUpgrade', None, {'m_upgrade_type_name': name[:R.randrange(1, len(name))]})]), 'long')
    real_sectors(c, wd, ('tracker',), None if THOROUGH else 30000)

def c15(c, chk, wd):
    k = 12 if THOROUGH else 2
    active_cases(c, 60 * k)
    active_cases(c, 15 * k, present=.9, cap=70)
    active_cases(c, 12 * k, present=1)
    long_lists(c, 12 * k)
    game_cases(c, 3 * k)
    for d in (dict(variant=.05), dict(utf=.3), dict(range=.3), dict(long=.3)):
        game_cases(c, 2 * k, every=False, **d)
    real_sectors(c, wd, ('game',), None if THOROUGH else 12000)

def c16(c, chk, wd):
    k = 5 if THOROUGH else 1
    R = c.R
    for b in OLD + NEW:
        for t in ('tracker', 'game', 'message'):
            c.put(t, b, b'', 'empty')
        for _ in range(3 * k):
            g = c.gen(b)
            names = kinds(c.S['new'], 'A_ReplayTrackerEEventId')
            tr = [g.tracker([R.choice(names)]) for _ in range(4)]
            c.put('tracker', b, b''.join(tr))
            c.put('tracker', b, b''.join(tr) + bytes([R.choice([0, 1, 3, 5, 255])]), 'rest')
            c.put('tracker', b, b''.join(tr)[:-1], 'cut')
            c.put('tracker', b, tr[0] + c.gen(b, drop=.1).tracker([R.choice(names)]) + tr[1], 'damaged')
            gnames = kinds(c.S['new'], 'B_GameEEventId')
            ev = [g.events('B_GameEEventId', ['ECmd' if R.random() < .3 else R.choice(ACTIVE)]) for _ in range(4)]
            odd = g.events('B_GameEEventId', [R.choice(gnames)])
            c.put('game', b, ev[0] + ev[1] + odd + ev[2] + ev[3])
            c.put('game', b, b''.join(ev) + bytes([R.choice([0, 1, 3, 64, 255])]), 'rest')
            c.put('game', b, b''.join(ev)[:-1], 'cut')
            c.put('game', b, ev[0] + c.gen(b, variant=.2).events('B_GameEEventId', ['ECmd']) + ev[1], 'damaged')
            m = [g.events('B_GameEMessageId', [R.choice(kinds(c.S['new'], 'B_GameEMessageId'))]) for _ in range(3)]
            c.put('message', b, b''.join(m))
            c.put('message', b, b''.join(m)[:-1], 'cut')
            c.put('message', b, b''.join(m) + b'\xff', 'rest')
            c.put('details', b, g.aligned({'k': 'ref', 'n': 'A_GameSDetails'}))
            o = Bits()
            c.gen(b, cap=4).packed({'k': 'ref', 'n': 'B_ReplaySInitData'}, o)
            c.put('init', b, bytes(o.b))
    real_sectors(c, wd, ('tracker', 'game', 'message'), None if THOROUGH else 5000)

def c23(c, chk, wd):
    k = 12 if THOROUGH else 2
    details_cases(c, 60 * k)
    details_cases(c, 40 * k, shuffle=1, present=.8)
    details_cases(c, 20 * k, present=1, long=.2)
    for d in DAMAGED[1:]:
        details_cases(c, 15 * k, **d)
    header_cases(c, 60 * k)
    header_cases(c, 60 * k, shuffle=1, present=.8)
    for d in DAMAGED[1:]:
        header_cases(c, 12 * k, **d)
    init_cases(c, 120 * k)
    init_cases(c, 30 * k, present=.9)
    init_cases(c, 40 * k, utf=.05)
    init_cases(c, 30 * k, variant=.1, range=.1)
    message_cases(c, 200 * k)
    message_cases(c, 60 * k, utf=.3)
    message_cases(c, 60 * k, variant=.1)
    R = c.R
    some = lambda n: ''.join(R.choice('abc XYZ\u00eb\u4e2d') for _ in range(n)).encode()
    for _ in range(8 * k):         # long texts and lists
        b = c.build()
        g = c.gen(b)
        n = lambda: R.choice([100, 127, 128, 255, 256, 257, 300, 511, 512, 700, 1023, 1024, 1500, 2047])
        def fit(n):
            t = some(n)[:n]
            while True:
                try:
                    return t.decode().encode()
                except UnicodeDecodeError:
                    t = t[:-1]
        c.put('message', b, g.events('B_GameEMessageId', [('EChat', None, None, {'m_string': fit(n())}) for _ in range(R.choice([1, 2]))]), 'long')
        c.put('details', b, g.aligned({'k': 'ref', 'n': 'A_GameSDetails'}, None, {'m_title': fit(n() * R.choice([1, 1, 8])), 'm_cache_handles': [bytes(R.randrange(256) for _ in range(40)) for _ in range(R.choice([1, 16, 17, 64, 130, 260]))],
              'm_player_list': [ANY] * R.choice([0, 1, 15, 16, 17, 33])}), 'long')
        o = Bits()
        c.gen(b, cap=R.choice([16, 40])).packed({'k': 'ref', 'n': 'B_ReplaySInitData'}, o)
        c.put('init', b, bytes(o.b), 'long')
    real_sectors(c, wd, ('details', 'init', 'header', 'message'), None)

def c21(c, chk, wd):
    k = 12 if THOROUGH else 2
    R = c.R
    base = Cases('C21/base', c.S)
    tracker_cases(base, 4)
    active_cases(base, 5)
    game_cases(base, 1, every=False)
    message_cases(base, 15)
    details_cases(base, 8)
    header_cases(base, 8)
    init_cases(base, 6)
    real_sectors(base, wd, ('details', 'init', 'header', 'message'), None, REPLAYS[:1])
    per = {'init': 12, 'details': 16}
    for x in base.items:
        for _ in range(per.get(x['t'], 14) * k):
            c.put(x['t'], x['build'], damage(R, damage(R, x['b']) if R.random() < .2 else x['b']), 'damaged-' + x['t'])
    # cut everywhere
    seen = Counter()
    for x in sorted(base.items, key=lambda x: len(x['b'])):
        key = (x['t'], x['id'].split('-')[0])
        seen[key] += 1
        if seen[key] == 2 or THOROUGH and seen[key] < 8:
            for n in range(min(len(x['b']), 400)):
                c.put(x['t'], x['build'], x['b'][:n], 'cut-' + x['t'])
    for _ in range(600 * k):
        for t in ('tracker', 'game', 'message', 'details', 'init', 'header'):
            n = R.choice([1, 2, 3, 5, 8, 20, 100])
            c.put(t, c.build(), bytes(R.choice([R.randrange(256), R.randrange(16), 0, 255]) for _ in range(n)), 'random-' + t)
    # beginnings that look right and then go wrong
    for pre, t in ((b'\x05\x02\x00', 'details'), (b'\x03\x00\x09\x00\x03', 'tracker'), (b'\x03\x00\x09\x04\x03\x02\x05', 'tracker'), (b'\x05\x14\x00\x02\x58', 'header')):
        for _ in range(150 * k):
            c.put(t, c.build(), pre + bytes(R.choice([R.randrange(256), R.randrange(12), 255, 0]) for _ in range(R.randrange(30))), 'random-' + t)

SOURCES = dict(C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C21=c21, C23=c23)

# ---- running and judging ----------------------------------------------------
def run_cases(chk, items, wd):
    """Runs the harness on the cases; a case that ends the process is a violation by itself."""
    outs, rest, part = [], items, 0
    while rest and part < 8:
        inp, out = os.path.join(wd, 'in%d' % part), os.path.join(wd, 'out%d' % part)
        with open(inp, 'w') as f:
            for x in rest:
                f.write(json.dumps(x) + '\n')
        try:
            p = harness('wire', inp, out, ok=range(-64, 256), timeout=300)
            rc, err = p.returncode, p.stderr
        except Died as e:
            rc, err = -1, str(e)
        lines = open(out).read().split('\n')
        if rc == 2:
            raise ToolError('harness: ' + err[-2000:])
        done = lines[:-1]
        outs += done
        if rc == 0:
            rest = []
            break
        last = json.loads(done[-1])['id'] if done else None
        i = next((i for i, x in enumerate(rest) if x['id'] == last), -1) + 1
        # both results of a stream may be missing one
        if done and rest[i - 1]['t'] in ('tracker', 'game') and json.loads(done[-1])['k'].endswith('step'):
            i -= 1
        chk.violate('%s: the reader ended the process (%s): %s' % (rest[i]['t'], rc, err[-300:]), case=rest[i])
        rest = rest[i + 1:]
        part += 1
    if rest and part >= 8:
        chk.violate('too many cases end the process', cases=len(rest))
    return outs

def judge(chk, lines, wd, procs=7):
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    parts = [[] for _ in range(procs)]
    load = [0] * procs
    for i in order:
        j = load.index(min(load))
        parts[j].append(lines[i])
        load[j] += len(lines[i]) + 300
    hs = []
    for j, ls in enumerate(parts):
        if ls:
            f = os.path.join(wd, 'tr%d' % j)
            with open(f, 'w') as fh:
                fh.write('\n'.join(ls) + '\n')
            hs.append((ls, tlc_start('WireTrace', 'WireTrace.cfg', env=dict(TRACE=f), dirname='wt%d' % j, xmx='4g')))
    for ls, h in hs:
        r = tlc_wait(h)
        done = r.marked('DONE')
        if not done or done[0].split()[:2] != [str(len(ls))] * 2:
            raise ToolError('TLC consumed %s of %d cases' % (done, len(ls)))
        chk.add('cases_judged', len(ls))
        chk.add('states', r.distinct)
        for v in r.marked('BAD'):
            v = json.loads(v)
            case = json.loads(ls[v['case'] - 1])
            chk.violate('%s %s build %s, event %s at %s: %s: %s' % (v['kind'], v['id'], case.get('build'), v['event'], v['pos'], v['what'], v['why'][:1200]),
                        kind=v['kind'], build=case.get('build'), bytes=case['bs'][:4000], ops=case.get('ops'), why=v['why'][:6000])

def names_of(e):
    e = e[1]
    k = next(iter(e))
    return k

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    S = schemas()
    c = Cases(prop, S)
    quirk = SOURCES[prop](c, chk, wd)
    log(len(c.items), 'cases')
    lines = run_cases(chk, c.items, wd)
    log('harness done')
    # what was exercised
    results, events = Counter(), Counter()
    for ln in lines:
        x = json.loads(ln)
        if x['k'] == 'prim':
            results['prim ' + (x['got'][-1]['k'] if x['got'] else 'none')] += 1
            chk.add('primitive_reads', len(x['got']))
            if quirk and ['arr', 0] in x['ops']:
                for op, g in zip(x['ops'], x['got']):
                    if op == ['arr', 0] and g['k'] == 'ok' and g['v'] != [1]:
                        chk.violate('take_bit_array of 0 bits returns %s' % g['v'][1:], case=x)
        else:
            results[x['k'] + ' ' + x['got']['k']] += 1
            if x['got']['k'] == 'ok' and isinstance(x['got']['v'], list) and x['k'] not in ('details', 'init', 'header', 'hshort'):
                for e in x['got']['v']:
                    events[x['k'] + ' ' + str(names_of(e['e']))] += 1
                    chk.add('events_decoded', 1)
    chk.cov['results'] = dict(results)
    if events:
        chk.cov['event_kinds'] = dict(events)
    for x in c.items[:2] + c.items[-1:]:
        chk.sample({k: (v if k != 'b' else v[:60]) for k, v in x.items()})
    judge(chk, lines, wd)
    if not chk.violations:
        need = {'C12': ['prim ok', 'prim err'], 'C13': ['prim ok', 'prim err'], 'C14': ['tstep ok', 'tbatch ok', 'tbatch err'], 'C15': ['gstep ok', 'gbatch ok', 'gbatch err'],
                'C16': ['tstep ok', 'tbatch ok', 'tbatch err', 'gbatch ok', 'gbatch err', 'mbatch ok', 'mbatch err', 'details ok', 'init ok'],
                'C21': ['tbatch ok', 'tbatch err', 'gbatch ok', 'gbatch err', 'mbatch ok', 'mbatch err', 'details ok', 'details err', 'init ok', 'init err', 'header ok', 'header err'],
                'C23': ['details ok', 'details err', 'init ok', 'init err', 'header ok', 'header err', 'hshort ok', 'hshort err', 'mbatch ok', 'mbatch err']}[prop]
        for n in need:
            if results[n] < 10:
                raise ToolError('only %d results "%s"' % (results[n], n))
    chk.assumptions += ['the layout of both protocol generations is the transcription in spec/Proto.tla',
                        'integers outside the signed 64-bit range are not compared']
    if prop in ('C21', 'C23'):        # whole replays: the state machine, the join, the identity
        import lobby, merge
        if prop == 'C21':
            merge.run(prop, chk, wd)
        lobby.run(prop, chk, wd)
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
