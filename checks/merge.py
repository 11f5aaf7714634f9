"""C01, C02, C11 (and the names of C09): the merging event iterator of a replay.

TLC explores the machine of two streams with look-ahead (MergeMC) for every pair of short streams and prints every
finished behaviour; these and longer random streams, damaged ones and parts of recorded ones become replay files that the
iterator runs over.  TLC then decides from the bytes of the two streams, with the bit-exact decoders of the specification,
what should have come out (MergeTrace), and what filtered runs should have selected (FilterTrace)."""
import json, os, random, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, wire
from vh import *
from wiregen import kinds, ANY
from replaygen import *

BUILDS = [75689, 70154, 15405, 75690, 87702, 89720, 94137, 96883, 120000]
def limbs(v):
    r, m = [0, int(v < 0)], abs(v)
    while m:
        r.append(m & 65535)
        m >>= 16
    return r
def unlimb(v):
    return (-1 if v[1] else 1) * sum(x << (16 * i) for i, x in enumerate(v[2:]))

def archive(S, R, **k):
    return Archive(S, R, R.choice(BUILDS) if R.random() < .5 else R.choice([75689, 94137]), **k)

def tracker_event(R, d, kind=None, g=None):
    k = kind or R.choice(T_OK)
    return (k, d, small(R, k))
def game_event(R, d, user=None):
    k = R.choice(G_OK if R.random() < .5 else G_OFTEN)
    return (k, d, R.choice([0, 1, 2, 3, 15]) if user is None else user, small_g(R, k))

def from_symbols(a, ts, gs, scale):
    """The bytes of an abstract behaviour of MergeMC."""
    R, t, g = a.R, b'', b''
    supported = set(G_OK)
    for s in ts:
        d = s['d'] * scale
        if s['k'] == 'ok':
            t += a.tracker([tracker_event(R, d)])
        elif s['k'] == 'skip':
            k = R.choice(['EUnitBorn', 'EUnitInit', 'EUnitTypeChange'])
            t += a.tracker([(k, d, dict(small(R, k), m_unit_type_name=R.choice([b'\xff', b'Zea\xc3', b'\xed\xa0\x80'])))])
        else:
            t += bad_tracker(a.g, d)
    for s in gs:
        d = s['d'] * scale
        if s['k'] == 'ok':
            g += a.game([game_event(R, d)])
        elif s['k'] == 'skip':
            k = R.choice([k for k in kinds(a.S, 'B_GameEEventId') if k not in supported])
            g += a.game([(k, d, R.choice([0, 1, 16]), ANY)])
        else:
            a.g.k['variant'] = 1
            g += a.game([(R.choice(['EGameCheat', 'ESetGameDuration', 'EGameUserLeave']), d, 0, ANY)])
            a.g.k['variant'] = 0
    return t, g

def random_streams(a, n, m):
    R = a.R
    flavour = R.choice(['dense', 'dense', 'mixed', 'sparse', 'big'])
    step = {'dense': lambda: R.choice([0, 0, 0, 1, 1, 2]), 'mixed': lambda: R.choice([0, 1, 2, 5, 40]), 'sparse': lambda: R.randrange(300),
            'big': lambda: R.choice([0, 1, 63, 64, (1 << 14) - 1, 1 << 14, (1 << 22) - 1, 1 << 22, (1 << 32) - 1])}[flavour]
    skipped = [k for k in kinds(a.S, 'B_GameEEventId') if k not in G_OK]
    t = []
    for _ in range(n):
        t.append(tracker_event(R, step()))
        if R.random() < .08:
            k = R.choice(['EUnitBorn', 'EUnitInit', 'EUnitTypeChange'])
            t[-1] = (k, step(), dict(small(R, k), m_unit_type_name=b'\xc3('))
    g = [game_event(R, step()) if R.random() < .8 else (R.choice(skipped), step(), R.randrange(32), ANY) for _ in range(m)]
    if R.random() < .5:
        t = [('EPlayerSetup', 0, {'m_player_id': (u + 1) % 4, 'm_user_id': u, 'm_slot_id': i}) for i, u in enumerate(R.sample([0, 1, 2, 3], R.randrange(1, 3)))] + t
    return a.tracker(t), a.game(g)

def skipped_t(R, d):
    k = R.choice(['EUnitBorn', 'EUnitInit', 'EUnitTypeChange'])
    return (k, d, dict(small(R, k), m_unit_type_name=R.choice([b'\xc3(', b'\xff', b'Zea\xed\xa0\x80'])))

def long_streams(a, n):
    """Hundreds of events, and long runs of events that are not passed on, in either stream."""
    R = a.R
    skipped = [k for k in kinds(a.S, 'B_GameEEventId') if k not in G_OK]
    t, g = [], []
    runs = [R.choice([17, 33, 65, 100, 129, 257, 300]) for _ in range(2)]
    step = R.choice([lambda: 1, lambda: R.choice([0, 1]), lambda: R.choice([0, 0, 3, 70])])
    cheap = ['EUnitOwnerChange', 'EUpgrade', 'EUnitDone', 'EUnitTypeChange', 'EUnitDied', 'EUnitBorn']
    tk, gk = skipped[:], ['ECmd', 'ECameraUpdate', 'ETriggerMouseWheel', 'ESelectionDelta', 'EControlGroupUpdate']
    at = [R.randrange(n) for _ in runs]
    for i in range(n):
        for j, r in enumerate(runs):
            if i == at[j]:
                if j % 2:
                    g += [(R.choice(tk), step(), R.randrange(16), ANY) for _ in range(r)]
                else:
                    t += [skipped_t(R, step()) for _ in range(r)]
        k = R.choice(cheap)
        t.append((k, step(), small(R, k)))
        k = R.choice(gk)
        g.append((k, step(), R.choice([0, 1, 2]), small_g(R, k)))
    return a.tracker(t), a.game(g)

def real_parts(S, R, wd, count, size):
    """Beginnings of recorded streams, in replays with the recorded lobby."""
    out = []
    for rp in wire.REPLAYS:
        f = os.path.join(wd, 'sectors')
        harness('sectors', os.path.join(REPO, rp), f)
        sec = {}
        for ln in open(f):
            x = json.loads(ln)
            sec[x['t']] = x
        for n in range(count):
            c = {'id': '%s part %d' % (os.path.basename(rp), n), 'build': sec['tracker']['build'], 't': sec['tracker']['b'][:R.randrange(200, size)],
                 'g': sec['game']['b'][:R.randrange(200, size)], 'd': sec['details']['b'], 'i': sec['init']['b'], 'filters': []}
            out.append(c)
    return out

def run_iter(chk, cases, wd, name='it'):
    """Runs the harness in parallel; returns the lines."""
    return parallel('iter', cases, 6, 'iterating a replay', name=name)

def judge(chk, module, lines, wd, want, procs=7):
    parts, load = [[] for _ in range(procs)], [0] * procs
    for ln in sorted(lines, key=lambda l: -len(l)):
        j = load.index(min(load))
        parts[j].append(ln)
        load[j] += len(ln) + 300
    hs = []
    for j, ls in enumerate(parts):
        if ls:
            f = os.path.join(wd, '%s%d' % (module, j))
            with open(f, 'w') as fh:
                fh.write('\n'.join(ls) + '\n')
            hs.append((ls, tlc_start(module, module + '.cfg', env=dict(TRACE=f), dirname='%s-%d' % (module, j), xmx='4g')))
    skipped = 0
    for ls, h in hs:
        r = tlc_wait(h)
        done = r.marked('DONE')
        if not done or done[0].split()[:2] != [str(len(ls))] * 2:
            raise ToolError('TLC consumed %s of %d cases' % (done, len(ls)))
        chk.add('cases_judged', len(ls))
        chk.add('states', r.distinct)
        skipped += len(r.marked('SKIP'))
        for v in r.marked('BAD'):
            v = json.loads(v)
            case = json.loads(ls[v['case'] - 1])
            if want in v['props']:
                chk.violate('%s build %s, item %s: %s: %s' % (v['id'], case.get('build'), v.get('item'), v['what'], v['why'][:1200]),
                            build=case.get('build'), tracker=case.get('tb', [])[:3000], game=case.get('gb', [])[:3000], files=case.get('files', [])[:150], why=v['why'][:6000],
                            filters=[r.get('f') for r in case.get('runs', [])][v.get('run', 1) - 1:v.get('run', 0)])
            else:
                chk.add('reported_under_other_properties', 1)
    return skipped

def vectors(chk):
    r = tlc('MergeMC', env=dict(DEEP='1' if THOROUGH else '0'), workers=4, xmx='8g')
    chk.add('states', r.distinct)
    live = tlc('MergeMC', 'MergeLive.cfg', env=dict(DEEP='0'), workers=4, xmx='8g')
    chk.add('states', live.distinct)
    return [json.loads(v) for v in r.marked('VEC')]

def filters_for(R, item_loops, n_items, count):
    loops = sorted(set(item_loops)) or [0]
    def loop():
        l = R.choice(loops + [loops[0] - 1, loops[-1] + 1])
        return l + R.choice([0, 0, 1, -1])
    out = []
    for _ in range(count):
        f = {'include_stats': R.random() < .6}
        if R.random() < .4:
            f['player_id'] = R.choice([0, 1, 2, 3, 15, 255])
        if R.random() < .15:
            f['user_name'] = R.choice(['Ann0', 'Bob0', 'Bob1', 'Eve0', 'Eve1', 'Zoë0', 'Zoë1', '0', '1', '2', 'ann0', 'Ann', ''])
        if R.random() < .4:
            f['min_loop'] = loop()
        if R.random() < .4:
            f['max_loop'] = loop()
        if R.random() < .3:
            f['unit_name'] = R.choice(UNITS + [b'Ghost', b'']).decode()
        if R.random() < .4:
            f['max_events'] = R.choice([0, 1, 2, R.randrange(n_items + 2), n_items, n_items + 1])
        out.append(f)
    return out

def cases_for(prop, chk, S, R, wd):
    cases, expect = [], {}
    k = 8 if THOROUGH else 1
    if prop in ('C01', 'C02'):
        vs = vectors(chk)
        chk.add('behaviours', len(vs))
        # With deep bounds a seeded part of the behaviours is enough for the implementation.
        if len(vs) > 60000:
            vs = R.sample(vs, 60000)
        for n, v in enumerate(vs):
            a = archive(S, R)
            scale = R.choice([1, 1, 63, 64, 5000, 1 << 14, 1 << 20, (1 << 31) - 1]) if prop == 'C02' else R.choice([1, 1, 40])
            t, g = from_symbols(a, v['t'], v['g'], scale)
            cases.append(a.case('vector %d' % n, t, g))
            expect['vector %d' % n] = [(o[0], o[1] * scale) for o in v['out']]
    if prop in ('C01', 'C02', 'C09'):
        for n in range((400 if prop == 'C09' else 900) * k):
            a = archive(S, R)
            t, g = random_streams(a, R.choice([0, 1, 5, 15]), R.choice([0, 1, 5, 15, 30]))
            if prop != 'C09' and R.random() < .25:
                if R.random() < .5:
                    t = wire.damage(R, t)
                else:
                    g = wire.damage(R, g)
            cases.append(a.case('random %d' % n, t, g))
        for n in range((3 if prop == 'C09' else 12) * k):
            a = archive(S, R)
            cases.append(a.case('long %d' % n, *long_streams(a, R.choice([5, 40, 40, 150]) if n else 900)))
        cases += real_parts(S, R, wd, 2 * k, 6000 if THOROUGH else 2500)
    if prop == 'C11':
        for n in range(800 * k):
            a = archive(S, R)
            t, g = random_streams(a, R.choice([3, 8, 20]), R.choice([3, 8, 20]))
            c = a.case('random %d' % n, t, g)
            c['filters'] = filters_for(R, range(0, R.choice([5, 30, 200])), 30, 14)
            cases.append(c)
        for n in range(4 * k):
            a = archive(S, R)
            size = [150, 700, 1600, 300][n % 4]
            c = a.case('long %d' % n, *long_streams(a, size))
            last = size * R.choice([1, 1, 20])
            c['filters'] = filters_for(R, range(0, last, 50), 2 * size, 6)
            for m in (255, 256, 257, 512, 1000, 1001, 1024, 1025, 2 * size - 1, R.randrange(100, 2 * size)):
                c['filters'].append({'include_stats': True, 'max_events': m})
            cases.append(c)
        for c in real_parts(S, R, wd, 2 * k, 2500):
            c['filters'] = filters_for(R, range(0, 300, 7), 60, 14)
            cases.append(c)
    if prop == 'C21':          # whatever the streams say, the state machine takes it
        for n in range(900 * k):
            plain = archive(S, R)
            a = Archive(S, R, plain.build, **R.choice([{}, {}, dict(present=.9), dict(utf=.1), dict(long=.2), dict(range=.1)]))
            t = [(tracker_event(R, None) if R.random() < .3 else (R.choice(T_OK), None, ANY)) for _ in range(R.choice([1, 5, 20]))]
            g = [(game_event(R, None) if R.random() < .3 else (R.choice(G_OK if R.random() < .5 else G_OFTEN), None, R.choice([0, 1, 2, 15, 31]), ANY)) for _ in range(R.choice([1, 5, 20]))]
            t, g = a.tracker(t), a.game(g)
            if R.random() < .4:
                t, g = (wire.damage(R, t), g) if R.random() < .5 else (t, wire.damage(R, g))
            cases.append(plain.case('wild %d' % n, t, g))
        for c in real_parts(S, R, wd, 6 * k, 5000):
            for w in 'tg':
                for _ in range(3):
                    c[w] = list(wire.damage(R, bytes(c[w])))
            cases.append(c)
    return cases, expect

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    run(prop, chk, wd)
    return chk.finish()

def run(prop, chk, wd):
    S = wire.schemas()
    R = random.Random('merge/%s/%d' % (prop, SEED))
    cases, expect = cases_for(prop, chk, S, R, wd)
    log(len(cases), 'replays')
    lines = run_iter(chk, cases, wd)
    log('harness done')
    seen = Counter()
    for ln in lines:
        x = json.loads(ln)
        seen[x['got']['k']] += 1
        if x['got']['k'] == 'ok':
            chk.add('items', len(x['got']['v']))
            for i in x['got']['v']:
                seen[next(iter(i['e'][1]))] += 1
            chk.add('filtered_runs', len(x['runs']))
            for r in x['runs']:
                seen['selected ' + ('none' if not r.get('v') else 'all' if len(r['v']) == len(x['got']['v']) else 'some')] += 1
        e = expect.get(x['id'])
        if e is not None and x['got']['k'] == 'ok':
            got = [(i['t'], unlimb(i['l'])) for i in x['got']['v']]
            order, loops = [o[0] for o in got] != [o[0] for o in e], got != e
            if order and prop == 'C01' or loops and prop == 'C02':
                chk.violate('%s: the behaviour of the model is %s, the iterator returned %s' % (x['id'], e, got), tracker=x['tb'], game=x['gb'], build=x['build'])
    chk.cov['results'] = dict(seen)
    for c in cases[:1] + cases[-1:]:
        chk.sample({k: (v[:80] if isinstance(v, list) else v) for k, v in c.items()})
    skipped = judge(chk, 'MergeTrace', lines, wd, prop) if prop != 'C11' else judge(chk, 'FilterTrace', lines, wd, prop)
    if not chk.violations:
        if seen['ok'] < len(lines) * .95:
            raise ToolError('only %d of %d replays opened' % (seen['ok'], len(lines)))
        need = dict(C01=T_OK + G_OFTEN, C02=T_OK + G_OFTEN, C09=G_OFTEN, C11=['selected none', 'selected some', 'selected all']).get(prop, [])
        for n in need:
            if seen[n] + seen[n[1:]] < 10:
                raise ToolError('only %d of %s' % (seen[n], n))

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
