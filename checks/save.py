"""C26: an iterator, written as JSON and read again at any point, goes on as if nothing had happened.

TLC explores two iterators side by side, one of which is saved and restored between any two calls, for all short streams
(SaveMC), and shows for every part of an iterator that forgetting it would make a difference.  The printed behaviours, random
streams (with balance data and filters), and recorded replays are run in the code with the same saves; SaveTrace compares."""
import json, os, random, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, wire, merge
from vh import *
from replaygen import *
from balance import Tables

PARTS = ['ti', 'gi', 'tl', 'gl', 'th', 'gh', 'left']

def models(chk):
    hs = [(p, tlc_start('SaveMC', 'SaveOmit.cfg', env=dict(OMIT=p, DEEP='0'), workers=1)) for p in PARTS]
    r = tlc('SaveMC', env=dict(OMIT='none', DEEP='1' if THOROUGH else '0'), workers=6, xmx='8g')
    chk.add('states', r.distinct)
    for p, h in hs:
        if tlc_wait(h, allow_violation=True).rc != 12:
            raise ToolError('a save without %s makes no difference in the model' % p)
        chk.add('negative_controls', 1)
    return [json.loads(v) for v in sorted(r.marked('VEC'))]

def rich(a, R):
    """Streams that build up a state: units, selections, groups, commands, stored before and used after a save."""
    ts = [('EPlayerSetup', 0, {'m_player_id': (u + 1) % 4, 'm_user_id': u, 'm_slot_id': i}) for i, u in enumerate([0, 1, 2])]
    begun = R.random() < .6
    if begun:
        ts += [('EUnitBorn', 0, dict(small(R, 'EUnitBorn'), m_unit_tag_index=i)) for i in [0, 1, 2, 5]]
    ts += [merge.tracker_event(R, R.choice([0, 0, 1, 2]), R.choice(['EUnitBorn', 'EUnitInit', 'EUnitDone', 'EUnitDied', 'EUnitTypeChange', 'EUnitPosition', 'EUpgrade', 'EPlayerStats', None]))
           for _ in range(R.choice([4, 10, 20]))]
    gs = []
    if begun:
        gs += [('ESelectionDelta', 0, u, {'m_control_group_id': 10, 'm_delta': {'m_add_unit_tags': [(i << 18) + 1 for i in [0, 1, 2, 5]], 'm_add_subgroups': []}}) for u in [0, 1, 2]]
    for _ in range(R.choice([4, 10, 25])):
        k = R.choice(['ESelectionDelta', 'EControlGroupUpdate', 'ECmd', 'ECmd', 'ECmdUpdateTargetPoint', 'ECmdUpdateTargetUnit', 'ECameraUpdate', None])
        v = small_g(R, k) if k else ANY
        if k == 'ECmd' and begun:
            # An ability that the balance data may know, given to the selected units.
            v = {'m_abil': {'m_abil_link': R.choice([0, 1, 2]), 'm_abil_cmd_index': R.choice([0, 1, 2])} if R.random() < .8 else None}
            if R.random() < .4:
                v['m_data'] = ('TargetUnit', {'m_tag': (R.choice([0, 1, 2, 5]) << 18) + 1})
        gs.append((k, R.choice([0, 0, 1, 2]), R.choice([0, 1, 2]), v) if k else merge.game_event(R, R.choice([0, 1])))
    return a.tracker(ts), a.game(gs)

def some_filter(R):
    f = {'include_stats': R.random() < .6}
    if R.random() < .7:
        f['max_events'] = R.randrange(1, 25)
    if R.random() < .3:
        f['player_id'] = R.choice([0, 1, 2])
    if R.random() < .3:
        f['min_loop'] = R.randrange(12)
    if R.random() < .3:
        f['max_loop'] = R.randrange(40)
    if R.random() < .2:
        f['unit_name'] = R.choice(UNITS).decode()
    return f

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    S = wire.schemas()
    R = random.Random('save/%d' % SEED)
    k = 8 if THOROUGH else 1
    vs = models(chk)
    chk.add('behaviours', len(vs))
    cases, expect = [], {}
    how = lambda: R.choice(['text', 'text', 'pretty', 'value'])
    groups = {}
    for v in R.sample(vs, len(vs)):
        groups.setdefault(json.dumps([v['t'], v['g'], v['max']]), []).append(v)
    for n, (key, g) in enumerate(sorted(groups.items())):
        if n % 2 and not THOROUGH:
            continue
        t, gm, m = json.loads(key)
        a = merge.archive(S, R)
        tb, gb = merge.from_symbols(a, t, gm, R.choice([1, 1, 64, 5000]))
        c = a.case('vector %d' % n, tb, gb, how=how(), tables={}, splits=[v['saves'] for v in g])
        c['filter'] = {'include_stats': True, 'max_events': m} if m >= 0 else ({'include_stats': True} if R.random() < .3 else None)
        expect[c['id']] = len(g[0]['out'])
        cases.append(c)
    for n in range(350 * k):
        a = merge.archive(S, R)
        t, g = rich(a, R) if R.random() < .7 else merge.random_streams(a, R.choice([1, 5, 15]), R.choice([1, 5, 15, 30]))
        if R.random() < .1:
            t, g = (wire.damage(R, t), g) if R.random() < .5 else (t, wire.damage(R, g))
        tables = {str(a.build): Tables(R).table(['Zealot', 'Marine', 'Probe', 'Hatchery'])} if R.random() < .5 else {}
        splits = [[p] for p in R.sample(range(45), 6)] + [sorted(R.sample(range(40), R.choice([2, 5, 20]))), list(range(60))]
        c = a.case('random %d' % n, t, g, how=how(), tables=tables, splits=splits)
        c['filter'] = some_filter(R) if R.random() < .4 else None
        cases.append(c)
    for c in merge.real_parts(S, R, wd, 2 * k, 9000 if THOROUGH else 3500):
        c.update(how=how(), tables={}, filter=None, splits=[[p] for p in R.sample(range(150), 3)] + [list(range(0, 120, 13))])
        cases.append(c)
    log(len(cases), 'replays')
    lines = parallel('save', cases, 6, 'saving and restoring')
    log('harness done')
    seen = Counter()
    for ln in lines:
        x = json.loads(ln)
        seen[x['got']['k']] += 1
        if x['got']['k'] == 'ok':
            chk.add('items', len(x['got']['items']))
            chk.add('restored_runs', len(x['runs']))
            chk.add('saves', sum(len(r['at']) for r in x['runs']))
            chk.add('saves_with_items_after', sum(len([p for p in r['at'] if p < len(x['got']['items'])]) for r in x['runs']))
            if x['id'] in expect and expect[x['id']] != len(x['got']['items']):
                seen['other length than the model'] += 1      # the business of C01 and C11
    chk.cov['results'] = dict(seen)
    merge.judge(chk, 'SaveTrace', lines, wd, prop)
    if not chk.violations and (seen['ok'] < len(lines) * .9 or chk.cov['saves_with_items_after'] < 3000):
        raise ToolError('only %s' % chk.cov)
    chk.sample({a: (b[:60] if isinstance(b, list) else b) for a, b in cases[0].items()})
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
