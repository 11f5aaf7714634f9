"""C03-C10: the replay state machine against spec/ReplayState.tla."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vh
from vh import *

FOCI = {'life': (5, 7), 'groups': (5, 7), 'marks': (5, 7), 'commands': (4, 6), 'positions': (5, 7)}
# Which exhaustive foci exercise a property, and how heavily the random driver favours event kinds.
USES = {'C03': ['life', 'marks'], 'C04': ['groups'], 'C05': ['marks', 'groups'], 'C06': ['commands'], 'C07': ['groups', 'life'],
        'C08': ['positions', 'life'], 'C09': ['life'], 'C10': ['life', 'groups', 'marks', 'commands']}
BIAS = {'C03': 'born init type done died', 'C04': 'seld ctl', 'C05': 'seld ctl type init done', 'C06': 'cmd tp tu seld', 'C07': 'died seld ctl',
        'C08': 'pos born', 'C09': 'setup upgrade born init', 'C10': ''}
REAL = {'/repo/tests/Burrow.SC2Replay': 1860, '/repo/assets/2023-04-08-2v2AI.SC2Replay': 12950,
        '/repo/assets/FieldsDeath202507.SC2Replay': 23600, '/repo/assets/SC2-Patch_4.12-2v2AI.SC2Replay': 38900}

# ---- exhaustive exploration -------------------------------------------------
def mc(focus, depth):
    r = tlc('StateMC', env=dict(FOCUS=focus, DEPTH=str(depth), EMIT='1'), workers=1, dirname='mc-' + focus)
    alpha = json.loads(r.marked('A')[0])
    paths = [tuple(json.loads(p)) for p in r.marked('T')]
    return r, alpha, paths

def as_harness_input(alpha, paths, out):
    """A depth-first walk of the printed transitions; the n-th event of a path happens in loop n."""
    kids = {}
    for p in set(paths):
        kids.setdefault(p[:-1], []).append(p)
    n = 0
    with open(out, 'w') as f:
        f.write(json.dumps({'new': alpha['new']}) + '\n')
        stack = [('visit', ())]
        while stack:
            what, p = stack.pop()
            if what == 'restore':
                f.write('{"restore":1}\n')
                continue
            if p:
                f.write('{"save":1}\n')
                f.write(json.dumps({'ev': dict(alpha['events'][p[-1] - 1], loop=len(p))}) + '\n')
                n += 1
                stack.append(('restore', p))
            for c in sorted(kids.get(p, []), reverse=True):
                stack.append(('visit', c))
    return n

# ---- seeded random histories ------------------------------------------------
def rand_balance(R):
    def dy():
        m = R.choice([1, 3, 5, 7, 11, 15, 9437, 12345679])
        return [[m, R.choice([-3, -2, -1, 0]) if m < 100 else -R.choice([12, 24])]] if R.random() < .85 else []
    types = ['Zealot', 'Marine', 'Probe', 'Overlord', 'Hatchery', 'Infestor']
    b = {}
    for t in types:
        ref = lambda n: {'id': n + str(R.randrange(3)), 'ability': [R.randrange(4)] if R.random() < .9 else [], 'index': [R.randrange(3)] if R.random() < .9 else []}
        b[t] = {'radius': dy(),
                'abilities': [{'id': 'ab%d' % i, 'index': [R.randrange(4)] if R.random() < .85 else [],
                               'cmds': [{'id': ['c%d' % R.randrange(9)] if R.random() < .7 else [], 'index': R.randrange(3)} for _ in range(R.randrange(3))]}
                              for i in range(R.randrange(4))],
                'trains': [ref('T') for _ in range(R.randrange(3))], 'builds': [ref('B') for _ in range(R.randrange(3))],
                'researches': [{'id': 'R%d' % i, 'ability': [R.randrange(4)], 'index': [R.randrange(3)]} for i in range(R.randrange(3))]}
    return b

OTHERS_G = [
    lambda R: {'DropUser': {'m_drop_session_user_id': R.randrange(4), 'm_reason': 'UserBanned'}},
    lambda R: {'SelectionSyncCheck': {'m_control_group_id': 10, 'm_selection_sync_data': {'m_count': 3, 'm_subgroup_count': 1, 'm_active_subgroup_index': 0,
               'm_unit_tags_checksum': R.randrange(1 << 20), 'm_subgroup_indices_checksum': 5, 'm_subgroups_checksum': 9}}},
    lambda R: {'TriggerChatMessage': {'m_chat_message': 'hi'}},
    lambda R: {'UnitClick': {'m_unit_tag': (R.randrange(6) << 18) + 1}},
    lambda R: {'UnitHighlight': {'m_unit_tag': (R.randrange(6) << 18) + 1, 'm_flags': 3}},
    lambda R: {'TriggerReplySelected': {'m_conversation_id': 1, 'm_reply_id': 2}},
    lambda R: {'TriggerMouseClicked': {'m_button': 1, 'm_down': True, 'm_pos_ui': {'x': 4, 'y': 5}, 'm_pos_world': {'x': 4096, 'y': 8192, 'z': 0}, 'm_flags': 1}},
    lambda R: {'TriggerMouseMoved': {'m_pos_ui': {'x': 4, 'y': 5}, 'm_pos_world': {'x': 4096, 'y': 8192, 'z': -3}, 'm_flags': -1}},
    lambda R: {'TriggerHotkeyPressed': {'m_hotkey': R.randrange(99), 'm_down': False}},
    lambda R: {'TriggerTargetModeUpdate': {'m_abil_link': 7, 'ability': '', 'm_abil_cmd_index': 2, 'm_state': 1}},
    lambda R: {'TriggerKeyPressed': {'m_key': 3, 'm_flags': 1}},
    lambda R: {'TriggerMouseWheel': {'m_wheel_spin': -5, 'm_flags': 0}},
    lambda R: {'TriggerButtonPressed': {'m_button': 8}},
    lambda R: {'CommandManagerState': {'m_state': 'EFireOnce', 'm_sequence': [None, 9][R.randrange(2)]}},
]
def other_tracker(R):
    if R.random() < .6:
        return {'UnitOwnerChange': {'unit_tag_index': R.randrange(6), 'unit_tag_recycle': 1, 'control_player_id': R.randrange(4), 'upkeep_player_id': 1}}
    names = ('minerals_current vespene_current minerals_collection_rate vespene_collection_rate workers_active_count minerals_used_in_progress_army '
             'minerals_used_in_progress_economy minerals_used_in_progress_technology vespene_used_in_progress_army vespene_used_in_progress_economy '
             'vespene_used_in_progress_technology minerals_used_current_army minerals_used_current_economy minerals_used_current_technology '
             'vespene_used_current_army vespene_used_current_economy vespene_used_current_technology minerals_lost_army minerals_lost_economy '
             'minerals_lost_technology vespene_lost_army vespene_lost_economy vespene_lost_technology minerals_killed_army minerals_killed_economy '
             'minerals_killed_technology vespene_killed_army vespene_killed_economy vespene_killed_technology food_used food_made '
             'minerals_used_active_forces vespene_used_active_forces minerals_friendly_fire_army minerals_friendly_fire_economy '
             'minerals_friendly_fire_technology vespene_friendly_fire_army vespene_friendly_fire_economy vespene_friendly_fire_technology').split()
    return {'PlayerStats': {'player_id': R.randrange(3), 'stats': {k: R.randrange(5000) for k in names}}}

ALL = 'born init type done died pos setup upgrade cam cmd tp tu seld ctl other'.split()
def history(R, n, bias):
    users = {'0': 'Ann', '1': 'Bob', '4': 'Eve'}
    if R.random() < .2:
        users = {str(R.randrange(16)): 'Solo'}
    uid = [int(u) for u in users] + ([R.randrange(16)] if R.random() < .5 else [])
    bal = rand_balance(R)
    types = list(bal) + ['Drone', 'MineralField450', 'Zzz', 'RichMineralField', 'XelNagaTower', 'BeaconArmy']
    ixs = R.sample(range(1, 40), R.choice([3, 6, 12])) + R.sample([0, 1023, 8191, 16383, 16382, 4096], 2)
    # Unit tags reach the registry by tag only when their index fits 14 bits; a tracker index may also be larger.
    big = R.sample([16384, 32767, 32768, 65530, 65535, 65536, 65541, 70000, (1 << 20) + 5, (1 << 31) - 2], 3)
    kinds = ALL + bias.split() * 3
    loop, evs, uniq = R.randrange(3), [], [0]
    o = lambda f, p=.5: [f()] if R.random() < p else []
    ix = lambda: R.choice(ixs) if R.random() < .97 else R.randrange(16384)
    tix = lambda: R.choice(big) if R.random() < .08 else ix()
    tag = lambda: [ix(), R.choice([1, 1, 1, 2, 3, 0, 262143])]
    given = []
    def tags():
        r = R.random()
        k = 0 if r < .12 else R.randrange(1, 4) if r < .7 else R.randrange(1, 12)
        t = [tag() for _ in range(k)]
        if given and R.random() < .3:
            t = (t + R.choice(given))[-R.randrange(1, 12):]
        if t and R.random() < .25:
            t.append(R.choice(t))
        given.append(list(t))
        if R.random() < .5:
            t.sort()
        return t
    pid = lambda: R.choice([0, 1, 1, 2, 2, 3, 4, 15, 255])
    def edge(lo, hi):
        r = R.random()
        if r < .2: return R.choice([lo, lo, hi, hi, lo + 1, hi - 1])
        if r < .35 and lo <= 0 <= hi: return 0
        if r < .5:
            v = (1 << R.randrange(hi.bit_length())) - R.randrange(2)
            return v if lo <= v <= hi else lo
        return R.randint(lo, hi)
    pt = lambda: [edge(0, (1 << 20) - 1), edge(0, (1 << 20) - 1), R.choice([0, 0, -4096, 8191, edge(-(1 << 23), (1 << 23))])]
    def unitdata():
        return {'k': 'unit', 'flags': edge(0, 65535), 'timer': edge(0, 255), 'tag': tag(), 'link': edge(0, 65535), 'ctl': o(lambda: R.randrange(16)), 'upk': o(lambda: R.randrange(16)), 'p': pt()}
    for _ in range(n):
        loop += R.choice([0, 0, 1, 1, 2, 7, 160])
        k = R.choice(kinds)
        u = R.choice(uid)
        e = {'k': k, 'loop': loop}
        if k in ('init', 'born'):
            e.update(ix=tix(), name=R.choice(types), pid=pid(), upk=pid(), x=edge(0, 255), y=edge(0, 255), rec=R.choice([1, 2, 9]))
            if k == 'born':
                e.update(creator=o(tix, .4), abil=o(lambda: R.choice(['TrainX', 'MorphY']), .4))
        elif k == 'type':
            e.update(ix=tix(), name=R.choice(types), rec=1)
        elif k == 'done':
            e.update(ix=tix())
        elif k == 'died':
            e.update(ix=tix(), killer=o(tix), rec=R.choice([1, 2]))
            if R.random() < .5:
                e['kpid'] = pid()
        elif k == 'pos':
            far = R.random() < .25
            near = lambda: R.choice(big + ixs) if far else R.choice(ixs)
            first = near() if R.random() < .8 else R.randrange(50)
            items, cur = [], first
            for j in range(R.randrange(8)):
                nxt = R.choice([cur, near(), min(cur + 1, (1 << 31) - 1)]) if j else R.choice([first, first + (first < (1 << 31) - 1)])
                items += [nxt - cur, edge(0, 255), edge(0, 255)]
                cur = nxt
            items += [R.randrange(5) for _ in range(R.choice([0, 0, 1, 2]))]
            e.update(first=first, items=items)
        elif k == 'setup':
            e.update(pid=pid(), uid=o(lambda: R.choice(uid + [9]), .85), slot=o(lambda: R.randrange(8)))
            # A lobby binds each tracker player id to at most one user at a time.
            e['_bind'] = True
        elif k == 'upgrade':
            e.update(pid=pid(), pname=[])
        elif k == 'cam':
            how = R.choice(['save', 'update'])
            e.update(u=u, how=how, target=[[edge(0, 65535), edge(0, 65535)]] if how == 'save' or R.random() < .6 else [])
        elif k == 'cmd':
            d = R.choice(['none', 'point', 'unit', 'unit', 'data'])
            e.update(u=u, flags=edge(0, (1 << 26) - 1), abil=o(lambda: {'link': R.randrange(4), 'name': '', 'index': R.randrange(3), 'data': o(lambda: edge(0, 255))}, .8),
                     data={'none': {'k': 'none'}, 'point': {'k': 'point', 'p': pt()}, 'unit': unitdata(), 'data': {'k': 'data', 'v': edge(0, (1 << 32) - 1)}}[d],
                     seq=edge(1, 1 << 32), other=o(tag, .3), group=o(lambda: edge(0, (1 << 32) - 1), .3))
        elif k == 'tp':
            e.update(u=u, p=pt())
        elif k == 'tu':
            e.update(u=u, data=unitdata())
        elif k == 'seld':
            e.update(u=u, g=R.choice([10, 10, 10, R.randrange(10), R.choice([0, 1, 2, 9]), R.randrange(16)]), tags=tags(), mask=R.choice(['none', 'zero', 'one']))
        elif k == 'ctl':
            e.update(u=u, g=R.choice([0, 1, 2, 9, R.randrange(10), R.randrange(10, 16)]), op=R.choice('set append recall recall clear setsteal appendsteal'.split()))
        else:
            if R.random() < .4:
                e['raw'] = json.dumps(other_tracker(R))
            else:
                e.update(u=u, raw=json.dumps(R.choice(OTHERS_G)(R)))
        evs.append(e)
    bound = {}
    keep = []
    for e in evs:
        if e.pop('_bind', None) and e['uid'] and str(e['uid'][0]) in users:
            v = e['uid'][0]
            if any(q == e['pid'] and w != v for w, q in bound.items()):
                continue
            bound[v] = e['pid']
        keep.append(e)
    return {'users': users, 'balance': bal}, keep

def crowd(R, bias):
    """Hundreds of units at once: long selections, groups and position reports."""
    users = {'0': 'Ann', '1': 'Bob'}
    bal = rand_balance(R)
    N = R.choice([280, 330, 520])
    ixs = R.sample(range(16384), N)
    evs, loop = [{'k': 'setup', 'loop': 0, 'pid': 1, 'uid': [0], 'slot': [0]}], 1
    for i in ixs:
        evs.append({'k': R.choice(['init', 'born']), 'loop': loop, 'ix': i, 'name': R.choice(list(bal) + ['Drone']), 'pid': R.choice([1, 2]), 'upk': 1, 'x': R.randrange(256), 'y': R.randrange(256), 'rec': 1})
        if evs[-1]['k'] == 'born':
            evs[-1].update(creator=[], abil=[])
    tag = lambda i: [i, 1]
    def many():
        t = [tag(i) for i in R.sample(ixs, R.choice([20, 130, 257, min(N, 300), min(N, 511)]))]
        return sorted(t, key=lambda x: (x[1], x[0])) if R.random() < .4 else t
    kinds = 'seld seld ctl ctl ctl pos cmd tp tu died died'.split() + [b for b in bias.split() if b in ('seld', 'ctl', 'pos', 'cmd', 'tp', 'tu', 'died')] * 2
    for n in range(40):
        loop += R.choice([0, 1, 300])
        k, u = (R.choice(kinds) if n > 1 else 'seld'), R.choice([0, 0, 1])
        e = {'k': k, 'loop': loop}
        p3 = [R.randrange(1 << 20), R.randrange(1 << 20), 0]
        data = {'k': 'unit', 'flags': 1, 'timer': 0, 'tag': tag(R.choice(ixs)), 'link': 3, 'ctl': [], 'upk': [], 'p': p3}
        if k == 'seld':
            e.update(u=u, g=R.choice([10, 10, 10, 0, 4, 9]) if n > 1 else n * 10, tags=many(), mask='none')
        elif k == 'ctl':
            e.update(u=u, g=R.choice([0, 4, 9]), op=R.choice('set append append recall recall setsteal appendsteal'.split()))
        elif k == 'pos':
            there = sorted(R.sample(ixs, R.choice([100, 256, 257, N])))
            items, cur = [], there[0]
            for i in there:
                items += [i - cur, R.randrange(256), R.randrange(256)]
                cur = i
            e.update(first=there[0], items=items)
        elif k == 'cmd':
            e.update(u=u, flags=R.randrange(1 << 26), abil=[{'link': R.randrange(4), 'name': '', 'index': R.randrange(3), 'data': []}], data=R.choice([{'k': 'none'}, {'k': 'point', 'p': p3}, data]), seq=n + 1, other=[], group=[])
        elif k == 'tp':
            e.update(u=u, p=p3)
        elif k == 'tu':
            e.update(u=u, data=data)
        elif k == 'died':
            e.update(ix=R.choice(ixs), killer=[R.choice(ixs)], rec=1)
        evs.append(e)
    return {'users': users, 'balance': bal}, evs

# ---- tags ------------------------------------------------------------------
def tags(c, R, wd):
    """C07: packing and unpacking, over all indexes and all recycle counts."""
    r = tlc('TagsMC', workers=4, dirname='tags-mc')
    c.add('states', r.distinct)
    edge = lambda bits: R.choice([0, 1, (1 << bits) - 1, (1 << bits) - 2] + [(1 << k) - R.randrange(2) for k in range(1, bits)])
    lines = []
    for n in range(60 if THOROUGH else 6):          # every index
        rec = [0, 1, 65535, 65536, 262143][n] if n < 5 else edge(18) if R.random() < .5 else R.randrange(1 << 18)
        lines += [{'by': 'index', 'from': a, 'step': 1, 'n': 4096, 'recycle': rec} for a in range(0, 16384, 4096)]
    for n in range(40 if THOROUGH else 2):          # every recycle count
        ix = [0, 16383][n] if n < 2 else edge(14) if R.random() < .5 else R.randrange(1 << 14)
        lines += [{'by': 'recycle', 'from': a, 'step': 1, 'n': 4096, 'index': ix} for a in range(0, 262144, 4096)]
    for _ in range(2000 if THOROUGH else 200):
        k = R.choice([1, 3, 17])
        lines.append({'by': 'recycle', 'from': min(R.choice([edge(18), R.randrange(1 << 18)]), 262143 - 20 * k), 'step': k, 'n': 20, 'index': R.randrange(1 << 14)})
    inp, out = os.path.join(wd, 'tags.in'), os.path.join(wd, 'tags.tr')
    with open(inp, 'w') as f:
        f.write('\n'.join(map(json.dumps, lines)) + '\n')
    harness('tags', inp, out)
    c.add('tags_packed', sum(l['n'] for l in lines))
    return len(lines), tlc_start('TagsTrace', 'TagsTrace.cfg', env=dict(TRACE=out), dirname='tags-tr', xmx='6g')
def tags_done(c, n, h):
    r = tlc_wait(h)
    done = r.marked('DONE')
    if not done or done[0].split()[:2] != [str(n)] * 2:
        raise ToolError('tags: TLC consumed %s of %d lines' % (done, n))
    for v in r.marked('BAD'):
        v = json.loads(v)
        c.violate('index %s, recycle %s: tag %s (low and high half), expected %s; unpacked %s' % (v['index'], v['recycle'], v['tag'], v['expected'], v['unpacked']), **v)

# ---- the check --------------------------------------------------------------
def tlc_trace(prop, trace, bal, name):
    return tlc_start('StateTrace', 'StateTrace.cfg', env=dict(TRACE=trace, PROP=prop, BALANCE=bal), dirname='tr-' + name, xmx='6g')

def check(prop):
    c = Check(prop, 'model_checking')
    wd = workdir()
    build()
    jobs = []     # (name, tlc handle, trace file, source)
    def start(name, trace, bal):
        jobs.append((name, tlc_trace(prop, trace, bal, name), trace))
    foci = USES[prop]
    for f in foci:
        depth = FOCI[f][1 if THOROUGH else 0]
        r, alpha, paths = mc(f, depth)
        c.add('states', r.distinct)
        c.add('transitions', len(paths))
        inp, out, bal = (os.path.join(wd, f + x) for x in ('.in', '.tr', '.bal'))
        n = as_harness_input(alpha, paths, inp)
        with open(bal, 'w') as fh:
            fh.write(json.dumps(alpha['new']['balance']) + '\n')
        harness('state', inp, out)
        c.add('spec_transitions_replayed_in_code', n)
        c.sample({'focus': f, 'depth': depth, 'last_path': [alpha['events'][i - 1]['k'] for i in paths[-1]]})
        start(f, out, bal)
    R = random.Random('%s/%d' % (prop, SEED))
    groups = 8 if THOROUGH else 3
    for g in range(groups):
        inp, out, bal = (os.path.join(wd, 'r%d%s' % (g, x)) for x in ('.in', '.tr', '.bal'))
        n = 0
        with open(inp, 'w') as fh:
            first = None
            for h in range(60 if THOROUGH else 25):
                new, evs = history(R, R.choice([30, 80, 200]), BIAS[prop])
                first = first or new['balance']
                new['balance'] = first
                fh.write(json.dumps({'new': new}) + '\n')
                for e in evs:
                    fh.write(json.dumps({'ev': e}) + '\n')
                n += len(evs)
        with open(bal, 'w') as fh:
            fh.write(json.dumps(first) + '\n')
        harness('state', inp, out)
        c.add('random_steps_checked', n)
        start('r%d' % g, out, bal)
    for g in range(6 if THOROUGH else 2):
        inp, out, bal = (os.path.join(wd, 'crowd%d%s' % (g, x)) for x in ('.in', '.tr', '.bal'))
        new, evs = crowd(R, BIAS[prop])
        with open(inp, 'w') as fh:
            fh.write('\n'.join([json.dumps({'new': new})] + [json.dumps({'ev': e}) for e in evs]) + '\n')
        with open(bal, 'w') as fh:
            fh.write(json.dumps(new['balance']) + '\n')
        harness('state', inp, out)
        c.add('steps_with_hundreds_of_units', len(evs))
        start('crowd%d' % g, out, bal)
    packed = tags(c, R, wd) if prop == 'C07' else None
    for path, n in REAL.items():
        lo, hi = (0, n) if THOROUGH else (0, 2500) if 'Patch_4' not in path else (12000, 14000)
        nm = os.path.basename(path).split('.')[0]
        out, bal = os.path.join(wd, nm + '.tr'), os.path.join(wd, nm + '.bal')
        harness('replay', path, out, bal, lo, hi)
        start(nm, out, bal)
    if packed:
        tags_done(c, *packed)
    for name, h, trace in jobs:
        r = tlc_wait(h)
        done = r.marked('DONE')
        lines = sum(1 for _ in open(trace))
        if not done or done[0].split() != [str(lines), str(lines)]:
            raise ToolError('trace %s: TLC consumed %s of %d lines' % (name, done, lines))
        evs = sum(1 for ln in open(trace) if '"t":"ev"' in ln)
        c.add('steps_validated', evs)
        c.add('traces_validated_against_impl', 1)
        for v in r.marked('V'):
            v = json.loads(v)
            c.violate('%s line %d: %s\n    %s' % (name, v['line'], json.dumps(v['ev']), v['why']), source=name, line=v['line'], event=v['ev'])
        log(name, lines, 'lines', '%.1fs' % r.secs, len(r.marked('V')), 'violations')
    c.assumptions += ['units and users are observed through the public state of the replay state machine; steps are validated from the observed previous state',
                      'exhaustive part: two units, two users, alphabets of spec/StateMC.tla, histories up to the stated depth']
    if prop == 'C09':
        import merge
        merge.run(prop, c, wd)
    return c.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
