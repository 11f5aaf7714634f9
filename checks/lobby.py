"""C17 (and the identity part of C23): the join of details and lobby.

TLC explores the join machine of LobbyMC for every small lobby and prints its result; each lobby is encoded into a replay,
joined by the library, and judged by LobbyTrace, together with lobbies of random contents and the recorded ones."""
import json, os, random, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, wire, merge
from vh import *
from replaygen import *
from wiregen import ANY

LEAN = {'m_slot_descriptions': [], 'm_cache_handles': []}
def handle(R):
    n = R.choice([40, 40, 40, 40, 16, 9, 8, 7, 4, 1, 0]) if R.random() < .5 else 40
    b = bytearray(R.choice([b's2ma\0\0EU', b's2mv\0\0US', b's2ml\0\0XX', bytes(R.randrange(256) for _ in range(8))]))
    return (bytes(b) + bytes(R.randrange(256) for _ in range(40)))[:n]

def lobby_case(a, cid, players, slots, handles, fsid, initial=None):
    R = a.R
    pl = [dict({'m_name': R.choice([b'Ann', b'Bob', 'Zo\u00eb'.encode(), b'', b'x']), 'm_working_set_slot_id': p}) for p in players]
    details = {'m_player_list': pl, 'm_cache_handles': handles}
    sl = [{'m_working_set_slot_id': w, 'm_user_id': u, 'm_artifacts': [], 'm_rewards': [], 'm_licenses': [], 'm_reward_overrides': [], 'm_commander_mastery_talents': []} for w, u in slots]
    init = {'m_sync_lobby_state': {'m_user_initial_data': [ANY] * (len(slots) if initial is None else initial), 'm_game_description': LEAN, 'm_lobby_state': {'m_slots': sl}}}
    o = Bits()
    a.g.packed({'k': 'ref', 'n': 'B_ReplaySInitData'}, o, None, init)
    d = a.g.aligned({'k': 'ref', 'n': 'A_GameSDetails'}, None, details)
    return {'id': cid, 'build': a.build, 't': [], 'g': [], 'd': list(d), 'i': list(o.b), 'fsid': fsid}

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    run(prop, chk, wd)
    return chk.finish()

def run(prop, chk, wd):
    S = wire.schemas()
    R = random.Random('lobby/%s/%d' % (prop, SEED))
    cases, expect = [], {}
    k = 8 if THOROUGH else 1
    if prop == 'C17':
        r = tlc('LobbyMC', env=dict(DEEP='0'), workers=4)
        chk.add('states', r.distinct)
        vs = [json.loads(v) for v in r.marked('VEC')]
        chk.add('lobbies_enumerated', len(vs))
        r = tlc('LobbyMC', env=dict(DEEP='1'), workers=6, xmx='8g')
        chk.add('states', r.distinct)
        vs += R.sample([json.loads(v) for v in r.marked('VEC')], 500 * k)
        for n, v in enumerate(vs):
            a = merge.archive(S, R, cap=1)
            ws, us = R.choice([[None, 0, 1], [None, 3, 255], [None, 1, 0]]), R.choice([[None, 0, 1], [None, 15, 2]])
            c = lobby_case(a, 'lobby %d' % n, [ws[p] for p in v['p']], [(ws[s[0]], us[s[1]]) for s in v['s']], R.choice([None, [], [handle(R)]]), 7)
            cases.append(c)
            expect[c['id']] = [p for p in v['pairs']]
    for n in range((500 if prop == 'C17' else 100) * k):
        a = merge.archive(S, R, cap=2, **R.choice([{}, {}, dict(present=.9), dict(shuffle=.5)]))
        m = R.choice([1, 2, 4, 8, 12, 16]) if R.random() < .9 else R.choice([17, 24, 31])
        ids = [R.choice([0, 1, 2, 3, 9, 255, None]) if R.random() < .3 else i for i in range(m)]
        users = R.sample(range(max(16, m)), m)
        slots = [(i, R.choice([None, users[j]]) if R.random() < .4 else users[j]) for j, i in enumerate(ids)]
        pl = ids[:R.randrange(m + 1)]
        if R.random() < .5:
            R.shuffle(pl)
        pl = [p if R.random() < .9 else R.choice([None, 77]) for p in pl]
        hs = None if R.random() < .2 else [handle(R) for _ in range(R.choice([0, 1, 2, 3]))]
        cases.append(lobby_case(a, 'random %d' % n, pl, slots, hs, R.choice([0, 1, 7, 65536, (1 << 53) + 1, (1 << 64) - 1]), R.choice([None, None, 0, 1, m // 2])))
    for c in merge.real_parts(S, R, wd, 1, 300):
        c.update(t=[], g=[], fsid=3)
        cases.append(c)
    lines = parallel('lobby', cases, 6, 'reading a lobby')
    log('harness done')
    seen = Counter()
    for ln in lines:
        x = json.loads(ln)
        seen[x['got']['k']] += 1
        if x['got']['k'] != 'ok':
            continue
        seen['players'] += len(x['got']['v']['players'])
        seen['users'] += len(x['got']['v']['users'])
        e = expect.get(x['id'])
        if e is not None and len(x['got']['v']['players']) != len(e):
            chk.violate('%s: the model joins %s, the library joins %d players' % (x['id'], e, len(x['got']['v']['players'])), case=x['id'])
    chk.cov['results'] = dict(seen)
    chk.sample({k: (v[:60] if isinstance(v, list) else v) for k, v in cases[0].items()})
    skipped = merge.judge(chk, 'LobbyTrace', lines, wd, prop)
    if not chk.violations and (seen['ok'] < .9 * len(lines) or seen['users'] < 100):
        raise ToolError('only %s' % dict(seen))

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
