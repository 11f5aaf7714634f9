"""Synthetic replays: streams and lobbies with chosen values (see wiregen for the encodings)."""
from wiregen import Gen, Bits, ANY, kinds

UNITS = [b'Zealot', b'Marine', b'Probe', b'Hatchery']
T_OK = ['EPlayerStats', 'EUnitBorn', 'EUnitDied', 'EUnitOwnerChange', 'EUnitTypeChange', 'EUpgrade', 'EUnitInit', 'EUnitDone', 'EUnitPosition', 'EPlayerSetup']
G_OK = ['EDropUser', 'ECameraSave', 'ECmd', 'ESelectionDelta', 'EControlGroupUpdate', 'ESelectionSyncCheck', 'ETriggerChatMessage', 'EUnitClick', 'EUnitHighlight',
        'ETriggerReplySelected', 'ECameraUpdate', 'ETriggerMouseClicked', 'ETriggerMouseMoved', 'ETriggerHotkeyPressed', 'ETriggerTargetModeUpdate', 'ETriggerKeyPressed',
        'ETriggerMouseWheel', 'ETriggerButtonPressed', 'ECommandManagerState', 'ECmdUpdateTargetPoint', 'ECmdUpdateTargetUnit']
G_OFTEN = ['ECmd', 'ESelectionDelta', 'EControlGroupUpdate', 'ECmdUpdateTargetPoint', 'ECmdUpdateTargetUnit', 'ECameraUpdate']

def small(R, kind):
    """Values of a tracker event over small alphabets, so that events concern each other."""
    pid = lambda: R.choice([0, 1, 2, 3])
    ix = lambda: R.choice([0, 1, 2, 5])
    opt = lambda f: f() if R.random() < .6 else None
    v = {}
    if kind in ('EPlayerStats', 'EUpgrade', 'EPlayerSetup'):
        v['m_player_id'] = pid()
    if kind == 'EPlayerSetup':
        # A lobby binds each tracker player id to one user.
        v.update(m_user_id=opt(pid), m_slot_id=opt(pid))
        if v['m_user_id'] is not None:
            v['m_player_id'] = (v['m_user_id'] + 1) % 4
    if kind in ('EUnitBorn', 'EUnitInit', 'EUnitOwnerChange'):
        v.update(m_control_player_id=pid(), m_upkeep_player_id=pid())
    if kind in ('EUnitBorn', 'EUnitInit', 'EUnitTypeChange'):
        v['m_unit_type_name'] = R.choice(UNITS)
    if kind == 'EUnitBorn':
        v.update(m_creator_unit_tag_index=opt(ix), m_creator_ability_name=opt(lambda: b'Morph'))
    if kind == 'EUnitDied':
        v.update(m_killer_player_id=opt(pid), m_killer_unit_tag_index=opt(ix))
    if kind == 'EUnitPosition':
        v.update(m_first_unit_index=ix(), m_items=[R.randrange(6) for _ in range(R.randrange(8))])
    elif kind not in ('EPlayerStats', 'EUpgrade', 'EPlayerSetup'):
        v.update(m_unit_tag_index=ix(), m_unit_tag_recycle=1)
    return v

def small_g(R, kind):
    tag = lambda: (R.choice([0, 1, 2, 5]) << 18) + 1
    if kind == 'ESelectionDelta':
        return {'m_control_group_id': R.choice([10, 10, 10, 0, 3]),
                'm_delta': {'m_add_unit_tags': [tag() for _ in range(R.randrange(4))], 'm_add_subgroups': []}}
    if kind == 'EControlGroupUpdate':
        return {'m_control_group_index': R.choice([0, 3])}
    if kind == 'ECmdUpdateTargetUnit':
        return {'m_target': {'m_tag': tag()}}
    if kind == 'ECmd' and R.random() < .6:
        return {'m_abil': {}, 'm_data': ('TargetUnit', {'m_tag': tag()})}
    return ANY

def bad_tracker(g, d):
    """An event that cannot be read: an unknown event kind."""
    return g.tag('choice') + b'\0' + g.tag('int') + g.vlq(d) + b'\x03' + g.R.choice([b'\x14', b'\x3e', b'\x01\x05'])

class Archive:
    """One synthetic replay."""
    def __init__(self, S, R, build, **knobs):
        self.R, self.build = R, build
        self.S = S['old' if build < 75690 else 'new']
        self.details = {}      # more fields of the details
        self.g = Gen(self.S, R, **dict(dict(cap=3), **knobs))
    def tracker(self, events):
        return self.g.tracker(events)
    def game(self, events):
        return self.g.events('B_GameEEventId', events)
    def lobby(self, players, slots, names=None, title=ANY, plain=False, handles=ANY):
        """players: (name, working set slot or None[, more]); slots: (working set slot or None, user id or None)."""
        R, g = self.R, self.g
        pl = [dict({'m_name': p[0], 'm_working_set_slot_id': p[1]}, **(p[2] if len(p) > 2 else {})) for p in players]
        details = {'m_player_list': pl, 'm_title': title, 'm_cache_handles': handles, **self.details}
        sl = [dict({'m_working_set_slot_id': s[0], 'm_user_id': s[1], 'm_artifacts': [], 'm_rewards': [], 'm_licenses': []}, **(s[2] if len(s) > 2 else {})) for s in slots]
        users = [{'m_name': n} for n in names] if names is not None else [ANY] * len(slots)
        init = {'m_sync_lobby_state': {'m_user_initial_data': users, 'm_lobby_state': {'m_slots': sl}}}
        o = Bits()
        g.packed({'k': 'ref', 'n': 'B_ReplaySInitData'}, o, None, init)
        return g.aligned({'k': 'ref', 'n': 'A_GameSDetails'}, None, details), bytes(o.b)
    def case(self, cid, t, gm, players=None, slots=None, **more):
        R = self.R
        if players is None:
            n = R.choice([1, 2, 2, 3, 4])
            ids = R.sample([0, 1, 2, 3, 15], n)
            players = [(R.choice([b'Ann', b'Bob', b'Eve', 'Zoë'.encode(), b'']) + b'%d' % i, i) for i in range(n)]
            slots = [(i, ids[i]) for i in range(n)]
        d, i = self.lobby(players, slots)
        return dict({'id': cid, 'build': self.build, 't': list(t), 'g': list(gm), 'd': list(d), 'i': list(i), 'filters': []}, **more)
