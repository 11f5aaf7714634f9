"""Protocol descriptions at random, their JSON form, bytes for the readers generated from them, and the program that runs these readers.

A description is a list of declarations in the form of spec/Generator.tla, which says what is to be generated; a mistake here cannot make
a check wrong, only weak."""
import json, os, re, subprocess
import vh, wiregen

def bounds(b):
    out = {'type': b.get('type', 'MinMaxConstraint'), 'min': {'inclusive': True, 'evalue': b['min']}, 'max': {'inclusive': b['incl'] == 1, 'evalue': str(b['max'])}}
    if b['pow'] >= 0:
        out['max']['value'] = {'type': 'PowExpr', 'rhs': {'type': 'IntLiteral', 'value': str(b['pow'])}}
        out['max']['evalue'] = str(1 << b['pow'])
    else:
        out['max']['value'] = {'type': 'IntLiteral', 'value': str(b['max'])}
    return out

SIMPLE = dict(bool='BoolType', fourcc='FourCCType', null='NullType', blob='BlobType', text='StringType')
def type_info(t):
    k = t['k']
    if k == 'user':
        return {'type': 'UserType', 'fullname': t['full']}
    if k in SIMPLE:
        return {'type': SIMPLE[k]}
    if k == 'opt':
        return {'type': 'OptionalType', 'type_info': type_info(t['t'])}
    if k in ('array', 'dynarray'):
        return {'type': 'ArrayType' if k == 'array' else 'DynArrayType', 'element_type': type_info(t['t']), 'bounds': bounds(t['b'])}
    if k == 'int':
        return {'type': 'IntType', 'bounds': bounds(t['b'])}
    if k == 'inum':
        return {'type': 'InumType', 'bounds': bounds(t['b'])}
    if k == 'bits':
        return {'type': 'BitArrayType', 'bounds': bounds(t['b'])}
    if k == 'fix':
        return {'type': 'BlobType', 'bounds': dict(bounds(t['b']), type='ExactConstraint')}
    if k == 'string':
        return {'type': 'StringType', 'bounds': bounds(t['b'])}
    if k == 'enum':
        return {'type': 'EnumType', 'fields': [{'type': 'EnumField', 'name': f['raw'], 'value': {'type': 'IntLiteral', 'value': str(f['v'])}} for f in t['f']]}
    if k == 'choice':
        return {'type': 'ChoiceType', 'fields': [{'type': 'MemberChoiceField', 'name': f['raw'], 'tag': {'type': 'IntLiteral', 'value': str(f['v'])}, 'type_info': type_info(f['t'])} for f in t['f']]}
    assert k == 'struct', k
    fs = []
    for f in t['f']:
        if f['t']['k'] == 'const':
            fs.append({'type': 'ConstDecl', 'name': f['raw'], 'type_info': {'type': 'UserType', 'fullname': f['t']['full']},
                       'value': {'type': 'IdentifierExpr', 'fullname': f['t']['full'] + '.' + f['t']['raw']}})
            continue
        x = {'type': 'MemberStructField', 'name': f['raw'], 'type_info': type_info(f['t'])}
        if f['v'] >= 0:
            x['tag'] = {'type': 'IntLiteral', 'value': str(f['v'])}
        fs.append(x)
    return {'type': 'StructType', 'fields': fs}

def to_json(nodes):
    top, mods = [], {'': None}
    def module(p):
        if p not in mods:
            m = {'type': 'ModuleDecl', 'fullname': p, 'decls': []}
            mods[p] = m['decls']
            (module(p.rsplit('.', 1)[0]) if p.count('.') > 1 else top).append(m)
        return mods[p]
    for n in nodes:
        at = top if n['p'] == '' else module(n['p'])
        if n['t']['k'] == 'const':
            at.append({'type': 'ConstDecl', 'fullname': n['full'], 'type_info': {'type': 'UserType', 'fullname': 'NNet.uint8'}, 'value': {'type': 'IntLiteral', 'value': '1'}})
        else:
            at.append({'type': 'TypeDecl', 'fullname': n['full'], 'type_info': type_info(n['t'])})
    return {'modules': [{'decls': top}]}

# ---- names --------------------------------------------------------------------
def snake(raw):
    return re.sub(r'(?<!^)(?<!_)(?=[A-Z])', '_', raw).lower()

def variant(raw):
    return ''.join(w[:1].upper() + w[1:] for w in raw.split('_'))

def rust(full):
    n = full.replace('.', '').replace('NNet', '')
    return 'Smd5' if n == 'SMD5' else n[:1].upper() + n[1:]

def decl(p, last, t):
    full = (p or 'NNet') + '.' + last
    return {'p': p, 'last': last, 'full': full, 'rust': rust(full), 't': t}

def user(full):
    return {'k': 'user', 'full': full, 'rust': rust(full)}

def B(mn, mx, incl=1, power=-1):
    return {'min': mn, 'max': mx, 'incl': incl, 'pow': power}

# ---- descriptions at random -----------------------------------------------------
INTS = [('uint6', 6), ('uint8', 8), ('uint14', 14), ('uint16', 16), ('uint22', 22), ('uint32', 32), ('uint64', 64)]
SIGNED = [('int8', 7), ('int16', 15), ('int32', 31), ('int64', 63)]
RANGES = {'u8': ['NNet.uint6', 'NNet.uint8', 'NNet.Game.TPlayerId', 'NNet.Game.TControlId', 'NNet.Game.TTeamId', 'NNet.Replay.EReplayType', 'NNet.Replay.Tracker.TUIntMiniBits'],
          'u32': ['NNet.uint14', 'NNet.uint22', 'NNet.uint32', 'NNet.Game.TDifficulty', 'NNet.Game.THandicap'],
          'i32': ['NNet.int32', 'NNet.Game.TFixedBits'], 'i64': ['NNet.int64', 'NNet.Game.TColorId'], 'u64': ['NNet.uint64']}
NUMBER = {f: r for r, fs in RANGES.items() for f in fs}
TEXTS = ['NNet.Replay.CSignature', 'NNet.Replay.Tracker.CatalogName', 'NNet.Game.CCacheHandle', 'NNet.CFilePath', 'NNet.CUserName']
LISTS = ['NNet.Game.CCacheHandles', 'NNet.Game.CModPaths']
WORDS = ['zone', 'Item', 'path', 'Rank', 'side', 'Turn', 'goal', 'View', 'code', 'Step', 'unit', 'Tag', 'player', 'Name', 'base', 'Build', 'loop', 'Target', 'flag', 'Value', 'list', 'Score', 'data', 'Kind', 'seed', 'Alpha', 'row', 'Speed', 'map', 'Key']
ONLY_BYTES = ('NNet.Replay.', )

class Maker:
    def __init__(self, R):
        self.R = R

    def names(self, lead, n, but=()):
        seen = set()
        while len(seen) < n:
            ws = self.R.sample(WORDS, self.R.choice([1, 2, 2, 3]))
            w = lead + ws[0].lower() + ''.join(w[:1].upper() + w[1:] for w in ws[1:])
            if w not in but:
                seen.add(w)
        out = sorted(seen)
        self.R.shuffle(out)
        return out

    def tags(self, n):
        R = self.R
        return list(range(n)) if R.random() < .6 else R.sample(range(max(n, 1) + R.choice([2, 9, 90, 300])), n)

    def number(self):
        R = self.R
        if R.random() < .35:
            return B('0', 0, 0, R.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 24, 31, 32]))
        return B('0', R.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 4095, 65535, 65536, 1000000, 16777215, 16777216, 16777217, 1000000000]), R.choice([0, 1]))

    def signed(self):
        return self.R.choice([B('-8', 0, 0, 3), B('-128', 0, 0, 7), B('-8', 7, 1), B('-32768', 0, 0, 15), B('-128', 128, 0)])

    def size(self):
        return B('0', self.R.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16] + ([] if self.R.random() < .8 else [31, 32, 63, 64, 100, 255, 256, 1000])), 1)

    def byte_field(self, shared, refs, inside=0):
        """A field that the byte-aligned half knows; shared: so does the other one.  inside: 1 an option, 2 a list."""
        R = self.R
        known = [f for f in list(NUMBER) + TEXTS if not (shared and f.startswith(ONLY_BYTES))] + refs * 3
        x = R.random()
        if x < .45 or inside == 2:
            return user(R.choice(known + ([] if inside == 2 else LISTS)))
        if x < .55:
            return {'k': 'bool'}
        if x < .62:
            return {'k': 'fourcc'}
        if x < .7 and not shared:
            return {'k': R.choice(['blob', 'text'])}
        if x < .85 and inside == 0:
            return {'k': 'opt', 't': self.byte_field(shared, refs, 1)}
        return {'k': R.choice(['array', 'dynarray']), 't': self.byte_field(shared, refs, 2), 'b': self.size()}

    def byte_struct(self, shared, refs, lo=1):
        n = self.R.choice([1, 2, 3, 4, 6] if lo else [0, 1, 2, 3])
        tags = self.tags(n)
        return {'k': 'struct', 'f': [{'raw': r, 'n': snake(r), 'v': v, 't': self.byte_field(shared, refs)} for r, v in zip(self.names('m_', n), tags)]}

    def enum(self, n=0, dense=False):
        n = n or self.R.choice([1, 2, 3, 4, 5, 7, 8, 9, 5, 6, 7, 8, 16, 17, 32, 33, 65])
        tags = list(range(n)) if dense else self.tags(n)
        return {'k': 'enum', 'f': [{'raw': r, 'n': variant(r), 'v': v, 't': {'k': 'null'}} for r, v in zip(self.names('e_', n), tags)]}

    def choice(self, refs):
        R = self.R
        n = R.choice([1, 2, 3, 4, 5, 4, 5, 8, 9, 17])
        return {'k': 'choice', 'f': [{'raw': r, 'n': variant(r), 'v': v, 't': R.choice([user(R.choice(refs)), user(R.choice(refs)), {'k': 'bool'}, {'k': 'fourcc'}, {'k': 'null'}])}
                                     for r, v in zip(self.names('m_', n), self.tags(n))]}

    def bit_choice(self, refs):
        t = self.choice(refs)
        for f in t['f']:
            if f['t']['k'] == 'user' and self.R.random() < .3:
                f['t'] = {'k': 'opt', 't': f['t']}
        if self.R.random() < .7:
            for v, f in enumerate(t['f']):
                f['v'] = v
        return t

    def bit_field(self, refs):
        R = self.R
        x = R.random()
        one = lambda: R.choice([{'k': 'bool'}, {'k': 'int', 'b': self.number()}, {'k': 'int', 'b': self.number() if R.random() < .7 else self.signed()}, user(R.choice(refs)), user(R.choice(refs)), {'k': 'fourcc'},
                                {'k': 'array', 't': user(R.choice(refs)), 'b': self.size()}])
        if x < .3:
            return {'k': 'opt', 't': one()}
        if x < .36:
            return {'k': 'null'}
        if x < .46:
            return {'k': 'dynarray', 't': user(R.choice(refs)), 'b': self.size()}
        return one()

    def bit_type(self, refs):
        R = self.R
        x = R.random()
        if x < .35:
            n = R.choice([0, 1, 2, 3, 4, 6])
            return {'k': 'struct', 'f': [{'raw': r, 'n': snake(r), 'v': -1, 't': self.bit_field(refs)} for r in self.names('m_', n)]}
        if x < .45:
            return {'k': R.choice(['int', 'inum']), 'b': self.number() if R.random() < .7 else self.signed()}
        if x < .52:
            return {'k': 'bits', 'b': B('0', R.choice([1, 2, 3, 8, 9, 16, 31, 32, 64]), R.choice([0, 1])) if R.random() < .9 else B('0', 500)}
        if x < .56:
            n = R.choice([1, 2, 4, 16, 40])
            return {'k': 'fix', 'b': B(str(n), n)}
        if x < .61:
            return {'k': 'string', 'b': B('0', R.choice([2, 4, 5, 8, 10, 16, 19, 20, 79]), 1)}
        if x < .68:
            return {'k': R.choice(['array', 'dynarray']), 't': user(R.choice(refs)), 'b': self.size()}
        if x < .75:
            return user(R.choice(refs))
        return self.enum(dense=R.random() < .6) if x < .87 else self.bit_choice(refs)

    def mark(self, t, enum_full, ids, often):
        """A constant that makes the structure the content of a variant."""
        R = self.R
        if t['k'] == 'struct' and R.random() < often:
            t['f'].insert(R.choice([0, 0, len(t['f'])]), {'raw': 'TAG', 'n': 'tag', 'v': -1, 't': {'k': 'const', 'full': enum_full, 'raw': R.choice(ids['f'])['raw'], 'rust': ''}})
            if R.random() < .25:                             # more than one constant
                t['f'].insert(R.randrange(len(t['f']) + 1), {'raw': 'KIND', 'n': 'kind', 'v': -1, 't': {'k': 'const', 'full': enum_full, 'raw': R.choice(ids['f'])['raw'], 'rust': ''}})
        return t

    def description(self):
        R, top, replay, tracker, game = self.R, [], [], [], []
        G, T = 'NNet.Game', 'NNet.Replay.Tracker'
        for n, w in INTS:
            top.append(decl('', n, {'k': 'int', 'b': B('0', 0, 0, w)}))
        for n, w in SIGNED:
            top.append(decl('', n, {'k': 'int', 'b': B(str(-2 ** w), 0, 0, w)}))
        for n in ('CFilePath', 'CUserName'):
            top.append(decl('', n, {'k': 'string', 'b': B('0', R.choice([5, 8, 19, 79]), 1)}))
        game.append(decl(G, 'CCacheHandle', R.choice([{'k': 'string', 'b': B('0', R.choice([5, 8, 40]), 1)}, {'k': 'fix', 'b': B('4', 4)}, {'k': 'fix', 'b': B('40', 40)}])))
        for n in ('CCacheHandles', 'CModPaths'):
            game.append(decl(G, n, {'k': 'array', 't': user(R.choice([G + '.CCacheHandle', 'NNet.CFilePath'])), 'b': self.size()}))
        for n in ('TPlayerId', 'TControlId', 'TTeamId', 'TDifficulty', 'THandicap', 'TFixedBits', 'TColorId'):
            game.append(decl(G, n, {'k': 'int', 'b': self.number()}))
        num = [f for f in NUMBER if not f.startswith(ONLY_BYTES)]
        refs = []                                            # structures that both halves may refer to so far
        top.append(decl('', 'SMD5', self.byte_struct(True, [])))
        top.append(decl('', 'EObserve', self.enum()))
        refs += ['NNet.SMD5', 'NNet.EObserve']
        top.append(decl('', 'SVersion', self.byte_struct(True, refs)))
        refs.append('NNet.SVersion')
        top.append(decl('', 'SVarUint32', self.choice(num)))
        for n in ('EGameSpeed', 'EResultDetails'):
            game.append(decl(G, n, self.enum()))
            refs.append('%s.%s' % (G, n))
        for n in ('SColor', 'SThumbnail', 'SToonNameDetails'):
            game.append(decl(G, n, self.byte_struct(True, refs)))
            refs.append('%s.%s' % (G, n))
        refs = [r for r in refs if not r.endswith('SThumbnail')] + [G + '.SThumbnail']
        game.append(decl(G, 'SPlayerDetails', self.byte_struct(True, refs)))
        game.append(decl(G, 'CPlayerDetailsArray', {'k': 'array', 't': user(G + '.SPlayerDetails'), 'b': self.size()}))
        details = self.byte_struct(True, refs)
        r = self.names('m_', 1, [f['raw'] for f in details['f']])[0]
        details['f'].append({'raw': r, 'n': snake(r), 'v': max(f['v'] for f in details['f']) + 1, 't': R.choice([{'k': 'opt', 't': user(G + '.CPlayerDetailsArray')}, user(G + '.CPlayerDetailsArray')])})
        game.append(decl(G, 'SDetails', details))
        replay.append(decl('NNet.Replay', 'SHeader', self.byte_struct(False, refs)))
        ids = self.enum(R.choice([2, 3, 5]))
        tracker.append(decl(T, 'SPlayerStats', self.byte_struct(False, refs)))
        for n in self.names('', 4):
            tracker.append(decl(T, 'S' + n[:1].upper() + n[1:] + 'Event', self.mark(self.byte_struct(False, refs + [T + '.SPlayerStats'], 0), T + '.EEventId', ids, .8)))
        tracker.insert(R.choice([0, len(tracker)]), decl(T, 'EEventId', ids))
        tracker.append(decl(T, 'TOther', {'k': 'blob'}))
        brefs = [d['full'] for d in top + game]
        top.append(decl('', 'SOther', {'k': 'struct', 'f': []}))                 # selected for neither half
        for n in R.sample(['TUserId', 'ELeaveReason', 'CToonHandle', 'CClanTag', 'CUserInitialDataArray', 'EReconnectStatus', 'TUserCount', 'CCommanderHandle', 'CMountHandle', 'CSkinHandle',
                           'CHeroHandle', 'TRacePreference', 'CArtifactHandle', 'TRaceCount', 'TRaceId', 'SUserInitialData', 'CAllowedObserveTypes', 'CAllowedRaces', 'CCacheHandle', 'TTeamPreference'], 10):
            top.append(decl('', n, self.bit_type(brefs)))
            brefs.append('NNet.' + n)
        for n in ('SGameUserId', 'SInitData'):
            replay.append(decl('NNet.Replay', n, self.bit_type(brefs)))
        gids = self.enum(R.choice([3, 5, 9]))
        for n in self.names('', 12):
            game.append(decl(G, 'T' + n[:1].upper() + n[1:] + 'Part', self.mark(self.bit_type(brefs), G + '.EEventId', gids, .5)))
            brefs.append(game[-1]['full'])
        game.append(decl(G, 'EEventId', gids))
        dialog = {'k': 'struct', 'f': [{'raw': r, 'n': snake(r), 'v': -1, 't': self.bit_field(brefs)} for r in self.names('m_', 2)]}
        dialog['f'].insert(R.randrange(3), {'raw': 'm_eventData', 'n': 'm_event_data', 'v': -1, 't': self.bit_choice(brefs)})
        game.append(decl(G, 'STriggerDialogControlEvent', dialog))
        game.append(decl(G, 'ESenders', self.enum()))
        game.append(decl(G, 'c_limit', {'k': 'const', 'full': 'NNet.uint8', 'raw': '1', 'rust': ''}))
        for x in (game, top, replay):
            R.shuffle(x)
        at = R.randrange(len(replay) + 1)
        replay[at:at] = tracker
        return top + (replay + game if R.random() < .5 else game + replay)

def exhaustive(vectors, size=150):
    """Descriptions of the types that spec/GenMC.tla enumerates, with the bytes of their values."""
    types = {}
    for v in vectors:
        types.setdefault(json.dumps(v['t'], sort_keys=True), []).append(v['b'])
    keys, out = sorted(types), []
    for a in range(0, len(keys), size):
        ds, cases = [decl('NNet.Game', 'TBit', {'k': 'int', 'b': B('0', 0, 0, 1)})], []
        for i, k in enumerate(keys[a:a + size]):
            d = decl('NNet.Game', 'TGen' + chr(97 + i // 26) + chr(97 + i % 26), json.loads(k))
            ds.append(d)
            cases += [{'full': d['full'], 'bits': 1, 's': 0, 'bs': b} for b in types[k]]
        ds.append(ds.pop(0))
        out.append((ds, cases))
    return out

# ---- bytes ------------------------------------------------------------------------
def enc(R, names, t, depth=0):
    """A value in the byte-aligned encoding, mostly a sound one."""
    def blob():
        b = bytes(R.randrange(256) for _ in range(R.choice([0, 1, 2, 3, 9])))
        return bytes([2]) + wiregen.vlq(len(b)) + b
    def number(r):
        lo, hi = wiregen.RANGE[r]
        return bytes([9]) + wiregen.vlq(R.choice([0, 1, 5, 63, 64, 127, 128, hi, R.randrange(lo, hi + 1), lo, -1 if lo < 0 else 2] + ([hi + 1, lo - 1] if R.random() < .03 and r not in ('i64', 'u64') else [])))
    k = t['k']
    if k == 'user':
        f = t['full']
        if f in NUMBER:
            return number(NUMBER[f])
        if f in TEXTS:
            return blob()
        if f in LISTS:
            n = R.choice([0, 1, 2])
            return bytes([0]) + wiregen.vlq(n) + b''.join(blob() for _ in range(n))
        return enc(R, names, dict(names[f]['t'], of=f), depth + 1)
    if k == 'bool':
        return bytes([6, R.choice([0, 1, 1, 255])])
    if k == 'fourcc':
        return bytes([7]) + bytes(R.randrange(256) for _ in range(4))
    if k in ('blob', 'text'):
        return blob()
    if k == 'opt':
        return bytes([4, 0]) if R.random() < .4 else bytes([4, R.choice([1, 1, 7])]) + enc(R, names, t['t'], depth + 1)
    if k in ('array', 'dynarray'):
        n = R.choice([0, 1, 2, 3]) if depth < 6 else 0
        return bytes([0]) + wiregen.vlq(n) + b''.join(enc(R, names, t['t'], depth + 1) for _ in range(n))
    if k == 'enum':
        f = R.choice(t['f'])
        out = bytes([9]) + wiregen.vlq(f['v'] if R.random() < .97 else f['v'] + 1)
        for d in names.values():
            if d['p'] and d['t']['k'] == 'struct' and any(x['t']['k'] == 'const' and x['t']['full'] == t.get('of') and x['t']['raw'] == f['raw'] for x in d['t']['f']):
                return out + enc(R, names, d['t'], depth + 1)
        return out
    if k == 'choice':
        f = R.choice(t['f'])
        return bytes([3]) + wiregen.vlq(f['v'] if R.random() < .97 else f['v'] + 1) + enc(R, names, f['t'], depth + 1)
    if k == 'null':
        return b''
    fs = [f for f in t['f'] if f['t']['k'] != 'const']
    if R.random() < .3:
        R.shuffle(fs)
    fs = [f for f in fs if R.random() < (.75 if f['t']['k'] == 'opt' else .985)]
    if fs and R.random() < .03:
        fs.append(R.choice(fs))
    out = bytes([5]) + wiregen.vlq(len(fs))
    for f in fs:
        out += wiregen.vlq(f['v'] + (1 if R.random() < .01 else 0)) + enc(R, names, f['t'], depth + 1)
    return out

def selected(d, bits):
    """A copy of the selection of spec/Generator.tla, for choosing what to read; the specification checks the declared types itself."""
    p, n = d['p'], d['last']
    if bits:
        return d['t']['k'] != 'const' and {'': n != 'SOther', 'NNet.Replay': n in ('SGameUserId', 'SInitData'), 'NNet.Game': n != 'ESenders'}.get(p, False)
    return {'': n in ('SVersion', 'SVarUint32', 'SMD5', 'EObserve'), 'NNet.Replay': n == 'SHeader', 'NNet.Replay.Tracker': n.startswith('S') or n == 'EEventId',
            'NNet.Game': n in ('CPlayerDetailsArray', 'SDetails', 'SPlayerDetails', 'SThumbnail', 'EGameSpeed', 'EResultDetails', 'SToonNameDetails', 'SColor')}.get(p, False)

def cases(R, ds, n):
    names, out = {d['full']: d for d in ds}, []
    for d in ds:
        if selected(d, False):
            for _ in range(n):
                b = enc(R, names, dict(d['t'], of=d['full']))
                x = R.random()
                if x < .06 and b:
                    b = b[:R.randrange(len(b))]
                elif x < .12 and b:
                    i = R.randrange(len(b))
                    b = b[:i] + bytes([R.randrange(256)]) + b[i + 1:]
                elif x < .3:
                    b += bytes(R.randrange(256) for _ in range(R.choice([1, 3])))
                out.append({'full': d['full'], 'bits': 0, 's': 0, 'bs': list(b[:3000])})
        if selected(d, True):
            for _ in range(n):
                size = R.choice([0, 1, 2, 5, 20, 40, 40, 60, 90, 120])
                few = R.random() < .5
                b = [R.randrange(256) & (R.randrange(256) & R.randrange(256) if few else 255) for _ in range(size)]
                out.append({'full': d['full'], 'bits': 1, 's': R.choice([0, 0, R.randrange(8)]) if b else 0, 'bs': b})
    return out

# ---- the program that runs the generated readers --------------------------------------
MAIN = r'''#![allow(warnings)]
pub use s2protocol::*;
use std::io::{BufRead, Write};
%s
fn guarded<T: std::fmt::Debug>(f: impl FnOnce() -> Result<(usize, T), String> + std::panic::UnwindSafe) -> String {
    match std::panic::catch_unwind(f) {
        Ok(Ok((p, v))) => format!("ok\t{p}\t{v:?}"),
        Ok(Err(_)) => "err".to_string(),
        Err(_) => "panic".to_string(),
    }
}
macro_rules! bytes { ($t:path, $b:expr) => {{ let b: &[u8] = $b; guarded(move || { match <$t>::parse(b) { Ok((t, v)) => Ok((b.len() - t.len(), v)), Err(e) => Err(format!("{e:?}")) } }) }} }
macro_rules! bits { ($t:path, $b:expr, $s:expr) => {{ let (b, s): (&[u8], usize) = ($b, $s); guarded(move || { match <$t>::parse((b, s)) { Ok((t, v)) => Ok((8 * (b.len() - t.0.len()) + t.1, v)), Err(e) => Err(format!("{e:?}")) } }) }} }
fn one(k: &str, b: &[u8], s: usize) -> String {
    match k {
%s
        _ => "unknown".to_string(),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = std::io::BufWriter::new(std::io::stdout());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split(' ').collect();
        let b: Vec<u8> = (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
        writeln!(w, "{}", one(p[0], &b, p[1].parse().unwrap())).unwrap();
    }
}
'''
def types_of(text):
    """The types that a generated source declares, by half (0 bytes, 1 bits)."""
    at = text.find('pub mod bit_packed')
    at = len(text) if at < 0 else at
    return [[int(m.start() > at), m.group(2)] for m in re.finditer(r'pub\s+(struct|enum)\s+(\w+)', text)]

def program(texts, dispatch):
    """Compiles the generated sources; returns the program, or the messages of the compiler by description."""
    d = os.path.join(vh.BUILD, 'gencheck')
    os.makedirs(d + '/src', exist_ok=True)
    harness = os.path.join(vh.ROOT, 'harness')
    s = open(harness + '/Cargo.toml').read().replace('name = "s2vh"', 'name = "gencheck"')
    with open(d + '/Cargo.toml', 'w') as f:
        f.write(s.replace('nom = "8.0"', 'nom = "8.0"\nnom-mpq = "2"\ntracing = "0.1"'))
    s = open(harness + '/Cargo.lock').read()
    deps = lambda m: 'name = "gencheck"' + m.group(1) + m.group(2).replace(' "nom",\n', ' "nom",\n "nom-mpq",\n').rstrip() + '\n "tracing",\n]'
    with open(d + '/Cargo.lock', 'w') as f:
        f.write(re.sub(r'name = "s2vh"(.*?dependencies = \[)(.*?)\]', deps, s, flags=re.S))
    mods = ''
    for i, t in texts.items():
        with open(d + '/src/d%d.rs' % i, 'w') as f:
            f.write(re.sub(r'pub mod events;|pub use events::\*;', '', t))
        mods += 'pub mod d%d;\n' % i
    with open(d + '/src/main.rs', 'w') as f:
        f.write(MAIN % (mods, '\n'.join(dispatch)))
    p = subprocess.run(['cargo', 'build', '--offline', '--message-format=short'], cwd=d, env=vh.cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        return os.path.join(vh.BUILD, 'target', 'debug', 'gencheck'), {}
    bad = {}
    for m in re.finditer(r'^src/(?:d(\d+)|main)\.rs:(\d+):\d+: (error.*)$', p.stdout, re.M):
        bad.setdefault(int(m.group(1)) if m.group(1) else -1, []).append('line %s: %s' % (m.group(2), m.group(3)))
    if not bad:
        raise vh.ToolError('the generated sources were not compiled:\n' + p.stdout[-3000:])
    return None, bad

# ---- what {:?} prints ---------------------------------------------------------------
TOKEN = re.compile(r'\s*(-?\d+|[A-Za-z_]\w*|[\[\](){},:])')
def shown(text):
    """The printed value in the form of Shown in spec/Generator.tla."""
    toks, at = TOKEN.findall(text), [0]
    def take(x=None):
        t = toks[at[0]]
        at[0] += 1
        if x is not None and t != x:
            raise ValueError('%s where %s was expected' % (t, x))
        return t
    def peek():
        return toks[at[0]] if at[0] < len(toks) else ''
    def items(end):
        out = []
        while peek() != end:
            out.append(value())
            if peek() == ',':
                take()
        take(end)
        return out
    def value():
        t = take()
        if t == '[':
            return [4] + items(']')
        if t == '(':
            take(')')
            return [7]
        if re.match(r'-?\d', t):
            v, m, limbs = int(t), abs(int(t)), []
            while m:
                limbs.append(m & 65535)
                m >>= 16
            return [0, int(v < 0)] + limbs
        if t in ('true', 'false'):
            return [2, int(t == 'true')]
        if t == 'None':
            return [3]
        if peek() == '(':
            take()
            inner = items(')')
            return [6, inner[0]] if t == 'Some' else [8, t] + inner
        if peek() == '{':
            take()
            out = [5, t]
            while peek() != '}':
                n = take()
                take(':')
                out.append([n, value()])
                if peek() == ',':
                    take()
            take('}')
            return out
        return [8, t]
    v = value()
    if at[0] != len(toks):
        raise ValueError('more than one value')
    return v
