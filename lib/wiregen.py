"""Generates encoded protocol values from the layout in spec/Proto.tla.

The generator only has to produce interesting bytes: what they mean is decided by
spec/Wire.tla and spec/Lib.tla, so a mistake here cannot make a check wrong, only weak.
"""
RANGE = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, (1 << 32) - 1), 'u64': (0, (1 << 64) - 1),
         'i32': (-(1 << 31), (1 << 31) - 1), 'i64': (-(1 << 63) + 1, (1 << 63) - 1)}
TAG = dict(array=0, bitarray=1, blob=2, choice=3, opt=4, struct=5, bool=6, fourcc=7, int=9)
TEXTS = ['', 'a', 'Zealot', 'Marine', 'Nova 1', 'Täst', '日本', '\U0001F600', 'x' * 63, 'y' * 64, '"q"', 'a\\b', '\x00', '\x7f', 'é', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff']
BAD_TEXTS = [b'\xff', b'a\xc3', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe0\x80\x80', b'\x80', b'ab\xfe', b'\xf0\x80\x80\x80', b'\xc3(', b'\xe2\x82', b'\xf5\x80\x80\x80']


def vlq(v, pad=0):
    m = abs(v)
    out = [((m & 63) << 1) | (v < 0)]
    m >>= 6
    while m:
        out[-1] |= 128
        out.append(m & 127)
        m >>= 7
    while pad and len(out) < 10:       # the same number with more bytes than needed
        out[-1] |= 128
        out.append(0)
        pad -= 1
    return bytes(out)


class Bits:
    """Bit-packed output in the order of spec/Wire.tla (Put, PutBits, PutArray)."""
    def __init__(self):
        self.b, self.p = bytearray(), 0

    def chunk(self, x, c):
        if c == 0:
            return
        while len(self.b) * 8 < self.p + c:
            self.b.append(0)
        o, i = self.p % 8, self.p // 8
        if c <= 8 - o:
            self.b[i] |= (x << o) & 255
        else:
            l = c - (8 - o)
            self.b[i] |= ((x >> l) << o) & 255
            self.b[i + 1] |= x & ((1 << l) - 1)
        self.p += c

    def num(self, v, n):
        v &= (1 << n) - 1
        while n:
            c = 8 - self.p % 8 if n > 8 else n
            self.chunk((v >> (n - c)) & ((1 << c) - 1), c)
            n -= c

    def arr(self, data, n):
        for x in data:
            c = min(8, n)
            self.chunk(x & ((1 << c) - 1), c)
            n -= c

    def align(self, fill=0):
        if self.p % 8:
            self.p += 8 - self.p % 8


ANY = object()     # any value; otherwise None (absent), an int, bytes, a list, or a dict of fields (others are any)


class Gen:
    """knobs: probabilities of departures from the plain encoding."""
    def __init__(self, schema, R, **knobs):
        self.S, self.R = schema, R
        self.k = dict(shuffle=0, drop=0, dup=0, unknown=0, wrongtag=0, range=0, utf=0, pad=0, deep=0, present=.5, long=.03, variant=0)
        self.k.update(knobs)
        self.did = set()

    def hit(self, name):
        if self.R.random() < self.k[name]:
            self.did.add(name)
            return True
        return False

    def edge(self, lo, hi):
        R = self.R
        r = R.random()
        if r < .35:
            return R.choice([lo, hi, lo + 1, hi - 1, max(lo, min(hi, 0)), max(lo, min(hi, 1))])
        if r < .6:
            e = R.randrange(hi.bit_length() + 1)
            v = (1 << e) - R.randrange(2)
            if lo < 0 and R.random() < .5:
                v = -v
            return max(lo, min(hi, v))
        if r < .75:
            return max(lo, min(hi, R.randrange(100)))
        return R.randint(lo, hi)

    def text(self):
        R = self.R
        if self.hit('utf'):
            return R.choice(TEXTS[1:6]).encode() + R.choice(BAD_TEXTS) + R.choice([b'', b'z'])
        if self.hit('long'):
            return bytes(97 + i % 26 for i in range(R.choice([63, 64, 100, 127, 128, 255, 300])))
        r = R.random()
        if r < .6:
            return R.choice(TEXTS).encode()
        return ''.join(R.choice('abcXYZ019 _-') for _ in range(R.randrange(12))).encode()

    # ---- byte-aligned
    def tag(self, name):
        if self.hit('wrongtag'):
            return bytes([self.R.choice([v for v in range(11) if v != TAG[name]] + [255])])
        return bytes([TAG[name]])

    def vlq(self, v):
        return vlq(v, self.R.choice([1, 2]) if self.hit('pad') else 0)

    def aligned(self, t, want=None, v=ANY):
        R, k = self.R, t['k']
        if k == 'ref':
            return self.aligned(self.S[t['n']], want, v)
        if k == 'int':
            lo, hi = RANGE[t['r']]
            if v is not ANY:
                return self.tag('int') + self.vlq(v)
            v = self.edge(lo, hi)
            if self.hit('range'):
                v = R.choice([hi + 1, lo - 1, hi + R.randrange(1 << 16)])
                v = max(-(1 << 63) + 1, min((1 << 63) - 1, v))
            if t['r'] == 'u64':
                v = min(v, (1 << 63) - 1)
            return self.tag('int') + self.vlq(v)
        if k == 'blob':
            b = self.text() if v is ANY else v
            return self.tag('blob') + self.vlq(len(b)) + b
        if k == 'bool':
            return self.tag('bool') + bytes([R.choice([0, 1, 1, 2, 255])])
        if k == 'fourcc':
            return self.tag('fourcc') + R.choice([b'\0\0S2', b'S2\0\0', b'\xff\xfe\x80\x01', bytes(R.randrange(256) for _ in range(4))])
        if k == 'unit':
            return b''
        if k == 'opt':
            if v is not None and (v is not ANY or R.random() < self.k['present']):
                return self.tag('opt') + bytes([R.choice([1, 1, 1, 2, 255])]) + self.aligned(t['t'], None, v)
            return self.tag('opt') + b'\0'
        if k == 'arr':
            if v is not ANY:
                return self.tag('array') + self.vlq(len(v)) + b''.join(self.aligned(t['t'], None, x) for x in v)
            n = R.choice([0, 1, 1, 2, 3, 5])
            if t['t']['k'] == 'int' and self.hit('long'):
                n = R.choice([63, 64, 65, 130])
            return self.tag('array') + self.vlq(n) + b''.join(self.aligned(t['t']) for _ in range(n))
        if k == 'struct':
            given = v if isinstance(v, dict) else {}
            fs = [(f['g'], self.aligned(f['t'], None, given.get(f['n'], ANY))) for f in t['f'] if not self.hit('drop')]
            if fs and self.hit('dup'):
                g = R.choice(fs)[0]
                f = next(f for f in t['f'] if f['g'] == g)
                fs.insert(R.randrange(len(fs) + 1), (g, self.aligned(f['t'])))
            if self.hit('unknown'):
                fs.insert(R.randrange(len(fs) + 1), (R.choice([max(f['g'] for f in t['f']) + 1, 99, -1, 1 << 40]), b'\x09\x04'))
            if self.hit('shuffle'):
                R.shuffle(fs)
            return self.tag('struct') + self.vlq(len(fs)) + b''.join(self.vlq(g) + b for g, b in fs)
        if k in ('enum', 'choice'):
            if isinstance(v, tuple):       # a variant by name
                want, v = v
            vs = [v for v in t['v'] if v['n'] == want] or t['v']
            c = R.choice(vs)
            g = c['g']
            if self.hit('variant'):
                g = R.choice([max(x['g'] for x in t['v']) + 1, 77, -1])
            return self.tag('int' if k == 'enum' else 'choice') + self.vlq(g) + self.aligned(c['t'], None, v)
        raise ValueError(k)

    # ---- bit-packed
    def count(self, w, cap):
        R = self.R
        top = (1 << w) - 1
        r = R.random()
        if r < .15:
            n = 0
        elif r < .85:
            n = R.randrange(1, 5)
        else:
            n = R.choice([7, 8, 9, 15, 16, 31, 63, 64, top])
        return min(n, top, cap)

    def packed(self, t, o, want=None, v=ANY):
        R, k = self.R, t['k']
        if k == 'ref':
            return self.packed(self.S[t['n']], o, want, v)
        if k == 'pint':
            if v is not ANY:
                return o.num(v - int(t['o']), t['w'])
            return o.num(self.edge(0, (1 << t['w']) - 1) if t['w'] else 0, t['w'])
        if k == 'bbool':
            return o.num(R.randrange(2) if v is ANY else v, 1)
        if k == 'byte':
            return o.num(v if v is not ANY else R.choice([0, 1, 127, 128, 255, R.randrange(256)]), 8)
        if k == 'bfourcc':
            return o.arr(R.choice([b'\0\0S2', b'S2\0\xff', bytes(R.randrange(256) for _ in range(4))]), 32)
        if k in ('null', 'unit'):
            return
        if k == 'bopt':
            there = v is not None and (v is not ANY or R.random() < self.k['present'])
            o.num(there, 1)
            if there:
                self.packed(t['t'], o, None, v)
            return
        if k == 'list':
            vs = v if v is not ANY else [ANY] * self.count(t['w'], self.k.get('cap', 12))
            o.num(len(vs), t['w'])
            for x in vs:
                self.packed(t['t'], o, None, x)
            return
        if k == 'str':
            b = v if v is not ANY else self.text()[:(1 << t['w']) - 1]
            while b and v is ANY and not self.k['utf']:
                try:
                    b.decode()
                    break
                except UnicodeDecodeError:
                    b = b[:-1]
            o.num(len(b), t['w'])
            o.align()
            return o.arr(b, 8 * len(b))
        if k == 'fix':
            o.align()
            return o.arr(bytes(R.randrange(256) for _ in range(t['n'])), 8 * t['n'])
        if k == 'bitsnum':
            n = min(R.choice([0, 1, 2, 7, 8, 9, 16, 32, 63, 64, 65 if self.k['range'] else 64]), (1 << t['w']) - 1)
            o.num(n, t['w'])
            return o.num(R.getrandbits(n) if n else 0, n)
        if k == 'bitsarr':
            n = min(R.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 64, 100]), (1 << t['w']) - 1)
            o.num(n, t['w'])
            return o.arr(bytes(R.randrange(256) for _ in range((n + 7) // 8)), n)
        if k == 'bstruct':
            given = v if isinstance(v, dict) else {}
            for f in t['f']:
                self.packed(f['t'], o, None, given.get(f['n'], ANY))
            return
        if k == 'benum':
            if isinstance(v, tuple):
                want, v = v
            vs = [v for v in t['v'] if v['n'] == want] or t['v']
            c = R.choice(vs)
            g = c['g']
            if self.hit('variant'):
                free = [x for x in range(1 << t['w']) if x not in [y['g'] for y in t['v']]]
                g = R.choice(free) if free else g
            o.num(g, t['w'])
            return self.packed(c['t'], o, None, v)
        raise ValueError(k)

    # ---- streams
    def delta(self):
        R = self.R
        return R.choice([(0, R.randrange(64)), (0, 0), (0, 63), (1, R.randrange(1 << 14)), (2, R.randrange(1 << 22)), (3, R.randrange(1 << 32)), (3, (1 << 32) - 1)] + [(0, R.randrange(4))] * 5)

    def form(self, d):
        return self.R.choice([g for g in range(4) if d < 1 << (6, 14, 22, 32)[g]]), d

    def tracker(self, wants):
        """wants: kinds, or (kind, delta, values of fields)"""
        out = b''
        for w in wants:
            w, d, vals = w if isinstance(w, tuple) else (w, None, ANY)
            g, v = self.delta() if d is None else self.form(d)
            out += self.tag('choice') + self.vlq(g) + self.tag('int') + self.vlq(v) + self.aligned({'k': 'ref', 'n': 'A_ReplayTrackerEEventId'}, w, vals)
        return out

    def events(self, ids, wants):
        o = Bits()
        for w in wants:
            w, d, user, vals = w if isinstance(w, tuple) else (w, None, None, ANY)
            g, v = self.delta() if d is None else self.form(d)
            o.num(g, 2)
            o.num(v, (6, 14, 22, 32)[g])
            o.num(self.R.choice([0, 1, 2, 15, 16, 31]) if user is None else user, 5)
            self.packed({'k': 'ref', 'n': ids}, o, w, vals)
            o.align()
        return bytes(o.b)


def kinds(schema, name):
    return [v['n'] for v in schema[name]['v']]
