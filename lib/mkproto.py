"""Extracts the wire layout of the two protocol generations from the generated
Rust decoders and prints the TLA+ module spec/Proto.tla.

This was run ONCE, to transcribe the layout (18 000 lines of generated code) into the
specification; the result is committed and reviewed.  No check runs it: a later change of
the Rust code does not change the specification.  It stops at every construct whose
meaning it does not know.

usage: python3 lib/mkproto.py > spec/Proto.tla      (developer tool)
"""
import re, sys

SRC = '/repo/src/versions/protocol%s/mod.rs'


def load(ver):
    s = open(SRC % ver).read()
    s = re.sub(r'#\[tracing::instrument\([^\n]*\n', '\n', s)
    s = re.sub(r'tracing::(debug|trace)!\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\);', '', s)
    s = re.sub(r'//[^\n]*', '', s)
    s = re.sub(r'#\[derive[^\n]*', '', s)
    out = {}
    for mod, p in (('byte_aligned', 'A'), ('bit_packed', 'B')):
        i = s.index('pub mod %s {' % mod)
        body = block(s, s.index('{', i))
        out[p] = body
    return out


def block(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{':
            d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0:
                return s[i:j + 1]
    raise SystemExit('unbalanced')


def norm(t):
    t = re.sub(r'\s+', ' ', t)
    t = t.replace('( ', '(').replace(' )', ')').replace(', )', ')').replace(',)', ')')
    return t.strip()


CAP = r'let max_initial_capacity = MAX_INITIAL_CAPACITY_BYTES / std::mem::size_of::<[^>]*>+\(\)\.max\(1\); let mut array = Vec::with_capacity\(array_length\.min\(max_initial_capacity\)\); '
ARRA = r'let \(tail, _\) = validate_array_tag\(%s\)\?; let \(mut tail, array_length\) = parse_vlq_int\(tail\)\?; let array_length = array_length as usize; ' + CAP + r'for _ in 0\.\.array_length \{ let \(new_tail, data\) = (?P<el>[\w:]+)\(tail\)\?; tail = new_tail; array\.push\((?P<conv>[^;]*)\); \} '


class Ext:
    def __init__(self, ver, base=None):
        self.ver, self.src, self.base, self.defs = ver, load(ver), base, {}
        self.types = {p: self.index(self.src[p]) for p in 'AB'}

    def index(self, body):
        t = {}
        for m in re.finditer(r'pub (struct|enum) (\w+) \{', body):
            t[m[2]] = [m[1], block(body, m.end() - 1), []]
        for m in re.finditer(r'\n    impl (\w+) \{', body):
            if m[1] in t:
                t[m[1]][2].append(block(body, m.end() - 1))
        return t

    def ref(self, p, name):
        q = p + '_' + name
        if name in self.types[p]:
            if q not in self.defs:
                self.defs[q] = None
                self.defs[q] = self.define(p, name)
        else:
            assert self.base, (p, name)
            self.base.ref(p, name)
        return 'R("%s")' % q

    def fn(self, p, name, f='parse'):
        for b in self.types[p][name][2]:
            m = re.search(r'pub fn %s\s*\(\s*input: ' % f, b)
            if m:
                i = b.index('{', m.end())
                sig = norm(b[m.end():i])
                return sig, norm(block(b, i)[1:-1])
        raise SystemExit('no %s::%s' % (name, f))

    # ---- field readers
    def afield(self, name, f, rtype):
        sig, b = self.fn('A', name, 'parse_' + f)
        ret = re.search(r'S2ProtoResult<&\[u8\], (.*)>$', sig)[1]
        assert norm(ret) == norm(rtype), (name, f, ret, rtype)
        R = re.escape(f)
        m = re.fullmatch(r'let \(tail, %s\) = tagged_vlq_int\(input\)\?; Ok\(\(tail, ([ui]\d+)::try_from\(%s\)\?\)\)' % (R, R), b)
        if m:
            assert m[1] == rtype
            return 'I("%s")' % m[1]
        if b == 'let (tail, %s) = tagged_vlq_int(input)?; Ok((tail, %s))' % (f, f):
            assert rtype == 'i64'
            return 'I("i64")'
        for fnn, k in (('tagged_blob', 'Blob'), ('tagged_bool', 'Bool'), ('tagged_fourcc', 'FourCC')):
            if b == 'let (tail, %s) = %s(input)?; Ok((tail, %s))' % (f, fnn, f):
                return k
        m = re.fullmatch(r'let \(tail, %s\) = (\w+)::parse\(input\)\?; Ok\(\(tail, %s\)\)' % (R, R), b)
        if m:
            return self.ref('A', m[1])
        m = re.fullmatch(ARRA % 'input' + r'Ok\(\(tail, array\)\)', b)
        if m:
            return 'Arr(%s)' % self.ael(m['el'], m['conv'], rtype[4:-1])
        m = re.fullmatch(r'let \(tail, _\) = validate_opt_tag\(input\)\?; let \(tail, is_provided\) = nom::number::complete::u8\(tail\)\?; let \(tail, %s\) = if is_provided != 0 \{ (?P<in>.*) \} else \{ \(tail, None\) \}; Ok\(\(tail, %s\)\)' % (R, R), b)
        assert m, (name, f, b)
        assert rtype.startswith('Option<')
        it, inner = rtype[7:-1], m['in']
        m = re.fullmatch(r'let \(tail, res\) = ([\w:]+)\(tail\)\?; \(tail, Some\((.*)\)\)', inner)
        if m:
            return 'Opt(%s)' % self.ael(m[1], m[2].replace('res', 'data'), it)
        m = re.fullmatch(ARRA % 'tail' + r'\(tail, Some\(array\)\)', inner)
        assert m, (name, f, inner)
        return 'Opt(Arr(%s))' % self.ael(m['el'], m['conv'], it[4:-1])

    def ael(self, el, conv, rtype):
        if el == 'tagged_vlq_int':
            assert conv in ('data.try_into()?', '<_>::try_from(data)?', rtype + '::try_from(data)?') or (conv == 'data' and rtype == 'i64'), (conv, rtype)
            return 'I("%s")' % rtype
        assert conv == 'data', conv
        if el == 'tagged_blob':
            return 'Blob'
        if el == 'tagged_bool':
            return 'Bool'
        m = re.fullmatch(r'(\w+)::parse', el)
        assert m and m[1] == rtype, (el, rtype)
        return self.ref('A', m[1])

    def bel(self, el):
        if el == 'parse_bool':
            return 'BBool'
        if el == 'take_unaligned_byte':
            return 'Byte'
        m = re.fullmatch(r'(\w+)::parse', el)
        if m:
            return self.ref('B', m[1])
        raise SystemExit('bit element ' + el)

    def bexpr(self, e):
        """reader expression applied to input/tail"""
        m = re.fullmatch(r'(parse_bool|\w+::parse)\((?:tail|input)\)\?', e)
        if m:
            return self.bel(m[1])
        m = re.fullmatch(r'parse_packed_int\((?:tail|input), (-?\d+), (\d+)usize\)\?', e)
        if m:
            return 'P("%s", %s)' % (m[1], m[2])
        if e in ('take_fourcc(input)?', 'take_fourcc(tail)?'):
            return 'BFourCC'
        if e in ('take_null(tail)?',):
            return 'Null'
        raise SystemExit('bit expression ' + e)

    LIST = r'let \(mut tail, array_length\) = take_n_bits_into_i64\(%s, (?P<w>\d+)\)\?; let array_length = array_length as usize; (?:let mut array = vec!\[\]; |' + CAP + r')for _ in 0\.\.array_length \{ let \(new_tail, data\) = (?P<el>[\w:]+)\(tail\)\?; tail = new_tail; array\.push\(data\); \} '

    def bfield(self, name, f, rtype):
        sig, b = self.fn('B', name, 'parse_' + f)
        R = re.escape(f)
        m = re.fullmatch(r'let \(tail, %s\) = (.*?\?); Ok\(\(tail, %s\)\)' % (R, R), b)
        if m and 'if ' not in m[1]:
            return self.bexpr(m[1])
        m = re.fullmatch(self.LIST % 'input' + r'Ok\(\(tail, array\)\)', b)
        if m:
            return 'L(%s, %s)' % (m['w'], self.bel(m['el']))
        m = re.fullmatch(r'let \(tail, is_provided\): \(\(&\[u8\], usize\), bool\) = parse_bool\(input\)\?; let \(tail, %s\) = if is_provided \{ (?P<in>.*) \} else \{ \(tail, None\) \}; Ok\(\(tail, %s\)\)' % (R, R), b)
        assert m, (name, f, b)
        inner = m['in']
        m = re.fullmatch(r'let \(tail, res\) = (.*\?); \(tail, Some\(res\)\)', inner)
        if m:
            return 'BOpt(%s)' % self.bexpr(m[1])
        m = re.fullmatch(self.LIST % 'tail' + r'\(tail, Some\(array\)\)', inner)
        assert m, (name, f, inner)
        return 'BOpt(L(%s, %s))' % (m['w'], self.bel(m['el']))

    # ---- type definitions
    def fields(self, body):
        return [(a, norm(b)) for a, b in re.findall(r'pub (\w+): ([^;{}]*?),\s*(?=pub |\})', body)]

    def variants(self, body):
        return re.findall(r'(\w+)(?:\(([^()]*(?:\(\))?)\))?,', body)

    def arms(self, b, rest=''):
        """match arms: tag => variant, reader"""
        i = b.index('match variant_tag {')
        m = block(b, i + len('match variant_tag '))[1:-1]
        res = []
        pos = 0
        while True:
            k = re.compile(r'\s*(\d+|_) => ').match(m, pos)
            if not k:
                break
            if m[k.end()] == '{':
                e = block(m, k.end())
                pos = k.end() + len(e)
            else:
                j = k.end()
                d = 0
                while j < len(m) and (d or m[j] != ','):
                    d += (m[j] in '({') - (m[j] in ')}')
                    j += 1
                e = m[k.end():j]
                pos = j + 1
            while pos < len(m) and m[pos] in ', ':
                pos += 1
            e = norm(e.strip('{} ')) if e[0] == '{' else norm(e)
            if k[1] == '_':
                assert re.fullmatch(r'Err\(S2ProtocolError::UnknownTag\(variant_tag\)\)', e), e
            else:
                res.append((int(k[1]), e))
        assert m[pos:].strip() == '', m[pos:]
        return norm(b[:i]), res

    def define(self, p, name):
        kind, body, _ = self.types[p][name]
        sig, b = self.fn(p, name)
        if kind == 'enum':
            vs = {a: norm(b).rstrip(',') for a, b in self.variants(body)}
            head, arms = self.arms(b)
            out = []
            for tag, e in arms:
                m = re.fullmatch(r'Ok\(\(tail, Self::(\w+)\)\)', e)
                if m:
                    assert vs[m[1]] == ''
                    out.append((tag, m[1], None))
                    continue
                m = re.fullmatch(r'let \(tail, is_provided\): \(\(&\[u8\], usize\), bool\) = parse_bool\(tail\)\?; if is_provided \{ let \(tail, res\) = (.*?\?); Ok\(\(tail, Self::(\w+)\(Some\(res\)\)\)\) \} else \{ Ok\(\(tail, Self::(\w+)\(None\)\)\)( \})?', e)
                if m:
                    assert m[2] == m[3]
                    out.append((tag, m[2], 'BOpt(%s)' % self.bexpr(m[1])))
                    continue
                m = re.fullmatch(self.LIST % 'tail' + r'Ok\(\(tail, Self::(?P<v>\w+)\(array\)\)\)', e)
                if m:
                    out.append((tag, m['v'], 'L(%s, %s)' % (m['w'], self.bel(m['el']))))
                    continue
                m = re.fullmatch(r'let \(tail, res\) = (.*?\?); Ok\(\(tail, Self::(\w+)\((.*)\)\)\)', e)
                assert m, (name, e)
                ty, rd, cv = vs[m[2]], m[1], m[3]
                if p == 'A':
                    el = re.fullmatch(r'([\w:]+)\(tail\)\?', rd)[1]
                    t = self.ael(el, cv.replace('res', 'data'), ty)
                else:
                    assert cv == 'res'
                    t = self.bexpr(rd)
                    if t.startswith('R('):
                        assert t == 'R("B_%s")' % ty, (t, ty)
                out.append((tag, m[2], t))
            assert set(x[1] for x in out) == set(vs), (name, set(vs) ^ set(x[1] for x in out))
            vv = ', '.join('V(%d, "%s")' % (a, n) if t is None else 'VT(%d, "%s", %s)' % (a, n, t) for a, n, t in out)
            if p == 'A':
                if head == 'let (tail, _) = validate_int_tag(input)?; let (tail, variant_tag) = parse_vlq_int(tail)?;':
                    return 'Enum(<<%s>>)' % vv
                assert head == 'let (tail, _) = validate_choice_tag(input)?; let (tail, variant_tag) = parse_vlq_int(tail)?;', head
                return 'Choice(<<%s>>)' % vv
            m = re.fullmatch(r'let num_bits: usize = (\d+); let \(tail, variant_tag\) = parse_packed_int\(input, 0, num_bits\)\?;', head)
            if not m:
                m = re.fullmatch(r'let offset = 0i64; let num_bits: usize = (\d+); let \(tail, variant_tag\) = parse_packed_int\(input, offset, num_bits\)\?;', head)
            assert m, (name, head)
            return 'BEnum(%s, <<%s>>)' % (m[1], vv)
        if p == 'A':
            m = re.fullmatch(ARRA % 'input' + r'Ok\(\(tail, Self \{ value: array \}\)\)', b)
            if m:
                return 'Arr(%s)' % self.ael(m['el'], m['conv'], re.search(r'Vec<(\w+)>', body)[1])
            fs = dict(self.fields(body))
            assert b.startswith('let (tail, _) = validate_struct_tag(input)?; let (mut tail, struct_field_count) = parse_vlq_int(tail)?; '), (name, b)
            out, seen = [], []
            i = b.index('match field_tag {')
            m = block(b, i + len('match field_tag '))
            for k in re.finditer(r'(\d+) => \{ (if (?:(\w+)\.is_none\(\)|let Some\(None\) = (\w+)) \{ let \(new_tail, parsed_(\w+)\) = Self::parse_(\w+)\(tail\)\?; tail = new_tail; (\w+) = Some\(parsed_(\w+)\); continue; \} else \{ return Err\(S2ProtocolError::DuplicateTag\(String::from\("(\w+)"\), (\d+)\)\); \}) \}', m):
                f = k[3] or k[4]
                assert set([f]) == set([k[5], k[6], k[7], k[8], k[9]]), (name, k[0])
                opt = k[4] is not None
                dm = re.search(r'let mut %s: ([^=]*?) = (None|Some\(None\));' % f, b)
                assert dm and (dm[2] == 'Some(None)') == opt, (name, f)
                assert norm(dm[1]) == 'Option<%s>' % fs[f], (dm[1], fs[f])
                fin = 'req'
                if re.search(r'\b%s: ok_or_return_missing_field_err!\(%s\)' % (f, f), b):
                    pass
                elif re.search(r'\b%s: %s\.unwrap_or\(b""\[\.\.\]\.to_vec\(\)\)' % (f, f), b):
                    fin = 'empty'
                else:
                    raise SystemExit('%s.%s end' % (name, f))
                if opt:
                    fin = 'opt'
                out.append('F(%s, "%s", %s, "%s")' % (k[1], f, self.afield(name, f, fs[f]), fin))
                seen.append(f)
            assert set(seen) == set(fs), (name, set(fs) ^ set(seen))
            return 'Struct(<<%s>>)' % ', '.join(out)
        # bit packed structures and newtypes
        m = re.fullmatch(r'let offset: i64 = (-?\d+); let num_bits: usize = (\d+); let \(tail, value\) = parse_packed_int\(input, offset, num_bits\)\?; Ok\(\(tail, Self \{ value \}\)\)', b)
        if m:
            return 'P("%s", %s)' % (m[1], m[2])
        m = re.fullmatch(r'let \(tail, value\) = (\w+)::parse\(input\)\?; Ok\(\(tail, Self \{ value \}\)\)', b)
        if m:
            return self.ref('B', m[1])
        m = re.fullmatch(r'let str_size_num_bits: usize = (\d+); let \(tail, str_size\) = parse_packed_int\(input, 0, str_size_num_bits\)\?; let \(tail, _\) = byte_align\(tail\)\?; let \(tail, value\) = take_bit_array\(tail, str_size as usize \* 8usize\)\?; Ok\(\(tail, Self \{ value \}\)\)', b)
        if m:
            return 'Str(%s)' % m[1]
        m = re.fullmatch(r'let array_length_num_bits: usize = (\d+); let \(mut tail, array_length\) = parse_packed_int\(input, 0, array_length_num_bits\)\?; let array_length = array_length as usize; (?:' + CAP + r'|let mut array = vec!\[\]; )for _ in 0\.\.array_length \{ let \(new_tail, data\) = (\w+::parse)\(tail\)\?; tail = new_tail; array\.push\(data\); \} Ok\(\(tail, Self \{ value: array \}\)\)', b)
        if m:
            return 'L(%s, %s)' % (m[1], self.bel(m[2]))
        m = re.fullmatch(r'let bitarray_length_bits: usize = (\d+); let \(tail, bitarray_length\) = take_n_bits_into_i64\(input, bitarray_length_bits\)\?; let \(tail, value\) = (take_n_bits_into_i64|take_bit_array)\(tail, bitarray_length as usize\)\?; Ok\(\(tail, Self \{ value \}\)\)', b)
        if m:
            return '%s(%s)' % ('BitsNum' if m[2] == 'take_n_bits_into_i64' else 'BitsArr', m[1])
        m = re.fullmatch(r'let \(tail, _\) = byte_align\(input\)\?; let num_bits: usize = (\d+) \* 8; let \(tail, value\) = take_bit_array\(tail, num_bits\)\?; Ok\(\(tail, Self \{ value \}\)\)', b)
        if m:
            return 'Fix(%s)' % m[1]
        fs = dict(self.fields(body))
        if b == 'let tail = input; Ok((tail, Self {}))' or b == 'let tail = input; Ok((tail, Self { }))':
            assert not fs
            return 'BStruct(<<>>)'
        assert b.startswith('let mut tail = input; '), (name, b)
        out, seen, rest = [], [], b
        for k in re.finditer(r'if (?:(\w+)\.is_none\(\)|let Some\(None\) = (\w+)) \{ let \(new_tail, parsed_(\w+)\) = Self::parse_(\w+)\(tail\)\?; tail = new_tail; (\w+) = Some\(parsed_(\w+)\); \}', b):
            f = k[1] or k[2]
            assert set([f]) == set([k[3], k[4], k[5], k[6]]), (name, k[0])
            assert re.search(r'\b%s: (ok_or_return_missing_field_err!\(%s\)|%s\.(unwrap_or|expect)\()' % (f, f, f), b) or re.search(r'\b%s: %s ?\.expect' % (f, f), b), (name, f)
            out.append('G("%s", %s)' % (f, self.bfield(name, f, fs[f])))
            seen.append(f)
        assert seen and set(seen) == set(fs), (name, set(fs) ^ set(seen))
        return 'BStruct(<<%s>>)' % ', '.join(out)


ROOTS = [('A', 'SVarUint32'), ('A', 'ReplayTrackerEEventId'), ('A', 'GameSDetails'), ('A', 'ReplaySHeader'),
         ('B', 'SVarUint32'), ('B', 'ReplaySGameUserId'), ('B', 'GameEEventId'), ('B', 'GameEMessageId'), ('B', 'ReplaySInitData')]


def wrap(x):
    return x.replace('(<<', '(<<\n      ').replace(', F(', ',\n      F(').replace(', G(', ',\n      G(').replace(', VT(', ',\n      VT(').replace(', V(', ',\n      V(')


def main():
    new = Ext('87702')
    for p, n in ROOTS:
        new.ref(p, n)
    old = Ext('75689', new)
    for p in 'AB':
        for n in old.types[p]:
            old.ref(p, n)
    print(HEAD)
    print('Schema87702 == [')
    print(',\n'.join('  %s |-> %s' % (k, wrap(v)) for k, v in new.defs.items()))
    print(']\n\nChanges75689 == [')
    print(',\n'.join('  %s |-> %s' % (k, wrap(v)) for k, v in old.defs.items()))
    print(']\n\nSchema75689 == Changes75689 @@ Schema87702\n')
    print('=' * 77)


HEAD = r'''------------------------------- MODULE Proto -------------------------------
(***************************************************************************)
(* The wire layout of the two protocol generations that the library reads.  *)
(*                                                                         *)
(* Names starting with A_ are byte-aligned ("versioned") types, names       *)
(* starting with B_ are bit-packed types.  The meaning of the constructors  *)
(* is given by the decoder in Wire.tla.                                     *)
(*                                                                         *)
(* Transcribed from the generated decoders with lib/mkproto.py and          *)
(* validated against the four replays in the repository.                    *)
(***************************************************************************)
EXTENDS TLC

\* references to other types
R(n) == [k |-> "ref", n |-> n]

\* byte-aligned, every value is preceded by its tag
I(r)      == [k |-> "int", r |-> r]            \* integer that must fit into r
Blob      == [k |-> "blob"]
Bool      == [k |-> "bool"]
FourCC    == [k |-> "fourcc"]
Opt(t)    == [k |-> "opt", t |-> t]
Arr(t)    == [k |-> "arr", t |-> t]
Struct(f) == [k |-> "struct", f |-> f]
F(g, n, t, d) == [g |-> g, n |-> n, t |-> t, d |-> d]  \* tag, name, type, when missing
Enum(v)   == [k |-> "enum", v |-> v]
Choice(v) == [k |-> "choice", v |-> v]
V(g, n)      == [g |-> g, n |-> n, t |-> [k |-> "unit"]]
VT(g, n, t)  == [g |-> g, n |-> n, t |-> t]

\* bit-packed, positions and widths are implied
P(o, w)     == [k |-> "pint", o |-> o, w |-> w]   \* w bits plus the offset o
BBool       == [k |-> "bbool"]
Byte        == [k |-> "byte"]
BFourCC     == [k |-> "bfourcc"]
Null        == [k |-> "null"]
BOpt(t)     == [k |-> "bopt", t |-> t]
L(w, t)     == [k |-> "list", w |-> w, t |-> t]   \* w bits of length, then the elements
Str(w)      == [k |-> "str", w |-> w]             \* w bits of length, alignment, bytes
Fix(n)      == [k |-> "fix", n |-> n]             \* alignment, n bytes
BitsNum(w)  == [k |-> "bitsnum", w |-> w]         \* w bits of length, so many bits as a number
BitsArr(w)  == [k |-> "bitsarr", w |-> w]         \* w bits of length, so many bits in bytes
BStruct(f)  == [k |-> "bstruct", f |-> f]
G(n, t)     == [n |-> n, t |-> t]
BEnum(w, v) == [k |-> "benum", w |-> w, v |-> v]
'''

if __name__ == '__main__':
    main()
