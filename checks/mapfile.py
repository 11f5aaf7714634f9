"""C24: files of map archives.

TLC writes, damages and reads again every small file of MapFilesMC; those files and random larger ones, on their own and
inside archives, are read by the library and judged by MapFilesTrace."""
import json, os, random, struct, sys
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, merge
from vh import *

i32 = lambda x: struct.pack('<i', max(-2**31, min(2**31 - 1, x)))
u16 = lambda x: struct.pack('<H', x)
ODD = [0, 1, -1, 24, 25, 255, 256, 257, 65535, 2**31 - 1, -2**31, 1000, -1000]
VOID = b'bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod'
KEYS = [b'DocInfo/Name', b'DocInfo/DescLong', b'DocInfo/DescShort', b'MapInfo/Player00/Name', b'DocInfo/Screenshot01', b'DocInfo/name', b'DocInfo/Name ', b'', b'x', b'DocInfo/HowToPlayBasic02']

def chars(R, n, nul=False):
    r = R.random()
    if r < .4:
        return bytes(R.randrange(33, 127) for _ in range(n))
    if r < .7:
        return ''.join(chr(R.choice([0x41, 0xe4, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000])) for _ in range(n)).encode()
    return bytes(R.choice([R.randrange(0 if nul else 1, 256), R.choice([0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xa0, 0xed, 0x9f, 0xf0, 0x90, 0xf4, 0x8f, 0xf5])]) for _ in range(n))

def info(R):
    v = R.choice([R.choice([23, 24, 25, 39]), R.choice(ODD)])
    w, h = ([R.randrange(1, 257) for _ in 'ab'] if R.random() < .7 else [R.choice(ODD) for _ in 'ab'])
    def span(n):
        if R.random() < .75 and n > 0:
            a = R.randrange(0, n)
            return a, R.randrange(a + 1, n + 1)
        return R.choice(ODD + [n, n + 1]), R.choice(ODD + [n, n + 1])
    (l, r), (bo, to) = span(w), span(h)
    s = lambda: chars(R, R.choice([0, 1, 3, 12, 40]) if R.random() < .97 else R.choice([127, 128, 255, 256, 300, 1000]))
    body = b'IpaM' + i32(v) + (R.randbytes(8) if v > 24 else b'') + i32(w) + i32(h) + R.randbytes(8) + bytes(R.randrange(4))
    return body + (s() or b'\x04') + b'\0' + s() + b'\0' + R.randbytes(5) + s() + b'\0' + s() + b'\0' + b''.join(map(i32, (l, bo, r, to)))
def doc(R):
    n = R.choice([0, 1, 2, 5, 12]) if R.random() < .98 else R.choice([255, 256, 257, 300, 600])
    fs = b''
    for _ in range(n):
        k, v = R.choice(KEYS[:3] if R.random() < .5 else KEYS), chars(R, R.choice([0, 1, 5, 30, 255, 256, 300]) if n < 20 else R.choice([0, 1, 3]), nul=True)
        if R.random() < .02:
            v = b'z' * R.choice([16000, 32768, 65535])
        fs += u16(len(k)) + k + (b'SUne' if R.random() < .98 else b'SUdD') + u16(len(v)) + v
    count = n if R.random() < .93 else R.choice([0, n + 1, max(0, n - 1), 65535])
    mod = VOID if R.random() < .95 else R.choice([b'', VOID + b'x', VOID[:-1], VOID.lower()])
    return (b'H2CS' + R.randbytes(12) + i32(R.choice(ODD)) + i32(R.randrange(-2**31, 2**31)) + R.randbytes(4) + i32(R.choice(ODD)) + i32(R.randrange(-2**31, 2**31))
            + R.randbytes(12) + mod + b'\0' + u16(count) + (b'\0\0' if R.random() < .97 else b'\1\0') + fs)
def heights(R, size=None):
    w, h = size or ((R.randrange(0, 20), R.randrange(0, 20)) if R.random() < .9 else (0, R.randrange(0, 257)))
    cells = bytearray(R.randbytes(6 * (w + 1) * (h + 1)))
    for i in range(4, len(cells), 6):
        cells[i] = R.randrange(5)
    if R.random() < .1:
        cells[R.randrange(len(cells) // 6) * 6 + 4] = R.choice([5, 6, 255])
    dw, dh = (0, 0) if R.random() < .9 else R.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, -1)])
    b = b'HMAP' + (b'\x65\0\0\0' if R.random() < .97 else b'\x66\0\0\0') + i32(w + 1 + dw) + i32(h + 1 + dh) + R.randbytes(16) + bytes(cells)
    return b, w, h

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    R = random.Random('mapfile/%d' % SEED)
    cases = []
    r = tlc('MapFilesMC', env=dict(DEEP='1' if THOROUGH else '0'), workers=6, xmx='8g')
    chk.add('states', r.distinct)
    vs = [json.loads(v) for v in r.marked('VEC')]
    chk.add('files_enumerated', len(vs))
    if THOROUGH and len(vs) > 150000:
        vs = R.sample(vs, 150000)
    for n, v in enumerate(vs):
        cases.append(dict(v, id='enumerated %d' % n, pack=n % 5 == 0 and len(v['b']) > 0))
    def put(k, b, w=0, h=0, pack=True):
        cases.append(dict(k=k, b=list(b), w=w, h=h, id='%s %d' % (k, len(cases)), pack=pack and len(b) > 0))
    for n in range(20000 if THOROUGH else 2500):
        k = R.choice(['info', 'info', 'doc', 'doc', 'heights'])
        w = h = 0
        if k == 'heights':
            b, w, h = heights(R)
        else:
            b = info(R) if k == 'info' else doc(R)
        harm = R.random()
        if harm < .15:
            b = b[:R.randrange(len(b) + 1)]
        elif harm < .3:
            b += R.randbytes(R.choice([1, 3, 20]))
        elif harm < .35:
            x = bytearray(b); x[R.randrange(len(x))] = R.randrange(256); b = bytes(x)
        elif harm < .37:
            b = R.randbytes(R.randrange(60))
        put(k, b, w, h)
    for s in [(168, 168), (300, 1), (1, 300), (2, 700), (255, 2), (256, 2), (257, 3), (3, 257), (1100, 1), (0, 5000), (513, 0)] + ([(256, 256), (1, 256), (200, 176)] if THOROUGH else []):
        for cut in (0, 1, -5):
            b, w, h = heights(R, s)
            put('heights', b[:len(b) - cut] if cut > 0 else b + bytes(-cut), w, h)
    inp, out = os.path.join(wd, 'in'), os.path.join(wd, 'out')
    with open(inp, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    p = harness('mapfile', inp, out, ok=(0, 1, -6, 101, 134))
    lines = open(out).read().split('\n')[:-1]
    if len(lines) != len(cases):
        chk.violate('reading a map file ended the process', case=cases[len(lines)])
    log(len(lines), 'files')
    seen = Counter()
    for ln in lines:
        x = json.loads(ln)
        seen[x['k'] + ' ' + x['got']['k']] += 1
        seen['packed'] += len(x['packed'])
    chk.cov['results'] = dict(seen)
    chk.sample(cases[0]); chk.sample(cases[-8])
    merge.judge(chk, 'MapFilesTrace', lines, wd, prop)
    if not chk.violations and min(seen[k + ' ' + r] for k in ('info', 'doc', 'heights') for r in ('ok', 'err')) < 100:
        raise ToolError('only %s' % dict(seen))
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
