"""C22: dates and durations against the integer arithmetic of spec/TimeTrace.tla."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, merge
from vh import *

EPOCH = 116444736000000000
MAX = (1 << 63) - 1
def dates(R, n):
    day = 864000000000
    out = []
    def put(u, o):
        if -MAX - 1 <= u <= MAX and -MAX - 1 <= o <= MAX:
            out.append({'t': 'date', 'utc': str(u), 'off': str(o)})
    for y in list(range(0, 480, 1)) + [1200, 4000, 8400, 20000]:       # around the turns of years and months
        for d in (0, 58, 59, 60, 365, 366):
            for s in (0, 1, -1, 9, 10, -10):
                if R.random() < .12:
                    put(y * 365 * day + (y // 4) * day + d * day + s * R.choice([1, 10, 10000000]), R.choice([0, 36000000000 * R.randrange(-12, 15), 9000000000]))
    for u in (0, 1, -1, 9, 10, 11, EPOCH, EPOCH - 1, EPOCH + 1, EPOCH - 10, EPOCH + 10, EPOCH - 10000000, MAX, -MAX - 1, MAX - 9, 133254000000000000):
        for o in (0, 1, -1, 10, -10, 36000000000, -180000000000, MAX, -MAX - 1, EPOCH):
            put(u, o)
    for _ in range(n):
        u = R.choice([EPOCH + R.randrange(0, 2 * 10 ** 16), EPOCH + R.randrange(-10 ** 17, 10 ** 17), R.randrange(-MAX, MAX)])
        put(u, R.choice([0, R.randrange(-14, 15) * 36000000000, R.randrange(-10 ** 12, 10 ** 12), R.randrange(-10 ** 9, 10 ** 9) * 10, R.randrange(-MAX, MAX)] if R.random() < .9 else [0]))
    return out

def ranges():
    top = (1 << 24) if THOROUGH else (1 << 21)
    step = 1 << 14
    out = [{'t': 'range', 'from': str(a), 'to': str(a + step), 'step': '1'} for a in range(0, top, step)]
    out.append({'t': 'range', 'from': '-3000', 'to': '3000', 'step': '1'})
    for e in range(21, 63):
        a = 1 << e
        # runs of single values: what is asked at the ends of a run is asked of each loop
        out.append({'t': 'range', 'from': str(a - 40 * (a >> 12)), 'to': str(min(MAX, a + 40 * (a >> 12))), 'step': str((a >> 12) + 1)})
    out.append({'t': 'range', 'from': str(-MAX - 1), 'to': str(MAX), 'step': str((1 << 56) + 1)})
    out.append({'t': 'range', 'from': str(MAX - 5), 'to': str(MAX), 'step': '1'})
    return out

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    build()
    R = random.Random('clock/%d' % SEED)
    cases = dates(R, 40000 if THOROUGH else 6000) + ranges()
    inp, out = os.path.join(wd, 'in'), os.path.join(wd, 'out')
    with open(inp, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    harness('time', inp, out)
    lines = open(out).read().split('\n')[:-1]
    if len(lines) != len(cases):
        raise ToolError('%d of %d cases' % (len(lines), len(cases)))
    for ln in lines:
        x = json.loads(ln)
        if x['k'] == 'date':
            chk.add('dates', 1)
        elif x['got']['k'] == 'ok':
            chk.add('runs_of_equal_seconds', len(x['got']['runs']))
    chk.cov['loops_checked_exhaustively_below'] = (1 << 24) if THOROUGH else (1 << 21)
    chk.sample(cases[0]); chk.sample(cases[-1])
    merge.judge(chk, 'TimeTrace', [l for l in lines], wd, prop)
    chk.assumptions.append('single precision may be off by one part in 2^21')
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
