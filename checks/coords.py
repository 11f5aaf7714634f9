"""C27: map coordinates.

TLC walks a unit over the map of MapCoordsMC and checks what cells, terrain points and positions have to do with each other; the
positions it meets, paired with each other, and random ones on maps of every size are converted by the library and judged by
MapCoordsTrace."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh, merge
from vh import *

def check(prop):
    chk = Check(prop, 'model_checking')
    wd = workdir()
    R = random.Random('coords/%d' % SEED)
    r = tlc('MapCoordsMC', workers=4)
    chk.add('states', r.distinct)
    ks = sorted({int(v) for v in r.marked('VEC')})
    chk.add('positions_of_the_model', len(ks))
    cases = []
    def put(p, w, e):
        cases.append({'id': 'position %d' % len(cases), 'p': p, 'w': w, 'e': e})
    far = lambda: R.choice([R.randrange(256), R.randrange(-300, 300), R.choice([0, 1, -1, 255, 256, 1000, -1000, 262143, -262144])])
    for k in ks:
        put([k, R.choice(ks)], [far(), far()], [R.randrange(256), R.randrange(256)])
        put([R.choice(ks) + 4096 * R.randrange(252), k + 4096 * R.randrange(252)], [far(), far()], [far(), far()])
    for _ in range(40000 if THOROUGH else 4000):
        x = lambda: R.choice([R.randrange(256 << 12), (R.randrange(512) << 11) + R.choice([-1, 0, 1]), R.randrange(1 << 21), R.randrange(-(1 << 14), 1 << 14)])
        put([x(), x()], [far(), far()], [far(), far()])
    lines = parallel('coords', cases, 2, 'converting coordinates')
    merge.judge(chk, 'MapCoordsTrace', lines, wd, prop, procs=4)
    chk.add('positions', len(lines))
    chk.sample(cases[0])
    chk.sample(cases[-1])
    return chk.finish()

if __name__ == '__main__':
    vh.main(lambda: check(sys.argv[1]))
