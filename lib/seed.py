"""Development tool: confirms planted bugs (not used by any check).
  seed.py new ID        - takes the diff of the scratch copy /tmp/sr as seeded/ID/patch.diff and resets the copy
  seed.py confirm ID..  - patch applies to /repo HEAD, builds, stable tests pass, demo 0 without and nonzero with it
  seed.py catch ID..    - applies the patch to /repo, runs the property's check, undoes it
"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'
ENV = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
ENV['PATH'] += ':/root/.cargo/bin'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd, cwd=SR, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy():
    if not os.path.isdir(SR):
        sh('cp -a /repo %s' % SR, '/')
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    sh('git checkout -q -- . && git fetch -q /repo && git checkout -q %s && git reset -q --hard %s' % (head, head))
def build():
    r = sh('cargo test --workspace --no-run --offline')
    return r.returncode == 0, r.stdout[-1500:]
def tests():
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sr.log 2>&1; python3 /opt/vp/results.py /tmp/sr.out cargo:/tmp/sr.log')
    d = json.load(open('/tmp/sr.out'))
    ok = set(d.get('passed', d.get('pass', [])))
    return STABLE <= ok, sorted(STABLE - ok)
def demo(i):
    d = '/tmp/sr-demo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('%s/seeded/%s' % (ROOT, i), d, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh('bash %s/demo.sh' % d, timeout=300)
    shutil.rmtree(d)
    return r.returncode, r.stdout[-600:] if r.returncode not in (0, 101) else ""
def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'new':
        d = '%s/seeded/%s' % (ROOT, ids[0])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
        sh('git checkout -q -- .')
    if cmd == 'confirm':
        copy()
        for i in ids:
            print(i, 'build clean', build()[0], end=' ')
            print('demo clean', demo(i), end=' ', flush=True)
            r = sh('git apply %s/seeded/%s/patch.diff' % (ROOT, i))
            if r.returncode:
                print('APPLY FAILED', r.stdout); continue
            ok, out = build()
            if not ok:
                print('BUILD FAILED', out)
            else:
                print('tests', tests(), 'demo', demo(i), flush=True)
            sh('git checkout -q -- .')
    if cmd == 'catch':
        for i in ids:
            m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
            chk = [c for c in json.load(open(ROOT + '/MANIFEST.json'))['checks'] if c['property'] == m['property']]
            r = sh('git apply %s/seeded/%s/patch.diff' % (ROOT, i), '/repo')
            try:
                if r.returncode or not chk:
                    print(i, 'not run', r.stdout); continue
                r = subprocess.run(chk[0]['quick_cmd'], shell=True, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                v = 'VIOLATION property=%s ' % m['property'] in r.stdout
                print(i, m['property'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, (r.stdout[:300] if v else r.stderr[-800:]).replace('\n', ' | '), flush=True)
            finally:
                sh('git checkout -q -- .', '/repo')
main()
