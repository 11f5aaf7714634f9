"""Shared plumbing of the checks: build, TLC, harness, evidence, verdicts."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
SPEC = os.path.join(ROOT, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()

class ToolError(Exception):
    pass

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def cargo_env():
    e = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    e['PATH'] = e.get('PATH', '') + ':/root/.cargo/bin'
    e.pop('RUST_LOG', None)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    return e

def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def build():
    """Builds the harness against the current tree of /repo; returns the path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, 'stamp')
        want = tree_hash([REPO + '/src', REPO + '/Cargo.toml', REPO + '/assets/BalanceData', ROOT + '/harness/src', ROOT + '/harness/Cargo.toml'])
        exe = os.path.join(BUILD, 'target', 'debug', 's2vh')
        have = open(stamp).read() if os.path.exists(stamp) else ''
        if have == want and os.path.exists(exe):
            return exe
        warm = os.path.exists(exe)
        # Neither file times nor include_dir! assets are reliable triggers: drop the crate's own products.
        if warm:
            subprocess.run(['cargo', 'clean', '--offline', '-p', 's2protocol', '-p', 's2vh'], cwd=ROOT + '/harness', env=cargo_env(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.unlink(stamp)
        t = time.time()
        p = subprocess.run(['cargo', 'build', '--offline'], cwd=ROOT + '/harness', env=cargo_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError('harness build failed:\n' + p.stdout[-6000:])
        log('harness built (%s) in %.1fs' % ('warm' if warm else 'cold', time.time() - t))
        with open(stamp, 'w') as f:
            f.write(want)
        return exe

HARNESS_S = 400
def limit():
    """Runaway allocations of the code under test end as an abort of the harness, not of something else."""
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))

def died(rc, what, err):
    """An uncaught panic (3), an abort or a crash on legal input is the code's doing; other ends are not."""
    if rc == 3 or rc in (-4, -5, -6, -7, -8, -11):
        raise Died('the code under test ended the process (%s) in %s: %s' % (rc, what, err[-1500:]))
    if rc != 0:
        raise ToolError('harness %s: exit %d\n%s' % (what, rc, err[-3000:]))

def harness(*args, timeout=HARNESS_S, ok=(0,), cwd=None, env=None):
    try:
        p = subprocess.run([build(), *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd,
                           env=dict(os.environ, **(env or {})), preexec_fn=limit)
    except subprocess.TimeoutExpired:
        raise Died('the code under test did not come to an end within %d s in %s (all of it takes seconds)' % (timeout, args[0]))
    if p.returncode not in ok:
        died(p.returncode, args[0], p.stderr)
    return p

def parallel(cmd, cases, procs, what, name=None, timeout=HARNESS_S, xargs=()):
    """Runs the cases in several harness processes; a case that ends its process is a violation by itself."""
    hs, lines = [], []
    for j in range(procs):
        part = cases[j::procs]
        if part:
            d = os.path.join(workdir(), '%s%d' % (name or cmd, j))
            os.makedirs(d, exist_ok=True)
            with open(d + '/in', 'w') as f:
                for c in part:
                    f.write(json.dumps(c) + '\n')
            with open(d + '/err', 'w') as err:
                hs.append((part, d, subprocess.Popen([build(), cmd, d + '/in', d + '/out', d, *xargs], stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limit)))
    for part, d, p in hs:
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'no end within %d s' % timeout
        err = open(d + '/err', errors='replace').read()
        done = open(d + '/out').read().split('\n')[:-1] if os.path.exists(d + '/out') else []
        lines += done
        if rc in (1, 2, -9, -15):
            raise ToolError('harness %s: exit %s\n%s' % (cmd, rc, err[-2000:]))
        if rc == 0 and len(done) != len(part):
            raise ToolError('harness %s: %d lines for %d cases' % (cmd, len(done), len(part)))
        if rc:
            c = part[len(done)] if len(done) < len(part) else None
            _check.violate('%s ended the process (%s): %s' % (what, rc, err[-300:]), case=c if len(json.dumps(c)) < 20000 else c['id'])
    return lines

_wd = None
def workdir(name=None):
    """A scratch directory of this run (removed and made anew)."""
    global _wd
    if _wd is None:
        _wd = os.path.join(BUILD, 'run', name or 'x')
        shutil.rmtree(_wd, ignore_errors=True)
        os.makedirs(_wd)
    return _wd

class Tlc:
    def __init__(self, out, rc, states, distinct, secs):
        self.out, self.rc, self.states, self.distinct, self.secs = out, rc, states, distinct, secs
    def marked(self, tag):
        """Payloads of lines that the specification printed with a leading tag."""
        r = []
        for ln in self.out.splitlines():
            if ln.startswith('"@' + tag + ' ') and ln.endswith('"'):
                r.append(json.loads(ln)[len(tag) + 2:])
        return r

def tlc_start(module, cfg, env=None, workers=1, xmx='3g', dirname=None, extra=()):
    d = os.path.join(workdir(), 'tlc-' + (dirname or module + '-' + str(len(os.listdir(workdir())))))
    os.makedirs(d, exist_ok=True)
    out = open(os.path.join(d, 'out'), 'w+')
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', '-Xmx' + xmx, '-Xss64m', '-Dfile.encoding=UTF-8', '-cp', JARS, 'tlc2.TLC', '-nowarning', '-metadir', d, '-workers', str(workers), *extra,
           '-config', os.path.join(SPEC, cfg), os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ, **(env or {}))
    e['LC_ALL'] = 'C.UTF-8'
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=d)
    return (p, out, d, time.time(), module)

def tlc_wait(h, timeout=800, allow_violation=False):
    p, out, d, t, module = h
    try:
        p.wait(timeout=max(1, timeout - (time.time() - t)))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise ToolError('TLC timed out on ' + module)
    out.seek(0)
    s = out.read()
    out.close()
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', s, re.M)
    r = Tlc(s, p.returncode, int(m[-1][0]) if m else 0, int(m[-1][1]) if m else 0, time.time() - t)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0 and not allow_violation:
        raise ToolError('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, '\n'.join(l for l in s.splitlines() if not l.startswith('"@'))[-5000:]))
    return r

def tlc(module, cfg=None, timeout=800, allow_violation=False, **kw):
    return tlc_wait(tlc_start(module, cfg or module + '.cfg', **kw), timeout, allow_violation)

def known_findings(prop):
    """Lines `known: property=<id> match=<json string> <text>` of known_findings.txt."""
    r = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) match=("(?:[^"\\]|\\.)*") (.*)', ln)
            if m and m.group(1) == prop:
                r.append((json.loads(m.group(2)), m.group(3)))
    return r

class Died(Exception):
    pass

_check = None
class Check:
    def __init__(self, prop, level):
        global _check
        _check = self
        self.prop, self.level = prop, level
        self.cov = {'samples': []}
        self.violations = []      # dicts: what, replay contents
        self.assumptions = []
        workdir(prop)
        self.findings = known_findings(prop)
    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, s, cap=4):
        if len(self.cov['samples']) < cap:
            self.cov['samples'].append(s)
    def violate(self, what, **data):
        self.violations.append(dict(what=what, **data))
    def finish(self):
        fresh, hit = [], {}
        for v in self.violations:
            for match, text in self.findings:
                if match in v['what']:
                    hit[match] = text
                    break
            else:
                fresh.append(v)
        for match, text in self.findings:
            if match in hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - T0, 2), violations=len(fresh))
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        with open(ROOT + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1)
        if fresh:
            os.makedirs(ROOT + '/replay', exist_ok=True)
            path = ROOT + '/replay/%s.json' % self.prop
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, seed=SEED, tier=TIER, total=len(fresh), violations=fresh[:200]), f, indent=1)
            for v in fresh[:3]:
                print('  ' + v['what'][:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            rc = 1
        else:
            print('OK property=%s tier=%s %s' % (self.prop, TIER, {k: v for k, v in self.cov.items() if isinstance(v, int)}))
            rc = 0
        shutil.rmtree(workdir(), ignore_errors=True)
        return rc

def main(fn):
    try:
        rc = fn()
    except Died as e:
        _check.violate(str(e))
        rc = _check.finish()
    except ToolError as e:
        print('TOOL ERROR: %s' % e, file=sys.stderr)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print('TOOL ERROR: %s' % e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
