"""Shared machinery of the checks: building the harnesses from /repo's working tree, running their shards, three-valued
verdicts, evidence files and replay files."""
import hashlib, json, math, multiprocessing, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
JOBS = 8
STABLE = 'stable-x86_64-unknown-linux-gnu'
NIGHTLY = 'nightly'
HOST = 'x86_64-unknown-linux-gnu'


class Inconclusive(Exception):
    pass


class BuildFailed(Inconclusive):
    def __init__(self, what, log):
        Inconclusive.__init__(self, what)
        self.log = log


def env(toolchain=STABLE, **kw):
    e = dict(os.environ)
    e['HOME'] = '/root'
    if '/root/.cargo/bin' not in e.get('PATH', '').split(':'):
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_INCREMENTAL='0')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'MIRIFLAGS'):
        e.pop(k, None)
    e.update(kw)
    return e


def build(crate, kind='native'):
    """Build /verif/harness/<crate> (a path dependency on /repo's crates, so always on the current tree)."""
    d = os.path.join(VERIF, 'harness', crate)
    tgt = os.path.join(VERIF, 'target', kind)
    flags = '--cfg verif_hooks'
    cmd = ['cargo', 'build', '--offline', '--release']
    tc = STABLE
    sub = 'release'
    if kind != 'native':
        tc = NIGHTLY
        san = {'asan': 'address', 'msan': 'memory', 'tsan': 'thread'}[kind]
        flags += ' -Zsanitizer=%s -Cforce-frame-pointers=yes' % san
        if kind == 'msan':
            flags += ' -Zsanitizer-memory-track-origins'
        cmd += ['--target', HOST]
        if kind in ('msan', 'tsan'):
            cmd.insert(2, '-Zbuild-std')
        sub = HOST + '/release'
    t = time.time()
    p = subprocess.run(cmd, cwd=d, env=env(tc, CARGO_TARGET_DIR=tgt, RUSTFLAGS=flags), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise BuildFailed('building harness %s (%s) failed' % (crate, kind), p.stdout)
    name = re.search(r'name = "(\w+)"', open(os.path.join(d, 'Cargo.toml')).read()).group(1)
    say('built %s/%s in %.1f s' % (crate, kind, time.time() - t))
    return os.path.join(tgt, sub, name)


def say(s):
    print('# ' + s, flush=True)


class Shard:
    def __init__(self, path, rc, err, argv):
        self.path, self.rc, self.err, self.argv = path, rc, err, argv

    def lines(self):
        with open(self.path, 'rb') as f:
            for l in f:
                l = l.strip()
                if l:
                    yield l

    def ended(self):
        last = b''
        for l in self.lines():
            last = l
        return last.startswith(b'{"end"')


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier):
        self.pid, self.tier, self.seed = pid, tier, SEED
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'work', '%s-%s' % (pid, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.viols = []          # (what, case)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.rule = ''
        self.assumptions = []
        self.incon = []
        self.cpu_limit = 1500 if self.thorough else 150

    # ---- observations
    def saw(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.distinct.add(hashlib.blake2b(key if isinstance(key, bytes) else repr(key).encode(), digest_size=8).digest())

    def viol(self, what, case):
        self.viols.append((what, case))

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    # ---- running
    def run(self, binary, mode, shards=JOBS, args=(), extra_env=None, cpu=None, crash_ok=False, tag='', jobs=JOBS):
        """Run all shards of a harness in parallel; crashes are attributed to the case running at the time."""
        cpu = cpu or self.cpu_limit
        base = [binary, mode, '--seed', str(self.seed), '--shards', str(shards)] + list(args)
        if self.thorough:
            base.append('--thorough')
        todo = list(range(shards))
        running, done = {}, []
        failing = 0
        e = env(**(extra_env or {}))
        e['RUST_BACKTRACE'] = '0'
        while todo or running:
            while todo and len(running) < jobs:
                i = todo.pop(0)
                out = os.path.join(self.work, '%s%s.%d.jsonl' % (mode, tag, i))
                err = open(out + '.err', 'wb')
                argv = base + ['--shard', str(i), '--out', out]
                open(out, 'w').close()
                p = subprocess.Popen(argv, env=e, stdout=subprocess.DEVNULL, stderr=err, cwd=self.work,
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu * (8 if self.multi else 1), cpu * (8 if self.multi else 1) + 5)))
                running[i] = (p, out, argv, time.time())
            time.sleep(0.02)
            for i in list(running):
                p, out, argv, t = running[i]
                if p.poll() is None:
                    if time.time() - t > (4 * cpu + 60 if self.thorough else 420):
                        p.kill()
                        p.wait()
                    else:
                        continue
                del running[i]
                err = open(out + '.err', 'rb').read().decode('utf-8', 'replace')
                done.append(Shard(out, p.returncode, err, argv))
                # the verdict is settled once a few shards have failed: spare the rest
                if todo:
                    failing += p.returncode != 0 or b'{"viol"' in open(out, 'rb').read()
                    if failing >= 4:
                        todo = []
        done.sort(key=lambda s: s.path)
        if not crash_ok:
            for s in done:
                if not self.viols:
                    self.diagnose(s, e)
        return done

    multi = False

    def diagnose(self, s, e):
        """A shard that did not finish: decide whether the code under test is to blame."""
        if s.rc == 0 and s.ended():
            return
        hang = s.rc in (-signal.SIGXCPU, -signal.SIGKILL)
        if s.rc == 101 and '/verif/harness' in s.err and '/repo/' not in s.err:
            self.incon.append('harness panicked: ' + s.err[-400:])
            return
        # reproduce with tracing to find the case
        tr = s.path + '.trace'
        argv = [tr if a == s.path else a for a in s.argv] + ['--trace']
        open(tr, 'w').close()
        err = open(tr + '.err', 'wb')
        p = subprocess.Popen(argv, env=e, stdout=subprocess.DEVNULL, stderr=err, cwd=self.work)
        stuck_since, size, t = time.time(), -1, time.time()
        cpu0 = 0.0
        stuck = False
        while p.poll() is None:
            time.sleep(0.1)
            n = os.path.getsize(tr)
            c = cpu_of(p.pid)
            if n != size:
                size, cpu0 = n, c
            # no case of the workload needs anywhere near this much processor time
            if c - cpu0 > STUCK_CPU:
                stuck = True
                p.kill()
                p.wait()
                break
            if time.time() - t > 250 + (1350 if self.thorough else 0):
                p.kill()
                p.wait()
                self.incon.append('shard did not finish and could not be reproduced in time: rc %s' % s.rc)
                return
        last = None
        for l in open(tr, 'rb'):
            if l.startswith(b'{"begin"'):
                last = l
        try:
            last = json.loads(last)['begin'] if last else '(before the first case)'
        except ValueError:
            last = repr(last)
        msg = open(tr + '.err', 'rb').read().decode('utf-8', 'replace')[-1500:]
        if stuck:
            self.viol('no answer after %d s of processor time in one case' % STUCK_CPU, {'case': last, 'argv': argv})
        elif p.returncode == 0:
            self.incon.append('shard failed once (rc %s) but not when repeated: %s' % (s.rc, s.err[-300:]))
        elif p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT, -signal.SIGFPE):
            self.viol('crashed with signal %d: %s' % (-p.returncode, msg), {'case': last, 'argv': argv})
        elif p.returncode == 101 and '/repo/' in msg:
            self.viol('panicked: ' + msg, {'case': last, 'argv': argv})
        else:
            self.incon.append('shard ended with %s: %s' % (p.returncode, msg[-400:]))

    def pool(self, fn, items):
        """Offline checkers run one process per event log; each returns a dict merged into this context."""
        items = list(items)
        with multiprocessing.Pool(min(JOBS, max(1, len(items)))) as pool:
            for r in pool.imap(fn, items):
                self.merge(r)

    def merge(self, r):
        self.evaluations += r.evaluations
        self.distinct |= r.distinct
        self.viols += r.viols
        self.incon += r.incon
        for s in r.samples:
            self.sample(s)
        for k, v in r.extra.items():
            self.count(k, v)

    # ---- ending
    def finish(self, level='exploration', need=1):
        if self.evaluations < need and not self.viols:
            self.incon.append('observed only %d events, fewer than the %d this run must see' % (self.evaluations, need))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ['(none)'])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viols))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        known, new = split_known(self.pid, self.viols)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if new:
            os.makedirs(os.path.join(VERIF, 'work', 'replay'), exist_ok=True)
            path = os.path.join(VERIF, 'work', 'replay', '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, count=len(new),
                               violations=[dict(what=w, case=c) for w, c in new[:20]]), f, indent=1, default=str)
            for w, c in new[:3]:
                say('violation: %s | %s' % (w[:400], str(c)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
            self.clean()
            return 1
        self.clean()
        if self.incon:
            for i in self.incon[:5]:
                sys.stderr.write('inconclusive: %s\n' % i)
            return 2
        say('%s %s: held on %d evaluations (%d distinct) in %.1f s' % (self.pid, self.tier, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0

    def clean(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)


STUCK_CPU = 40


def cpu_of(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


def split_known(pid, viols):
    """Violations whose signature the committed known-findings file lists are reported as such, not as alarms."""
    path = os.path.join(VERIF, 'known-findings.json')
    entries = json.load(open(path)).get('known', []) if os.path.exists(path) else []
    entries = [e for e in entries if e['property'] == pid]
    known, new = [], []
    for w, c in viols:
        for e in entries:
            if e['signature'] == w or e['signature'] == str(c):
                if e['what'] not in known:
                    known.append(e['what'])
                break
        else:
            new.append((w, c))
    return known, new


class Part:
    """What one offline checker process found."""

    def __init__(self):
        self.evaluations, self.distinct, self.viols, self.incon, self.samples, self.extra = 0, set(), [], [], [], {}

    saw = Ctx.saw
    viol = Ctx.viol
    count = Ctx.count

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s)


def events(path):
    with open(path, 'rb') as f:
        for l in f:
            if not l.startswith(b'{'):
                continue
            try:
                yield json.loads(l)
            except ValueError:
                return  # the tail of a crashed shard, handled by diagnose


# ---- statistics
def chi2_sf(x, k):
    """Upper tail of the chi-square distribution with k degrees of freedom (regularised incomplete gamma)."""
    if x <= 0:
        return 1.0
    a, z = k / 2.0, x / 2.0
    if z < a + 1:
        term = s = 1.0 / a
        n = a
        for _ in range(100000):
            n += 1
            term *= z / n
            s += term
            if term < s * 1e-15:
                break
        return max(0.0, 1.0 - s * math.exp(-z + a * math.log(z) - math.lgamma(a)))
    tiny = 1e-300
    b = z + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = d if abs(d) > tiny else tiny
        c = b + an / c
        c = c if abs(c) > tiny else tiny
        d = 1 / d
        delta = d * c
        h *= delta
        if abs(delta - 1) < 1e-14:
            break
    return math.exp(-z + a * math.log(z) - math.lgamma(a)) * h


ALPHA = 1e-10  # significance of one statistical alarm; a few thousand tests per run keep the false-alarm rate below 1e-6


def poisson_tails(o, mean):
    """Two-sided tail probability of a count (a binomial one has lighter tails, so this errs on the quiet side)."""
    if o > mean:
        k, step, total = o, 1, 0.0
    else:
        k, step, total = o, -1, 0.0
    while k >= 0:
        t = math.exp(-mean + k * math.log(mean) - math.lgamma(k + 1))
        total += t
        if t < total * 1e-9:
            break
        k += step
    return min(1.0, 2 * total)


def chi2_uniform(counts, cells=None, probs=None):
    """p-value of the hypothesis that the histogram `counts` (list) comes from `probs` (default uniform)."""
    n = sum(counts)
    k = cells or len(counts)
    counts = list(counts) + [0] * (k - len(counts))
    x = 0.0
    for i, c in enumerate(counts):
        e = n * (probs[i] if probs else 1.0 / k)
        x += (c - e) ** 2 / e
    return chi2_sf(x, k - 1)


def chi2_same(a, b):
    """p-value of the hypothesis that two histograms (dicts) come from one distribution; sparse cells are pooled."""
    na, nb = sum(a.values()), sum(b.values())
    keys = sorted(set(a) | set(b), key=str)
    cells, pa, pb = [], 0, 0
    for k in keys:
        x, y = a.get(k, 0), b.get(k, 0)
        if (x + y) * min(na, nb) / (na + nb) < 8:
            pa += x
            pb += y
        else:
            cells.append((x, y))
    if pa + pb:
        cells.append((pa, pb))
    if len(cells) < 2:
        return 1.0
    t = na + nb
    x2 = 0.0
    for x, y in cells:
        ea, eb = (x + y) * na / t, (x + y) * nb / t
        if ea > 0 and eb > 0:
            x2 += (x - ea) ** 2 / ea + (y - eb) ** 2 / eb
    return chi2_sf(x2, len(cells) - 1)
