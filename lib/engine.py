"""Runs plans through the driver, traces through TLC, and turns verdicts into the exit code of a check."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
import build
VERIF = build.VERIF
NCPU = os.cpu_count() or 4

class CheckError(Exception):
    pass

class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.quick = self.tier != 'thorough'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='tind-%s-' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.cov = {}
        self.violations = []      # (key, description, replay dict)
        self.known = load_known(prop)
        self.known_seen = {}
        self.src = self.exe = None

    # ---- building
    def build_lib(self, variant='rel'):
        if not self.src:
            self.src = build.sources(self.work + '/src')
        self.exe = build.driver(self.src, self.work, variant)
        return self.exe
    def start_java(self):
        self.cls = build.java(self.work + '/cls')
    def prepare(self, variant='rel'):
        with cf.ThreadPoolExecutor(2) as ex:
            j = ex.submit(self.start_java)
            self.build_lib(variant)
            j.result()

    # ---- executing plans
    def record(self, plans, exe=None, limit=20, env=None, jobs=NCPU):
        """plans: list of block texts -> list of recorded blocks (JSON lines)"""
        exe = exe or self.exe
        k = min(jobs, max(1, len(plans)))
        def one(i):
            p = subprocess.run((exe if isinstance(exe, list) else [exe]) + [str(limit)], input='\n'.join(plans[i::k]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=dict(os.environ, **(env or {})))
            if p.returncode:
                raise CheckError('driver failed (%d): %s' % (p.returncode, p.stderr[-2000:]))
            self.last_err = p.stderr[-4000:]
            return p.stdout.split('\n')[:-1]
        with cf.ThreadPoolExecutor(k) as ex:
            parts = list(ex.map(one, range(k)))
        out = [None] * len(plans)
        for i in range(k):
            if len(parts[i]) != len(plans[i::k]):
                raise CheckError('driver lost blocks: %d of %d' % (len(parts[i]), len(plans[i::k])))
            out[i::k] = parts[i]
        return out

    # ---- TLC
    def tlc(self, module, cfg=None, trace=None, workers=NCPU, args=(), props=(), heap='6g', timeout=800, name=None):
        name = name or module
        rep = os.path.join(self.work, name + '.report')
        self.runs = getattr(self, 'runs', 0) + 1
        if os.path.exists(rep):
            os.unlink(rep)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tind.Overrides',
               '-DTLA-Library=%s/spec' % VERIF, '-Dtind.report=' + rep]
        if trace:
            cmd.append('-Dtind.trace=' + trace)
        cmd += list(props)
        cmd += ['-cp', build.TLA + ':' + self.cls, 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE', '-metadir', self.work + '/meta-%s-%d' % (name, self.runs),
                '-workers', str(workers), '-config', cfg or '%s/spec/%s.cfg' % (VERIF, module), *args, '%s/spec/%s.tla' % (VERIF, module)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=self.work)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', re.sub(r'(?<=\d),(?=\d)', '', p.stdout))
        res = dict(rc=p.returncode, out=p.stdout, states=int(m.group(2)) if m else 0, generated=int(m.group(1)) if m else 0, report=[])
        if os.path.exists(rep):
            with open(rep) as f:
                res['report'] = [json.loads(l) for l in f if l.strip()]
        return res

    # ---- verdicts
    def violation(self, key, what, replay):
        """key identifies the failing input/site; listed findings are matched on it."""
        for k in self.known:
            if re.fullmatch(k['match'], key):
                self.known_seen.setdefault(k['match'], []).append(key)
                return
        self.violations.append((key, what, replay))

    def finish(self, coverage, assumptions=()):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        for k in self.known:
            if k['match'] in self.known_seen:
                print('KNOWN-FINDING: property=%s %s (%d cases)' % (self.prop, k['what'], len(self.known_seen[k['match']])))
        ev = dict(property=self.prop, tier='quick' if self.quick else 'thorough', seed=self.seed, level=self.level, coverage=coverage,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(VERIF + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if self.violations:
            rc = 1
            d = VERIF + '/evidence/replay-%s.json' % self.prop
            with open(d, 'w') as f:
                per, keep = {}, []       # at most a few of every kind
                for k, w, r in self.violations:
                    c = ':'.join(k.split(':')[:3]); per[c] = per.get(c, 0) + 1
                    if per[c] <= 6: keep.append(dict(key=k, what=w, replay=r))
                json.dump(keep, f, indent=1)
            for k, w, _ in self.violations[:20]:
                print('  %s: %s' % (k, w))
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
        print('%s: %d violations, %s, %.1f s' % (self.prop, len(self.violations), summary(coverage), time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc

def summary(c):
    return ', '.join('%s=%s' % (k, v) for k, v in c.items() if isinstance(v, (int, bool)))

def load_known(prop):
    """known_findings.txt: 'finding: property=<id> match=<regex> <text>' (and 'fixed:' entries, which suppress nothing)"""
    res = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                res.append(dict(match=m.group(2), what=m.group(3).strip()))
    return res
