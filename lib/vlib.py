"""Runner shared by all checks: builds the code under test, records executions,
has TLC check them against the specification, reports and writes evidence."""
import os, sys, json, re, subprocess, shutil, time, random, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = V + '/spec'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8
CFLAGS = ['-g', '-O2', '-Wall', '-DSAFE_CLEAN', '-I' + REPO + '/include']


class MachineryError(Exception):
    pass


class Block:
    """A self-contained piece of a driver script: uses and clears its own handles."""
    def __init__(self, name, lines, weight=None):
        self.name, self.lines = name, lines
        self.weight = weight if weight is not None else len(lines)


class Check:
    def __init__(self, prop, tier=None, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%d/%s' % (prop, self.seed, self.tier))
        self.out = '%s/out/%s' % (V, prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.stats = dict(states=0, transitions=0, traces=0, events=0, ops={}, models=[], tlc_runs=0)
        self.samples = []
        self.extra = {}
        self._cls = None

    # ---------------------------------------------------------------- building
    def run(self, cmd, **kw):
        kw.setdefault('capture_output', True)
        kw.setdefault('text', True)
        return subprocess.run(cmd, **kw)

    def must(self, cmd, **kw):
        r = self.run(cmd, **kw)
        if r.returncode:
            raise MachineryError('%s failed:\n%s%s' % (' '.join(map(str, cmd))[:300], (r.stdout or '')[-3000:], (r.stderr or '')[-3000:]))
        return r

    def classes(self):
        if not self._cls:
            d = self.out + '/cls'
            os.makedirs(d, exist_ok=True)
            self.must(['javac', '-nowarn', '-cp', JARS, '-d', d, SPEC + '/java/BigOverrides.java'])
            self._cls = d
        return self._cls

    def lib_sources(self):
        return sorted(glob.glob(REPO + '/src/*.c'))

    def build_driver(self, name='drv', cflags=(), sources=None, libs=(), cc='gcc', drv='driver/drv.c'):
        exe = '%s/%s' % (self.out, name)
        srcs = list(sources if sources is not None else self.lib_sources()) + [V + '/' + drv]
        objs = []
        od = exe + '.o'
        os.makedirs(od, exist_ok=True)
        def one(s):
            o = '%s/%s.o' % (od, os.path.basename(s))
            self.must([cc] + CFLAGS + list(cflags) + ['-c', s, '-o', o])
            return o
        with ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(one, srcs))
        self.must([cc] + CFLAGS + list(cflags) + objs + ['-o', exe, '-lgmp'] + list(libs))
        shutil.rmtree(od)
        return exe

    # ---------------------------------------------------------------- running
    def record(self, exe, lines, trace, alarm=60, env=None, timeout=800):
        """Run a driver script; the events it logs go to `trace`.  An abnormal end becomes a CRASH event.
        A command that does not return counts only if it does not return twice, the second time in twice the time."""
        rc = self._record(exe, lines, trace, alarm, env, timeout)
        if rc in (14, -14):
            rc = self._record(exe, lines, trace, 2 * alarm, env, timeout)
        return rc

    def _record(self, exe, lines, trace, alarm, env, timeout):
        e = dict(os.environ)
        e.update(env or {})
        with open(trace, 'w') as f:
            try:
                p = subprocess.run([exe, str(alarm)], input='\n'.join(lines) + '\n', stdout=f,
                                   stderr=subprocess.PIPE, text=True, env=e, timeout=timeout)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired as x:
                rc, err = 'timeout', ''
        if rc != 0:
            data = open(trace).read()
            if data and not data.endswith('\n'):
                data = data[:data.rfind('\n') + 1]
            n = data.count('\n')
            cmds = [l for l in lines if l.strip() and not l.startswith('#')]
            at = cmds[n] if n < len(cmds) else 'end'
            ev = dict(op='CRASH', a=[str(rc), at[:300]], r=[], c=[], k=[], err=err[-1500:])
            with open(trace, 'w') as f:
                f.write(data + json.dumps(ev) + '\n')
        return rc

    def tlc(self, module, cfg, env=None, timeout=900, workers=1, args=(), xss='64m', xmx='3g', overrides=True):
        md = tempfile.mkdtemp(prefix='md', dir=self.out)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss' + xss, '-Xmx' + xmx]
        cp = JARS
        if overrides:
            cmd += ['-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigOverrides']
            cp += ':' + self.classes()
        cmd += ['-DTLA-Library=' + self.out, '-cp', cp, 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md,
                '-config', cfg + '.cfg'] + list(args) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
            rc, o = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            rc, o = 'timeout', (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
        shutil.rmtree(md, ignore_errors=True)
        self.stats['tlc_runs'] += 1
        m = re.findall(r'(\d+) states generated, (\d+) distinct', o)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r'depth of the complete state graph search is (\d+)', o)
        depth = int(m[-1]) if m else 0
        ok = rc == 0 and 'No error has been found' in o
        return dict(ok=ok, rc=rc, out=o, gen=gen, distinct=dist, depth=depth)

    def _infra(self, r):
        """TLC itself failed (out of memory, killed, not started): says nothing about the trace."""
        o = r['out']
        if r['rc'] == 'timeout':
            return 'timeout'
        for s in ('OutOfMemoryError', 'StackOverflowError', 'Could not reserve', 'Parsing or semantic analysis failed', 'insufficient memory',
                  'Error: Could not find or load main class', 'Could not create the Java'):
            if s in o:
                return s
        if 'Starting...' not in o or (r['rc'] not in (0, 10, 11, 12, 13, 75, 76, 77, 150, 151, 152, 153, 255, 1, 14)):
            return 'rc %s' % r['rc']
        return None

    def validate(self, trace, module='EccTrace', cfg=None, env=None, **kw):
        """(accepted, index of the first event not allowed, tlc output)"""
        e = dict(TRACE=trace)
        e.update(env or {})
        r = None
        for attempt in (1, 2, 3):
            r = self.tlc(module, cfg or module, env=e, **kw)
            if r['ok'] or not self._infra(r):
                break
        else:
            if self._infra(r) != 'StackOverflowError':
                raise MachineryError('TLC failed on %s: %s\n%s' % (trace, self._infra(r), r['out'][-3000:]))
        n = sum(1 for _ in open(trace))
        if r['ok']:
            self.stats['states'] += r['distinct']
            self.stats['transitions'] += max(r['gen'] - 1, 0)
            self.stats['traces'] += 1
            return True, n, r['out']
        depth = r['depth']
        if not depth:   # evaluation error: the position is the number of states printed / generated so far
            depth = len(re.findall(r'^State \d+:', r['out'], re.M)) or r['distinct'] or 1
        if 'Invariant' in r['out'] and 'is violated' in r['out']:
            depth = max(len(re.findall(r'^State \d+:', r['out'], re.M)) - 1, 1)
        return False, depth, r['out']

    # ---------------------------------------------------------------- blocks
    def pack(self, blocks, k):
        bins = [[0, i, []] for i in range(max(1, min(k, len(blocks))))]
        for b in sorted(blocks, key=lambda b: -b.weight):
            t = min(bins, key=lambda x: (x[0], x[1]))
            t[0] += b.weight
            t[2].append(b)
        for t in bins:
            self.rng.shuffle(t[2])
        return [t[2] for t in bins]

    def run_blocks(self, exe, blocks, module='EccTrace', cfg=None, packs=NPROC, alarm=60, env=None, label='t', tlc_env=None, post=None):
        bins = self.pack(blocks, packs)
        def work(item):
            i, bs = item
            lines = [l for b in bs for l in b.lines]
            trace = '%s/%s%d.ndjson' % (self.out, label, i)
            self.record(exe, lines, trace, alarm=alarm, env=env)
            if post:
                post(trace)
            self._count(trace)
            ok, at, o = self.validate(trace, module, cfg, env=tlc_env)
            if ok:
                os.remove(trace)
                return None
            return (i, bs, trace, at, o)
        with ThreadPoolExecutor(NPROC) as ex:
            bad = [x for x in ex.map(work, list(enumerate(bins))) if x]
        for i, bs, trace, at, o in bad[:3]:
            self._report(exe, bs, trace, at, o, module, cfg, alarm, env, tlc_env, post)
        for x in bad[3:]:
            self.violations.append(x[2])

    def _count(self, trace):
        first = True
        for l in open(trace):
            try:
                e = json.loads(l)
            except ValueError:
                continue
            self.stats['events'] += 1
            self.stats['ops'][e['op']] = self.stats['ops'].get(e['op'], 0) + 1
            if len(self.samples) < 6 and len(l) < 700 and (e['c'] or e['r']) and self.rng.random() < .05:
                self.samples.append(e)

    def _report(self, exe, bs, trace, at, o, module, cfg, alarm, env, tlc_env, post):
        # a rejection counts only if TLC repeats it on the recorded trace
        # (an acceptance is one: every recorded call was found to be allowed; a run of TLC which ended early says nothing)
        ok, at2, o2 = self.validate(trace, module, cfg, env=tlc_env)
        if ok:
            print('  note: TLC did not repeat that it rejects %s:\n%s' % (os.path.basename(trace), o[-3000:]))
            return
        n = 0
        blk = bs[-1]
        for b in bs:
            m = len([l for l in b.lines if l.strip() and not l.startswith('#')])
            if at2 <= n + m:
                blk = b
                break
            n += m
        # try to reduce to the block alone
        small = '%s/violation-%d.ndjson' % (self.out, len(self.violations) + 1)
        self.record(exe, blk.lines, small, alarm=alarm, env=env)
        if post:
            post(small)
        try:
            ok3, at3, o3 = self.validate(small, module, cfg, env=tlc_env)
        except MachineryError:
            ok3 = True
        if ok3:
            shutil.copy(trace, small)
            lines, at3, o3 = [l for b in bs for l in b.lines], at2, o2
        else:
            lines = blk.lines
        self.violation('block %s' % blk.name, small, at3, o3, lines)

    def violation(self, what, trace, at, tlcout, lines=None):
        d = '%s/replay-%d' % (self.out, len(self.violations) + 1)
        os.makedirs(d, exist_ok=True)
        evs = open(trace).read().splitlines() if trace and os.path.exists(trace) else []
        if trace and os.path.exists(trace):
            shutil.copy(trace, d + '/trace.ndjson')
        if lines is not None:
            open(d + '/script.txt', 'w').write('\n'.join(lines) + '\n')
        open(d + '/tlc.txt', 'w').write(tlcout or '')
        ev = evs[at - 1] if 0 < at <= len(evs) else '(end of trace)'
        open(d + '/README', 'w').write(
            'property %s: %s\nThe first %d of %d recorded calls are allowed by the specification; call %d is not:\n%s\n'
            'script.txt drives the code; trace.ndjson is what it did; tlc.txt is the checker\'s output.\n'
            % (self.prop, what, at - 1, len(evs), at, ev[:4000]))
        self.violations.append(d)
        print('  rejected: %s, event %d: %s' % (what, at, ev[:600]))

    def fail(self, what, detail=''):
        d = '%s/replay-%d' % (self.out, len(self.violations) + 1)
        os.makedirs(d, exist_ok=True)
        open(d + '/README', 'w').write('property %s: %s\n%s\n' % (self.prop, what, detail))
        self.violations.append(d)
        print('  ' + what)

    # ---------------------------------------------------------------- models
    def model(self, module, cfg=None, workers=4, timeout=850, minstates=1, **kw):
        """Check a specification module by itself; it must be error free (a failure here is a machinery error:
        the specification, not the code, is wrong)."""
        for m in ('BigInt', 'Armour'):
            # the same definitions where no override is installed
            t = open('%s/%s.tla' % (SPEC, m)).read()
            open('%s/Pure%s.tla' % (self.out, m), 'w').write(re.sub(r'MODULE %s' % m, 'MODULE Pure' + m, t, count=1))
        r = self.tlc(module, cfg or module, workers=workers, timeout=timeout, **kw)
        if not r['ok'] or r['distinct'] < minstates:
            raise MachineryError('model %s/%s failed:\n%s' % (module, cfg, r['out'][-4000:]))
        self.stats['states'] += r['distinct']
        self.stats['transitions'] += r['gen']
        self.stats['models'].append(dict(module=module, cfg=cfg or module, states=r['distinct'], generated=r['gen'], depth=r['depth']))
        return r

    # ---------------------------------------------------------------- known findings
    def known_findings(self):
        out = []
        for l in open(V + '/known-findings.txt'):
            m = re.match(r'KNOWN-FINDING: property=(\S+) id=(\S+) (.*)', l)
            if m and m[1] == self.prop:
                out.append((m[2], m[3].strip()))
        return out

    def probe_known(self, exe, probes, module='EccTrace', cfg=None, alarm=60, env=None):
        """probes: id -> Block.  Listed finding whose block is still rejected: KNOWN-FINDING line.
        A block that is rejected and not listed: violation.  Otherwise counted as an accepted trace."""
        listed = dict(self.known_findings())
        for kid, b in probes.items():
            trace = '%s/known-%s.ndjson' % (self.out, kid)
            self.record(exe, b.lines, trace, alarm=alarm, env=env)
            self._count(trace)
            ok, at, o = self.validate(trace, module, cfg)
            if ok:
                if kid in listed:
                    print('  note: the listed finding %s does not show' % kid)
                continue
            if kid in listed:
                self.known.append(kid)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, listed[kid]))
            else:
                self.violation('probe %s' % kid, trace, at, o, b.lines)

    # ---------------------------------------------------------------- end
    def finish(self):
        wall = time.time() - self.t0
        s = self.stats
        cov = dict(states=s['states'], transitions=s['transitions'], traces_validated_against_impl=s['traces'],
                   events=s['events'], events_by_operation=s['ops'], models=s['models'], tlc_runs=s['tlc_runs'],
                   known_findings=self.known, samples=self.samples[:6] or ['(models only)'])
        cov.update(self.extra)
        os.makedirs(V + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (V, self.prop), 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                           wall_s=round(wall, 1)), f, indent=1)
        for f in glob.glob(self.out + '/drv*') + glob.glob(self.out + '/cls'):
            (shutil.rmtree if os.path.isdir(f) else os.remove)(f)
        if self.violations:
            for v in self.violations[:3]:
                print('VIOLATION property=%s replay=%s' % (self.prop, v))
            return 1
        print('%s %s: ok, %d traces, %d events, %d states, %.1f s' % (self.prop, self.tier, s['traces'], s['events'], s['states'], wall))
        shutil.rmtree(self.out, ignore_errors=True)
        return 0


def main(checks):
    """checks: property -> function(Check)"""
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    c = Check(prop, tier)
    try:
        checks[prop](c)
        rc = c.finish()
    except MachineryError as e:
        if c.violations:      # something was already found; the rest could not be completed
            print('(incomplete: %s)' % str(e)[:500])
            rc = c.finish()
        else:
            print('MACHINERY: ' + str(e))
            rc = 2
    sys.exit(rc)
