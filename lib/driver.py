import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
import plan

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
NCPU = min(8, os.cpu_count() or 8)
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
REPO_FRAMES = ('github.com/powerpuffpenguin/sessionid',)


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def build(script='build.sh'):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(VERIF, 'tools', script)], capture_output=True, text=True)
        if r.returncode != 0:
            log(r.stdout, r.stderr)
            raise NoAnswer('the harness does not build against /repo')


# ---------------------------------------------------------------- running the harness
class Crash:
    def __init__(self, trace, text):
        self.trace, self.text = trace, text


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='verif-', dir=base)


def run_jobs(families, seed, budget, work, only=None, extra=None, limit=600):
    """Run the families on NCPU shards. Returns (files by judge, stats, crashes)."""
    crashes, stats, outs = [], collections.Counter(), collections.defaultdict(list)
    unknown = set()
    lock = threading.Lock()

    def shard(k):
        resume, bad = '', 0
        for attempt in range(6):
            d = os.path.join(work, 's%d.%d' % (k, attempt))
            os.makedirs(d)
            job = dict(out=os.path.join(d, 'out'), progress=os.path.join(d, 'progress'), scratch=os.path.join(d, 'scratch'),
                       seed=seed, shard=k, shards=NCPU, families=families, resume=resume, budget=budget, only=only or [])
            job.update(extra or {})
            jf = os.path.join(d, 'job.json')
            with open(jf, 'w') as f:
                json.dump(job, f)
            with open(os.path.join(d, 'log'), 'w') as lf:
                p = subprocess.Popen([os.path.join(BUILD, 'h.test'), '-test.run', 'TestJob$', '-test.timeout', '0'], stdout=lf,
                                     stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_JOB=jf, VERIF_TOURS=os.path.join(VERIF, 'build', 'tours'), GOTRACEBACK='all', GOMAXPROCS='2'), cwd=d)
                hung = watch(p, job['progress'], limit)
            if hung == 'late':
                # slow machine: what has been executed counts
                log('shard %d ran out of time' % k)
                with lock:
                    for j in JUDGE:
                        f = job['out'] + '.' + j
                        if os.path.exists(f) and cut(f):
                            outs[j].append(f)
                return
            text = open(os.path.join(d, 'log'), errors='replace').read()
            with lock:
                for j in JUDGE:
                    f = job['out'] + '.' + j
                    if os.path.exists(f) and os.path.getsize(f):
                        outs[j].append(f)
            m = re.search(r'JOB DONE (\{.*\})', text)
            if m and p.returncode == 0:
                with lock:
                    for a, b in json.loads(m.group(1)).items():
                        if a == 'Unknown':
                            unknown.update(b or [])
                        else:
                            stats[a] += b
                return
            name = ''
            try:
                name = open(job['progress']).read()
            except OSError:
                pass
            if 'HARNESS ERROR' in text or not name:
                raise NoAnswer('harness: ' + text[-2000:])
            with lock:
                crashes.append(Crash(name, ('hangs: no progress in real time\n' if hung else '') + text))
            # go on after the culprit
            resume = name
            bad += 1
            if bad > 2:
                return

    errs = []

    def guarded(k):
        try:
            shard(k)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=guarded, args=(k,)) for k in range(NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    if unknown and not crashes:
        raise NoAnswer('the fake redis server does not know ' + ' '.join(sorted(unknown)))
    return outs, stats, crashes


def cut(f):
    """Remove what follows the last complete line."""
    b = open(f, 'rb').read()
    n = b.rfind(b'\n') + 1
    if n != len(b):
        with open(f, 'r+b') as h:
            h.truncate(n)
    return n


def cpu(pid):
    try:
        return sum(int(x) for x in open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[11:13]) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0


def watch(p, progress, limit):
    """Wait for p. It hangs if its progress file stands still for 40 s in which it hardly works, or for 150 s."""
    last, since, t0, used = None, time.time(), time.time(), 0
    while True:
        try:
            p.wait(timeout=0.5 if time.time() - t0 > 2 else 0.05)
            return False
        except subprocess.TimeoutExpired:
            pass
        try:
            st = os.stat(progress)
            cur = (st.st_mtime_ns, st.st_size)
        except OSError:
            cur = None
        if cur != last:
            last, since, used = cur, time.time(), cpu(p.pid)
        still = time.time() - since
        hung = still > 150 or still > 40 and cpu(p.pid) - used < still / 8
        if hung or time.time() - t0 > limit:
            p.send_signal(6)  # SIGABRT: the Go runtime prints all stacks
            try:
                p.wait(timeout=10)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            return 'hung' if hung else 'late'


# ---------------------------------------------------------------- judging with TLC
JUDGE = {'seq': 'SeqTrace', 'conc': 'ConcTrace', 'tok': 'TokenTrace', 'cache': 'CacheTrace', 'conf': 'ConfTrace', 'disk': 'DiskTrace'}


def tlc(module, cfg, env=None, workers=2, mem='3g', args=(), timeout=800, work=None, short=False):
    md = tempfile.mkdtemp(prefix='tlc-', dir=work)
    cmd = ['java'] + (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if short else ['-XX:+UseParallelGC']) + ['-Xmx' + mem, '-Xss200m', '-cp',
           '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
           'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md, '-config', cfg] + list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
        out = r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        out = 'TIMEOUT ' + str((e.stdout or b'')[-2000:])
    shutil.rmtree(md, ignore_errors=True)
    return out


def tlc_counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def judge(outs, work):
    """Returns (mismatches, #traces, states, transitions, trace index)."""
    mism, ntr, st, tr = [], 0, 0, 0
    tasks = []
    for j, files in outs.items():
        size = sum(os.path.getsize(f) for f in files)
        groups = max(1, min(8, size // 700000 + 1))
        lines = []
        for f in files:
            with open(f) as h:
                lines += h.readlines()
        lines = [l for l in lines if l.endswith('\n')]
        ntr += len(lines)
        for g in range(groups):
            part = lines[g::groups]
            if not part:
                continue
            fn = os.path.join(work, 'traces-%s-%d.ndjson' % (j, g))
            with open(fn, 'w') as h:
                h.writelines(part)
            tasks.append((j, fn))
    res = [None] * len(tasks)

    strange = []

    def one(n):
        j, fn = tasks[n]
        for attempt in range(6):
            res[n] = tlc(JUDGE[j], JUDGE[j] + '.cfg', env={'TRACES': fn}, workers=1 if len(tasks) > 4 else 2, work=work,
                         short=os.path.getsize(fn) < 20000000)
            m = re.findall(r'tid = (\d+)', res[n])
            if 'No error has been found' in res[n] or not m:
                return
            # an execution the specification has no words for: go on without it
            with open(fn) as h:
                lines = h.readlines()
            strange.append(lines.pop(int(m[-1]) - 1)[:2000] + res[n][-1500:])
            if not lines:
                return
            with open(fn, 'w') as h:
                h.writelines(lines)
    ts = [threading.Thread(target=one, args=(n,)) for n in range(len(tasks))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for n, out in enumerate(res):
        if 'No error has been found' not in out and not strange:
            keep = os.path.join(BUILD, 'failed-judge.ndjson')
            shutil.copy(tasks[n][1], keep)
            raise NoAnswer('TLC %s failed (traces in %s):\n%s' % (JUDGE[tasks[n][0]], keep, out[-3000:]))
        a, b = tlc_counts(out)
        tr += a
        st += b
        for l in out.splitlines():
            if l.startswith('"MISMATCH '):
                m = json.loads(json.loads(l)[9:])
                m['file'] = tasks[n][1]
                mism.append(m)
    if strange and not mism:
        with open(os.path.join(BUILD, 'failed-judge.txt'), 'w') as h:
            h.write('\n\n'.join(strange))
        raise NoAnswer('executions the specification has no words for (see build/failed-judge.txt): ' + strange[0][-3000:])
    return mism, ntr, st, tr


def find_trace(m):
    with open(m['file']) as f:
        for l in f:
            if '"name":"%s"' % m['trace'] in l:
                t = json.loads(l)
                if t['name'] == m['trace']:
                    return t
    return None


# ---------------------------------------------------------------- known findings
def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return out


# ---------------------------------------------------------------- a whole check
def need_tours(fams):
    if any(f.startswith('tour-') for f in fams):
        import tours
        tours.make()


def crash_frames(text):
    return [l.split('(0x')[0] for l in text.splitlines() if l.startswith(REPO_FRAMES)]


def crash_frames_any(text):
    return [l.strip().split('(')[0] for l in text.splitlines() if 'powerpuffpenguin/sessionid' in l and '/' in l and not l.strip().startswith('/')]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []       # (text, replay object)
        self.states = self.trans = self.traces = 0
        self.samples, self.notes, self.models = [], [], []
        self.extra = collections.Counter()
        self.work = scratch()

    def add_violation(self, text, obj):
        self.viol.append((text, obj))

    def families(self):
        f = dict(plan.QUICK.get(self.prop, {}))
        if self.tier == 'thorough':
            f = {k: plan.TOURS.get(k.rsplit('-', 1)[0], v * plan.THOROUGH_FACTOR) for k, v in f.items()}
        return f

    def run_traces(self):
        fams = self.families()
        if not fams:
            return
        need_tours(fams)
        w = os.path.join(self.work, 'jobs')
        os.makedirs(w)
        t = time.time()
        outs, stats, crashes = run_jobs(fams, self.seed, plan.BUDGET[self.tier], w, limit=700 if self.tier == 'quick' else 6000)
        log('executions %.1fs' % (time.time() - t))
        self.extra.update(stats)
        t = time.time()
        mism, ntr, st, tr = judge(outs, self.work)
        log('judged %d traces, %d states in %.1fs' % (ntr, st, time.time() - t))
        self.states += st
        self.trans += tr
        self.traces += ntr
        self.sample(outs)
        other = collections.Counter()
        for m in sorted(mism, key=lambda m: m['n']):
            if self.prop in m['blame']:
                self.add_violation('%s event %d: %s; expected %s' % (m['trace'], m['n'], json.dumps(m['ev'])[:400], m['expect']),
                                   {'mismatch': {k: m[k] for k in m if k != 'file'}, 'trace': find_trace(m) if len(self.viol) < 5 else None})
            else:
                other[tuple(m['blame'])] += 1
        for b, n in other.items():
            log('note: %d executions break other properties: %s' % (n, ' '.join(b)))
        for c in crashes:
            fr = crash_frames(c.text)
            if not fr:
                raise NoAnswer('harness crashed in %s:\n%s' % (c.trace, c.text[-3000:]))
            self.add_violation('%s: the process crashed or hung in %s' % (c.trace, fr[0]), {'crash': c.trace, 'log': c.text[-20000:]})

    def sample(self, outs):
        for j, files in outs.items():
            for f in files[:1]:
                with open(f) as h:
                    l = h.readline()
                if l.strip() and len(self.samples) < 3:
                    t = json.loads(l)
                    self.samples.append({'trace': t.get('name'), 'cfg': t.get('cfg'), 'events': t.get('ev', [])[:8]})

    def finish(self, level):
        kn, out = known(), []
        n = 0
        os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
        hit = {}
        for text, obj in self.viol:
            for p, rx, what in kn:
                if p == self.prop and rx.search(text):
                    hit[what] = 1
                    break
            else:
                out.append((text, obj))
        for what in hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what), flush=True)
        for text, obj in out[:5]:
            fn = os.path.join(BUILD, 'replay', '%s-%d.json' % (self.prop, n))
            n += 1
            obj = dict(obj, property=self.prop, seed=self.seed, what=text)
            with open(fn, 'w') as f:
                json.dump(obj, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, fn), flush=True)
            print('  ' + text[:600], flush=True)
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
               'samples': self.samples or self.models[:1] or ['none'], 'models': self.models}
        cov.update({k.lower(): v for k, v in self.extra.items()})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(out),
              'assumptions': plan.ASSUMPTIONS + plan.ASSUME.get(self.prop, [])}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d traces judged, %d states, %d models, %d violations, %.1fs' % (
            self.prop, self.tier, self.traces, self.states, len(self.models), len(out), time.time() - self.t0), flush=True)
        return 1 if out else 0

    def run_models(self):
        todo = plan.MODELS.get(self.prop, [])
        todo = [m for m in todo if self.tier == 'thorough' or not m.get('thorough')]
        res = [None] * len(todo)

        def one(n):
            m = todo[n]
            t = time.time()
            res[n] = (tlc(m['module'], m['cfg'], workers=m.get('workers', 2), mem=m.get('mem', '3g'), args=m.get('args', ()),
                          timeout=m.get('timeout', 700), work=self.work), time.time() - t)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(one, range(len(todo))))
        for m, (out, dt) in zip(todo, res):
            if ('No error has been found' if m['expect'] else ' violated.') not in out:
                raise NoAnswer('the model %s %s does not check:\n%s' % (m['module'], m['cfg'], out[-3000:]))
            a, b = tlc_counts(out)
            if not m['expect']:
                self.models.append({'model': m['module'], 'config': m['cfg'], 'a planted mistake is noticed': True, 'wall_s': round(dt, 1)})
                continue
            self.trans += a
            self.states += b
            self.models.append({'model': m['module'], 'config': m['cfg'], 'states': b, 'transitions': a, 'wall_s': round(dt, 1)})

    def race(self):
        """The unchanged code under the race detector, in real time."""
        build('build-race.sh')
        kinds = plan.RACE[self.prop]
        secs = 6 if self.tier == 'quick' else 120

        def one(kind):
            env = dict(os.environ, VERIF_RACE_KIND=kind, VERIF_RACE_DIR=self.work, VERIF_RACE_MS=str(secs * 1000), VERIF_RACE_SEED=str(self.seed),
                       GORACE='halt_on_error=1 exitcode=66', GOTRACEBACK='all')
            try:
                r = subprocess.run([os.path.join(BUILD, 'race.test'), '-test.run', 'TestRace', '-test.timeout', '%ds' % (secs + 60)], env=env,
                                   capture_output=True, text=True, timeout=secs + 120, cwd=self.work)
            except subprocess.TimeoutExpired:
                raise NoAnswer('race stress does not end')
            return kind, r.returncode, r.stdout + r.stderr
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(kinds)) as ex:
            for kind, rc, text in ex.map(one, kinds):
                m = re.search(r'RACE DONE (\{.*\})', text)
                if rc == 0 and m:
                    for k, v in json.loads(m.group(1)).items():
                        self.extra['race_' + k] += v
                    continue
                fr = crash_frames(text)
                v = re.search(r'RACE VIOLATION (\S+) (.*)', text)
                if v:
                    if v.group(1) == self.prop:
                        self.add_violation('%s: %s' % (kind, v.group(2)), {'log': text[:20000]})
                    else:
                        log('note: breaks another property:', v.group(0))
                elif 'DATA RACE' in text:
                    self.add_violation('%s: data race %s' % (kind, '<'.join(x.strip() for x in crash_frames_any(text)[:4])), {'log': text[:20000]})
                elif 'test timed out' in text and fr:
                    self.add_violation('%s: an operation hangs: %s' % (kind, fr[0]), {'log': text[:60000]})
                elif fr:
                    self.add_violation('%s: crash in %s' % (kind, fr[0]), {'log': text[:60000]})
                else:
                    raise NoAnswer('race stress failed: ' + text[-3000:])

    def run(self):
        try:
            threads, errs = [], []

            def g(f):
                try:
                    f()
                except Exception as e:
                    errs.append(e)
            build()
            mt = threading.Thread(target=g, args=(self.run_models,))
            mt.start()
            steps = [self.run_traces] + [getattr(self, s) for s in plan.STEPS.get(self.prop, [])]
            for s in steps:
                g(s)
            mt.join()
            if errs and not self.viol:
                raise errs[0]
            for e in errs:
                log('also:', e)
            return self.finish('model_checking')
        finally:
            shutil.rmtree(self.work, ignore_errors=True)


def replay(fn):
    o = json.load(open(fn))
    name = (o.get('trace') or {}).get('name') or o.get('crash')
    if not name:
        print(json.dumps(o, indent=1)[:4000])
        return 0
    m = re.match(r'([^#]+)#(\d+)@(-?\d+)', name)
    build()
    work = scratch()
    try:
        os.makedirs(os.path.join(work, 'j'))
        need_tours([m.group(1)])
        outs, st, crashes = run_jobs({m.group(1): int(m.group(2)) + 1}, int(m.group(3)), plan.BUDGET['quick'], os.path.join(work, 'j'),
                                     only=[m.group(0)])
        mism, n, _, _ = judge(outs, work)
        for x in mism:
            x.pop('file')
            print(json.dumps(x))
        for c in crashes:
            print('crash', c.trace, c.text[:3000])
        print(n, 'traces,', len(mism), 'mismatches,', len(crashes), 'crashes')
        return 1 if mism or crashes else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if not argv:
        print(__import__('check', fromlist=['x']).__doc__ if False else 'usage: check.py PROPERTY [quick|thorough] | --replay FILE | --setup')
        return 2
    if argv[0] == '--setup':
        build()
        build('build-race.sh')
        for s in plan.SETUP:
            __import__(s).make()
        return 0
    if argv[0] == '--replay':
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        return Check(argv[0], tier, seed).run()
    except NoAnswer as e:
        log('NO ANSWER:', e)
        return 2
