"""Tours: sequences of operations that together take every transition of the state graphs of StoreMC.tla.
TLC prints the graph (StoreMC with Emit = TRUE); the tours are executed on the real providers by the harness."""
import collections, fcntl, hashlib, json, os, random, re
import driver

# file -> (kinds it is executed on, Kind, Max, AccL, RefL, Profile)
GRAPHS = {
    'auth': (('mem', 'bolt', 'redis'), 'mem', 0, 1, 2, 'auth'),
    'auth-max': (('mem', 'bolt'), 'mem', 1, 1, 1, 'auth'),
    'data': (('mem', 'bolt'), 'mem', 0, 1, 2, 'data'),
    'data-redis': (('redis',), 'redis', 0, 1, 2, 'data'),
    'cap1': (('mem', 'bolt'), 'mem', 1, 1, 2, 'cap'),
    'cap2': (('mem', 'bolt'), 'mem', 2, 1, 2, 'cap'),
    'cap3': (('mem', 'bolt'), 'mem', 3, 1, 2, 'cap'),
    'cap-clear': (('bolt',), 'bolt', 2, 1, 3, 'cap'),
    'cap0': (('redis',), 'redis', 0, 1, 3, 'cap'),
    'close': (('mem', 'redis'), 'mem', 0, 1, 2, 'close'),
    'close-clear': (('bolt',), 'bolt', 1, 1, 2, 'close'),
}
CFG = '''SPECIFICATION Spec
CONSTANTS
  Kind = "%s"
  Max = %d
  AccL = %d
  RefL = %d
  Profile = "%s"
  Emit = %s
VIEW Seen
ACTION_CONSTRAINT Edge
INVARIANTS OneHolder IdOfToken NoneOutlives Bounded DeadAreDead Total AllAgree OnlyPairRefreshes
PROPERTIES Steps
CHECK_DEADLOCK FALSE
'''


def config(name, emit=False):
    return CFG % (GRAPHS[name][1:] + ('TRUE' if emit else 'FALSE',))


def graph(name, work):
    cfg = os.path.join(work, name + '.cfg')
    with open(cfg, 'w') as f:
        f.write(config(name, True))
    out = driver.tlc('StoreMC', cfg, workers=1, mem='4g', work=work, timeout=1500)
    if 'No error has been found' not in out:
        raise driver.NoAnswer('StoreMC %s: %s' % (name, '\n'.join(l for l in out.splitlines() if not l.startswith('"EDGE'))[-3000:]))
    edges = collections.OrderedDict()
    init = None
    for l in out.splitlines():
        m = re.match(r'"EDGE (-?\d+) (-?\d+) (\S+) (.*)"$', l)
        if m:
            if init is None:
                init = m.group(1)
            e = json.loads('"' + m.group(4) + '"')
            edges[(m.group(1), e, m.group(2))] = m.group(3)
    return init, edges


def tours(init, edges, length, rng):
    out = collections.defaultdict(list)
    for (f, e, t) in edges:
        out[f].append((e, t))
    todo = {}
    for f, l in out.items():
        l = l[:]
        rng.shuffle(l)
        # what stays in the state first
        l.sort(key=lambda x: x[1] == f)
        todo[f] = l
    left = sum(map(len, todo.values()))

    def way(src):
        """The shortest way to a state with transitions not taken yet."""
        if todo.get(src):
            return []
        prev, q = {src: None}, collections.deque([src])
        while q:
            x = q.popleft()
            for e, t in out[x]:
                if t in prev:
                    continue
                prev[t] = (x, e)
                if todo.get(t):
                    path = []
                    while prev[t]:
                        path.append((prev[t][1], t))
                        t = prev[t][0]
                    return path[::-1]
                q.append(t)
        return None
    res = []
    while left:
        at, steps = init, []
        while left and len(steps) < length:
            w = way(at)
            if w is None:
                break
            steps += [e for e, _ in w]
            if w:
                at = w[-1][1]
            n = 0
            while todo.get(at) and n < length:
                e, t = todo[at].pop()
                left -= 1
                n += 1
                steps.append(e)
                if t != at:
                    at = t
                    break
        if not steps:
            break
        res.append(steps)
    return res


def make(names=None):
    d = os.path.join(driver.BUILD, 'tours')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # what was made from another specification is of no use
        h = hashlib.sha256()
        for f in ('spec/Store.tla', 'spec/StoreMC.tla', 'lib/tours.py'):
            h.update(open(os.path.join(driver.VERIF, f), 'rb').read())
        stamp = os.path.join(d, '.made-from')
        if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
            for n in os.listdir(d):
                if n.endswith('.ndjson'):
                    os.remove(os.path.join(d, n))
            with open(stamp, 'w') as f:
                f.write(h.hexdigest())
        todo = [n for n in (names or GRAPHS) if not os.path.exists(os.path.join(d, n + '.ndjson'))]
        if not todo:
            return
        work = driver.scratch()
        try:
            from concurrent.futures import ThreadPoolExecutor

            def one(n):
                init, edges = graph(n, work)
                ts = tours(init, edges, 70, random.Random(n))
                random.Random(n).shuffle(ts)
                kinds, _, mx, a, r, _ = GRAPHS[n]
                with open(os.path.join(d, n + '.tmp'), 'w') as f:
                    for t in ts:
                        f.write('{"graph":"%s","kinds":%s,"max":%d,"acc":%d,"ref":%d,"steps":[%s]}\n' % (n, json.dumps(kinds), mx, a, r, ','.join(t)))
                os.rename(os.path.join(d, n + '.tmp'), os.path.join(d, n + '.ndjson'))
                driver.log('tours %s: %d transitions, %d tours, %d steps' % (n, len(edges), len(ts), sum(map(len, ts))))
            with ThreadPoolExecutor(4) as ex:
                list(ex.map(one, todo))
        finally:
            import shutil
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    make()
