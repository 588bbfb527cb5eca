"""Explorer: exhaustive, deviation-bounded enumeration of the choices of a harness, in parallel.

A harness is a function h(ch). Every piece of nondeterminism is asked from the chooser:
  ch.pick(options)   every option is explored (cost 0)
  ch.dev(options)    options[0] is the default, every other option costs one deviation
Executions are explored until the whole choice tree with at most `bound` deviations is covered.
Raising Prune abandons an uninteresting combination; Violation (or any other exception) is a failure.
"""
import collections
import hashlib
import heapq
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXEC_TIMEOUT = 25.0     # processor seconds of one execution, so that a loaded machine raises no alarm
WALL_TIMEOUT = 200.0    # elapsed seconds, for an execution that waits
MEM_LIMIT = 3 << 30


class Prune(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class ExecTimeout(BaseException):
    pass


class Divergence(BaseException):
    """A replayed prefix met a different choice structure: the harness is not deterministic."""


def h64(key) -> int:
    if not isinstance(key, bytes):
        key = repr(key).encode('utf-8', 'backslashreplace')
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'big')


class Chooser:
    def __init__(self, prefix, bound, stats):
        self.prefix = prefix
        self.bound = bound
        self.points = []          # (n_options, is_dev)
        self.choices = []
        self.cost = 0
        self.stats = stats
        self.lines = []
        self.case_key = None

    def _choose(self, n, dev):
        i = len(self.choices)
        if n <= 0:
            raise Prune()
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f'choice {c} of {n} at point {i}')
        else:
            c = 0
        self.points.append((n, dev))
        self.choices.append(c)
        if dev and c:
            self.cost += 1
        return c

    def pick(self, options, label=None):
        if not isinstance(options, (list, tuple)):
            options = list(options)
        c = options[self._choose(len(options), False)]
        if label:
            self.lines.append(f'{label}={c!r}'[:300])
        return c

    def dev(self, options, label=None):
        if not isinstance(options, (list, tuple)):
            options = list(options)
        i = self._choose(len(options), True)
        c = options[i]
        if label and i:
            self.lines.append(f'{label}={c!r}'[:300])
        return c

    def flag(self, label=None):
        return self.dev((False, True), label)

    def subset(self, items, label=None):
        return [x for x in items if self.pick((False, True))]

    # --- accounting -------------------------------------------------------
    def state(self, key):
        """Record a canonical model state reached by this execution."""
        self.stats.states.add(h64(key))

    def step(self, n=1):
        """Count operations applied to the implementation and compared with the model."""
        self.stats.transitions += n

    def outcome(self, key):
        self.stats.outcomes.add(h64(key))

    def note(self, text):
        self.lines.append(str(text)[:2000])

    def key(self, k):
        """Stable identity of the case, for the known-findings file."""
        self.case_key = k


class Stats:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.execs = 0
        self.pruned = 0
        self.choice_points = 0
        self.by_cost = collections.Counter()
        self.known = collections.Counter()

    def merge(self, o):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.execs += o.execs
        self.pruned += o.pruned
        self.choice_points += o.choice_points
        self.by_cost.update(o.by_cost)
        self.known.update(o.known)


class Harness:
    def __init__(self, name, fn, bound=0, note=''):
        self.name = name
        self.fn = fn
        self.bound = bound
        self.note = note


_STARTED = (0.0, 0.0)


def _alarm(signum, frame):
    cpu, wall = _STARTED
    if time.process_time() - cpu >= EXEC_TIMEOUT - 0.5:
        raise ExecTimeout(f'no result after {EXEC_TIMEOUT:.0f} s of processing')
    if time.monotonic() - wall >= WALL_TIMEOUT:
        raise ExecTimeout(f'no result after {WALL_TIMEOUT:.0f} s')


def run_one(h, prefix, stats):
    """Run one execution. Returns (chooser, error or None) where error = (message, key)."""
    ch = Chooser(prefix, h.bound, stats)
    err = None
    global _STARTED
    _STARTED = (time.process_time(), time.monotonic())
    signal.setitimer(signal.ITIMER_REAL, EXEC_TIMEOUT, 1.0)
    try:
        h.fn(ch)
        stats.execs += 1
    except Prune:
        stats.pruned += 1
    except Violation as e:
        err = (str(e), e.key)
    except Divergence:
        raise
    except ExecTimeout as e:
        err = ('the operation does not terminate in time: ' + str(e), None)
    except RecursionError as e:
        err = ('RecursionError: ' + str(e), None)
    except Exception as e:
        err = (f'{type(e).__name__}: {e}\n' + traceback.format_exc(limit=-6), None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if len(ch.choices) < len(prefix) and err is None:
        raise Divergence(f'execution ended before its prefix was consumed: {prefix}')
    stats.choice_points += len(ch.points)
    if err is None:
        stats.by_cost[ch.cost] += 1
    else:
        err = (err[0], err[1] or ch.case_key)
    return ch, err


def children(ch, plen, bound):
    out = []
    cost = 0
    for i, (n, dev) in enumerate(ch.points):
        if i >= plen:
            extra = 1 if dev else 0
            if cost + extra <= bound:
                base = ch.choices[:i]
                for alt in range(1, n):
                    out.append(base + [alt])
        if dev and ch.choices[i]:
            cost += 1
    return out


_H = None
_KNOWN = frozenset()


def _init(harnesses, known):
    global _H, _KNOWN
    _H = harnesses
    _KNOWN = known
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(3000)


def explore_chunk(hi, stack, budget):
    """Explore depth first from the prefixes in `stack` for about `budget` seconds."""
    h = _H[hi]
    stats = Stats()
    end = time.monotonic() + budget
    samples = []
    recent = collections.deque(maxlen=40)
    while stack:
        prefix = stack.pop()
        ch, err = run_one(h, prefix, stats)
        if err is not None:
            msg, key = err
            if key is not None and key in _KNOWN:
                stats.known[key] += 1
            else:
                return hi, stats, stack, dict(harness=h.name, prefix=ch.choices[:], cost=ch.cost, msg=msg,
                                              case=ch.lines, key=key, recent=list(recent)), samples
        elif len(samples) < 2 and ch.lines:
            samples.append((ch.cost, h.name + ': ' + '; '.join(ch.lines)))
        recent.append(ch.choices[:])
        kids = children(ch, len(prefix), h.bound)
        kids.reverse()
        stack.extend(kids)
        if time.monotonic() > end:
            break
    return hi, stats, stack, None, samples


def replay_history(hi, prefixes):
    """Run the given executions in order in this process; return the failure of the last one."""
    h = _H[hi]
    last = None
    for p in prefixes:
        _, last = run_one(h, p, Stats())
    return last


class Result:
    def __init__(self):
        self.total = Stats()
        self.per = {}
        self.samples = []
        self.violation = None
        self.incomplete = None
        self.reproduced = ''


def explore(harnesses, known=frozenset(), jobs=None, cap=700.0):
    jobs = jobs or min(8, os.cpu_count() or 1)
    res = Result()
    ctx = mp.get_context('fork')
    pool = ctx.Pool(jobs, initializer=_init, initargs=(harnesses, known))
    t0 = time.monotonic()
    queue = []          # (deviations, seq, hi, stack): fewest deviations first
    seq = 0
    for hi, h in enumerate(harnesses):
        heapq.heappush(queue, (0, seq, hi, [[]]))
        seq += 1
        res.per[h.name] = Stats()
    running = []
    found = []
    try:
        while queue or running:
            while queue and len(running) < jobs and not found:
                _, _, hi, stack = heapq.heappop(queue)
                # small budgets first, so that the frontier spreads over all workers
                budget = 0.05 if len(queue) < 4 * jobs else 1.0
                running.append((hi, pool.apply_async(explore_chunk, (hi, stack, budget))))
            progressed = False
            for item in list(running):
                hi, ar = item
                if not ar.ready():
                    continue
                progressed = True
                running.remove(item)
                hi, stats, stack, viol, samples = ar.get()
                res.per[harnesses[hi].name].merge(stats)
                res.total.merge(stats)
                if len(res.samples) < 400:
                    res.samples.extend(samples)
                if viol:
                    found.append((hi, viol))
                if stack and not found:
                    # split the left-over frontier
                    parts = max(1, min(len(stack), 2 * jobs)) if len(queue) < 4 * jobs else 1
                    for k in range(parts):
                        sub = stack[k::parts]
                        if sub:
                            heapq.heappush(queue, (len(stack[0]), seq, hi, sub))
                            seq += 1
            if found and not running:
                break
            if time.monotonic() - t0 > cap:
                if found:
                    break
                res.incomplete = f'time cap of {cap:.0f} s reached'
                break
            if not progressed:
                time.sleep(0.002)
    finally:
        pool.terminate()
        pool.join()
    if found:
        found.sort(key=lambda x: (x[1]['cost'], len(x[1]['prefix']), x[1]['prefix']))
        hi, v = found[0]
        v['harness_index'] = hi
        v['alone'], v['history'] = confirm(harnesses, known, hi, v)
        res.violation = v
    return res


def confirm(harnesses, known, hi, v):
    """Replay the failing execution twice in fresh processes; if it only fails after other executions
    (state shared between documents), keep the shortest suffix of the preceding executions that shows it."""
    ctx = mp.get_context('fork')

    def attempt(prefixes):
        with ctx.Pool(1, initializer=_init, initargs=(harnesses, known)) as p:
            return p.apply(replay_history, (hi, prefixes))
    a = attempt([v['prefix']])
    if a:
        b = attempt([v['prefix']])
        return bool(b), [v['prefix']]
    for n in (1, 2, 5, 10, 40):
        hist = v['recent'][-n:] + [v['prefix']]
        if attempt(hist):
            return False, hist
    return False, v['recent'] + [v['prefix']]
