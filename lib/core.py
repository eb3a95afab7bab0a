"""Machinery shared by all checks: recording, bounded exploration, workers.

Nothing in here imports the code under test.
"""
import collections
import concurrent.futures
import concurrent.futures.process
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import signal
import sys
import time as _time
import traceback

# Real clocks, taken before lib.env replaces them.
REAL_TIME = _time.time
REAL_MONO = _time.monotonic

NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property does not hold for the case that is being executed."""


class Hang(Violation):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if not (got == want):
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def close(got, want, what, rel=1e-9, abs_=1e-15):
    ok = False
    try:
        top = max(abs(got), abs(want))
        ok = got == want or top < float("inf") and abs(got - want) <= max(abs_, rel * top)
    except TypeError:
        pass
    if not ok:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


class Rec:
    """Counters of one worker (merged afterwards) and the violations found."""

    MAX_SAMPLES = 6

    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed
        self.transitions = 0        # steps executed on the real code
        self.traces = 0             # executions of the real code, each
        #                             checked step by step against the oracle
        self.states = set()         # hashes of distinct states
        self.outcomes = set()       # hashes of distinct observed outcomes
        self.samples = []
        self.extra = collections.Counter()
        self.violation = None       # (message, case)
        self.capped = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def state(self, key):
        self.states.add(hash_of(key))

    def outcome(self, key):
        self.outcomes.add(hash_of(key))

    def sample(self, x):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(x)

    def merge(self, other):
        self.transitions += other.transitions
        self.traces += other.traces
        self.states |= other.states
        self.outcomes |= other.outcomes
        self.extra.update(other.extra)
        for s in other.samples:
            self.sample(s)
        if self.violation is None:
            self.violation = other.violation
        if self.capped is None:
            self.capped = other.capped


def hash_of(key):
    if not isinstance(key, str):
        key = repr(key)
    return hashlib.blake2b(key.encode(), digest_size=8).digest()


# --------------------------------------------------------------------------
# Running one case on the real code
# --------------------------------------------------------------------------
class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


@contextlib.contextmanager
def quiet():
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def _alarm(signum, frame):
    raise Hang("the code under test did not finish")


@contextlib.contextmanager
def deadline(seconds):
    """Ends code that runs away (all cases finish in a tiny part of this)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


CASE_SECONDS = 60


def guarded(fn, case, rec):
    """Run fn(case, rec); returns its result, or None after recording a
    violation (an assertion of ours or any exception of the code under
    test)."""
    try:
        with quiet(), deadline(CASE_SECONDS):
            return fn(case, rec)
    except Violation as e:
        rec.violation = rec.violation or (str(e), case)
    except RecursionError as e:
        rec.violation = rec.violation or ("RecursionError: %s" % e, case)
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:])
        rec.violation = rec.violation or ("unexpected %s: %s [%s]" % (type(e).__name__, e, where), case)
    return None


def run_cases(fn, cases, rec, parallel=True, chunk=None):
    """Every case of the list is executed; stops at the first violation."""
    cases = list(cases)
    if not cases:
        return
    if not parallel or NPROC == 1 or len(cases) < 4:
        for c in cases:
            guarded(fn, c, rec)
            if rec.violation:
                return
        return
    n = chunk or max(1, min(200, len(cases) // (NPROC * 4) or 1))
    chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
    parallel_work(lambda ch, r: _chunk(fn, ch, r), chunks, rec)


def _chunk(fn, cases, rec):
    for c in cases:
        if out_of_time(rec):
            return
        guarded(fn, c, rec)
        if rec.violation:
            return


_WORK = None
# Monotonic time after which no further executions are started (the evidence
# then says that the space was not finished).
DEADLINE = [None]


def out_of_time(rec, needs=0):
    """needs: seconds the next piece of work may take."""
    if DEADLINE[0] is not None and REAL_MONO() + needs > DEADLINE[0]:
        rec.capped = rec.capped or "stopped when the time budget was used up"
        return True
    return False


def _limits():
    """Code that allocates without end fails instead of taking the sandbox
    down."""
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass


def _worker(i):
    fn, items, tier, seed = _WORK
    rec = Rec(tier, seed)
    try:
        if not out_of_time(rec):
            fn(items[i], rec)
    except (Exception, SystemExit):
        rec.violation = ("worker failed: " + traceback.format_exc()[-1500:], None)
    return rec


def parallel_work(fn, items, rec):
    """fn(item, rec) for every item, in forked workers; merges the records in
    the order of the items, so that the result does not depend on timing."""
    global _WORK
    items = list(items)
    if NPROC == 1 or len(items) <= 1:
        for it in items:
            r = Rec(rec.tier, rec.seed)
            if not out_of_time(r):
                fn(it, r)
            rec.merge(r)
            if rec.violation:
                return
        return
    _WORK = (fn, items, rec.tier, rec.seed)
    pool = concurrent.futures.ProcessPoolExecutor(min(NPROC, len(items)), multiprocessing.get_context("fork"), _limits)
    procs = []
    try:
        futures = [pool.submit(_worker, i) for i in range(len(items))]
        procs = list((pool._processes or {}).values())
        for f in futures:
            rec.merge(f.result())
            if rec.violation:
                break
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
        for p in procs:
            p.join(10)
        _WORK = None


# --------------------------------------------------------------------------
# Choices: every source of nondeterminism of a case asks a Chooser
# --------------------------------------------------------------------------
class Chooser:
    """Plays back a prefix of choices, then takes choice 0 everywhere."""

    def __init__(self, prefix=(), expected=()):
        self.prefix = list(prefix)
        self.expected = list(expected)   # numbers of alternatives seen before
        self.points = []
        self.choices = []
        self.lenient = False

    def choose(self, n, label=None):
        i = len(self.choices)
        if self.lenient:
            c = self.prefix[i] if i < len(self.prefix) else 0
            c = c if c < n else 0
            self.points.append(n)
            self.choices.append(c)
            return c
        if i < len(self.expected) and self.expected[i] != n:
            raise Violation("replaying the same choices diverged at choice %d: "
                            "%d alternatives instead of %d" % (i, n, self.expected[i]))
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Violation("replaying the same choices diverged at choice %d: "
                            "alternative %d of %d" % (i, c, n))
        self.points.append(n)
        self.choices.append(c)
        return c


def explore(run, rec, bound, limit=None, root=(), max_points=None):
    """Deviation-bounded exploration: run(chooser, rec) is executed for every
    sequence of choices with at most `bound` deviations from choice 0 (beyond
    those in `root`).  Depth first, simplest first."""
    todo = [(list(root), [], 0)]
    n = 0
    while todo:
        if out_of_time(rec):
            return n
        prefix, expected, dev = todo.pop()
        ch = Chooser(prefix, expected)
        run(ch, rec)
        n += 1
        if rec.violation:
            return n
        if len(ch.choices) < len(prefix):
            rec.violation = ("replaying the same choices ended early", prefix)
            return n
        if limit is not None and n >= limit:
            rec.capped = "stopped after %d executions" % n
            return n
        if dev >= bound:
            continue
        new = []
        last = len(ch.points) if max_points is None else min(len(ch.points), max_points)
        for i in range(len(prefix), last):
            for alt in range(1, ch.points[i]):
                new.append((ch.choices[:i] + [alt], ch.points[:i + 1], dev + 1))
        todo.extend(reversed(new))
    return n


def explore_all(run_case, make_case, rec, bound, limit=None, split=None):
    """explore() of run_case(case, rec, chooser) -> None, spread over forked
    workers.  make_case(choices) -> case (a dict holding the choices)."""
    split = split or NPROC * 12

    def run(ch, r):
        guarded(lambda c, r2: run_case(c, r2, ch), make_case(list(ch.prefix)), r)
    # the top of the tree, breadth first
    todo = collections.deque([([], [], 0)])
    while todo and len(todo) < split:
        prefix, expected, dev = todo.popleft()
        ch = Chooser(prefix, expected)
        run(ch, rec)
        if rec.violation:
            return
        if dev < bound:
            for i in range(len(prefix), len(ch.points)):
                for alt in range(1, ch.points[i]):
                    todo.append((ch.choices[:i] + [alt], ch.points[:i + 1], dev + 1))
    todo = list(todo)
    groups = [todo[i::split] for i in range(split)]

    def work(group, r):
        for node in group:
            explore_from(run, [node], r, bound, limit)
            if r.violation:
                return
    parallel_work(work, [g for g in groups if g], rec)


def children(run, node, rec, bound):
    """Runs one node of the tree; returns the nodes below it."""
    prefix, expected, dev = node
    ch = Chooser(prefix, expected)
    run(ch, rec)
    if rec.violation or dev >= bound:
        return []
    return [(ch.choices[:i] + [alt], ch.points[:i + 1], dev + 1)
            for i in range(len(prefix), len(ch.points)) for alt in range(1, ch.points[i])]


def parallel_nodes(fn, items, rec):
    """parallel_work for a function that leaves something in rec.nodes; the
    list of those."""
    out = []

    def one(item, r):
        fn(item, r)
    real = rec.merge

    def merge(r):
        out.append(getattr(r, "nodes", []))
        real(r)
    rec.merge = merge
    try:
        parallel_work(one, items, rec)
    finally:
        del rec.merge
    return out


def explore_from(run, todo, rec, bound, limit=None):
    n = 0
    while todo:
        if out_of_time(rec):
            return n
        prefix, expected, dev = todo.pop()
        ch = Chooser(prefix, expected)
        run(ch, rec)
        n += 1
        if rec.violation:
            return
        if len(ch.choices) < len(prefix):
            rec.violation = ("replaying the same choices ended early", prefix)
            return
        if limit is not None and n >= limit and todo:
            rec.capped = "some subtrees stopped after %d executions" % n
            return
        if dev >= bound:
            continue
        new = []
        for i in range(len(prefix), len(ch.points)):
            for alt in range(1, ch.points[i]):
                new.append((ch.choices[:i] + [alt], ch.points[:i + 1], dev + 1))
        todo.extend(reversed(new))


def bfs(initial, enabled, step, canon, rec, max_depth, max_states=None):
    """Explicit-state search over histories: step(history) rebuilds the real
    object by replaying the history and checks the property on the way."""
    seen = set()
    frontier = collections.deque()
    key = hash_of(canon(initial))
    seen.add(key)
    frontier.append((initial, 0))
    depth_done = 0
    while frontier:
        if out_of_time(rec):
            break
        node, d = frontier.popleft()
        depth_done = d
        if d >= max_depth:
            continue
        for ev in enabled(node):
            nxt = step(node, ev)
            rec.transitions += 1
            if nxt is None:
                continue
            if rec.violation:
                return seen
            k = hash_of(canon(nxt))
            if k not in seen:
                seen.add(k)
                frontier.append((nxt, d + 1))
        if max_states is not None and len(seen) >= max_states:
            rec.capped = "stopped after %d states at depth %d" % (len(seen), d)
            break
    rec.states |= seen
    rec.extra["max_depth"] = max(rec.extra["max_depth"], depth_done)
    return seen
