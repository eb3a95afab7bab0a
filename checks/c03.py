"""C03: the event queue is a stable priority queue under any operations."""
import heapq
import itertools
import math
from fractions import Fraction

from lib import core
from lib.core import expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences of at most 6 operations (3 push times, pop, cancel of any issued or unknown identifier, "
             "clear), each followed by draining the queue, with all observers after every operation and with none; "
             "all sequences of at most 4 macro operations on queues of up to 200 entries; every three of 16 times of other "
             "kinds and magnitudes; three "
             "queues with 140000 entries (a hundred at a time, all at once, nearly all cancelled)",
    "thorough": "the same with at most 7 operations and 5 macro operations, and a million entries",
}
ASSUMPTIONS = ["entry times are numbers other than NaN"]


class Blob:
    """A payload that cannot be compared or hashed."""
    __hash__ = None

    def __eq__(self, other):
        raise TypeError("payloads must not be compared")

    __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __bool__(self):
        raise TypeError("payloads must not be tested")


def payload(i):
    k = i % 6
    return [Blob(), None, "", 0, ("h", (i,)), [None]][k]


class Lockstep:
    """The real queue and the reference: a list of entries."""

    def __init__(self, rec):
        from pysim.sim.simulator import EventQueue
        self.q = EventQueue()
        self.entries = []          # pending: (time, order, id, payload)
        self.ids = []              # all identifiers given so far
        self.rec = rec

    def push(self, t):
        p = payload(len(self.ids))
        eid = self.q.push(t, p)
        expect(eid is not None and eid not in self.ids, "push returned the identifier %r again", eid)
        self.entries.append((t, len(self.ids), eid, p))
        self.ids.append(eid)

    def pop(self):
        if not self.entries:
            try:
                got = self.q.pop()
            except KeyError:
                return
            raise core.Violation("pop of an empty queue returned %r" % (got,))
        want = min(self.entries, key=lambda e: e[:2])
        got = self.q.pop()
        expect(len(got) == 3 and got[0] == want[0] and got[1] == want[2],
               "pop returned (time, id) %r, expected %r; pending: %s",
               tuple(got[:2]), (want[0], want[2]), [(e[0], e[2]) for e in self.entries])
        expect(type(got[0]) is type(want[0]), "time %r popped as %r", want[0], got[0])
        expect(got[2] is want[3], "pop of entry %r returned another payload", want[2])
        self.entries = [e for e in self.entries if e[1] != want[1]]

    def cancel(self, eid):
        self.q.cancel(eid)
        self.entries = [e for e in self.entries if not (e[2] == eid and type(eid) is type(e[2]))]

    def clear(self):
        self.q.clear()
        self.entries = []

    def observe(self):
        same(len(self.q), len(self.entries), "length")
        same(bool(self.q.empty), not self.entries, "empty")
        got = sorted(tuple(e)[:2] for e in self.q.to_list())
        same(got, sorted((e[0], e[2]) for e in self.entries), "listing")
        by = {e[2]: e[3] for e in self.entries}
        for e in self.q.to_list():
            expect(e[2] is by[e[1]], "entry %r is listed with another payload", e[1])

    def drain(self):
        for _ in range(len(self.entries)):
            self.pop()
        same(len(self.q), 0, "length after draining")
        same(bool(self.q.empty), True, "empty after draining")
        self.pop()      # raises KeyError
        self.push(5)
        self.observe()
        self.pop()
        self.pop()

    def key(self):
        order = {e[1]: i for i, e in enumerate(sorted(self.entries, key=lambda e: e[:2]))}
        return (sorted((e[0], order[e[1]]) for e in self.entries), len(self.ids))


TIMES = (1, 0, 1.5)
# Times of any kind and magnitude.
ODD = (2 ** 53 + 1, 2 ** 53, 2.0 ** 53, 2 ** 64, Fraction(1, 3), 1 / 3, -2.5, -math.inf, math.inf, 5e-324, 0.1 + 0.2, 0.3, True,
       -0.0, 10 ** 400, 1e308)


def one(ls, op):
    kind, x = op
    if kind == "push":
        ls.push(x)
    elif kind == "odd":
        ls.push(ODD[x])
    elif kind == "pop":
        ls.pop()
    elif kind == "clear":
        ls.clear()
    elif kind == "cancel":
        ls.cancel(ls.ids[x])
    elif kind == "unknown":
        for eid in (-1, 10 ** 6, None):
            if eid not in ls.ids:
                ls.cancel(eid)
    elif kind == "pushes":
        for t in x:
            ls.push(t)
    elif kind == "pops":
        for _ in range(x):
            ls.pop()
    elif kind == "cancels":
        step, offset = x
        for eid in ls.ids[offset::step]:
            ls.cancel(eid)
    elif kind == "cancel-first":
        for e in sorted(ls.entries, key=lambda e: e[:2])[:x]:
            ls.cancel(e[2])
    elif kind == "cancel-last":
        for e in sorted(ls.entries, key=lambda e: e[:2])[-x:]:
            ls.cancel(e[2])


MACRO = [("pushes", [1] * 50), ("pushes", list(range(60, 0, -1))), ("pushes", [(i * 37 % 41) / 4 for i in range(40)]),
         ("pops", 1), ("pops", 25), ("cancels", (2, 0)), ("cancels", (1, 7)), ("cancel-first", 30),
         ("cancel-last", 45), ("push", 0), ("clear", None)]


def execute(case, rec):
    ls = Lockstep(rec)
    for op in case["ops"]:
        op = tuple(op)
        one(ls, op)
        rec.transitions += 1
        if case["observe"]:
            ls.observe()
    key = ls.key()
    rec.state(key)
    ls.drain()
    rec.traces += 1
    rec.outcome(key[0])


class Crowd:
    """A long-lived queue against a heap of our own.

    rolling: at most a hundred entries at any time; full: all entries at
    once; churn: nearly everything is cancelled before its time."""

    def __init__(self, case, rec):
        from pysim.sim.simulator import EventQueue
        self.q, self.rec = EventQueue(), rec
        self.heap, self.live, self.seen = [], {}, set()

    def push(self, t):
        n = len(self.seen)
        eid = self.q.push(t, (n, self))
        expect(eid not in self.seen, "push #%d returned the identifier %r again", n, eid)
        self.seen.add(eid)
        self.live[eid] = n
        heapq.heappush(self.heap, (t, n, eid))
        return eid

    def pop(self):
        while self.heap[0][2] not in self.live:
            heapq.heappop(self.heap)
        t, n, eid = heapq.heappop(self.heap)
        del self.live[eid]
        got = self.q.pop()
        same((got[0], got[1]), (t, eid), "time and identifier popped after %d pushes" % len(self.seen))
        expect(got[2][0] == n and got[2][1] is self, "entry %r popped with another payload", eid)
        self.rec.transitions += 1

    def cancel(self, eid):
        self.q.cancel(eid)
        del self.live[eid]
        self.rec.transitions += 1

    def length(self):
        same(len(self.q), len(self.live), "length after %d pushes" % len(self.seen))
        same(bool(self.q.empty), not self.live, "emptiness after %d pushes" % len(self.seen))

    def listing(self):
        same(sorted(e[1] for e in self.q.to_list()), sorted(self.live), "listing after %d pushes" % len(self.seen))


def crowd(case, rec):
    c, n, shape = Crowd(case, rec), case["n"], case["crowd"]
    if shape == "rolling":
        for i in range(n):
            c.push(i // 7 + (i * 37 % 11))
            if i >= 100:
                c.pop()
            if i % 512 == 0:
                c.length()
    elif shape == "full":
        ids = [c.push((i * 7919 % 4093) * 0.5) for i in range(n)]
        c.listing()
        for i in range(5, n, 3):
            c.cancel(ids[i])
        c.length()
    else:
        old = []
        for i in range(n):
            old.append(c.push(1000.0 - i % 64))
            if i % 64 == 63:
                for eid in old[1:]:
                    c.cancel(eid)
                old = []
                c.length()
    c.listing()
    while c.live:
        c.pop()
    c.length()
    try:
        got = c.q.pop()
    except KeyError:
        got = None
    same(got, None, "pop of the emptied queue")
    rec.traces += 1
    rec.outcome((shape, n))


def replay(case, rec):
    if "crowd" in case:
        return crowd(case, rec)
    execute(case, rec)


def enabled(pushed):
    yield from (("push", t) for t in TIMES)
    yield ("pop", None)
    for i in range(pushed):
        yield ("cancel", i)
    yield ("unknown", None)
    yield ("clear", None)


def sequences(prefix, pushed, depth):
    yield prefix
    if len(prefix) < depth:
        for op in enabled(pushed):
            yield from sequences(prefix + [op], pushed + (op[0] == "push"), depth)


def macro_sequences(prefix, depth):
    yield prefix
    if len(prefix) < depth:
        for op in MACRO:
            yield from macro_sequences(prefix + [op], depth)


def work(item, rec):
    kind, prefix, depth = item
    pushed = sum(op[0] == "push" for op in prefix)
    for ops in (sequences(prefix, pushed, depth) if kind == "small" else macro_sequences(prefix, depth)):
        for observe in (False, True):
            core.guarded(execute, dict(ops=ops, observe=observe), rec)
            if rec.violation:
                return
    rec.sample(ops)


def run(rec):
    small, macro = (7, 5) if rec.thorough else (6, 4)
    items = [("small", p, 2) for p in ([],)]
    items += [("small", p, small) for p in sequences([], 0, 3) if len(p) == 3]
    items += [("macro", [], 1)]
    items += [("macro", p, macro) for p in macro_sequences([], 2) if len(p) == 2]
    core.parallel_work(work, items, rec)
    if rec.violation:
        return
    odd = [[("odd", i) for i in p] + tail for p in itertools.product(range(len(ODD)), repeat=3)
           for tail in ([], [("cancel", 1)])]
    core.run_cases(execute, [dict(ops=ops, observe=True) for ops in odd], rec)
    if rec.violation:
        return
    n = 1 << 20 if rec.thorough else 140000
    core.run_cases(crowd, [dict(crowd=s, n=n) for s in ("rolling", "full", "churn")], rec)
