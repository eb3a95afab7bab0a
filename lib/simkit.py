"""Toy programs on the real simulation kernel, checked in lockstep against a
reference kernel (a sorted list of pending events).

A program is not fixed beforehand: whenever a handler of it runs, it asks the
Chooser what to do next, so the set of all choice sequences is the set of all
programs (histories) over the alphabet.
"""
import collections
import functools
import heapq

import numpy as np

from .core import Violation, expect, same


class RefKernel:
    """Pending events sorted by (time, order of scheduling)."""

    def __init__(self):
        self.now = 0.0
        self.pending = {}     # our number -> [time, number, payload]
        self.seq = 0
        self.by_id = {}       # id given by the real kernel -> our number
        self.state = {}       # our number -> 'pending' | 'running' | 'done' | 'cancelled'
        self.real_id = {}

    def schedule(self, delay, payload):
        self.seq += 1
        self.pending[self.seq] = (self.now + delay, self.seq, payload)
        self.state[self.seq] = "pending"
        return self.seq

    def bind(self, n, event_id):
        self.by_id[event_id] = n
        self.real_id[n] = event_id

    def cancel(self, n):
        if self.state.get(n) == "pending":
            self.state[n] = "cancelled"
            del self.pending[n]
            return 1
        return 0

    def next(self):
        return min(self.pending.values(), key=lambda e: e[:2]) if self.pending else None

    def take(self):
        e = self.next()
        del self.pending[e[1]]
        self.state[e[1]] = "running"
        self.now = e[0]
        return e


class Toy:
    """One run of a toy program.

    act(toy, sim, body) performs the choices of one handler body; checks that
    depend on the property are in the subclass / callbacks.
    """

    def __init__(self, chooser, rec, ops, max_ops, handler_kinds=1, bodies=None):
        self.ch, self.rec = chooser, rec
        self.ops, self.max_ops = ops, max_ops
        self.bodies = bodies    # numbers of the handler bodies that may act (None: all)
        self.ref = RefKernel()
        self.used = 0
        self.trace = []
        self.sim = None
        self.current = None
        self.handled = 0
        self.kinds = handler_kinds
        self.finished = False
        self.stopped = []       # messages of stop requests
        self.on_body_end = None

    # --- what the kernel calls --------------------------------------------
    def init(self, sim, *args):
        self.sim = sim
        same(sim.time, 0, "model time in the initializer")
        self.body(sim)

    def handle(self, sim, n, *args):
        """Entry point of every event (n: our number of the event)."""
        expect(not self.finished, "event %r handled after the end of the run", n)
        expect(sim is self.sim, "handler got another simulation object")
        nxt = self.ref.next()
        expect(nxt is not None, "event #%r handled, but nothing is pending "
               "(delivered twice, or cancelled)", n)
        expect(self.ref.state.get(n) == "pending",
               "event #%r handled although it is %s", n, self.ref.state.get(n))
        expect(nxt[1] == n, "event #%r (due %r) handled before event #%r (due %r); history: %s",
               n, self.ref.pending[n][0], nxt[1], nxt[0], self.trace)
        e = self.ref.take()
        same(sim.time, e[0], "model time while handling event #%r" % n)
        self.trace.append("run#%d@%r" % (n, e[0]))
        self.rec.transitions += 1
        self.handled += 1
        self.current = n
        self.body(sim)
        same(sim.time, e[0], "model time at the end of the handler of #%r" % n)
        self.ref.state[n] = "done"
        self.current = None

    def body(self, sim):
        while self.used < self.max_ops and (self.bodies is None or self.handled in self.bodies):
            c = self.ch.choose(1 + len(self.ops))
            if c == 0:
                break
            self.used += 1
            self.rec.transitions += 1
            self.ops[c - 1](self, sim)
        if self.on_body_end:
            self.on_body_end(self, sim)
        pend = self.ref.pending
        if len(pend) <= 8:
            self.rec.state((sorted((t - self.ref.now, s - self.ref.seq) for t, s, _ in pend.values()),
                            self.used))
        else:
            self.rec.state((len(pend), self.handled, self.used))

    # --- operations -------------------------------------------------------
    def make_handler(self, n, kind):
        if kind == 0:
            return self.handle, (n,)
        if kind == 1:
            return functools.partial(self.handle, n=n), []
        if kind == 2:
            return (lambda sim, *a: self.handle(sim, *a)), iter((n,))
        if kind == 3:
            return _Callable(self, None), [n]
        if kind == 4:   # both the handler and the arguments know the number
            return _Callable(self, n), (n, None, self, "x")
        if kind == 5:
            return self.handle, (x for x in (n,))
        # other iterables; the last is false though it is not empty
        return _Callable(self, None), (lambda: range(n, n + 1), lambda: {n: None}, lambda: {n}, lambda: np.array([n]),
                                       lambda: np.array([n, 0]), lambda: collections.deque([n]), lambda: map(int, [str(n)]),
                                       lambda: {n: 1}.keys(), lambda: _Falsy([n]), lambda: frozenset((n,)))[kind - 6]()

    def schedule(self, sim, delay, kind=None, call=False):
        kind = self.ref.seq % self.kinds if kind is None else kind
        n = self.ref.seq + 1
        h, a = self.make_handler(n, kind)
        if call:
            self.trace.append("call#%d" % n)
            eid = sim.call(h, a)
            self.ref.schedule(0, None)
        else:
            self.trace.append("schedule#%d(%r)" % (n, delay))
            eid = sim.schedule(delay, h, a)
            self.ref.schedule(delay, None)
        expect(isinstance(eid, int) and eid > 0, "schedule() returned the identifier %r", eid)
        expect(eid not in self.ref.by_id, "identifier %r given twice", eid)
        self.ref.bind(n, eid)
        return n

    def schedule_twin(self, sim, delay):
        """Schedules an event that nothing distinguishes from other twins."""
        n = self.ref.seq + 1
        self.trace.append("twin#%d(%r)" % (n, delay))
        eid = sim.schedule(delay, self.handle_twin, ("twin", 0)) if delay else \
            sim.call(self.handle_twin, ("twin", 0))
        self.ref.schedule(delay, "twin")
        expect(isinstance(eid, int) and eid > 0, "schedule() returned the identifier %r", eid)
        expect(eid not in self.ref.by_id, "identifier %r given twice", eid)
        self.ref.bind(n, eid)

    def handle_twin(self, sim, *args):
        same(args, ("twin", 0), "arguments of a twin event")
        nxt = self.ref.next()
        expect(nxt is not None, "a twin event handled, but nothing is pending (history: %s)", self.trace)
        expect(nxt[2] == "twin", "a twin event handled before event #%r (due %r); history: %s",
               nxt[1], nxt[0], self.trace)
        self.handle(sim, nxt[1])

    def cancel(self, sim, n):
        """Cancel our event number n."""
        eid = self.ref.real_id[n]
        want = self.ref.cancel(n)
        self.trace.append("cancel#%d" % n)
        same(sim.cancel(eid), want, "cancel() of event #%d (%s)" % (n, self.ref.state[n]))

    # --- run --------------------------------------------------------------
    def run(self, **kw):
        from pysim.sim.simulator import build_simulation, run_simulation
        kw.setdefault("init", self.init)
        stats, ctx, fin = run_simulation(build_simulation("toy", **kw))
        self.finished = True
        return stats, ctx, fin

    def check_all_delivered(self, stats):
        expect(not self.ref.pending, "the run ended without delivering %s; history: %s",
               sorted(self.ref.pending), self.trace)
        same(stats.num_events_processed, self.handled, "number of handled events")


class _Falsy(list):
    def __bool__(self):
        return False


class _Callable:
    def __init__(self, toy, n):
        self.toy, self.n = toy, n

    def __call__(self, sim, n, *rest):
        if self.n is not None:
            same(n, self.n, "first argument of event #%r" % self.n)
            same(rest, (None, self.toy, "x"), "other arguments of event #%r" % n)
        self.toy.handle(sim, n)


def op_schedule(delay):
    return lambda toy, sim: toy.schedule(sim, delay)


def op_call(toy, sim):
    toy.schedule(sim, 0, call=True)


def op_twin(delay):
    return lambda toy, sim: toy.schedule_twin(sim, delay)


def op_bulk(pattern):
    """Schedules many events at once: pattern is a list of delays."""
    def op(toy, sim):
        for d in pattern:
            toy.schedule(sim, d)
    return op


def op_cancel_nth(k):
    """Cancels the k-th issued event (k < 0: from the end), if there is one."""
    def op(toy, sim):
        n = toy.ref.seq + 1 + k if k < 0 else k + 1
        if 1 <= n <= toy.ref.seq:
            toy.cancel(sim, n)
    return op


def op_cancel_every(step, offset):
    def op(toy, sim):
        for n in range(1 + offset, toy.ref.seq + 1, step):
            toy.cancel(sim, n)
    return op


def op_cancel_current(toy, sim):
    """Cancels the event being delivered."""
    if toy.current is not None:
        toy.cancel(sim, toy.current)


def op_cancel_foreign(toy, sim):
    """Cancels identifiers that were never given out."""
    top = max(toy.ref.by_id, default=0)
    for eid in (0, -1, top + 1, top + 1000, 10 ** 9):
        if eid in toy.ref.by_id:
            continue
        toy.trace.append("cancel-id(%r)" % eid)
        same(sim.cancel(eid), 0, "cancel() of the unknown identifier %r" % eid)


def op_cancel_due(toy, sim):
    """Cancels all pending events that are due right now."""
    for t, n, _ in sorted(toy.ref.pending.values(), key=lambda e: e[:2]):
        if t == toy.ref.now:
            toy.cancel(sim, n)


# ---- runs of realistic length ----------------------------------------------
SHAPES = ("chain", "wide", "timers", "bursts")


class Long:
    """A run of case["n"] events of a given shape against a heap of our own:
    chain - one pending event at a time, and a crowd with equal times at the
        end; wide - all events pending from the start, some cancelled;
    timers - every event restarts a timer that never fires; bursts - every
        hundredth event schedules a hundred, due together."""

    def __init__(self, case, rec):
        self.shape, self.n = case["shape"], case["n"]
        self.rec = rec
        self.seq = self.done = 0
        self.heap, self.ids, self.seen = [], {}, set()
        self.timer = None
        self.before = self.now = 0.0

    def at(self, sim, delay):
        self.seq += 1
        n = self.seq
        eid = sim.schedule(delay, self.handle, (n, self)) if delay else sim.call(self.handle, (n, self))
        expect(isinstance(eid, int) and eid > 0, "event #%d got the identifier %r", n, eid)
        expect(eid not in self.seen, "event #%d got the identifier %r of an earlier event", n, eid)
        self.seen.add(eid)
        self.ids[n] = eid
        heapq.heappush(self.heap, (sim.time + delay, n))
        return n

    def cancel(self, sim, n, want=1):
        same(sim.cancel(self.ids[n]), want, "cancel of event #%d, %d of %d events handled" % (n, self.done, self.seq))
        if want:
            eid = self.ids.pop(n)
            if n % 512 == 0:
                same(sim.cancel(eid), 0, "second cancel of event #%d" % n)

    def init(self, sim):
        if self.shape == "wide":
            for i in range(self.n):
                self.at(sim, (i * 7919 % 1009) * 0.25)
            for n in range(3, self.n, 5):
                self.cancel(sim, n)
        else:
            self.at(sim, 1)

    def handle(self, sim, n, me):
        expect(me is self, "event #%r got other arguments", n)
        while self.heap and self.heap[0][1] not in self.ids:
            heapq.heappop(self.heap)
        expect(self.heap, "event #%d is delivered, nothing is pending", n)
        t, want = heapq.heappop(self.heap)
        same((n, sim.time), (want, t), "event number %d and its time" % self.done)
        eid = self.ids.pop(n)
        self.done += 1
        self.before, self.now = self.now, t
        if self.done % 4096 == 0:
            same(sim.cancel(eid), 0, "cancel of the event being delivered")
        self.rec.transitions += 1
        self.act(sim)

    def act(self, sim):
        if self.shape == "chain":
            if self.done < self.n:
                self.at(sim, (1, 0.25, 0, 3)[self.done % 4])
            elif self.done == self.n:
                first = self.seq + 1
                for i in range(3000):
                    self.at(sim, (i % 7) * 0.5)
                for k in range(first, first + 3000, 3):
                    self.cancel(sim, k)
        elif self.shape == "wide":
            if self.done % 1000 == 0:
                self.at(sim, 0)
        elif self.shape == "timers":
            if self.timer is not None:
                self.cancel(sim, self.timer)
                self.timer = None
            if self.done < self.n:
                self.timer = self.at(sim, 1e6)
                self.at(sim, 0.5)
        elif self.done % 100 == 1 and self.done < self.n:
            for i in range(100):
                self.at(sim, 1 if i % 2 else 0.5)

    def run(self, **limits):
        from pysim.sim.simulator import build_simulation, run_simulation
        stats, _, _ = run_simulation(build_simulation("toy", init=self.init, **limits))
        self.rec.traces += 1
        self.rec.outcome((self.shape, self.n, self.done, stats.sim_time))
        same(stats.num_events_processed, self.done, "number of handled events")
        return stats


def long_run(case, rec):
    """A run without limits delivers everything."""
    run = Long(case, rec)
    stats = run.run()
    expect(not run.ids, "%d events were never delivered", len(run.ids))
    expect(run.done >= case["n"] * 3 // 4, "only %d events", run.done)
    same(stats.exit_reason.name, "NO_MORE_EVENTS", "exit reason")


def long_cases(rec):
    n = 1 << 20 if rec.thorough else 140000
    return [dict(long=True, shape=s, n=n) for s in SHAPES]
