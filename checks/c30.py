"""C30: observers are notified of every change exactly once."""
import itertools

from lib import core, rfidrun
from lib.core import Violation, expect, same
from lib.readerkit import ReaderUnderTest, options

LEVEL = "model_checking"
BOUNDS = {
    "quick": "a listener list next to a reference list: all sequences of 6 operations out of 11 (add with and without "
             "own arguments or the same function again, remove the first, last, a removed or an unknown one, clear, "
             "notify in two ways, use a second list); all lists of up to 4 listeners where one or two of them remove, "
             "clear, add or notify from inside; all sequences of 8 reader events in 6 configurations; whole RFID runs in "
             "30 configurations with at most one deviating draw and observers that come and go; "
             "without deviations, 8 runs of realistic scale (road traffic with 6 to 20 tags, 9000 to 35000 exchanges each; a tag read over 1000 times; 1100 tags)",
    "thorough": "7 operations; 10 reader events; two deviating draws; 38 runs of realistic scale",
}
ASSUMPTIONS = ["whether a listener that is added or removed during a notification still gets that notification is left open",
               "whether entering the state the reader is already in is notified is left open"]


# ---- lists of listeners ----
OPS = ("add", "add_kw", "add_same", "rm_first", "rm_last", "rm_gone", "rm_unknown", "clear", "call", "call_kw", "other")


class Lists:
    def __init__(self):
        from pysim.models.rfid import objects
        self.l, self.o = objects.Listeners(), objects.Listeners()
        self.log, self.live, self.gone, self.used = [], [], [], set()
        self.n = 0
        self.o.add(self.listener("other"))
        self.fn = None

    def listener(self, name):
        def fn(*args, **kwargs):
            self.log.append((name, args, tuple(sorted(kwargs.items()))))
        return fn

    def register(self, fn, name, own):
        i = self.l.add(fn, **own)
        expect(i not in self.used, "the identifier %r was given out before", i)
        self.used.add(i)
        self.live.append((i, name, own))

    def step(self, op):
        self.log.clear()
        want = []
        if op in ("add", "add_kw"):
            self.n += 1
            self.fn = (self.listener(self.n), self.n)
            self.register(self.fn[0], self.n, dict(own=self.n, a=7) if op == "add_kw" else {})
        elif op == "add_same":
            if self.fn is None:
                self.n += 1
                self.fn = (self.listener(self.n), self.n)
            self.register(self.fn[0], self.fn[1], {})
        elif op in ("rm_first", "rm_last"):
            if self.live:
                x = self.live.pop(0 if op == "rm_first" else -1)
                self.gone.append(x[0])
                self.l.remove(x[0])
        elif op == "rm_gone":
            if self.gone:
                self.l.remove(self.gone[0])
                self.l.remove(self.gone[-1])
        elif op == "rm_unknown":
            self.l.remove(987654)
        elif op == "clear":
            self.l.clear()
            self.gone += [x[0] for x in self.live]
            self.live = []
        elif op == "other":
            self.o.call(5)
            want = [("other", (5,), ())]
        else:
            args, kw = ((), {}) if op == "call" else ((1, "x"), dict(a=1, b=2))
            self.l.call(*args, **kw)
            want = [(name, args, tuple(sorted(dict(kw, **own).items()))) for _, name, own in self.live]
            same(kw, {} if op == "call" else dict(a=1, b=2), "arguments of the notification afterwards")
        same(self.log, want, "notifications of " + op)


def play_list(case, rec):
    t = Lists()
    for op in case["ops"]:
        t.step(op)
        rec.transitions += 1
    t.step("call_kw")
    t.step("other")
    rec.traces += 1


def sequences(item, rec):
    first, n = item
    for tail in itertools.product(OPS, repeat=n - len(first)):
        core.guarded(play_list, dict(kind="list", ops=list(first) + list(tail)), rec)
        if rec.violation:
            return


def play_inside(case, rec):
    from pysim.models.rfid import objects
    ls = objects.Listeners()
    n, acts = case["n"], {i: (a, j) for i, a, j in case["acts"]}
    ids, log, removed, depth, late = {}, [], set(), [0], []

    def listener(i):
        done = []

        def fn(x):
            log.append((depth[0], i, x))
            if i not in acts or done:
                return
            done.append(1)
            a, j = acts[i]
            if a == "remove":
                removed.add(j)
                ls.remove(ids[j])
            elif a == "clear":
                removed.update(k for k in range(n + len(late)))
                ls.clear()
            elif a == "add":
                k = n + len(late)
                late.append(k)
                new = ls.add(lambda x, k=k: log.append((depth[0], k, x)))
                expect(new not in ids.values(), "the identifier %r was given out before", new)
                ids[k] = new
            else:
                depth[0] += 1
                ls.call("inner%d" % i)
                depth[0] -= 1
        return fn
    for i in range(n):
        ids[i] = ls.add(listener(i))
    ls.call("outer")
    outer = [i for _, i, x in log if x == "outer"]
    sure = [i for i in outer if i not in removed and i < n]
    same(sure, [i for i in range(n) if i not in removed], "listeners notified (registered all the time)")
    same(sorted(set(outer)), sorted(outer), "a listener was notified twice")
    for i in range(n):
        inner = [k for _, k, x in log if x == "inner%d" % i]
        same(sorted(set(inner)), sorted(inner), "a listener was notified twice by the inner notification")
    log.clear()
    ls.call("after")
    same([(i, x) for _, i, x in log if x == "after"],
         [(i, "after") for i in range(n + len(late)) if i not in removed], "listeners notified afterwards")
    rec.traces += 1
    rec.transitions += 2
    rec.outcome((n, case["acts"]))


def inside_cases():
    for n in (1, 2, 3, 4):
        one = [(i, a, j) for i in range(n) for a, j in
               [("remove", j) for j in range(n)] + [("clear", 0), ("add", 0), ("notify", 0)]]
        for a in one:
            yield dict(kind="inside", n=n, acts=[a])
        for a, b in itertools.product(one, one):
            # a cleared or removed listener that acts nevertheless is fine, but then its own additions are open
            if a[0] < b[0] and not {"clear", "add"} <= {a[1], b[1]} and not (a[1] == "clear" and b[1] == "clear") \
                    and not ("add" in (a[1], b[1]) and "remove" in (a[1], b[1])):
                yield dict(kind="inside", n=n, acts=[a, b])


# ---- a reader driven directly ----
def chain(log, start, end, what):
    cur = start
    for old, new in log:
        same(str(old), str(cur), what + ": state left")
        cur = new
    same(str(cur), str(end), what + ": last state entered")


def play_reader(case, rec):
    t = ReaderUnderTest(case["cfg"])
    log, second = [], []
    r = t.reader
    r.state_change_listeners.add(lambda old, new: log.append((old, new)))
    r.state_change_listeners.add(lambda old, new, tag: second.append((old, new, tag)), tag="t")
    before = r.state
    for kind in case["events"]:
        log.clear()
        second.clear()
        t.step(kind)
        chain(log, before, r.state, "%s in state %s" % (kind, before))
        same([(a, b) for a, b, _ in second], log, "what the second observer saw")
        same(str(r.state), t.ref.state, "state after " + kind)
        before = r.state
        rec.transitions += 1
    rec.traces += 1
    rec.state((sorted(t.c.items()), t.ref.key()))
    return t


def reader_sequences(item, rec):
    cfg, first, n = item

    def grow(events, left):
        if rec.violation:
            return
        t = core.guarded(play_reader, dict(kind="reader", cfg=cfg, events=events), rec)
        if t is None or left == 0:
            return
        for ev in options(t.ref):
            grow(events + [ev], left - 1)
    grow(first, n - len(first))


# ---- whole runs ----
def configs():
    out = []
    for i in range(30):
        out.append(dict(settings=dict(
            q=i % 3, num_tags=1 + i % 3, reader_switch_power=i % 4 != 3, reader_power_on_duration=(0.006, 0.0023)[i % 2],
            use_query_adjust=i % 3 == 1, adjust_delta=0.7, read_tid_bank=i % 5 != 4, session="S%d" % (i % 4),
            target_strategy=("const", "switch")[i % 2], encoding=("FM0", "M2")[i // 3 % 2],
            reader_antenna_switching_interval=0.0013), slots=("spread", "zero", "last")[i // 2 % 3],
            gen=[(0.001, 0.004)[i % 2]], antennas=[[], [dict(pos=[5.0, 0.3, 3.0])]][i // 7 % 2]))
    return out


def replay(case, rec):
    kind = case.get("kind")
    if kind is None:
        return rfidrun.replay(case, rec, "Observers")
    {"list": play_list, "inside": play_inside, "reader": play_reader}[kind](case, rec)


def run(rec):
    t = rec.thorough
    n = 7 if t else 6
    core.parallel_work(sequences, [((a, b), n) for a in OPS for b in OPS], rec)
    if rec.violation:
        return
    core.run_cases(play_inside, inside_cases(), rec)
    if rec.violation:
        return
    items = []
    for i in range(6):
        cfg = dict(q=i % 3, strategy=("const", "switch")[i % 2], rpt=1 + i % 2, read=i % 3 != 2, session="S%d" % (i % 4))
        items += [(cfg, ["on", ev], 10 if t else 8) for ev in ("timeout", "reply", "off")]
    core.parallel_work(reader_sequences, items, rec)
    if rec.violation:
        return
    for cfgs, bound in ((rfidrun.road_runs(t), 0), (configs(), 2 if t else 1)):
        rfidrun.explore_cfgs(cfgs, rec, "Observers", bound)
        if rec.violation:
            return
