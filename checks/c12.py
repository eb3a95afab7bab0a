"""C12: parameter sweeps attribute each result to its value."""
import ast
import concurrent.futures
import contextlib
import itertools
import multiprocessing
import multiprocessing.pool
import os
import re
import sys

from lib import core, plotkit
from lib.core import close, expect, same

LEVEL = "exploration"
RULE = ("every list of 1 to 3 values over {a, b, c} (order and repetitions) for every variable option of both command "
        "lines x settings of the options that cannot vary, every pair of options with several values, through the "
        "click commands with a pool that runs the workers in any legal order; lists of almost equal and of large values, lists with zeros; non-trivial: distinct (option, list, "
        "settings)")
BOUNDS = {"quick": RULE, "thorough": RULE.replace("1 to 3", "1 to 4")}
ASSUMPTIONS = ["a pool returns what multiprocessing.Pool documents (map and imap in order, imap_unordered in any "
               "order); sweeps are run in this process with the same function and arguments"]


class FakeAsync:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class FakePool:
    """Runs the workers in this process, in reverse order (legal for every
    method), and returns results as documented."""

    def __init__(self, *a, **k):
        pass

    def _run(self, fn, items, star=False):
        items = list(items)
        out = [None] * len(items)
        for i in reversed(range(len(items))):
            out[i] = fn(*items[i]) if star else fn(items[i])
        return out

    def map(self, fn, items, chunksize=None):
        return self._run(fn, items)

    def starmap(self, fn, items, chunksize=None):
        return self._run(fn, items, True)

    def imap(self, fn, items, chunksize=1):
        return iter(self._run(fn, items))

    def imap_unordered(self, fn, items, chunksize=1):
        return iter(reversed(self._run(fn, items)))

    def map_async(self, fn, items, *a, **k):
        return FakeAsync(self._run(fn, items))

    def starmap_async(self, fn, items, *a, **k):
        return FakeAsync(self._run(fn, items, True))

    def apply(self, fn, args=(), kwds={}):
        return fn(*args, **kwds)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        v = fn(*args, **kwds)
        if callback:
            callback(v)
        return FakeAsync(v)

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeExecutor(FakePool):
    """The same for concurrent.futures."""

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return iter(self._run(fn, zip(*iterables), True))

    def submit(self, fn, /, *args, **kwargs):
        future = concurrent.futures.Future()
        future.set_running_or_notify_cancel()
        try:
            future.set_result(fn(*args, **kwargs))
        except Exception as e:
            future.set_exception(e)
        return future

    def shutdown(self, wait=True, *, cancel_futures=False):
        pass


@contextlib.contextmanager
def patched(*triples):
    missing = object()
    saved = []
    for obj, name, value in triples:
        saved.append((obj, name, getattr(obj, name, missing)))
        setattr(obj, name, value)
    try:
        yield
    finally:
        for obj, name, old in reversed(saved):
            delattr(obj, name) if old is missing else setattr(obj, name, old)


def pools(*modules):
    out = [(multiprocessing, "Pool", FakePool), (multiprocessing.pool, "Pool", FakePool),
           (multiprocessing.pool, "ThreadPool", FakePool),
           (multiprocessing.context.BaseContext, "Pool", lambda ctx, *a, **k: FakePool())]
    executors = ("ProcessPoolExecutor", "ThreadPoolExecutor")
    out += [(concurrent.futures, name, FakeExecutor) for name in executors]
    for m in modules:
        for name, v in list(vars(m).items()):
            if name.endswith("Pool") and callable(v):
                out.append((m, name, FakePool))
            elif name.endswith("Executor") and callable(v):
                out.append((m, name, FakeExecutor))
    return out


def invoke(cmd, argv):
    from click.testing import CliRunner
    return CliRunner().invoke(cmd, argv)


def rows(text):
    """Cells of all table rows of the output."""
    return [[c.strip() for c in ln.strip().strip("|").split("|")] for ln in text.splitlines()
            if ln.strip().startswith("|")]


# --------------------------------------------------------------------------
# Ping-pong
# --------------------------------------------------------------------------
PP = {"interval": ("-i", [2.5, 10.0, 7.25, 0.5]), "channel_delay": ("--channel_delay", [3.0, 1.0, 12.5, 0.0]),
      "service_delay": ("-s", [9.5, 100.0, 1.25, 0.25]), "loss_prob": ("-l", [0.5, 0.25, 1.0, 0.0]),
      "max_pings": ("-mp", [9, 10, 100, 1])}
PP_DEFAULT = {"interval": 10.0, "channel_delay": 2.0, "service_delay": 1.0, "loss_prob": 0.1, "max_pings": 1000000}


def run_pingpong(case, rec):
    from pysim.models.pingpong import cli
    from pysim.models.pingpong.objects import Result
    ran = []

    def run_model(config, logger_config=None, *a, **k):
        i = len(ran)
        ran.append({k: getattr(config, k) for k in PP})
        return Result(avg_interval=1000.5 + i, avg_delay=2000.25 + i, miss_rate=3000.125 + i)
    argv = []
    for name, values in case["args"].items():
        for v in values:
            argv += [PP[name][0], repr(v)]
    with patched(*pools(cli), (cli, "run_model", run_model)):
        res = invoke(cli.cli_run, argv)
    check_runs(case, res, ran, PP_DEFAULT, rec, lambda r: r)
    if ran and res.exit_code == 0:
        pp_output(case, res.output, ran)


def pp_output(case, out, ran):
    many = [n for n, v in case["args"].items() if len(v) > 1]
    if not many:
        got = [float(x) for x in re.findall(r"=\s*([-\d.]+)\s*$", out, re.M)]
        same(got, [1000.5, 2000.25, 3000.125], "printed results (one run)")
        return
    table = {r[0]: r[1] for r in rows(out) if len(r) == 2}
    values = ast.literal_eval(table[many[0]])
    for name, base in (("avg_interval", 1000.5), ("avg_delay", 2000.25), ("miss_rate", 3000.125)):
        got = ast.literal_eval(table[name])
        same(len(got), len(ran), "number of printed results")
        same(len(values), len(got), "printed values against results")
        for v, x in zip(values, got):
            same(ran[int(x - base)][many[0]], v, "value of %s against which %s of another run stands"
                 % (many[0], name))
    for name in PP:
        if name != many[0]:
            close(float(table[name]), ran[0][name], "printed " + name)


def check_runs(case, res, ran, default, rec, norm):
    args = case["args"]
    many = [n for n, v in args.items() if len(v) > 1]
    rec.traces += 1
    rec.transitions += len(ran)
    rec.outcome((case["model"], sorted(args.items()), sorted(case.get("flags", {}).items())))
    if len(many) > 1:
        expect(res.exit_code != 0, "several values for %s were accepted", many)
        same(len(ran), 0, "runs before the refusal")
        return
    if res.exit_code != 0:
        raise core.Violation("the command failed: %r" % (res.exception,))
    want = dict(default)
    want.update({n: v[0] for n, v in args.items()})
    want.update(case.get("flags", {}))
    wanted = []
    for v in (sorted(set(args[many[0]])) if many else [None]):
        w = dict(want)
        if many:
            w[many[0]] = v
        wanted.append(w)
    same(len(ran), len(wanted), "number of simulations for %s" % args)
    key = (lambda r: r[many[0]]) if many else (lambda r: 0)
    for w, r in zip(wanted, sorted(ran, key=key)):
        for k in w:
            same(r[k], w[k], "parameter %s of a run (arguments %s)" % (k, args))


# --------------------------------------------------------------------------
# RFID
# --------------------------------------------------------------------------
RF = {"speed": ("-s", [25, 100, 9, 40]), "tid_word_size": ("-ws", [64, 8, 100, 12]), "altitude": ("-a", [5.0, 10.0, 4.5, 20.0]),
      "reader_offset": ("-ro", [3.0, 10.0, 1.5, 2.0]), "tag_offset": ("-to", [2.0, 11.0, 1.5, 3.0]),
      "power": ("-p", [29, 31, 9, 100])}
RF_DEFAULT = {"speed": 25, "tid_word_size": 64, "altitude": 5.0, "reader_offset": 3.0, "tag_offset": 2.0, "power": 29,
              "encoding": "2", "tari": "12.5", "num_tags": 40, "useadjust": False, "delta": 0.5}


# Values that are almost the same, and of any magnitude.
NEAR = [[0.3, 0.1 + 0.2], [0.0004, 0.0001, 0.0003, 0.0002], [1e-9, 3e-9, 2e-9], [0.99999999, 1.0, 0.9999999],
        [1 / 3, 0.333333, 0.3333, 0.333]]
LARGE = [[100000.0, 100000.25, 99999.75], [1e6, 1000001.0, 999999.0], [123456.75, 123456.5]]
NEAR_INT = [[1000000, 1000001, 999999], [100000, 1000, 10000], [2, 1], [128, 127, 129, 255, 256, 257]]


class FakeStats:
    def __init__(self, i):
        self.i = i

    def average_rounds_per_tag(self):
        return 1000.5 + self.i

    def inventory_probability(self):
        return 2000.25 + self.i

    def read_tid_probability(self):
        return 3000.125 + self.i

    def average_changing_q(self):
        return 0


class FakeModel:
    def __init__(self, i):
        self.statistics = FakeStats(i)


def run_rfid(case, rec):
    from pysim.models.rfid import cli, configurator
    ran, plots = [], []
    enc = {"1": 1, "2": 2, "4": 4, "8": 8}

    def create_model(settings=None, **kw):
        if settings is not None:
            kw["settings"] = settings
        ran.append(kw)
        return FakeModel(len(ran) - 1)

    argv = []
    for name, values in case["args"].items():
        for v in values:
            argv += [RF[name][0], repr(v)]
    flags = case["flags"]
    for name, opt in (("encoding", "-m"), ("tari", "-t"), ("num_tags", "-n"), ("delta", "-d")):
        if name in flags:
            argv += [opt, str(flags[name])]
    if flags.get("useadjust"):
        argv.append("-ua")
    if case.get("verbose"):
        argv.append("-v")
    with plotkit.drawn(plots), patched(*pools(cli), (configurator, "create_model", create_model),
                                       (configurator, "run_model", lambda *a, **k: None)):
        res = invoke(cli.cli_run, argv)
    if res.exit_code == 0:
        for r in ran:
            r["speed"] = round(r["speed"] * 3.6, 9)
            r["tari"] = round(r["tari"] * 1e6, 9)
            r["encoding"] = r["encoding"].value if hasattr(r["encoding"], "value") else r["encoding"]
    default = dict(RF_DEFAULT)
    c = dict(case)
    c["flags"] = dict(flags)
    for k, f in (("tari", float),):
        default[k] = f(default[k])
        if k in flags:
            c["flags"][k] = f(flags[k])
    from pysim.models.rfid.epcstd import TagEncoding
    names = {"1": TagEncoding.FM0, "2": TagEncoding.M2, "4": TagEncoding.M4, "8": TagEncoding.M8}
    default["encoding"] = names[flags.get("encoding", "2")].value
    c["flags"].pop("encoding", None)
    check_runs(c, res, ran, default, rec, lambda r: r)
    if ran and res.exit_code == 0:
        rfid_output(case, res.output, ran, plots)


def rfid_output(case, out, ran, plots):
    many = [n for n, v in case["args"].items() if len(v) > 1]
    table = rows(out)
    if not many:
        got = {r[0]: float(r[1]) for r in table if len(r) == 2}
        same(got, {"rounds_per_tag": 1000.5, "inventory_prob": 2000.25, "read_tid_prob": 3000.125}, "printed results")
        return
    head = [i for i, r in enumerate(table) if r[0] == many[0] and len(r) == 4]
    same(len(head), 1, "header rows of the result table")
    cols = table[head[0]]
    lines = [dict(zip(cols, map(float, r))) for r in table[head[0] + 1:] if len(r) == 4]
    same(len(lines), len(ran), "rows of the result table")
    same([ln[many[0]] for ln in lines], sorted(ln[many[0]] for ln in lines), "order of the printed values")
    for ln in lines:
        for name, base in (("rounds_per_tag", 1000.5), ("inventory_prob", 2000.25), ("read_tid_prob", 3000.125)):
            close(ran[int(ln[name] - base)][many[0]], ln[many[0]],
                  "value of %s against which %s of another run stands" % (many[0], name))
    static = {r[0]: r[1] for r in table if len(r) == 2}
    for name in RF:
        if name != many[0]:
            close(float(static[name]), float(ran[0][name]), "printed " + name)
    for _, xs, ys, _ in [e for e in plots if e[0] == "plot"]:
        same(len(xs), len(ys), "points of the plot")
        for x, y in zip(xs, ys):
            close(float(ran[int(y - 3000.125)][many[0]]), float(x), "value against which a result is plotted")


def execute(case, rec):
    (run_pingpong if case["model"] == "pingpong" else run_rfid)(case, rec)
    if rec.traces % 300 == 1:
        rec.sample(case)


def replay(case, rec):
    execute(case, rec)


def lists(values, n):
    for k in range(1, n + 1):
        yield from (list(x) for x in itertools.product(values, repeat=k))


def run(rec):
    n = 4 if rec.thorough else 3
    vals = 4 if rec.thorough else 3
    cases = [dict(model="pingpong", args={}), dict(model="rfid", args={}, flags={})]
    others = {"interval": [4.0], "channel_delay": [0.75], "service_delay": [6.0], "loss_prob": [0.75], "max_pings": [77]}
    for name, (_, values) in PP.items():
        for lst in lists(values[:vals], n):
            cases.append(dict(model="pingpong", args={name: lst}))
            rest = {k: v for k, v in others.items() if k != name}
            rest[name] = lst
            cases.append(dict(model="pingpong", args=rest))
    for a, b in itertools.permutations(PP, 2):
        cases.append(dict(model="pingpong", args={a: PP[a][1][:2], b: PP[b][1][:2]}))
        cases.append(dict(model="pingpong", args={a: PP[a][1][:2], b: PP[b][1][:1] * 2}))
    others = {"speed": [33], "tid_word_size": [16], "altitude": [6.5], "reader_offset": [0.5], "tag_offset": [1.25],
              "power": [27]}
    flags = [{}, dict(useadjust=True), dict(delta=0.125), dict(num_tags=7), dict(num_tags=1), dict(encoding="8"), dict(tari="25"),
             dict(encoding="1", tari="6.25", num_tags=3, useadjust=True, delta=0.9)]
    for name, (_, values) in RF.items():
        for i, lst in enumerate(lists(values[:vals], n)):
            cases.append(dict(model="rfid", args={name: lst}, flags=flags[i % len(flags)], verbose=bool(i % 2)))
            rest = {k: v for k, v in others.items() if k != name}
            rest[name] = lst
            cases.append(dict(model="rfid", args=rest, flags=flags[(i + 3) % len(flags)]))
        for f in flags:
            cases.append(dict(model="rfid", args={name: values[:3]}, flags=f))
            cases.append(dict(model="rfid", args={name: values[:1]}, flags=f))
    for a, b in itertools.permutations(RF, 2):
        cases.append(dict(model="rfid", args={a: RF[a][1][:2], b: RF[b][1][:2]}, flags={}))
    for name in PP:
        for lst in NEAR_INT if name == "max_pings" else NEAR + (LARGE if name != "loss_prob" else []):
            cases.append(dict(model="pingpong", args={name: lst}))
            cases += [dict(model="pingpong", args={name: [v]}) for v in lst]
    for name in RF:
        for i, lst in enumerate(NEAR + LARGE if isinstance(RF[name][1][0], float) else NEAR_INT):
            cases.append(dict(model="rfid", args={name: lst}, flags=flags[i % len(flags)]))
            cases += [dict(model="rfid", args={name: [v]}, flags={}) for v in lst]
    # zero is a value like any other
    for name in ("channel_delay", "service_delay", "loss_prob"):
        for lst in ([0.0], [0.0, 0.5], [0.5, 0.0], [0.0, 0.25, 0.75, 0.0]):
            cases.append(dict(model="pingpong", args={name: lst}))
            cases.append(dict(model="pingpong", args={name: lst, "interval": [10.0, 2.5]}))
    for name in ("tid_word_size", "altitude", "reader_offset", "tag_offset", "power"):
        zero, some = (0.0, 5.0) if isinstance(RF[name][1][0], float) else (0, 7)
        for i, lst in enumerate(([zero], [zero, some], [some, zero], [some, zero, some + 4, zero])):
            cases.append(dict(model="rfid", args={name: lst}, flags=flags[i]))
            cases.append(dict(model="rfid", args={name: lst, "speed": [25, 33]}, flags={}))
    core.run_cases(execute, cases, rec)
