"""C34: reports hold exactly the parameters and the results of the runs."""
import ast
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import tempfile

from lib import core, env, plotkit
from lib.core import close, expect, same

from . import c12

LEVEL = "exploration"
RULE = ("every report function of the three models x single run and sweeps over every list of 2 to 3 values (order and "
        "repetitions) of every option x saved, plotted or neither x 5 sets of result values (distinct, equal, extreme, zeros "
        "next to others), and the same at the end of real scripted runs and sweeps; printed text, saved file and plotted "
        "points compared with what was passed in; non-trivial: distinct (model, arguments, results, outputs wanted)")
BOUNDS = {"quick": RULE, "thorough": RULE.replace("2 to 3", "2 to 4")}
ASSUMPTIONS = ["two reports are not saved within the same second (the file name is the time of day)",
               "the folders results, results/text and results/plots exist in the working directory, as the code expects"]


@contextlib.contextmanager
def scratch():
    d, old = tempfile.mkdtemp(prefix="report-", dir=os.getcwd()), os.getcwd()
    os.chdir(d)
    os.makedirs("results/text")
    os.makedirs("results/plots")
    try:
        yield
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def saved_files():
    return sorted(os.path.join(p, f) for p, _, fs in os.walk("results") for f in fs)


def documents(name):
    """The JSON documents of a saved report, in order."""
    with open(name, encoding="utf-8") as f:
        text = f.read()
    out, dec, i = [], json.JSONDecoder(), 0
    while True:
        m = re.compile(r"[{\[]").search(text, i)
        if not m:
            return out
        v, i = dec.raw_decode(text, m.start())
        out.append(v)


def plain(v):
    return json.loads(json.dumps(v))


def check_saved(wanted, params, results):
    files = saved_files()
    same(len(files), 1 if wanted else 0, "saved reports")
    if wanted:
        docs = documents(files[0])
        same(len(docs), 2, "parts of the saved report")
        same(docs[0], plain(params), "saved parameters")
        same(docs[1], plain(results), "saved results")
        expect(files[0].endswith(".txt"), "saved as %s", files[0])


VALUES = {"distinct": lambda i, k: 1000.0 * (k + 1) + i + 0.125, "equal": lambda i, k: 0.5,
          "extreme": lambda i, k: (0.0, 1.0, 1e-12, 123456.789)[(i + k) % 4],
          "nothing": lambda i, k: 2.5 + i if k == 2 else 0.0, "partly": lambda i, k: 3.5 + i if k == (i + 1) % 3 else 0.0}


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()


def runs_of(case):
    return sorted(set(case["values"])) if case["many"] else [None]


# ---- ping-pong -----------------------------------------------------------
def pingpong(case):
    from pysim.models.pingpong import processing
    from pysim.models.pingpong.objects import Result
    data = {n: v[1][0] for n, v in c12.PP.items()}
    names = ("avg_interval", "avg_delay", "miss_rate")
    if case["many"]:
        data[case["option"]] = tuple(case["values"])
    if case.get("extra"):
        data["jobs"] = 3
    val = VALUES[case["results"]]
    results = [Result(**{n: val(i, k) for k, n in enumerate(names)}) for i in range(len(runs_of(case)))]
    given = dict(data)
    text = printed(lambda: processing.result_processing(
        data, results if case["many"] else results[0], case["option"] if case["many"] else None, case["save"]))
    params = dict(given)
    if case["many"]:
        params[case["option"]] = runs_of(case)
        want = {n: [getattr(r, n) for r in results] for n in names}
        table = {r[0]: r[1] for r in c12.rows(text) if len(r) == 2}
        for n in c12.PP:
            same(ast.literal_eval(table[n]), params[n], "printed " + n)
        for n in names:
            same(ast.literal_eval(table[n]), want[n], "printed " + n)
        same(len([r for r in c12.rows(text) if r[0] in params or r[0] in names]), len(c12.PP) + 3, "printed rows")
    else:
        want = {n: getattr(results[0], n) for n in names}
        same(ast.literal_eval(re.search(r"\{.*?\}", text).group(0)), params, "printed parameters")
        same([float(x) for x in re.findall(r"=\s*([-\d.e]+)\s*$", text, re.M)], [want[n] for n in names], "printed results")
    check_saved(case["save"], params, want)


# ---- RFID ----------------------------------------------------------------
RF_NAMES = ("read_tid_prob", "inventory_prob", "rounds_per_tag")
UNITS = dict(speed="km/h", reader_offset="m", tag_offset="m", altitude="m", power="dBm", tid_word_size="words")


def rfid(case):
    from pysim.models.rfid import processing
    data = {n: v[1][0] for n, v in c12.RF.items()}
    data.update(encoding="4", tari="6.25", num_tags=7, useadjust=True, delta=0.25, verbose=False)
    if case["many"]:
        data[case["option"]] = tuple(case["values"])
    val = VALUES[case["results"]]
    results = [({n: val(i, k) for k, n in enumerate(RF_NAMES)}, 0.25 if case["results"] == "equal" else 0.25 * (i + 1)) for i in range(len(runs_of(case)))]
    given, copies = dict(data), [dict(r) for r, _ in results]
    log = []
    with plotkit.drawn(log):
        text = printed(lambda: processing.result_processing(
            data, results if case["many"] else results[0], case["option"] if case["many"] else None, case["save"]))
    rfid_report(case, text, log, given, copies, [t for _, t in results])


def rfid_report(case, text, log, given, results, times=None):
    params = dict(given)
    table = c12.rows(text)
    number = re.findall(r"=\s*([-\d.e]+)\s*с|симуляции:\s*([-\d.e]+)\s*с", text)
    if not case["many"]:
        same({r[0]: float(r[1]) for r in table if len(r) == 2}, {k: float(v) for k, v in results[0].items()}, "printed results")
        same(log, [], "plots of a single run")
        check_saved(False, None, None)
        if times is not None:
            close(float(number[0][0] or number[0][1]), times[0], "printed duration")
        return
    opt = case["option"]
    values = params[opt] = runs_of(case)
    static = [r for r in table if len(r) == 2]
    wanted = {n: str(params[n]) for n in list(c12.RF) + ["encoding", "tari", "num_tags"] if n != opt}
    same({r[0]: r[1] for r in static}, wanted, "printed static parameters")
    same(len(static), len(wanted), "printed static parameters")
    lines = [r for r in table if len(r) == 4]
    head, lines = lines[0], lines[1:]
    same(head[0], opt, "first column of the results")
    same(sorted(head[1:]), sorted(RF_NAMES), "columns of the results")
    same(len(lines), len(values), "rows of the results")
    for ln, v, r in zip(lines, values, results):
        same([float(x) for x in ln], [float(v)] + [float(r[n]) for n in head[1:]], "printed row")
    if times is not None:
        close(float(number[0][0] or number[0][1]), sum(times) / len(times), "printed average duration")
    drawn = [e for e in log if e[0] == "plot"]
    same(len(drawn), 1, "plotted curves")
    same([float(x) for x in drawn[0][1]], [float(v) for v in values], "plotted values of " + opt)
    same([float(y) for y in drawn[0][2]], [float(r["read_tid_prob"]) for r in results], "plotted results")
    label = drawn[0][3] or ""
    expect(params["encoding"] in label and params["tari"] in label, "label of the curve: %r", label)
    axis = [e[1] for e in log if e[0] == "set_xlabel"]
    expect(len(axis) == 1 and opt in axis[0] and axis[0].endswith(UNITS[opt]), "label of the axis: %s", axis)
    pictures = [e[1] for e in log if e[0] == "saved"]
    expect(len(pictures) == 1 and opt in os.path.basename(pictures[0]), "saved pictures: %s", pictures)
    check_saved(case["save"], params, {n: [r[n] for r in results] for n in RF_NAMES})


# ---- read-time -----------------------------------------------------------
PROBS = [(0.9, 0.8, 0.7, 0.6), (0.5, 0.4, 0.3, 0.2), (1.0, 0.95, 0.85, 0.75), (0.1, 0.2, 0.3, 0.4)]
TIMES = [(1.0, 2.0, 3.0, 4.0), (0.5, 0.25, 0.125, 0.0625), (10.0, 20.0, 30.0, 40.0), (7.0, 6.0, 5.0, 4.0)]


def read_time(case):
    from pysim.models.tag_time import processing
    from pysim.sim.simulator import ExecutionStats, ExitReason
    n = case["runs"]
    if n == 1 and not case["nested"]:
        data = dict(probability=PROBS[0], processing_time=TIMES[0])
    else:
        data = dict(probability=tuple(PROBS[:n]), processing_time=tuple(TIMES[:n]))
    data.update(max_transmisions=case["trials"], chunks_number=3, scenario=2)
    val = VALUES[case["results"]]
    import inspect
    fields = {k: 0 for k in inspect.signature(ExecutionStats).parameters}
    results = []
    for i in range(n):
        s = ExecutionStats(**fields)
        s.num_events_processed = (3, 9, 47)[i % 3] * case["trials"] + i
        s.sim_time, s.exit_reason = val(i, 0), ExitReason.NO_MORE_EVENTS
        results.append(s)
    given = dict(data)
    log = []
    with plotkit.drawn(log):
        text = printed(lambda: processing.result_processing(
            data, results if n > 1 else results[0], case["save"], case["plot"]))
    means = [r.sim_time / case["trials"] for r in results]
    if n == 1:
        numbers = [float(x) for x in re.findall(r":\s*([-\d.e]+)\s*$", text, re.M)]
        same(numbers, [results[0].sim_time, means[0]], "printed times")
        same(log, [], "plots")
        check_saved(False, None, None)
        return
    same(ast.literal_eval(re.search(r"\[.*\]", text).group(0)), means, "printed mean times")
    drawn = [e for e in log if e[0] == "plot"]
    same([(e[1], e[2]) for e in drawn], [(list(range(n)), means)] if case["plot"] else [], "plotted points")
    same(len([e for e in log if e[0] == "saved"]), 1 if case["plot"] else 0, "saved pictures")
    check_saved(case["save"], given, means)


def picture(case):
    """A plot on its own, with and without a picture."""
    log, n, val = [], case["runs"], VALUES[case["results"]]
    if case["of"] == "read_time":
        from pysim.models.tag_time import processing
        xs, ys, option = list(range(n)), [val(i, 0) for i in range(n)], ""
        args = (dict(probability=tuple(PROBS[:n]), processing_time=tuple(TIMES[:n]), max_transmisions=3, chunks_number=3,
                     scenario=2), ys)
    else:
        from pysim.models.rfid import processing
        option = case["of"]
        xs = [1.5 * i + 2 for i in range(n)]
        results = [({k: val(i, j) for j, k in enumerate(RF_NAMES)}, 0.5) for i in range(n)]
        ys = [r["read_tid_prob"] for r, _ in results]
        args = (dict({k: v[1][0] for k, v in c12.RF.items()}, encoding="4", tari="6.25", num_tags=7, useadjust=True, delta=0.25,
                     verbose=False, **{option: xs}), results, option)
    extra = {} if case["picture"] is None else dict(save_fig=case["picture"])
    with plotkit.drawn(log):
        same(printed(lambda: processing.plot_results(*args, **extra)), "", "printed by a plot")
    same([([float(x) for x in e[1]], [float(y) for y in e[2]]) for e in log if e[0] == "plot"],
         [([float(x) for x in xs], [float(y) for y in ys])], "plotted points")
    pictures = [e[1] for e in log if e[0] == "saved"]
    same(len(pictures), 0 if case["picture"] is False else 1, "saved pictures")
    expect(all(option in os.path.basename(x) for x in pictures), "saved pictures: %s", pictures)
    same(saved_files(), [], "other files")


# ---- the end of real runs ------------------------------------------------
def real(case):
    from pysim.models.rfid import cli, configurator, processing
    data = {n: v[1][0] for n, v in c12.RF.items()}
    data.update(speed=90, tid_word_size=8, encoding="1", tari="6.25", num_tags=2, useadjust=case["adjust"], delta=0.25, verbose=False)
    opt = case["option"]
    if case["many"]:
        data[opt] = tuple(case["values"])
    given = dict(data)
    n = [0]

    def integer(lo, hi):
        n[0] += 1
        return lo + (n[0] * 7) % (hi - lo)
    log, models = [], []
    create = configurator.create_model

    def create_model(*a, **k):
        models.append(create(*a, **k))
        return models[-1]
    with env.draws(env.Draws(unit=lambda: 0.25, integer=integer)), plotkit.drawn(log), c12.patched(
            *c12.pools(cli), (configurator, "create_model", create_model)):
        res = cli.prepare_multiple_simulation(opt, **dict(data)) if case["many"] else cli.prepare_simulation(dict(data))
        text = printed(lambda: processing.result_processing(data, res, opt if case["many"] else None, case["save"]))
    same(len(models), len(runs_of(case)), "simulations")
    # the workers of the pool run from the last to the first
    wanted = []
    for m in reversed(models):
        h = m.statistics.tags_history
        wanted.append(dict(
            rounds_per_tag=sum(r.num_rounds_attained for r in h) / len(h),
            inventory_prob=sum(bool(r.inventory_history) for r in h) / len(h),
            read_tid_prob=sum(any(x.read_tid for x in r.inventory_history) for r in h) / len(h)))
    for got, want in zip(res if case["many"] else [res], wanted):
        for k in want:
            close(float(got[0][k]), want[k], "result " + k)
    rfid_report(case, text, log, given, [{k: got[0][k] for k in w} for got, w in
                                         zip(res if case["many"] else [res], wanted)])


def execute(case, rec):
    with scratch():
        dict(pingpong=pingpong, rfid=rfid, read_time=read_time, picture=picture, real=real)[case["model"]](case)
    rec.traces += 1
    rec.transitions += len(case.get("values", [])) or case.get("runs", 1)
    rec.outcome(case)
    if rec.traces % 300 == 1:
        rec.sample(case)


def replay(case, rec):
    execute(case, rec)


def run(rec):
    top = 4 if rec.thorough else 3
    cases = []
    for results in VALUES:
        for save in (False, True):
            cases.append(dict(model="pingpong", many=False, save=save, results=results))
            cases.append(dict(model="rfid", many=False, save=save, results=results))
            for model, options in (("pingpong", c12.PP), ("rfid", c12.RF)):
                for opt, (_, values) in options.items():
                    for k in range(2, top + 1):
                        for lst in itertools.product(values, repeat=k):
                            cases.append(dict(model=model, many=True, option=opt, values=list(lst), save=save, results=results,
                                              extra=bool(len(cases) % 2)))
            for plot in (False, True):
                for runs in (1, 2, 3, 4):
                    for trials in (1, 3, 2000):
                        cases.append(dict(model="read_time", runs=runs, nested=False, trials=trials, save=save, plot=plot,
                                          results=results))
    for results in VALUES:
        for of in ["read_time"] + list(c12.RF):
            for shown in (None, True, False):
                for runs in (1, 2, 3, 4):
                    cases.append(dict(model="picture", of=of, picture=shown, runs=runs, results=results))
    ends = []
    for save in (False, True):
        for adjust in (False, True):
            ends.append(dict(model="real", many=False, option=None, save=save, adjust=adjust))
            for opt, (_, values) in c12.RF.items():
                ends.append(dict(model="real", many=True, option=opt, values=values[:2][::-1] + values[:1], save=save,
                                  adjust=adjust))
    core.run_cases(execute, ends, rec, chunk=1)
    if not rec.violation:
        core.run_cases(execute, cases, rec)
