"""C28: three models of the read time are one process."""
import itertools

import numpy as np

from lib import core, env, readtime
from lib.core import close, expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "matrix Monte-Carlo next to the reference chain and the event simulation: scenarios 1 and 2 (4 states) and 3 "
             "(1, 2, 3 and 5 fragments, equal and different), 1 to 3 reads (and 99 to 1001 with fixed outcomes), every sequence of outcomes of up to 9 draws "
             "(then successes), draws just below / above; analytic times against the exact solution of the chain "
             "(fractions) on 7^4 probabilities x 4 times for scenario 1 and 4^4 x 4 x (1, 2, 3, 7 fragments) for 2 and 3; "
             "every way to feed several points (1 to 6, lists / tuples / arrays; with equal probabilities, equal times, all but one number equal) to the three models, also through "
             "worker processes and the command line",
    "thorough": "every sequence of up to 14 outcomes; 9^4 probabilities",
}
ASSUMPTIONS = ["a draw equal to a boundary between two outcomes does not occur",
               "different fragments are only compared between the two simulations (the analytic model documents equal ones)"]
P, T = [0.31, 0.62, 0.17, 0.83, 0.44, 0.71, 0.23, 0.57], [1.0, 0.10, 0.013, 0.0007, 0.00051, 0.00037, 0.00029, 0.00023]


def matrix_polarity():
    """Whether low draws are the successes of the matrix model."""
    from pysim.models.tag_time import mc
    left = [40]

    class Over(Exception):
        pass

    def unit():
        left[0] -= 1
        if left[0] < 0:
            raise Over()
        return 0.25
    try:
        with env.draws(env.Draws(unit=unit)):
            mc.run_multiple_models(2, [[0.5] * 4], [[1.0] * 4], 1)
        return True
    except Over:
        return False


LOW = []


def matrix_run(cfg, ch, depth):
    from pysim.models.tag_time import mc
    if not LOW:
        LOW.append(matrix_polarity())
    w = readtime.Walk(readtime.Chain(cfg["scenario"], cfg["p"], cfg["t"], cfg["chunks"]), ch, cfg["reads"], depth, LOW[0])
    with env.draws(env.Draws(unit=w.unit)):
        got = mc.run_multiple_models(cfg["scenario"], [list(cfg["p"])], [list(cfg["t"])], cfg["reads"])
    return got, w


def play(case, rec, ch):
    cfg, depth = case["cfg"], case["depth"]
    got, w = matrix_run(cfg, ch, depth)
    what = "visits %r" % (w.path[:30],)
    same(len(got), 1, what + ": number of results")
    same(w.done, cfg["reads"], what + ": complete reads")
    same(w.state, 0, what + ": state at the end")
    close(got[0], w.time / cfg["reads"] * 1000, what + ": average time in milliseconds")
    # the event simulation goes the same way with the same outcomes
    stats, w2, _ = readtime.event_simulation(cfg, _Lenient(ch.choices), depth)
    same(w2.path, w.path, "states visited by the event simulation")
    close(stats.sim_time * 1000 / cfg["reads"], got[0], what + ": event simulation and matrices")
    rec.traces += 2
    rec.transitions += w.n + w2.n
    for i, x in enumerate(w.path[:60]):
        rec.state((cfg["scenario"], cfg["chunks"], len(cfg["p"]), tuple(w.path[max(0, i - 3):i]), x))
    rec.outcome((cfg["scenario"], cfg["chunks"], cfg["reads"], w.path))
    if rec.traces % 3000 == 2:
        rec.sample(dict(cfg=cfg, visits=w.path[:12], ms=float(got[0])))


class _Lenient(core.Chooser):
    def choose(self, n, label=None):
        i = len(self.choices)
        self.choices.append(self.prefix[i] if i < len(self.prefix) else 0)
        return self.choices[-1]


def analytic(case, rec):
    from pysim.models.tag_time import analitical_model as am
    sc, n = case["scenario"], case["chunks"]
    points, times, want = [], [], []
    for p, t in case["points"]:
        if sc == 3:
            p, t = list(p[:3]) + [p[3]] * case["given"], list(t[:3]) + [t[3]] * case["given"]
        points.append(p)
        times.append(t)
        full_p, full_t = (list(p[:3]) + [p[3]] * n, list(t[:3]) + [t[3]] * n) if sc == 3 else (p, t)
        want.append((readtime.expected_time(sc, full_p, full_t), full_p))
    got = am.run_analitica(sc, am.convert_data_for_analitica(points, times), n)
    same(len(got), len(points), "number of analytic results")
    for g, (e, p), t in zip(got, want, times):
        cond = 1.0
        for x in p[:4]:
            cond *= x
        close(float(g), float(e) * 1000, "scenario %d, %d fragments, probabilities %r, times %r: analytic time" % (sc, n, p, t),
              rel=1e-9 + 1e-14 / cond)
        rec.traces += 1
        rec.outcome("%.9g" % g)


def shaped(kind, xs):
    if kind == "tuple":
        return tuple(tuple(x) for x in xs)
    if kind == "array":
        return np.array(xs)
    if kind == "rows":
        return [np.array(x) for x in xs]
    return [list(x) for x in xs]


def sure(case):
    """Sources of several points; every outcome is a success."""
    n, states = case["n"], case["states"]
    probs = [[1.0 if (i + j) % 3 else 0.5 for j in range(states)] for i in range(n)]
    if case.get("alike") == "probs":      # all points have the same probabilities
        probs = [list(probs[0]) for _ in range(n)]
    elif case.get("alike") == "times":
        times = [round(0.001 + 0.01 * j, 9) for j in range(states)]
        return probs, [list(times) for _ in range(n)]
    elif case.get("alike") == "pairs":    # neighbours are equal
        probs = [list(probs[i // 2]) for i in range(n)]
    times = [[round(0.001 * 7 ** i + 0.01 * j * (i + 1), 9) for j in range(states)] for i in range(n)]
    return probs, times


def several(case, rec):
    """Several points: each result belongs to its own point."""
    from pysim.models.tag_time import analitical_model as am, calculate_params as cp, cli, mc
    if not LOW:
        LOW.append(matrix_polarity())
    probs, times = sure(case)
    sc, n, reads = case["scenario"], case["n"], case["reads"]
    chunks = case["states"] - 3
    p, t = shaped(case["shape"], probs), shaped(case["shape"], times)
    total = [sum(x) for x in times]
    with env.draws(env.Draws(unit=lambda: 1e-9 if LOW[0] else 1 - 1e-9)):
        got = mc.run_multiple_models(sc, p, t, reads)
    same(len(got), n, "number of matrix results")
    for i in range(n):
        close(float(got[i]), total[i] * 1000, "matrix result %d of %d" % (i, n))
    ms = mc.create_input_probs(sc, p)
    same(len(ms), n, "number of matrices")
    for i in range(n):
        same(len(ms[i]), case["states"] + 1, "states of matrix %d" % i)
    ph = am.convert_data_for_analitica(p, t)
    same([[(float(a), float(b)) for a, b in x] for x in ph], [list(zip(a, b)) for a, b in zip(probs, times)],
         "phases of the analytic model")
    if sc != 3 or chunks == 1:
        want = [readtime.expected_time(sc, a, b) for a, b in zip(probs, times)]
        for i, g in enumerate(am.run_analitica(sc, ph, 1)):
            close(float(g), float(want[i]) * 1000, "analytic result %d of %d" % (i, n))
    d = cp.create_dicts(p, t, chunks, sc, reads)
    if case["jobs"]:
        d["jobs"] = case["jobs"]
    with env.draws(env.Draws(unit=lambda: 1e-9, integer=lambda lo, hi: lo)):
        stats = cli.run_multiple_simulation(d)
    same(len(stats), n, "number of simulations")
    for i in range(n):
        close(stats[i].sim_time, total[i] * reads, "duration of %d reads, simulation %d of %d with %r workers" %
              (reads, i, n, case["jobs"]))
    rec.traces += 3 * n
    rec.outcome(("several", sc, n, case["shape"], case["states"], case["jobs"], reads))


def command_line(case, rec):
    from pysim.models.tag_time import cli
    n, sc, chunks, reads = case["n"], case["scenario"], case["chunks"], case["reads"]
    probs, times = sure(dict(n=n, states=4))
    want = []
    for t in times:
        want.append((sum(t[:3]) + t[3] * (chunks if sc == 3 else 1)) * reads)
    args = []
    if case.get("alike"):
        probs, times = sure(dict(case, states=4))
        want = [(sum(t[:3]) + t[3] * (chunks if sc == 3 else 1)) * reads for t in times]
    for p, t in zip(probs, times):
        args += ["-p"] + [repr(x) for x in p] + ["-t"] + [repr(x) for x in t]
    args += ["-m", str(reads), "-cn", str(chunks), "-s", str(sc)]
    with env.draws(env.Draws(unit=lambda: 1e-9, integer=lambda lo, hi: lo)):
        got = cli.cli_run.main(args, standalone_mode=False)
    if n == 1:
        got = [got[0] if isinstance(got, (list, tuple)) else got]
    same(len(got), n, "number of results")
    for i in range(n):
        close(got[i].sim_time, want[i], "arguments %r: simulation %d" % (args, i))
    rec.traces += n
    rec.outcome(("cli", n, sc, chunks, reads))


def mixed(case, rec):
    """Points that have some probabilities or times in common: each has the
    results it has alone."""
    from pysim.models.tag_time import analitical_model as am, calculate_params as cp, cli, mc
    if not LOW:
        LOW.append(matrix_polarity())
    sc, chunks, reads = case["scenario"], case["chunks"], 2
    n = 3 + chunks
    base_p, base_t = [0.45 + 0.05 * (j % 2) for j in range(n)], [0.5 + 0.25 * j for j in range(n)]
    if case["equal"]:
        base_p, base_t = base_p[:3] + [0.5] * chunks, base_t[:3] + [1.25] * chunks
    points = [(base_p, base_t)]
    for j in range(n):
        for k in (0, 1):
            one_ = (list(base_p), list(base_t))
            one_[k][j] = 0.8 if k == 0 else 3.0
            if case["equal"] and j >= 3:
                one_[k][3:] = [one_[k][j]] * chunks
            points.append(one_)
    order = [i * case["step"] % len(points) for i in range(len(points))]
    order = order + order[:3]
    points = [points[i] for i in order]
    p, t = [list(x) for x, _ in points], [list(y) for _, y in points]

    # the matrices, row by row
    alone = [mc.create_input_probs(sc, [x])[0] for x in p]
    for i, m in enumerate(mc.create_input_probs(sc, p)):
        same([[float(x) for x in row] for row in m], [[float(x) for x in row] for row in alone[i]],
             "matrix %d of %d points" % (i, len(p)))
    for name, run_ in (("matrices", lambda a, b: [float(x) for x in mc.run_multiple_models(sc, a, b, reads)]),
                       ("simulation", lambda a, b: [s.sim_time for s in cli.run_multiple_simulation(
                           cp.create_dicts(a, b, chunks, sc, reads))]),
                       ("analytic", lambda a, b: [float(x) for x in am.run_analitica(
                           sc, am.convert_data_for_analitica(a, b), chunks)])):
        if name == "analytic" and not case["equal"] and chunks > 1:
            continue
        low = LOW[0] if name == "matrices" else True
        with env.draws(env.Draws(unit=lambda: 0.001 if low else 0.999, integer=lambda lo, hi: lo)):
            got = run_(p, t)
            want = [run_([a], [b])[0] for a, b in zip(p, t)]
        same(len(got), len(want), name + ": number of results")
        for i, (g, w) in enumerate(zip(got, want)):
            close(g, w, "%s: point %d (%r, %r) among %d and alone" % (name, i, p[i], t[i], len(p)))
        rec.traces += len(p)
    rec.outcome(("mixed", sc, chunks, case["step"], case["equal"]))


def refused(case, rec):
    from pysim.models.tag_time import cli
    try:
        mode = cli.check_vars(**case["args"])
    except AttributeError:
        mode = "refused"
    same(mode, case["want"], "check of %r" % (case["args"],))
    rec.traces += 1
    rec.outcome(("check", case["args"]))


def pipeline(case, rec):
    """Protocol parameters through all three models without losses, and the
    analytic one against the exact chain with losses."""
    from pysim.models.rfid import epcstd as e
    from pysim.models.tag_time import analitical_model as am, calculate_params as cp, cli, mc
    if not LOW:
        LOW.append(matrix_polarity())
    sc, n, reads = case["scenario"], case["chunks"], 2
    words, last = cp.calculate_chunks(case["words"], n)
    par = cp.build_messages_df(case["tari"], e.TagEncoding[case["m"]], e.DivideRatio[case["dr"]], case["trext"], n, words, last)
    ber = np.linspace(0, 0.01, num=5)
    probs = cp.prepare_probs(par, n, ber, 5)
    times = cp.prepare_times(par, probs, n)
    with env.draws(env.Draws(unit=lambda: 1e-9 if LOW[0] else 1 - 1e-9)):
        m = mc.run_multiple_models(sc, probs, times, reads)
    with env.draws(env.Draws(unit=lambda: 1e-9, integer=lambda lo, hi: lo)):
        s = cli.run_multiple_simulation(cp.create_dicts(probs, times, n, sc, reads))
    a = am.run_analitica(sc, am.convert_data_for_analitica(probs, times), n)
    same((len(m), len(s), len(a)), (5, 5, 5), "results of the three models")
    for i in range(5):
        close(s[i].sim_time / reads * 1000, float(m[i]), "simulation and matrices, point %d" % i)
        equal = len(set(times[i][3:])) == 1
        if sc != 3 or equal:
            close(float(a[i]), float(readtime.expected_time(sc, [float(x) for x in probs[i]], [float(x) for x in times[i]])) * 1000,
                  "analytic time, point %d" % i)
        if i == 0 and (sc != 3 or equal):
            close(float(a[0]), float(m[0]), "analytic time without bit errors")
            close(float(m[0]), sum(float(x) for x in times[0]) * 1000, "time without bit errors")
    rec.traces += 15
    rec.outcome([float(x) for x in m])


def long(case, rec):
    """Many reads, with a fixed pattern of outcomes."""
    n, x, out = case["draws"], case["seed"], []
    for _ in range(n):
        x = (1103515245 * x + 12345) % 2 ** 31
        out.append((x >> 16) % case["of"] == 0)
    play(dict(cfg=case["cfg"], depth=n), rec, core.Chooser([int(b) for b in out]))


def one(case, rec):
    dict(long=long, mixed=mixed, analytic=analytic, several=several, command_line=command_line, refused=refused, pipeline=pipeline)[case["kind"]](case, rec)


def replay(case, rec):
    if "kind" in case:
        one(case, rec)
    else:
        play(case, rec, core.Chooser(case["choices"]))


def configs():
    out = []
    for scenario in (1, 2, 3):
        for chunks in ((1, 2, 3, 5) if scenario == 3 else (1,)):
            n = 3 + chunks
            for reads in (1, 2, 3):
                out.append(dict(scenario=scenario, chunks=chunks, reads=reads, p=P[:n], t=T[:n]))
                if chunks > 1:
                    out.append(dict(scenario=scenario, chunks=chunks, reads=reads, p=P[:4] + [P[3]] * (n - 4),
                                    t=T[:4] + [T[3]] * (n - 4)))
        for bits in itertools.product((0.4, 1.0), repeat=4):
            out.append(dict(scenario=scenario, chunks=1, reads=2, p=list(bits), t=[3.0, 1.0, 0.25, 0.0625]))
        out.append(dict(scenario=scenario, chunks=1, reads=3, p=[0.999, 0.001, 0.5, 0.25], t=[2.0, 2.0, 0.0, 2.0]))
    return out


def grid(t):
    out = []
    ps = (0.05, 0.2, 0.37, 0.5, 0.9, 0.99, 1.0) + ((0.02, 0.75) if t else ())
    few = (0.03, 0.41, 0.97, 1.0)
    tt = ([1.0, 0.1, 0.013, 0.0007], [0.001, 0.02, 0.3, 4.0], [1, 1, 1, 1], [0.0, 2.0, 0.0, 5.0])
    pts = [(list(p), list(x)) for p in itertools.product(ps, repeat=4) for x in tt]
    for i in range(0, len(pts), 150):
        out.append(dict(kind="analytic", scenario=1, chunks=1, given=1, points=pts[i:i + 150]))
    pts = [(list(p), list(x)) for p in itertools.product(few, repeat=4) for x in tt]
    for i in range(0, len(pts), 128):
        out.append(dict(kind="analytic", scenario=2, chunks=1, given=1, points=pts[i:i + 128]))
        for n in (1, 2, 3, 7):
            out.append(dict(kind="analytic", scenario=3, chunks=n, given=n, points=pts[i:i + 128]))
            out.append(dict(kind="analytic", scenario=3, chunks=n, given=1, points=pts[i:i + 128]))
    return out


def feeding():
    out = []
    for sc, n, shape in itertools.product((1, 2, 3), (1, 2, 3, 6), ("list", "tuple", "array", "rows")):
        for states in ((4, 5, 7) if sc == 3 else (4,)):
            out.append(dict(kind="several", scenario=sc, n=n, states=states, shape=shape, reads=1 + (n + states) % 3,
                            jobs=(None, 1, 2, 5)[(sc + n + states) % 4]))
    for sc, n, chunks in itertools.product((1, 2, 3), (1, 2, 4), (1, 2, 5)):
        out.append(dict(kind="command_line", scenario=sc, n=n, chunks=chunks, reads=1 + (n + chunks) % 3))
    for alike, sc, n, jobs in itertools.product(("probs", "times", "pairs"), (1, 2, 3), (2, 5), (None, 1, 2)):
        for states in ((4, 6) if sc == 3 else (4,)):
            out.append(dict(kind="several", alike=alike, scenario=sc, n=n, states=states, shape="list", reads=2, jobs=jobs))
        out.append(dict(kind="command_line", alike=alike, scenario=sc, n=n, chunks=1 + n % 3, reads=2))
    for sc, chunks in ((1, 1), (2, 1), (3, 1), (3, 3)):
        for step in (1, 2, 4, 5, 7):
            for equal in (False, True):
                out.append(dict(kind="mixed", scenario=sc, chunks=chunks, step=step, equal=equal))
    one_, two = ((0.9,) * 4,), ((0.9,) * 4,) * 2
    for sc, ch, p, t in itertools.product((-1, 0, 1, 2, 3, 4), (-2, 0, 1, 3), (one_, two), (one_, two)):
        ok = sc in (1, 2, 3) and not (sc == 3 and ch < 1) and len(p) == len(t)
        out.append(dict(kind="refused", args=dict(probability=p, processing_time=t, scenario=sc, chunks_number=ch,
                                                  max_transmisions=3),
                        want="refused" if not ok else "plural" if len(p) > 1 else "single"))
    k = 0
    for sc, m, dr in itertools.product((1, 2, 3), ("FM0", "M2", "M4", "M8"), ("DR_8", "DR_643")):
        k += 1
        for words in (4, 7, 32):
            out.append(dict(kind="pipeline", scenario=sc, chunks=1 if sc < 3 else (1, 2, 4)[k % 3], m=m, dr=dr, words=words,
                            tari=(6.25, 12.5, 25.0)[k % 3], trext=k % 2 == 0))
    return out


def many_reads(t):
    out = []
    for i, (sc, chunks, reads) in enumerate(itertools.product((1, 2, 3), (1, 3), (99, 101, 1001) + ((5000,) if t else ()))):
        n = 3 + chunks
        if sc == 3 or chunks == 1:
            out.append(dict(kind="long", cfg=dict(scenario=sc, chunks=chunks, reads=reads, p=P[:n], t=T[:n]),
                            draws=reads * (2 if sc == 1 else 3), seed=i + 1, of=(2, 3, 5)[i % 3]))
    return out


def run(rec):
    depth = 14 if rec.thorough else 9

    def tree(cfg, r):
        def one_(ch, r2):
            core.guarded(lambda c, r3: play(c, r3, ch), dict(cfg=cfg, choices=list(ch.prefix), depth=depth), r2)
        core.explore(one_, r, 99)
    core.parallel_work(tree, configs(), rec)
    if rec.violation:
        return
    core.run_cases(one, grid(rec.thorough) + many_reads(rec.thorough), rec, chunk=1)
    if rec.violation:
        return
    # these start processes of their own
    core.run_cases(one, feeding(), rec, parallel=False)
