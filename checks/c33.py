"""C33: a run is determined by its inputs and its random draws alone."""
import concurrent.futures
import json
import os
import subprocess
import sys
import tempfile

from lib import core, repro
from lib.core import Violation

LEVEL = "model_checking"
BOUNDS = {
    "quick": "workload: every loss pattern of 4 pings, every read-time run with at most 2 failures, 6 RFID runs (QueryAdjust, 2 "
             "antennas, S1, S2, 4 tags, short field) with every single deviation of a draw, 28 scripted and 16 seeded simulations of "
             "all models and of toy programs, results of the models' entry points; circumstances: each of 11 processes "
             "(5 hash seeds, optimised, development mode, time zone and locale, other date) and, inside one, 20 (clock at 5 values "
             "or running either way, 3 logging configurations and logging disabled, every order of the hashes of three "
             "objects, thread, directory, garbage collection off or often, generators in another state, reverse order)",
    "thorough": "RFID runs with at most 2 deviations, read-time runs with at most 3 failures, one more seed; then at the quick depth all pairs of 5 processes and the circumstances inside",
}
ASSUMPTIONS = ["no limit on real time is set", "addresses of objects are not controlled (only hashes made from them are)",
               "same Python and library versions on the same machine"]
TECHNIQUE = ("stateless model checking of the real code: every run of a bounded tree of random draws is repeated under every one "
             "of the listed circumstances, and its complete journal compared with that of the same draws in a reference process")


def process(proc, spec, timeout=400):
    repo = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
    d = tempfile.mkdtemp(prefix="repro-", dir=os.getcwd())
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "MPLBACKEND", "MPLCONFIGDIR", "OMP_NUM_THREADS",
                                                        "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS")}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HOME=d, LANG="C.UTF-8")
    e.update(repro.PROC[proc])
    try:
        p = subprocess.run([sys.executable, "-B", repro.__file__, repo, json.dumps(spec)], cwd=d, env=e, capture_output=True,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return (x.stdout.decode() if isinstance(x.stdout, bytes) else x.stdout or ""), "timeout"
    if p.returncode:
        return p.stdout, "ended with %d: %s" % (p.returncode, p.stderr[-600:])
    return p.stdout, None


def journals(out):
    d = {}
    for line in out.splitlines():
        if line.startswith("["):
            name, prefix, h, events, n = json.loads(line)
            d[(name, tuple(prefix))] = (h, events, n)
    return d, out.endswith("done\n")


def full(proc, inner, thorough, name, choices):
    out, err = process(proc, dict(inner=inner, thorough=thorough, item=name, choices=choices), 120)
    if err:
        return [["no journal", err]]
    return json.loads(out)


def difference(case):
    a = full("base", "plain", case["thorough"], case["item"], case["choices"])
    b = full(case["proc"], case["inner"], case["thorough"], case["item"], case["choices"])
    for i in range(max(len(a), len(b))):
        x, y = (s[i] if i < len(s) else "nothing" for s in (a, b))
        if x != y:
            x, y = (s if len(s) < 300 else s[:300] + "..." for s in (repr(x), repr(y)))
            return "step %d is %s, in the reference process %s" % (i, y, x)
    return None


def where(case):
    return "%s %s under (%s, %s)" % (case["item"], case["choices"], case["proc"], case["inner"])


def replay(case, rec):
    d = difference(case)
    if d:
        raise Violation("%s: %s" % (where(case), d))


def run(rec):
    inner = [("base", i) for i in repro.INNER if i != "plain"]
    jobs = [(p, "plain") for p in repro.PROC if p != "base"] + inner
    compare([("base", "plain")] + jobs, rec.thorough, rec)
    if rec.thorough and not rec.violation:
        compare([("base", "plain")] + [(p, i) for p in ("hash seed 1", "hash seed 2", "hash seed 3", "optimised", "zone")
                                       for _, i in inner], False, rec)


def compare(jobs, thorough, rec):
    """Every job against the first."""
    def work(job):
        if core.out_of_time(rec, 250 if thorough else 0):
            return None
        return process(job[0], dict(inner=job[1], thorough=thorough))
    with concurrent.futures.ThreadPoolExecutor(core.NPROC) as ex:
        got = list(ex.map(work, jobs))
    if got[0] is None:
        return
    ref, complete = journals(got[0][0])
    if got[0][1]:
        raise Violation("the reference process %s" % got[0][1])
    rec.extra["distinct journals"] = max(rec.extra["distinct journals"], len({h for h, e, n in ref.values()}))
    for job, res in zip(jobs, got):
        if res is None:
            continue
        d, done = journals(res[0])
        rec.extra["circumstances"] += 1
        for key in list(ref) + [k for k in d if k not in ref]:
            name, choices = key
            case = dict(proc=job[0], inner=job[1], item=name, choices=list(choices), thorough=thorough)
            if key not in d:
                if done or (complete and res[1] != "timeout"):
                    rec.violation = ("%s: this run was not reached (%s)" % (where(case), res[1] or "other draws"), case)
                    return
                continue
            h, events, n = d[key]
            rec.traces += 1
            rec.transitions += events
            rec.state((key, h))
            rec.outcome((key, h))
            if key not in ref or ref[key][0] != h:
                msg = difference(case) or "its journal was different from the reference (not when repeated)"
                rec.violation = ("%s: %s" % (where(case), msg), case)
                return
            if rec.traces % 5000 == 1:
                rec.sample(dict(case, steps=n, journal=h))
        if res[1] and not (res[1] == "timeout"):
            rec.violation = ("process (%s, %s) %s" % (job[0], job[1], res[1]), None)
            return
