#!/usr/bin/env python3
"""check.py <ID> [--replay FILE]: decides one property on /repo's tree.

Exit 0: the property held on everything explored.  Exit 1 with a line
VIOLATION property=<ID> replay=<file>: it does not.  Nothing else.
Environment: VERIF_TIER (quick | thorough), VERIF_SEED, VERIF_REPO.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PYTHON) \
        and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PYTHON, [PYTHON, "-B", os.path.abspath(__file__)] + sys.argv[1:])

os.environ["MPLBACKEND"] = "Agg"
os.environ.pop("VERIF_REEXEC", None)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:])

import importlib          # noqa: E402
import json               # noqa: E402
import re                 # noqa: E402
import shutil             # noqa: E402
import tempfile           # noqa: E402
import traceback          # noqa: E402

sys.path.insert(0, HERE)
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))

from lib import core, env  # noqa: E402


def load_known():
    known = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"KNOWN property=(\S+) match=/(.*)/ (.*)$", line.strip())
                if m:
                    known.append(m.groups())
    except OSError:
        pass
    return known


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.environ["MPLCONFIGDIR"] = scratch
    out = sys.stdout
    t0 = core.REAL_MONO()
    rec = core.Rec(tier, seed)
    try:
        budget = float(os.environ.get("VERIF_BUDGET", ""))
    except ValueError:
        budget = 600.0 if tier == "quick" else 820.0
    core.DEADLINE[0] = t0 + budget
    mod = importlib.import_module("checks." + prop.lower())
    rec.scratch = scratch
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        try:
            with core.quiet():
                env.install()
                sys.path.insert(0, REPO)
                import pysim
                where = os.path.realpath(list(pysim.__path__)[0])
                core.expect(where == os.path.realpath(os.path.join(REPO, "pysim")),
                            "code under test imported from %s", where)
            if replay:
                with open(os.path.join(HERE, replay) if not os.path.isabs(replay) else replay) as f:
                    case = json.load(f)["case"]
                core.guarded(lambda c, r: mod.replay(c, r), case, rec)
            else:
                mod.run(rec)
        except (Exception, SystemExit):
            rec.violation = rec.violation or (
                "the code under test could not be exercised: " + traceback.format_exc()[-1500:], None)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    wall = core.REAL_MONO() - t0

    status = 0
    if rec.violation:
        msg, case = rec.violation
        for kp, pattern, what in load_known():
            if kp == prop and re.search(pattern, msg):
                print("KNOWN-FINDING: property=%s %s" % (prop, what), file=out)
                break
        else:
            status = 1
            path = "evidence/replays/%s-violation.json" % prop
            os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
            with open(os.path.join(HERE, path), "w") as f:
                json.dump(dict(property=prop, message=msg, case=case,
                               how="python3 check.py %s --replay %s" % (prop, path)),
                          f, indent=1, default=repr, ensure_ascii=False)
            print("%s: %s" % (prop, msg), file=out)
            print("VIOLATION property=%s replay=%s" % (prop, path), file=out)
    if not replay:
        write_evidence(mod, prop, rec, wall)
    if status == 0:
        print("%s: %s; executions=%d transitions=%d states=%d outcomes=%d%s (%.1f s)" % (
            prop, "replayed" if replay else "held", rec.traces, rec.transitions,
            len(rec.states), len(rec.outcomes),
            "" if not rec.capped else " [" + rec.capped + "]", wall), file=out)
    out.flush()
    os._exit(status)


def write_evidence(mod, prop, rec, wall):
    level = mod.LEVEL
    samples = rec.samples or ["none"]
    if level == "model_checking":
        cov = dict(states=len(rec.states), transitions=rec.transitions,
                   traces_validated_against_impl=rec.traces, samples=samples)
    else:
        cov = dict(evaluations=rec.traces, distinct_nontrivial=len(rec.outcomes),
                   rule=mod.RULE, samples=samples)
    cov["exhaustive"] = rec.capped is None
    if level == "model_checking" and rec.outcomes:
        cov["distinct_outcomes"] = len(rec.outcomes)
    cov["bounds"] = getattr(mod, "BOUNDS", {}).get(rec.tier, getattr(mod, "RULE", ""))
    for k, v in sorted(rec.extra.items()):
        cov[k] = v
    if rec.capped:
        cov["capped"] = rec.capped
    ev = dict(property=prop, tier=rec.tier, seed=rec.seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
              violations=1 if rec.violation else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr, ensure_ascii=False)


if __name__ == "__main__":
    main()
