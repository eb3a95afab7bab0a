"""One process of C33: runs the workload under one set of circumstances and
prints a digest of every journal.

    python repro.py REPO SPEC     (SPEC: JSON; see main())
"""
import contextlib
import hashlib
import itertools
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

if __name__ == "__main__":
    sys.path[0] = os.path.dirname(HERE)
    from lib import repro
    repro.main()
    raise SystemExit

from . import core, env  # noqa: E402


# ---- the workload --------------------------------------------------------
LOSSES = dict(interval=1.0, channel_delay=0.25, service_delay=0.5, loss_prob=0.5, max_pings=4)
TT = dict(probability=(0.5, 0.5, 0.5, 0.5), processing_time=(1.0, 0.5, 0.25, 2.0), max_transmisions=1, chunks_number=2)
RFID = [
    dict(settings=dict(num_tags=2, q=1), gen=[0.004], limits=dict(max_num_events=150)),
    dict(settings=dict(num_tags=3, q=1, encoding="M2", use_query_adjust=True), gen=[0.0], limits=dict(max_num_events=160)),
    dict(settings=dict(num_tags=3, q=0, session="S2", target_strategy="switch"), gen=[0.001],
         antennas=[dict(pos=[5.0, 0.0, 4.0], gain=6.0)], limits=dict(max_num_events=220)),
    dict(settings=dict(num_tags=4, q=2, read_tid_bank=False, trext=True, travel_distance=0.4), gen=[0.0005, 0.003],
         limits=dict(max_num_events=200)),
    dict(settings=dict(num_tags=2, q=2, use_query_adjust=True, reader_power_on_duration=2.0, speed=60.0, tari=12.5e-6), gen=[0.002],
         limits=dict(max_sim_time=0.03)),
    dict(settings=dict(num_tags=3, q=1, speed=40.0, encoding="M4", session="S1", target_strategy="switch"), gen=[0.001],
         kwargs=dict(delta=0.3, useadjust=True), limits=dict(max_num_events=130)),
]


def journal_of_program(spec, variant):
    from . import iso
    iso.patch()
    spec = dict(spec)
    if variant.get("log"):
        spec["limits"] = dict(spec.get("limits", {}), logger_config=logger_config(variant["log"]))
    p = iso.Prog(spec)
    if spec.get("real") is not None:
        import random
        import numpy as np
        random.seed(spec["real"])
        np.random.seed(spec["real"])
        p.draws = None
    p.whole()
    return [iso.plain(x) for x in p.journal], p.events


def journal_of_choices(spec, variant, ch):
    """A program whose real-valued draws are 0 or nearly 1 as chosen."""
    from . import iso
    iso.patch()
    spec = dict(spec)
    if variant.get("log"):
        spec["limits"] = dict(spec.get("limits", {}), logger_config=logger_config(variant["log"]))
    p = iso.Prog(spec)
    p.draws = env.Draws(unit=lambda: (0.0, 1 - 2.0 ** -53)[ch.choose(2, "draw")], integer=lambda lo, hi: lo + (hi - lo) // 3)
    p.whole()
    return [iso.plain(x) for x in p.journal], p.events


def journal_of_system(cfg, variant, ch):
    from . import iso, rfidmon, rfidsys
    cfg = dict(cfg)
    if variant.get("log"):
        cfg["limits"] = dict(cfg.get("limits", {}), logger_config=logger_config(variant["log"]))
    m = rfidmon.Journal()
    m.log = []
    h = rfidsys.System(cfg, ch, [m])
    try:
        h.run()
    except core.Violation:
        raise
    except Exception as e:
        m.log.append(("raised", type(e).__name__, str(e)))
    return [iso.plain(x) for x in m.log], h.events


def journal_of_results(spec, variant):
    """What the entry points of the models return."""
    from . import iso
    script = iso.Script(spec["seed"]).draws()
    kind = spec["entry"]
    if kind == "pingpong":
        from pysim.models.pingpong import cli
        with env.draws(script):
            r = cli.create_config(dict(LOSSES, max_pings=30, **spec.get("with", {})))
        return [sorted(r.model_dump().items())], 1
    if kind == "tag_time":
        from pysim.models.tag_time import cli
        with env.draws(script):
            r = cli.create_config(dict(TT, max_transmisions=20, scenario=spec["scenario"]))
        return [[float(r.sim_time), r.num_events_processed]], 1
    if kind == "matrix":
        from pysim.models.tag_time import analitical_model, mc
        probs = [[0.3, 0.6, 0.9, 0.5], [0.9, 0.8, 0.7, 0.6]]
        with env.draws(script):
            r = mc.run_multiple_models(spec["scenario"], probs, [[1.0, 2.0, 0.5, 0.25]] * 2, 20)
        return [iso.digest(r)], 1
    from pysim.models.rfid import cli
    with env.draws(script):
        r = cli.prepare_simulation(dict(
            speed=60, tari="6.25", encoding="2", tid_word_size=32, reader_offset=4.0, tag_offset=2.0, altitude=5.0, power=31.5,
            num_tags=2, verbose=False, useadjust=spec["adjust"], delta=0.5))
    return [iso.digest(r[0])], 1


def workload(thorough):
    """(name, journal function taking (variant, chooser), bound)"""
    from checks import c07
    items = []
    for name, spec in c07.SPECS.items():
        items.append((name, lambda v, ch, s=spec: journal_of_program(s, v), 0))
        if spec["kind"] != "toy":
            for seed in (3, 4) if thorough else (3,):
                items.append(("%s seeded %d" % (name, seed),
                              lambda v, ch, s=dict(spec, real=seed): journal_of_program(s, v), 0))
    for k in range(4, 12):
        items.append(("toy %d" % k, lambda v, ch, s=dict(kind="toy", variant=k): journal_of_program(s, v), 0))
    for i, delay in enumerate((0.25, 1.0)):
        items.append(("ping-pong losses %d" % i, lambda v, ch, s=dict(kind="pingpong", config=dict(LOSSES, channel_delay=delay)):
                      journal_of_choices(s, v, ch), 99))
    for sc in (1, 2, 3):
        items.append(("read-time outcomes %d" % sc, lambda v, ch, s=dict(kind="tag_time", config=dict(TT, scenario=sc)):
                      journal_of_choices(s, v, ch), 3 if thorough else 2))
    for seed in (1, 2):
        items.append(("pingpong result %d" % seed, lambda v, ch, s=dict(entry="pingpong", seed=seed): journal_of_results(s, v), 0))
        for sc in (1, 2, 3):
            items.append(("tag_time result %d %d" % (sc, seed), lambda v, ch, s=dict(entry="tag_time", scenario=sc, seed=seed):
                          journal_of_results(s, v), 0))
            items.append(("matrix result %d %d" % (sc, seed), lambda v, ch, s=dict(entry="matrix", scenario=sc, seed=seed):
                          journal_of_results(s, v), 0))
    for adjust in (False, True):
        items.append(("rfid result %s" % adjust, lambda v, ch, s=dict(entry="rfid", adjust=adjust, seed=5):
                      journal_of_results(s, v), 0))
    for i, cfg in enumerate(RFID):
        items.append(("inventory %d" % i, lambda v, ch, c=cfg: journal_of_system(c, v, ch), 2 if thorough else 1))
    return items


# ---- the circumstances ---------------------------------------------------
def logger_config(how):
    import logging
    from pysim.sim.logger import ModelLoggerConfig
    if how == "debug":
        return ModelLoggerConfig(level=logging.DEBUG, use_console=True)
    if how == "file":
        return ModelLoggerConfig(level=logging.INFO, file_name="out.log", file_level=logging.INFO)
    return ModelLoggerConfig(level=logging.CRITICAL, use_console=True, colored_console=False)


class Ticking(env.VirtualClock):
    """Every reading is later (or earlier) than the one before."""

    def __init__(self, start, step):
        self.t, self.step = start, step

    @property
    def now(self):
        self.t += self.step
        return self.t

    @now.setter
    def now(self, v):
        pass


CLOCKS = {"epoch": lambda: env.VirtualClock(0.0), "future": lambda: env.VirtualClock(4.0e9 + 0.123),
          "ticking": lambda: Ticking(1.7e9, 5000.25), "backwards": lambda: Ticking(1.7e9, -3600.0)}

INNER = {"plain": {}}
INNER.update({"clock " + k: dict(clock=k) for k in CLOCKS})
INNER.update({"log " + k: dict(log=k) for k in ("debug", "file", "critical")})
INNER.update({"order of hashes %s" % "".join(map(str, p)): dict(hashes=list(p)) for p in itertools.permutations(range(3))})
INNER.update({"thread": dict(thread=True), "directory": dict(cwd=True), "gc off": dict(gc="off"), "gc often": dict(gc="often"),
              "generators moved": dict(moved=True), "reverse order": dict(reverse=True), "logging disabled": dict(disabled=True)})
PROC = {
    "base": {},
    "again": {},
    "hash seed 1": dict(PYTHONHASHSEED="1"), "hash seed 2": dict(PYTHONHASHSEED="2"), "hash seed 3": dict(PYTHONHASHSEED="3"),
    "hash seed 4242": dict(PYTHONHASHSEED="4242"),
    "optimised": dict(PYTHONOPTIMIZE="1"), "no docstrings": dict(PYTHONOPTIMIZE="2"), "dev mode": dict(PYTHONDEVMODE="1"),
    "zone": dict(TZ="Asia/Kolkata", LANG="C", LC_ALL="C", COLUMNS="40", USER="nobody", HOME="/nonexistent", NO_COLOR="1",
                 PYTHONUNBUFFERED="1"),
    "other date": dict(VERIF_DATE="1"),
}


@contextlib.contextmanager
def around(v):
    with contextlib.ExitStack() as st:
        if v.get("clock"):
            st.enter_context(env.virtual_clock(CLOCKS[v["clock"]]()))
        if v.get("gc"):
            import gc
            old = gc.get_threshold()
            if v["gc"] == "off":
                gc.disable()
            else:
                gc.set_threshold(20)
            st.callback(gc.set_threshold, *old)
            st.callback(gc.enable)
        if v.get("cwd"):
            os.makedirs("elsewhere/deeper", exist_ok=True)
            here = os.getcwd()
            os.chdir("elsewhere/deeper")
            st.callback(os.chdir, here)
        if v.get("moved"):
            import random
            import numpy as np
            random.seed(99)
            np.random.seed(77)
        if v.get("disabled"):
            import logging
            logging.disable(logging.CRITICAL)
            st.callback(logging.disable, logging.NOTSET)
        yield


def give_hashes(order):
    """Objects of the models that hash by identity get hashes whose order
    follows the permutation, by order of first use."""
    import importlib
    import inspect
    import pkgutil
    import pysim
    classes = set()
    for m in pkgutil.walk_packages(pysim.__path__, "pysim."):
        if "test" in m.name or m.name.endswith("__main__"):
            continue
        try:
            mod = importlib.import_module(m.name)
        except Exception:
            continue
        for _, c in inspect.getmembers(mod, inspect.isclass):
            if c.__module__.startswith("pysim.") and c.__hash__ is object.__hash__:
                classes.add(c)
    known = {}

    def hashed(self):
        e = known.get(id(self))
        if e is None or e[0] is not self:
            if len(known) > 5000:
                return 0
            n = len(known)
            e = known[id(self)] = (self, order[n % len(order)] + len(order) * (n // len(order)))
        return e[1]
    for c in classes:
        try:
            c.__hash__ = hashed
        except TypeError:
            pass
    return known.clear


def other_date():
    import datetime
    import time as t
    real = datetime.datetime
    shift = datetime.timedelta(days=4321, seconds=4711)

    class Shifted(real):
        @classmethod
        def now(cls, tz=None):
            return real.now(tz) + shift

        @classmethod
        def utcnow(cls):
            return real.utcnow() + shift

        @classmethod
        def today(cls):
            return real.today() + shift
    datetime.datetime = Shifted
    for n in ("localtime", "gmtime"):
        def f(secs=None, _r=getattr(t, n)):
            return _r(secs if secs is not None else t.time() + shift.total_seconds())
        setattr(t, n, f)


# ---- exploration ---------------------------------------------------------
def one(fn, v, prefix, expected):
    """Journal of one run under the circumstances v; (journal, chooser)."""
    ch = core.Chooser(prefix, expected)
    box = []

    def body():
        with around(v):
            try:
                box.append(fn(v, ch))
            except core.Violation as e:
                box.append(([["violation", type(e).__name__, str(e)]], 0))
            except Exception as e:
                box.append(([["raised", type(e).__name__, str(e)]], 0))
    with core.quiet():
        if v.get("thread"):
            import threading
            th = threading.Thread(target=body, daemon=True)
            th.start()
            th.join(core.CASE_SECONDS)
            if th.is_alive():
                box.append(([["hang"]], 0))
        else:
            try:
                with core.deadline(core.CASE_SECONDS):
                    body()
            except core.Hang:
                box.append(([["hang"]], 0))
    journal, events = box[0]
    return journal, events, ch


def main():
    repo, spec = sys.argv[1], json.loads(sys.argv[2])
    if os.environ.get("VERIF_DATE"):
        other_date()
    env.install()
    sys.path.insert(0, repo)
    with core.quiet():
        import logging
        for n in ("matplotlib", "PIL"):
            logging.getLogger(n).setLevel(logging.WARNING)
        items = workload(spec["thorough"])
    v = INNER[spec["inner"]]
    clear = give_hashes(v["hashes"]) if v.get("hashes") else lambda: None
    out = sys.stdout
    if "item" in spec:
        fn = [f for n, f, b in items if n == spec["item"]][0]
        clear()
        j, events, ch = one(fn, v, spec["choices"], ())
        json.dump(j, out, default=repr)
        return
    if v.get("reverse"):
        items.reverse()
    for name, fn, bound in items:
        todo = [([], [], 0)]
        n = 0
        while todo:
            prefix, expected, dev = todo.pop()
            clear()
            j, events, ch = one(fn, v, prefix, expected)
            text = json.dumps(j, default=repr)
            out.write(json.dumps([name, prefix, hashlib.blake2b(text.encode(), digest_size=12).hexdigest(), events, len(j)]) + "\n")
            n += 1
            if j and j[0] == ["hang"]:
                return
            if dev >= bound or n > 3000:
                continue
            new = []
            for i in range(len(prefix), len(ch.points)):
                for alt in range(1, ch.points[i]):
                    new.append((ch.choices[:i] + [alt], ch.points[:i + 1], dev + 1))
            todo.extend(reversed(new))
        out.flush()
    out.write("done\n")
