"""Several simulations in one process: programs that journal everything they
observe, and a scheduler that decides which of several threads runs."""
import os
import sys
import threading

from . import core, env, rfidsys
from .core import Violation


def digest(x, depth=0):
    """Plain data of a value (no identities)."""
    import numpy as np
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return [digest(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [digest(v, depth + 1) for v in x] if depth < 5 else "..."
    if isinstance(x, dict):
        return sorted((str(k), digest(v, depth + 1)) for k, v in x.items()) if depth < 5 else "..."
    return type(x).__name__


class Script:
    """The same draws in every run of a program."""

    def __init__(self, seed):
        self.x = seed * 7919 + 1

    def step(self):
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return self.x >> 33

    def draws(self):
        return env.Draws(unit=lambda: self.step() / 2.0 ** 31, integer=lambda lo, hi: lo + self.step() % (hi - lo))


class Prog:
    """One simulation: built and run once; keeps a journal."""

    def __init__(self, spec):
        self.spec = spec
        self.journal = []
        self.sim = None
        self.events = 0
        self.it = None
        self.point = None           # called at possible switches
        self.inside = {}            # event number (0: init, -1: finalizer) -> function
        self.draws = Script(spec.get("seed", 1)).draws()
        self.handles = {}
        self.closed = False

    def note(self, *what):
        self.journal.append(what)

    # ---- stages ----
    def build(self):
        from pysim.sim import simulator
        init, args, fin, kw = getattr(self, "make_" + self.spec["kind"])()

        def init_(sim, *a):
            self.sim = sim
            _programs[id(sim)] = self
            self.note("init", float(sim.time), digest(a))
            self.switch()
            self.into(0)
            init(sim, *a)
            self.snapshot(sim)

        def fin_(sim):
            self.note("fin", float(sim.time), sim is self.sim)
            self.into(-1)
            return fin(sim) if fin else self.events
        kw.update(self.spec.get("limits", {}))
        with env.draws(self.draws):
            self.it = simulator.build_simulation(self.spec["kind"], init=init_, init_args=args, fin=fin_, **kw)
        self.note("built")

    def run(self):
        from pysim.sim import simulator
        try:
            with env.draws(self.draws):
                stats, ctx, fin = simulator.run_simulation(self.it)
        except Violation:
            raise
        except Exception as e:
            self.note("raised", type(e).__name__, str(e))
            return
        finally:
            if self.sim is not None:
                _programs.pop(id(self.sim), None)
        self.note("stats", stats.num_events_processed, float(stats.sim_time), stats.exit_reason.name, stats.stop_message,
                  getattr(stats.last_handler, "__name__", None))
        self.note("context", self.context(ctx))
        self.note("value", fin if isinstance(fin, int) else sorted(fin.model_dump().items()) if hasattr(fin, "model_dump")
                  else digest(fin))

    def whole(self):
        self.build()
        self.run()

    # ---- hooks ----
    def switch(self):
        if self.point is not None:
            self.point()

    def into(self, k):
        fn = self.inside.get(k)
        if fn is not None:
            fn()

    def handler(self, sim, handler, args, kwargs):
        self.switch()
        self.events += 1
        self.note("event", self.events, sim is self.sim, float(sim.time), getattr(handler, "__name__", "?"),
                  [self.arg(a) for a in args])
        self.into(self.events)
        ret = handler(sim, *args, **kwargs)
        self.snapshot(sim)
        self.switch()
        return ret

    def arg(self, a):
        if hasattr(a, "number"):
            return ("packet", digest(a.number))
        if hasattr(a, "tag_id"):
            return ("tag", digest(a.tag_id))
        return digest(a)

    def snapshot(self, sim):
        self.note("state", float(sim.time), self.context(sim.context))

    # ---- toy ----
    def make_toy(self):
        v = self.spec["variant"]
        kw = {}
        if v % 2:
            kw["context"] = {"variant": v}
        mine = {"ids": [], "n": 0}

        def plan(sim, what, delay, n):
            i = sim.call(handle, (n,)) if delay is None else sim.schedule(delay, handle, (n,))
            mine["ids"].append(i)
            self.note(what, n, i)

        def init(sim, *a):
            sim.context["n"] = 0
            sim.context["first"] = v
            for d in ((1, 0.5, 2), (0.25, 3, 0.5), (1, 1, 1), (None, 0.75, 4))[v % 4]:
                mine["n"] += 1
                plan(sim, "plan", d, mine["n"])

        def handle(sim, n):
            sim.context["n"] += 1
            k = sim.context["n"]
            self.note("ctx", k, sim.context["first"])
            if k + v > 14:
                sim.stop("enough %d" % v)
                return
            if k % 3 == v % 3:
                self.note("cancel", [sim.cancel(i) for i in range(1, 3 * k, 2)])
            mine["n"] += 1
            plan(sim, "plan", (0.5, None, 1, 0.25, 2)[(k * (v + 1)) % 5], mine["n"])
            if k % 2:
                mine["n"] += 1
                plan(sim, "plan", (1.5, 0.125)[(k + v) % 2], mine["n"])
            if v % 4 == 2 and k == 6:
                raise ValueError("toy %d" % v)
            self.note("time", float(sim.time))
        return init, ("a", v), None, kw

    def context_toy(self, ctx):
        return digest(ctx)

    # ---- pingpong ----
    def make_pingpong(self):
        from pysim.models.pingpong import handlers, objects
        cfg = objects.Config(**self.spec["config"])
        return handlers.initialize, (cfg,), handlers.finalize, {}

    def context_pingpong(self, m):
        if not hasattr(m, "client"):
            return digest(m)
        c = m.client
        return [digest(getattr(c, k)) for k in ("number", "was_acknowledged", "num_pings_sent", "num_acknowledged", "num_missed",
                                                "num_bad_pongs", "intervals_list")] + [digest(m.channel.delays_list)]

    # ---- tag_time ----
    def make_tag_time(self):
        from pysim.models.tag_time import handlers, objects
        return handlers.initialize, (objects.Config(**self.spec["config"]),), handlers.finalize, {}

    def context_tag_time(self, m):
        return digest(getattr(m, "num_transmissions", m))

    # ---- rfid ----
    def make_rfid(self):
        configurator, std, handlers, objects, simulator = rfidsys.modules()
        shared = self.spec.get("share")
        with env.draws(self.draws):
            if shared is not None:
                if shared not in _settings:
                    _settings[shared] = rfidsys.settings_of(dict(self.spec["cfg"], gen=[0.003]))[0]
                settings = _settings[shared]
            else:
                settings, _ = rfidsys.settings_of(self.spec["cfg"])
            model = configurator.create_model(settings, **{
                k: rfidsys.real_value(std, k, v) for k, v in self.spec["cfg"].get("kwargs", {}).items()})
        return handlers.start_simulation, (), None, dict(context=model)

    def context_rfid(self, m):
        if not hasattr(m, "reader"):
            return digest(m)
        r = m.reader
        rnd = r.inventory_round
        return [r.state.name, digest(r.q), digest(getattr(r, "target", None) and r.target.name), digest(r.power),
                digest(rnd.index) if rnd is not None else None, digest(r.antenna_index),
                [(digest(t.tag_id), t.state.name, digest(t.pos), digest(t.power), digest(t.epc), digest(t.tid), digest(t.q))
                 for t in m.tags],
                [(digest(h.num_rounds_attained), [(digest(x.round_index), digest(x.read_tid)) for x in h.inventory_history])
                 for h in m.statistics.tags_history]] + self.powers(m)

    def powers(self, m):
        """Latest power record of every tag, if the model keeps them."""
        if not m.statistics.use_power_statistics or not self.spec.get("powers"):
            return []
        kept = [m.statistics.get_tag_record(t) for t in m.tags]
        last = [k.power_mapping[-1] for k in kept if k is not None and k.power_mapping]
        return [[[digest(getattr(x, n)) for n in ("time", "field_lifetime", "reader_antenna_index", "tag_rx_power", "tag_tx_power",
                                                  "reader_rx_power", "reader_tx_power", "snr", "ber", "reader_tag_pl",
                                                  "tag_reader_pl")] for x in last]]

    def context(self, ctx):
        return getattr(self, "context_" + self.spec["kind"])(ctx)


_programs = {}
_settings = {}
_patched = []


def patch():
    """Journals the handlers of the simulations that are programs."""
    if _patched:
        return
    _patched.append(1)
    env.fast_array_printing()
    from pysim.sim import simulator
    S = simulator.Simulator
    orig_schedule, orig_call = S.schedule, S.call

    def wrapped(prog, handler):
        def run_handler(sim, *args, **kwargs):
            return prog.handler(sim, handler, args, kwargs)
        run_handler.__name__ = getattr(handler, "__name__", "handler")
        return run_handler

    # one journal entry for each scheduling, however one calls the other
    def schedule(self, delay, handler, *args, **kwargs):
        p = _programs.get(id(self))
        if p is None or getattr(handler, "iso", False):
            return orig_schedule(self, delay, handler, *args, **kwargs)
        h = wrapped(p, handler)
        h.iso = True
        i = orig_schedule(self, delay, h, *args, **kwargs)
        p.note("id", digest(i), digest(delay))
        return i

    def call(self, handler, *args, **kwargs):
        p = _programs.get(id(self))
        if p is None or getattr(handler, "iso", False):
            return orig_call(self, handler, *args, **kwargs)
        h = wrapped(p, handler)
        h.iso = True
        i = orig_call(self, h, *args, **kwargs)
        p.note("id", digest(i), 0)
        return i
    S.schedule, S.call = schedule, call


def compare(prog, baseline, what):
    j = [plain(x) for x in prog.journal]
    for i, (a, b) in enumerate(zip(j, baseline)):
        if a != b:
            raise Violation("%s: step %d of the simulation is %s, alone it is %s" % (what, i, short(a), short(b)))
    if len(j) != len(baseline):
        raise Violation("%s: %d steps, alone %d; then %s" % (what, len(j), len(baseline), short(
            (j if len(j) > len(baseline) else baseline)[min(len(j), len(baseline))])))


def plain(x):
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else "nan" if x != x else x


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def baseline(spec):
    """Journal of the program alone, in a process of its own."""
    import multiprocessing
    ctx = multiprocessing.get_context("fork")
    r, w = ctx.Pipe(False)

    def child():
        try:
            with core.quiet():
                patch()
                p = Prog(spec)
                p.whole()
            w.send([plain(x) for x in p.journal])
        except BaseException as e:
            w.send("%s: %s" % (type(e).__name__, e))
    pr = ctx.Process(target=child)
    pr.start()
    w.close()
    try:
        if not r.poll(60):
            raise Violation("simulation %r alone did not finish" % (spec,))
        j = r.recv()
    except EOFError:
        raise Violation("simulation %r alone ended its process" % (spec,))
    finally:
        pr.kill()
        pr.join()
    if isinstance(j, str):
        raise Violation("simulation %r alone: %s" % (spec, j))
    return j


class Baton:
    """Exactly one of the threads runs; at every point the chooser decides
    which one goes on (0: the same one)."""

    def __init__(self, progs, ch, grain, where, bound):
        self.bound = bound
        self.progs, self.ch, self.grain, self.where = progs, ch, grain, where
        self.alive = list(range(len(progs)))
        self.sem = [threading.Semaphore(0) for _ in progs]
        self.finished = threading.Semaphore(0)
        self.failed = None
        self.points = 0
        self.busy = False
        self.spent = False      # no switches are left

    def run(self):
        threads = []
        for i, p in enumerate(self.progs):
            p.point = (lambda i=i: self.at(i)) if self.grain == "event" else None
            t = threading.Thread(target=self.thread, args=(i,), daemon=True)
            threads.append(t)
            t.start()
        self.sem[0].release()
        if not self.finished.acquire(timeout=core.CASE_SECONDS):
            raise core.Hang("the simulations did not finish")
        if self.failed is not None:
            raise self.failed
        for t in threads:
            t.join(5)

    def at(self, i):
        if self.busy or self.failed is not None or self.spent:
            return
        others = [x for x in self.alive if x != i]
        if not others:
            return
        self.busy = True
        try:
            self.points += 1
            k = self.ch.choose(1 + len(others), "switch")
        except BaseException as e:
            self.failed = e
            k = 0
        finally:
            self.busy = False
        if k:
            self.spend()
            self.sem[others[k - 1]].release()
            self.sem[i].acquire()

    def spend(self):
        if len(self.ch.choices) >= len(self.ch.prefix) and sum(map(bool, self.ch.choices)) >= self.bound:
            self.spent = True

    def thread(self, i):
        self.sem[i].acquire()
        p = self.progs[i]
        try:
            if self.grain != "event":
                sys.settrace(lambda frame, event, arg: self.trace(i, frame, event))
            try:
                p.whole()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.failed = self.failed or e
        self.alive.remove(i)
        if self.alive and self.failed is None:
            try:
                k = 0 if self.spent or len(self.alive) == 1 else self.ch.choose(len(self.alive), "next")
                self.spend()
            except BaseException as e:
                self.failed, k = e, 0
        else:
            k = 0
        if self.alive:
            self.sem[self.alive[k]].release()
        else:
            self.finished.release()

    def trace(self, i, frame, event):
        if self.spent:
            sys.settrace(None)
            return None
        if not frame.f_code.co_filename.startswith(self.where):
            return None
        if event == "call":
            self.at(i)
            if self.grain == "call":
                return None
            if self.grain == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            grain = self.grain

            def local(fr, ev, arg):
                if self.spent:
                    sys.settrace(None)
                    fr.f_trace = None
                    return None
                if ev == grain:
                    self.at(i)
                return local
            return local
        return None


def repo_prefix():
    import pysim
    return os.path.realpath(list(pysim.__path__)[0]) + os.sep
