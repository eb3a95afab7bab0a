"""Whole runs of the RFID model, with every source of nondeterminism decided
by a Chooser, observed through the model's public objects.

A run is described by a JSON-able dict:
  settings    fields of configurator.Settings (enums by name)
  kwargs      overrides given to create_model
  gen         list of generation intervals (repeated cyclically)
  antennas    extra antennas: list of dict(pos, gain)
  limits      max_sim_time / max_num_events
  slots       default slot policy: zero | spread | last | one | mixed
  lossy       every n-th reception draw fails by default
  script      True: tag replies are chosen freely (0, 1 or 2 replies);
              "outcomes": for inventory commands only, others get no reply
  informed    True: scripted tags reply even if they have not heard a Query
  longer      bytes added to the scripted EPC replies, by tag
  losses      modulation loss of the tags in dB, by tag
  extras      bytes added to the EPC and TID of the tags, by tag
  generated   most tags the generator may create (default: num_tags; -1: no limit)
  default     number of replies without a deviation (script)
  reception   what a reception draw can be: list of "got" "lost" "below" "above"
"""
import collections

from . import env
from .core import Violation

ENUMS = dict(encoding="TagEncoding", dr="DivideRatio", sel="SelFlag", session="Session", temp="TempRange")
FAST = dict(speed=100.0, initial_distance_to_reader=1.0, travel_distance=2.0, update_interval=0.003,
            reader_power_on_duration=0.006, reader_power_off_duration=0.001, num_tags=2, q=1, encoding="FM0",
            trext=False, tid_word_size=4, use_query_adjust=False, reader_antenna_z=3.0, target_strategy="const",
            reader_always_start_with_first_antenna=True)
CAP = 20000       # events; no run comes near this


def modules():
    from pysim.models.rfid import configurator, epcstd, handlers, objects
    from pysim.sim import simulator
    return configurator, epcstd, handlers, objects, simulator


def real_value(std, name, v):
    if v is None or not isinstance(v, str):
        return v
    if name in ENUMS:
        return getattr(std, ENUMS[name])[v]
    if name == "target":
        return std.InventoryFlag.A if v == "A" else std.InventoryFlag.B
    return v


def settings_of(cfg, extra=None):
    configurator, std = modules()[:2]
    values = dict(FAST, **cfg.get("settings", {}))
    values.update(extra or {})
    gen = cfg.get("gen") or [0.004]
    state = {"i": -1}

    def interval():
        state["i"] += 1
        return gen[state["i"] % len(gen)]
    values["generation_interval"] = (interval,)
    return configurator.Settings(**{k: real_value(std, k, v) for k, v in values.items()}), values


class Exchange:
    """One command and what came of it, as seen from outside."""
    __slots__ = ("index", "start", "tx", "frame", "command", "kind", "bits", "replies", "delivered", "end", "aborted",
                 "round", "antenna", "took_part", "on_index", "draws", "q")

    def __repr__(self):
        return "%s at %r" % (self.command, self.start)


KINDS = dict(Query="query", QueryRep="qrep", QueryAdjust="qadj", Ack="ack", ReqRN="reqrn", Read="read")


class System:
    def __init__(self, cfg, chooser, monitors):
        self.cfg, self.ch, self.monitors = cfg, chooser, monitors
        self.now = 0.0
        self.sim = None
        self.model = None
        self.exchange = None        # the exchange in progress
        self.n_exchanges = 0
        self.on_count = 0
        self.known_tags = {}
        self.current_tag = None
        self.received = []          # (tag, frame, reply) since the last exchange
        self.rn = 0
        self.events = 0
        self.script_left, self.script_for, self.queried = 0, None, set()
        self.unit_index = self.mixed = 0

    # ---- notifications ----
    def tell(self, name, *args):
        for m in self.monitors:
            fn = getattr(m, name, None)
            if fn is not None:
                fn(self, *args)

    # ---- random draws ----
    def integer(self, lo, hi):
        if (lo, hi) == (0, 65536):
            return self.next_rn()
        n = hi - lo
        pol = self.cfg.get("slots", "spread")
        tid = self.current_tag.tag_id if self.current_tag is not None else 0
        self.mixed += 1
        default = {"zero": 0, "last": n - 1, "one": min(1, n - 1), "spread": tid % n,
                   "mixed": (self.mixed * 40503 >> 5) % n}[pol]
        alts = [default] + [x for x in ((0, 1, n - 1) if n > 4 else range(n)) if x != default]
        alts = list(dict.fromkeys(alts))
        v = lo + alts[self.ch.choose(len(alts), "slot") if not self.cfg.get("script") else 0]
        if self.current_tag is not None:
            self.tell("slot_draw", self.current_tag, lo, hi, v)
        return v

    def next_rn(self):
        """Distinct values, and the extreme ones among them."""
        self.rn += 1
        return {2: 0, 3: 0xFFFF}.get(self.rn % 16, (self.rn * 12289 + 5) % 65521)

    def unit(self):
        opts = self.cfg.get("reception", ["got", "lost"])
        self.unit_index += 1
        if self.cfg.get("lossy") and self.unit_index % self.cfg["lossy"] == 0:
            opts = opts[::-1]
        o = opts[self.ch.choose(len(opts), "reception")] if len(opts) > 1 else opts[0]
        x = self.exchange
        u = 0.0 if o in ("got", "below") else 1 - 2.0 ** -53
        p = None
        if o in ("below", "above") or self.cfg.get("exact"):
            p = self.probability(x)
            if o == "below" and p is not None:
                u = max(0.0, min(p * (1 - 1e-9), 1 - 2.0 ** -53))
            elif p is not None and o == "above":
                u = min(p * (1 + 1e-9) + 1e-300, 1 - 2.0 ** -53)
        if x is not None:
            x.draws.append((u, p))
        return u

    def probability(self, x):
        """Probability of decoding the only reply of the exchange."""
        if x is None or len(x.replies) != 1:
            return None
        tag, frame = x.replies[0]
        m = self.model.medium
        snr = m.estimate_reader_rx_snr(self.model.reader, tag, [tag], self.now)
        ber = m.estimate_reader_rx_ber(self.model.reader, tag, [tag], snr)
        return float((1.0 - ber) ** reply_bits(frame.reply))

    # ---- one run ----
    def run(self):
        env.fast_array_printing()
        configurator, std, handlers, objects, simulator = modules()
        with env.draws(env.Draws(unit=lambda: 0.25, integer=lambda lo, hi: lo)):
            settings, values = settings_of(self.cfg)
            self.values = dict(values)
            model = self.model = configurator.create_model(settings, **{
                k: real_value(std, k, v) for k, v in self.cfg.get("kwargs", {}).items()})
        r = model.reader
        if "generated" in self.cfg:
            model.generators[0].max_tags_generated = self.cfg["generated"]
        for a in self.cfg.get("antennas", []):
            import numpy as np
            ant = objects.Antenna()
            ant.pos = np.asarray(a.get("pos", [5.0, 0.0, 4.0]))
            ant.direction_theta = np.asarray([0, 0, -1])
            ant.gain = a.get("gain", 6.0)
            ant.cable_loss = -2.0
            r.attach_antenna(ant)
        self.std = std
        saved = []
        h = self

        def patch(cls, name, new):
            saved.append((cls, name, cls.__dict__.get(name)))
            setattr(cls, name, new)

        def wrapped(handler):
            if getattr(handler, "observed", False):
                return handler          # one of schedule() and call() uses the other
            def run_handler(sim, *args, **kwargs):
                h.sim, h.now = sim, sim.time
                h.events += 1
                h.tell("before", handler, args)
                ret = handler(sim, *args, **kwargs)
                h.after(handler)
                return ret
            run_handler.__name__ = getattr(handler, "__name__", "handler")
            run_handler.observed = True
            return run_handler

        orig_schedule, orig_call = simulator.Simulator.schedule, simulator.Simulator.call

        def schedule(self, delay, handler, *args, **kwargs):
            if not getattr(handler, "observed", False):
                h.tell("scheduled", delay, handler)
            return orig_schedule(self, delay, wrapped(handler) if callable(handler) else handler, *args, **kwargs)

        def call(self, handler, *args, **kwargs):
            return orig_call(self, wrapped(handler) if callable(handler) else handler, *args, **kwargs)

        self.orig_receive = objects.Tag.receive
        orig_receive, orig_power = objects.Tag.receive, objects.Tag.set_power
        orig_deliver = objects.Reader.receive

        def receive(self, frame):
            h.current_tag = self
            before = (self.state.name, self.q)
            try:
                reply = orig_receive(self, frame)
                if h.cfg.get("script"):
                    reply = h.scripted(self, frame)
            finally:
                h.current_tag = None
            h.received.append((self, frame, reply))
            h.tell("received", self, frame, reply, before)
            return reply

        def set_power(self, time, power):
            before = self.state.name
            ret = orig_power(self, time, power)
            if self.state.name == "OFF":
                h.queried.discard(id(self))
            h.tell("tag_power", self, time, power, before)
            return ret

        def deliver(self, frame):
            x = h.exchange
            if x is not None:
                x.delivered.append(frame)
            h.tell("deliver", frame)
            return orig_deliver(self, frame)
        patch(simulator.Simulator, "schedule", schedule)
        patch(simulator.Simulator, "call", call)
        patch(objects.Tag, "receive", receive)
        patch(objects.Tag, "set_power", set_power)
        patch(objects.Reader, "receive", deliver)
        r.power_on_listeners.add(lambda *a, **k: h.turned_on())
        r.power_off_listeners.add(lambda *a, **k: h.turned_off())
        for name in ("round_start", "round_finish", "slot_start", "slot_finish"):
            getattr(r, name + "_listeners").add(lambda *a, _n=name, **k: h.tell(_n, *a))
        try:
            self.tell("start")
            limits = dict(max_num_events=self.cfg.get("cap", CAP))
            limits.update(self.cfg.get("limits", {}))
            with env.draws(env.Draws(unit=self.unit, integer=self.integer)):
                stats, ctx, _ = simulator.run_simulation(simulator.build_simulation(
                    "RFID", init=handlers.start_simulation, context=model, **limits))
            if stats.num_events_processed >= self.cfg.get("cap", CAP):
                raise Violation("the run did not end within %d events" % stats.num_events_processed)
            self.now = stats.sim_time
            self.stats = stats
            self.tell("finish", stats)
        finally:
            for cls, name, orig in saved:
                if orig is None:        # it was inherited
                    delattr(cls, name)
                else:
                    setattr(cls, name, orig)
        return self

    def turned_on(self):
        self.now = self.model.reader.kernel.time
        self.on_count += 1
        self.tell("power_on")

    def turned_off(self):
        self.now = self.model.reader.kernel.time
        x = self.exchange
        if x is not None and x.end is None:
            x.end, x.aborted = self.now, True
        self.exchange = None
        self.tell("power_off")

    def after(self, handler):
        m = self.model
        tags = {id(t): t for t in m.tags}
        for k, t in tags.items():
            if k not in self.known_tags:
                if "losses" in self.cfg:
                    t.modulation_loss = self.cfg["losses"][t.tag_id % len(self.cfg["losses"])]
                if "extras" in self.cfg:
                    more = self.cfg["extras"][t.tag_id % len(self.cfg["extras"])]
                    t.epc, t.tid = t.epc + "5A" * more, t.tid + "C3" * more
                self.tell("created", t)
        for k, t in self.known_tags.items():
            if k not in tags:
                self.tell("removed", t)
        self.known_tags = tags
        tx = m.transaction
        if tx is not None and (self.exchange is None or tx is not self.exchange.tx):
            self.begin(tx)
        self.tell("after", handler)

    def begin(self, tx):
        old = self.exchange
        if old is not None:
            old.end = self.now
        x = Exchange()
        self.n_exchanges += 1
        x.index, x.start, x.tx = self.n_exchanges, self.now, tx
        x.frame, x.command = tx.command, tx.command.command
        x.kind, x.bits = KINDS[type(x.command).__name__], x.command.encode()
        x.replies = [(t, r) for t, f, r in self.received if r is not None]
        x.took_part = [t for t, f, r in self.received if t.state.name in ("ARBITRATE", "REPLY")]
        x.delivered, x.end, x.aborted, x.draws = [], None, False, []
        rnd = self.model.reader.inventory_round
        x.round = rnd.index if rnd is not None else None
        x.antenna = self.model.reader.antenna_index
        x.q = self.model.reader.q
        x.on_index = self.on_count
        self.received = []
        self.exchange = x
        self.tell("begin", x, old)

    def scripted(self, tag, frame):
        """Free choice of 0, 1 or 2 replies to the command (real frames)."""
        std = self.std
        kind = KINDS[type(frame.command).__name__]
        if kind == "query":
            self.queried.add(id(tag))
        if id(tag) not in self.queried:
            if not self.cfg.get("informed"):
                return None         # knows nothing of the link yet
            r = self.model.reader
            self.queried.add(id(tag))
            self.orig_receive(tag, std.ReaderFrame(r.preamble, std.Query(
                r.dr, r.tag_encoding, r.trext, r.sel, r.session, tag.sessions[r.session], r.q)))
        if self.script_for != (self.n_exchanges, self.now):
            self.script_for = (self.n_exchanges, self.now)
            n = 3 if kind in ("query", "qrep", "qadj") or "longer" in self.cfg else 2
            self.script_left = (self.ch.choose(n, "replies") + self.cfg.get("default", 0)) % n
            if kind not in ("query", "qrep", "qadj") and self.cfg.get("script") == "outcomes":
                self.script_left = 0
        if self.script_left <= 0:
            return None
        self.script_left -= 1
        rn = self.next_rn()
        longer = self.cfg.get("longer", [0])
        c = frame.command
        kind = KINDS[type(c).__name__]
        r = self.model.reader
        pre = std.create_tag_preamble(r.tag_encoding, r.trext)
        rep = {"ack": lambda: std.AckReply(tag.epc + "0F" * longer[tag.tag_id % len(longer)]), "reqrn": lambda: std.ReqRNReply(rn),
               "read": lambda: std.ReadReply(tag.tid, rn)}.get(kind, lambda: std.QueryReply(rn))()
        return std.TagFrame(pre, rep)


def reply_bits(reply):
    n = type(reply).__name__
    if n == "QueryReply":
        return 16
    if n == "ReqRNReply":
        return 32
    if n == "AckReply":
        return 32 + 8 * len(reply.epc)
    return 33 + 8 * len(reply.memory)


def link_of(values, kwargs):
    """(tari, rtcal, trcal, delim, dr, m, trext, extended) in force."""
    v = dict(delim=12.5e-6, tari=6.25e-6, rtcal_tari_mul=3.0, trcal_rtcal_mul=2.5, temp="NOMINAL", dr="DR_8",
             encoding="M4", trext=True)
    v.update({k: x for k, x in values.items() if k in v})
    v.update({k: x for k, x in kwargs.items() if k in v})
    rt = v["tari"] * v["rtcal_tari_mul"]
    return (v["tari"], rt, rt * v["trcal_rtcal_mul"], v["delim"], v["dr"], v["encoding"], v["trext"],
            v["temp"] == "EXTENDED")


Counter = collections.Counter
