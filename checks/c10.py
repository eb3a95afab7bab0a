"""C10: the ping-pong protocol for every pattern of losses."""
import itertools

from lib import core, env
from lib.core import Violation, close, expect, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all loss patterns of 0 to 8 pings x 8 delay settings x 3 loss probabilities x 3 first numbers; all patterns "
             "of 13 pings for one setting; unlimited pings cut off by event and time limits at every position",
    "thorough": "all loss patterns of 0 to 11 pings, of 17 pings for one setting",
}
ASSUMPTIONS = ["draws are placed 1e-9, 2^-50 or as far as possible above or below the loss probability"]

SETTINGS = [(10.0, 2.0, 1.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.5), (0.1, 0.2, 0.3), (3, 7, 1000), (1.0, 5.0, 0.0),
            (0.25, 0.25, 0.25), (1e-3, 1e3, 1.0)]


class Watch:
    """Records what the components do, through wrappers around their
    handlers, and checks it against the protocol."""

    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.interval, self.ch, self.svc = case["setting"]
        self.expected = []       # (time, what, number) still to come
        self.pings = 0
        self.first = None
        self.lost = case["lost"]
        self.acked = self.missed = 0
        self.next_draw = 0

    # the reference: what has to happen next, and when
    def on(self, what, time, number=None):
        self.rec.transitions += 1
        self.rec.state((what, self.pings, self.acked, self.missed, tuple(self.lost[:self.pings])))
        expect(self.expected, "unexpected %s (#%s) at %r", what, number, time)
        t, w, n = self.expected.pop(0)
        same((what, number), (w, n), "what happens at %r" % time)
        close(time, t, "time of %s" % what)

    def timeout(self, sim, client):
        self.on("timeout", sim.time)
        limit = self.case["max_pings"]
        if limit is None or self.pings < limit:
            self.pings += 1
            n = self.first + self.pings
            t = sim.time
            self.expected = [(t, "send", n), (t + self.ch, "at server", n)]
        else:
            self.expected = []

    def send(self, sim, packet, model):
        self.on("send", sim.time, packet.number)
        if packet.receiver is model.server:
            expect(packet.sender is model.client, "the ping was sent by %s", packet.sender)
        else:
            expect(packet.sender is model.server and packet.receiver is model.client,
                   "packet from %s to %s", packet.sender, packet.receiver)

    def at_server(self, sim, packet):
        self.on("at server", sim.time, packet.number)
        t = sim.time
        if self.lost[self.pings - 1]:
            self.missed += 1
            self.expected = [(t + self.interval, "timeout", None)]
        else:
            self.expected = [(t + self.svc, "send", packet.number),
                             (t + self.svc + self.ch, "at client", packet.number)]

    def at_client(self, sim, packet):
        self.on("at client", sim.time, packet.number)
        self.acked += 1
        self.expected = [(sim.time + self.interval, "timeout", None)]

    def draw(self):
        same(self.next_draw, self.pings - 1, "draws made before ping %d" % self.pings)
        self.next_draw += 1
        p = self.case["loss_prob"]
        near = (1e-9, 2 ** -50, 1.0)[self.case["near"]]
        return max(0.0, p - near) if self.lost[self.pings - 1] else min(p + near, 1 - 2 ** -53)

    def counters(self, model):
        c = model.client
        same(c.num_pings_sent, self.pings, "num_pings_sent")
        same(c.num_acknowledged, self.acked, "num_acknowledged")
        expect(0 <= c.num_pings_sent - c.num_acknowledged - c.num_missed <= 1,
               "sent %d, acknowledged %d, missed %d", c.num_pings_sent, c.num_acknowledged, c.num_missed)
        same(c.num_bad_pongs, 0, "num_bad_pongs")


def execute(case, rec):
    from pysim.models.pingpong import model as pp
    from pysim.models.pingpong.handlers import initialize, finalize
    from pysim.models.pingpong.objects import Config
    from pysim.sim.simulator import build_simulation, run_simulation
    w = Watch(case, rec)
    interval, ch, svc = case["setting"]
    cfg = Config(interval=interval, channel_delay=ch, service_delay=svc, loss_prob=case["loss_prob"],
                 max_pings=case["max_pings"])

    def first(lo, hi):
        w.first = {"low": lo, "high": hi - 1}.get(case["first"], (lo + hi) // 3)
        return w.first

    def init(sim, config):
        initialize(sim, config)
        w.expected = [(0.0, "timeout", None)]

    saved = []

    def wrap(cls, name, before):
        orig = getattr(cls, name)
        saved.append((cls, name, orig))

        def wrapped(self, sim, *args):
            before(self, sim, *args)
            ret = orig(self, sim, *args)
            w.counters(sim.context)
            return ret
        setattr(cls, name, wrapped)

    wrap(pp.Client, "handle_timeout", lambda self, sim: w.timeout(sim, self))
    wrap(pp.Channel, "send", lambda self, sim, pkt: w.send(sim, pkt, sim.context))
    wrap(pp.Server, "handle_receive", lambda self, sim, pkt: w.at_server(sim, pkt))
    wrap(pp.Client, "handle_receive", lambda self, sim, pkt: w.at_client(sim, pkt))
    try:
        with env.draws(env.Draws(unit=w.draw, integer=first)):
            stats, model, _ = run_simulation(build_simulation(
                "pingpong", init=init, init_args=(cfg,), fin=finalize, **case["limits"]))
    finally:
        for cls, name, orig in saved:
            setattr(cls, name, orig)
    w.counters(model)
    if not case["limits"]:
        same(w.pings, case["max_pings"], "pings sent")
        same(stats.exit_reason.name, "STOPPED", "exit reason")
        same(w.expected, [], "what should still have happened")
        same(model.client.num_missed, w.missed, "num_missed at the end")
        same(w.acked + w.missed, w.pings, "acknowledged and missed pings")
    rec.traces += 1
    rec.outcome((case["max_pings"], case["lost"][:w.pings], round(stats.sim_time, 6)))
    if rec.traces % 500 == 1:
        rec.sample([case, "ended at %r after %d events" % (stats.sim_time, stats.num_events_processed)])


def replay(case, rec):
    execute(case, rec)


def patterns(n):
    return [list(p) for p in itertools.product((0, 1), repeat=n)]


def run(rec):
    top, deep = (11, 17) if rec.thorough else (8, 13)
    cases = []
    for setting in SETTINGS:
        for n in range(top + 1):
            for lost in patterns(n):
                for p in (0.1, 0.5) if not all(lost) else (0.1, 0.5, 1.0):
                    cases.append(dict(setting=setting, max_pings=n, lost=lost, loss_prob=p, limits={},
                                      first=["low", "high", "mid"][len(cases) % 3]))
                if not any(lost):
                    cases.append(dict(setting=setting, max_pings=n, lost=lost, loss_prob=0.0, limits={}, first="low"))
    for lost in patterns(deep):
        cases.append(dict(setting=SETTINGS[0], max_pings=deep, lost=lost, loss_prob=0.3, limits={}, first="mid"))
    for setting in SETTINGS[:4]:
        for lost in patterns(4):
            for n in range(1, 18):
                cases.append(dict(setting=setting, max_pings=None, lost=lost * 40, loss_prob=0.1,
                                  limits=dict(max_num_events=n), first="mid"))
            cases.append(dict(setting=setting, max_pings=None, lost=lost * 40, loss_prob=0.1,
                              limits=dict(max_sim_time=setting[0] * 7.3, max_num_events=90), first="high"))
    for lost in patterns(4):
        cases.append(dict(setting=SETTINGS[3], max_pings=1200, lost=lost * 300, loss_prob=0.1, limits={}, first="mid"))
    for i, case in enumerate(cases):
        case["near"] = (i // 3) % 3
    core.run_cases(execute, cases, rec)
