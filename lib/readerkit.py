"""A reader in isolation: reference and real Reader under the same replies,
timeouts and power switching."""
import types

from lib import gen2
from lib.core import Violation, close, same
from lib.tagkit import _Logger

BASE = dict(q=1, m="FM0", dr="DR_8", trext=False, sel="ALL", session="S0", target="A", strategy="const", rpt=1,
            read=True, words=4, tari=6.25e-6, rt=3.0, tr=2.5, delim=12.5e-6)


class RefReader:
    def __init__(self, cfg):
        self.c = cfg
        self.state = "OFF"
        self.slot = None
        self.round = -1
        self.q = cfg["q"]
        self.target = cfg["target"]
        self.used = None
        self.rn = None
        self.log = []

    def key(self):
        return (self.state, self.slot, self.q, self.target, self.used)

    def _next_slot(self):
        if self.slot is not None:
            self.log.append(("slot_finish", self.round, self.slot))
            if self.slot + 1 < self.n_slots:
                self.slot += 1
                self.log.append(("slot_start", self.round, self.slot))
                self.state = "QREP"
                return gen2.query_rep(self.c["session"]), False
            self.log.append(("round_finish", self.round))
        self.round += 1
        self.slot = 0
        self.n_slots = 2 ** self.q
        self.log += [("round_start", self.round), ("slot_start", self.round, 0)]
        if self.c["strategy"] == "switch":
            if self.used == self.c["rpt"]:
                self.target = "B" if self.target == "A" else "A"
                self.used = 0
            self.used += 1
        self.state = "QUERY"
        c = self.c
        return gen2.query(c["dr"], c["m"], c["trext"], c["sel"], c["session"], self.target, self.q, 0), True

    def event(self, ev):
        """The bits of the next command and whether it has the full preamble,
        or None."""
        self.log = []
        kind = ev[0]
        if kind == "on":
            self.log.append(("power_on",))
            if self.c["strategy"] == "switch":
                self.target, self.used = "A", 0
            return self._next_slot()
        if kind == "off":
            self.log += [("power_off",), ("slot_finish", self.round, self.slot), ("round_finish", self.round)]
            self.state, self.slot = "OFF", None
            return None
        if self.state == "OFF":
            return None
        if kind == "timeout":
            return self._next_slot()
        if self.state in ("QUERY", "QREP"):
            self.rn = ev[1]
            self.state = "ACK"
            return gen2.ack(self.rn), False
        if self.state == "ACK":
            if not self.c["read"]:
                return self._next_slot()
            self.state = "REQRN"
            return gen2.req_rn(self.rn, 0), False
        if self.state == "REQRN":
            self.rn = ev[1]
            self.state = "READ"
            return gen2.read("TID", 0, self.c["words"], self.rn, 0), False
        return self._next_slot()


class ReaderUnderTest:
    def __init__(self, cfg):
        from pysim.models.rfid import epcstd as std, objects
        self.std = std
        c = self.c = dict(BASE, **cfg)
        r = self.reader = objects.Reader()
        self.kernel = r.kernel = types.SimpleNamespace(logger=_Logger(), time=0.0, context=objects.Model())
        r.kernel.context.reader = r
        r.tari, r.delim = c["tari"], c["delim"]
        r.rtcal = c["tari"] * c["rt"]
        r.trcal = r.rtcal * c["tr"]
        r.q, r.tag_encoding, r.dr = c["q"], std.TagEncoding[c["m"]], std.DivideRatio[c["dr"]]
        r.trext, r.sel, r.session = c["trext"], std.SelFlag[c["sel"]], std.Session[c["session"]]
        r.target = std.InventoryFlag.A if c["target"] == "A" else std.InventoryFlag.B
        r.target_strategy, r.rounds_per_target = c["strategy"], c["rpt"]
        r.read_tid_bank, r.read_tid_words_num = c["read"], c["words"]
        ant = objects.Antenna()
        r.attach_antenna(ant)
        self.log = []
        for name in ("round_start", "round_finish", "slot_start", "slot_finish", "power_on", "power_off"):
            getattr(r, name + "_listeners").add(lambda *a, name=name: self.log.append((name,) + a))
        self.ref = RefReader(c)
        self.n = 0

    def reply(self, state, rn=None):
        s = self.std
        self.n += 1
        if rn is None:
            rn = {3: 0, 4: 0xFFFF, 8: 0}.get(self.n % 16, (self.n * 12289 + 5) % 65521)
        pre = s.create_tag_preamble(s.TagEncoding[self.c["m"]], self.c["trext"])
        rep = {"QUERY": s.QueryReply(rn), "QREP": s.QueryReply(rn), "ACK": s.AckReply("AAAA00000000000000000001"),
               "REQRN": s.ReqRNReply(rn), "READ": s.ReadReply("0123" * self.c["words"], rn)}[state]
        return s.TagFrame(pre, rep), rn

    def step(self, kind):
        self.log.clear()
        self.kernel.time += 0.001
        r = self.reader
        if kind == "on":
            frame, rn = r.turn_on(), None
        elif kind == "off":
            frame, rn = r.turn_off(), None
        elif kind == "timeout":
            frame, rn = r.timeout(), None
        else:
            given = int(kind[6:]) if kind.startswith("reply:") else None
            f, rn = self.reply(kind[5:] if kind.startswith("late:") else self.ref.state, given)
            frame = r.receive(f)
        before = self.ref.state
        want = self.ref.event((kind.split(":")[0] if not kind.startswith("late") else "reply", rn))
        what = "%s in state %s" % (kind, before)
        if want is None or frame is None:
            if (frame is None) != (want is None):
                raise Violation("%s: the reader %s" % (what, "sent %s" % frame.command if frame is not None
                                                       else "sent nothing"))
        else:
            same(frame.command.encode(), want[0], what + ": command")
            c = self.c
            rt = c["tari"] * c["rt"]
            close(frame.duration, gen2.reader_frame(want[0], c["tari"], rt, rt * c["tr"], c["delim"], want[1]),
                  what + ": duration of the command")
        same(self.log, self.ref.log, what + ": notifications")


def options(ref):
    if ref.state == "OFF":
        return ["on"]
    return ["timeout", "reply", "off"]
