"""A tag in isolation: the reference state machine (from EPC Gen2 and the
property texts) and the real Tag under the same commands, power levels and
random draws."""
import logging
import types

from lib import env, gen2
from lib.core import Violation, close, same

SESSIONS = ("S0", "S1", "S2", "S3")
BANKS = dict(EPC="0123456789ABCDEF01234567", TID="FEDCBA98765432100F1E2D3C", USER=None, RESERVED=None)
SENS = -18.0
PERSIST = dict(S1=1.0, S2=3.0, S3=2.0)
# parameters a Query hands to the tag
LINKS = [("FM0", "DR_8", False, 31.25e-6), ("M4", "DR_643", True, 100e-6), ("M8", "DR_8", True, 60e-6),
         # each like the first or the second but for one parameter
         ("FM0", "DR_8", True, 31.25e-6), ("FM0", "DR_643", False, 31.25e-6), ("FM0", "DR_8", False, 25e-6),
         ("FM0", "DR_8", False, 31.26e-6), ("M4", "DR_643", False, 100e-6), ("M2", "DR_643", True, 100e-6)]


class RefTag:
    """Reference tag.  RN16 and handles are identified by the number of the
    draw (the harness draws distinct values)."""

    def __init__(self, sens=SENS, persist=PERSIST, banks=BANKS):
        self.banks = banks
        self.state = "OFF"
        self.flags = dict.fromkeys(SESSIONS, "A")
        self.session = None
        self.slot = 0
        self.q = None
        self.link = None
        self.rn = None
        self.old_rn = None
        self.off_at = 0.0
        self.sens, self.persist = sens, persist

    def key(self):
        return (self.state, tuple(sorted(self.flags.items())), self.session, self.slot, self.q, self.link,
                self.rn is None, self.old_rn is None)

    def power(self, time, power):
        if self.state == "OFF":
            if power is not None and power > self.sens:
                out = time - self.off_at
                self.flags["S0"] = "A"
                for s in ("S1", "S2", "S3"):
                    if out > self.persist[s]:
                        self.flags[s] = "A"
                self.state = "READY"
        elif power is None or power < self.sens:
            self.state, self.session, self.off_at = "OFF", None, time

    def invert(self):
        self.flags[self.session] = "B" if self.flags[self.session] == "A" else "A"

    def reply_rn(self, new_rn):
        self.state = "REPLY"
        self.old_rn, self.rn = self.rn, new_rn()
        return ("QueryReply", self.rn)

    def receive(self, ev, slot, new_rn):
        """ev: event tuple; slot(n): drawn slot of n; new_rn(): fresh RN16.
        Returns the reply or None."""
        kind = ev[0]
        if self.state == "OFF":
            return None
        if kind == "query":
            _, session, target, sel, q, link = ev
            if self.state in ("ACKNOWLEDGED", "SECURED") and session == self.session:
                self.invert()
            self.state = "READY"
            if self.flags[session] != target or sel == "SEL":     # SL is never asserted
                return None
            self.session, self.q, self.link = session, q, link
            self.slot = slot(2 ** q)
            if self.slot == 0:
                return self.reply_rn(new_rn)
            self.state = "ARBITRATE"
            return None
        if kind == "qrep":
            if ev[1] != self.session:
                return None
            if self.state in ("ACKNOWLEDGED", "SECURED"):
                self.invert()
                self.state = "READY"
                return None
            if self.state in ("ARBITRATE", "REPLY"):
                self.slot -= 1
                self.state = "ARBITRATE"
                if self.slot == 0:
                    return self.reply_rn(new_rn)
            return None
        if kind == "qadj":
            if ev[1] != self.session:
                return None
            if self.state in ("ACKNOWLEDGED", "SECURED"):
                self.invert()
                self.state = "READY"
                return None
            if self.state in ("ARBITRATE", "REPLY"):
                self.state = "ARBITRATE"
                if 0 <= self.q + ev[2] <= 15:
                    self.q += ev[2]
                    self.slot = slot(2 ** self.q)
                if self.slot == 0:
                    return self.reply_rn(new_rn)
            return None
        if kind == "ack":
            if self.state != "REPLY":
                return None
            if not self.right(ev[1]):
                self.state = "ARBITRATE"
                return None
            self.state = "ACKNOWLEDGED"
            return ("AckReply", self.banks["EPC"])
        if kind == "reqrn":
            if self.state not in ("ACKNOWLEDGED", "SECURED") or not self.right(ev[1]):
                return None
            self.state = "SECURED"
            self.old_rn, self.rn = self.rn, new_rn()
            return ("ReqRNReply", self.rn)
        if kind == "read":
            _, which, bank, ptr, count = ev
            if self.state != "SECURED" or not self.right(which) or self.banks[bank] is None:
                return None
            return ("ReadReply", self.banks[bank][4 * ptr:4 * (ptr + count)], self.rn)
        raise AssertionError(ev)

    def right(self, which):
        return which == "right" or isinstance(which, int) and which == self.rn

    def value_of(self, which):
        """The RN16 that a command addressed right / wrong / stale (or with
        a given value) carries."""
        if isinstance(which, int):
            return which
        if which == "right":
            return self.rn if self.rn is not None else 0
        if which == "stale":
            return self.old_rn if self.old_rn is not None else 1
        return ((self.rn or 0) ^ 1) & 0xFFFF


class _Logger(logging.Logger):
    def __init__(self):
        super().__init__("verif-null")
        self.disabled = True


class TagUnderTest:
    """The real Tag next to the reference."""

    def __init__(self, rns=(), reuse=False):
        """rns: the first values of the tag's RN16 draws; reuse: equal
        commands are one frame object."""
        import numpy as np
        from pysim.models.rfid import epcstd, objects
        env.fast_array_printing()
        self.std, self.objects = epcstd, objects
        model = objects.Model()
        kernel = types.SimpleNamespace(context=model, logger=_Logger(), time=0.0)
        tag = self.tag = objects.Tag(7)
        tag.kernel = kernel
        tag.epc, tag.tid, tag.user_mem = BANKS["EPC"], BANKS["TID"], BANKS["USER"]
        tag.sensitivity = SENS
        tag.s1_persistence, tag.s2_persistence, tag.s3_persistence = (PERSIST[s] for s in ("S1", "S2", "S3"))
        tag.pos = np.array([0.0, 0.0, 0.0])
        tag.velocity = 1.0
        tag.direction = np.array([0, 1, 0])
        tag.last_pos_update = 0.0
        model.tags.append(tag)
        model.statistics.create_tag_record(tag)
        self.kernel = kernel
        self.ref = RefTag()
        self.time = 0.0
        self.count = 0
        self.rns = list(rns)
        self.frames = {} if reuse else None

    def power(self, time, power):
        self.time = self.kernel.time = time
        self.tag.set_power(time, power)
        self.ref.power(time, power)
        self.check("power %r at %r" % (power, time))

    def command(self, ev, rn):
        if self.frames is None:
            return self.new_command(ev, rn)
        if (ev, rn) not in self.frames:
            self.frames[ev, rn] = self.new_command(ev, rn)
        return self.frames[ev, rn]

    def new_command(self, ev, rn):
        s, kind = self.std, ev[0]
        if kind == "query":
            _, session, target, sel, q, link = ev
            enc, dr, trext, trcal = LINKS[link]
            return s.ReaderFrame(s.ReaderPreamble(6.25e-6, 18.75e-6, trcal, 12.5e-6), s.Query(
                s.DivideRatio[dr], s.TagEncoding[enc], trext, s.SelFlag[sel], s.Session[session],
                s.InventoryFlag.A if target == "A" else s.InventoryFlag.B, q))
        cmd = {"qrep": lambda: s.QueryRep(s.Session[ev[1]]),
               "qadj": lambda: s.QueryAdjust(s.Session[ev[1]], ev[2]),
               "ack": lambda: s.Ack(rn), "reqrn": lambda: s.ReqRN(rn),
               "read": lambda: s.Read(s.MemoryBank[ev[2]], ev[3], ev[4], rn)}[kind]()
        return s.ReaderFrame(s.ReaderSync(6.25e-6, 18.75e-6, 12.5e-6), cmd)

    def step(self, ev, slot=0):
        """One command, with the slot that is drawn if one is."""
        rn = self.ref.value_of(ev[1]) if ev[0] in ("ack", "reqrn", "read") else None
        want_slot, want_rn, got_slot, got_rn = [], [], [], []
        base = self.count

        def number(n):
            return self.rns[n - 1] if n <= len(self.rns) else (4099 * n) % 65521

        def ref_slot(n):
            want_slot.append(n)
            return min(slot, n - 1) if slot >= 0 else n - 1

        def ref_rn():
            want_rn.append(1)
            return number(base + len(want_rn))

        def integer(lo, hi):
            if (lo, hi) == (0, 65536):
                got_rn.append(1)
                return number(base + len(got_rn))
            got_slot.append((lo, hi))
            return max(lo, min(hi - 1, slot if slot >= 0 else hi - 1))
        with env.draws(env.Draws(integer=integer)):
            frame = self.tag.receive(self.command(ev, rn))
        want = self.ref.receive(ev, ref_slot, ref_rn)
        self.count += max(len(want_rn), len(got_rn))
        if got_slot != [(0, n) for n in want_slot]:
            raise Violation("%s: slots drawn from %s, expected from 0..%s" % (
                ev, got_slot, [n - 1 for n in want_slot]))
        self.check_reply(ev, frame, want)
        self.check(ev)
        return want

    def check_reply(self, ev, frame, want):
        if want is None or frame is None:
            if (frame is None) != (want is None):
                raise Violation("%s in state %s: the tag %s" % (
                    ev, self.ref.state, "replied %s" % frame.reply if frame is not None
                    else "stayed silent instead of replying %s" % (want,)))
            return
        r = frame.reply
        same(type(r).__name__, want[0], "%s: reply" % (ev,))
        if want[0] in ("QueryReply", "ReqRNReply"):
            same(r.rn, want[1], "%s: RN16 of the reply" % (ev,))
        elif want[0] == "AckReply":
            same(bytes(r.epc).hex().upper(), want[1], "%s: EPC of the reply" % (ev,))
        else:
            same((bytes(r.memory).hex().upper(), r.rn), want[1:], "%s: data and handle of the reply" % (ev,))
        enc, dr, trext, trcal = LINKS[self.ref.link]
        bits = {"QueryReply": 16, "ReqRNReply": 32}.get(want[0])
        if bits is None:
            bits = (32 if want[0] == "AckReply" else 33) + 4 * len(want[1])
        close(frame.get_duration(self.tag.blf), gen2.tag_frame(bits, dr, trcal, enc, trext),
              "%s: duration of the reply" % (ev,))

    def check(self, what):
        same(self.tag.state.name, self.ref.state, "%s: tag state" % (what,))
        on = self.ref.state != "OFF"
        for s in SESSIONS if on else ():
            got = self.tag.sessions[self.std.Session[s]]
            same(str(got), self.ref.flags[s], "%s: inventoried flag of %s" % (what, s))
