"""Monitors over whole RFID runs: one per property, each judging only its own
property from what it observes."""
import collections
import math

from . import gen2
from .core import Violation, close, expect, same
from .rfidsys import link_of, reply_bits

EPS = 1e-12
REL = 1e-9


def at(got, want, what):
    close(float(got), float(want), what, rel=REL, abs_=EPS)


class Monitor:
    def start(self, h):
        self.values = dict(h.values)
        k = dict(h.cfg.get("kwargs", {}))
        self.kwargs = k
        self.link = link_of(h.values, k)


class Adaptation(Monitor):
    """C19."""

    def start(self, h):
        super().start(h)
        v = self.values
        self.q = v["q"]
        self.fp = v.get("q_fp") if v.get("q_fp") is not None else self.q
        self.use = self.kwargs.get("useadjust", v["use_query_adjust"])
        self.delta = self.kwargs.get("delta", v.get("adjust_delta", 0.1))
        self.draws = {}
        self.sent = 0

    def slot_draw(self, h, tag, lo, hi, v):
        self.draws.setdefault(id(tag), []).append((lo, hi, v))

    def predicted(self, x):
        """+1, -1 or 0 after the exchange."""
        if not self.use or x.kind not in ("query", "qrep"):
            return 0
        if len(x.replies) >= 2:
            if self.q >= 15:
                return 0
            self.fp = min(15, self.fp + self.delta)
        elif not x.delivered:
            if self.q <= 0:
                return 0
            self.fp = max(0, self.fp - self.delta)
        else:
            return 0
        new = round(self.fp)
        if abs(new - self.q) != 1:
            return 0
        d, self.q = new - self.q, new
        return d

    def begin(self, h, x, old):
        if old is not None:
            d = self.predicted(old)
            what = "after %s with %d replies (Q %r, floating %r)" % (old.kind, len(old.replies), self.q, self.fp)
            if d:
                expect(x.kind == "qadj", "%s: the reader sent %s instead of QueryAdjust(%+d)", what, x.kind, d)
                same(x.command.updn, d, what + ": direction of the QueryAdjust")
                same(x.bits, gen2.query_adjust(self.values.get("session", "S0"), d), what + ": QueryAdjust")
                self.sent += 1
            else:
                expect(x.kind != "qadj", "%s: the reader sent a QueryAdjust(%r)", what, getattr(x.command, "updn", None))
        self.level(h)
        if x.kind == "query":
            same(x.command.q, self.q, "Q of the Query")
        if not h.cfg.get("script"):
            for t in x.took_part:
                same(t.q, self.q, "Q of tag %d in the round" % t.tag_id)
        self.draws = {}

    def received(self, h, tag, frame, reply, before):
        if h.cfg.get("script") or type(frame.command).__name__ != "QueryAdjust":
            return
        d = self.draws.pop(id(tag), [])
        state, q = before
        if state in ("ARBITRATE", "REPLY"):
            q2 = q + frame.command.updn
            if not 0 <= q2 <= 15:
                expect(tag.q is None or 0 <= tag.q <= 15, "Q of tag %d is %r", tag.tag_id, tag.q)
                return
            same(tag.q, q2, "Q of tag %d after QueryAdjust(%+d)" % (tag.tag_id, frame.command.updn))
            same([(a, b) for a, b, _ in d], [(0, 2 ** q2)], "slots redrawn by tag %d" % tag.tag_id)
            expect((reply is not None) == (d[0][2] == 0), "tag %d drew slot %d and %s", tag.tag_id, d[0][2],
                   "stayed silent" if reply is None else "replied")
        else:
            same(d, [], "slots drawn by tag %d, which takes no part" % tag.tag_id)

    def level(self, h):
        same(h.model.reader.q, self.q, "Q of the reader")
        expect(0 <= h.model.reader.q <= 15, "Q of the reader is %r", h.model.reader.q)

    def after(self, h, handler):
        if h.exchange is None:
            self.level(h)
        for t in h.model.tags:
            expect(t.q is None or 0 <= t.q <= 15, "Q of tag %d is %r", t.tag_id, t.q)


class Timing(Monitor):
    """C20."""

    def start(self, h):
        super().start(h)
        self.due = None

    def scheduled(self, h, delay, handler):
        if delay is not None:
            expect(delay >= 0, "event %s scheduled %r in the past", getattr(handler, "__name__", handler), delay)

    def begin(self, h, x, old):
        tari, rt, tr, delim, dr, m, trext, ext = self.link
        if old is not None:
            at(x.start, self.due, "start of %s after %s with %d replies" % (x.kind, old.kind, len(old.replies)))
        cmd = gen2.reader_frame(x.bits, tari, rt, tr, delim, x.kind == "query")
        t1 = gen2.link(1, rt, tr, dr, ext)
        tx = x.tx
        what = "%s with %d replies" % (x.kind, len(x.replies))
        at(tx.start_time, x.start, what + ": start")
        at(tx.command_duration, cmd, what + ": duration of the command")
        at(tx.command_end_time, x.start + cmd, what + ": end of the command")
        if x.replies:
            rep = max(gen2.tag_frame(reply_bits(r.reply), dr, tr, m, trext) for _, r in x.replies)
            d = max(cmd + t1[0] + rep + gen2.link(2, rt, tr, dr, ext)[1], cmd + gen2.link(4, rt, tr, dr, ext)[0])
            at(tx.reply_start_time, x.start + cmd + t1[0], what + ": start of the reply window")
            at(tx.reply_end_time, x.start + cmd + t1[0] + rep, what + ": end of the reply window")
            expect(tx.reply_end_time <= tx.finish_time + EPS, "%s: the reply window ends after the exchange", what)
        else:
            d = cmd + t1[1] + gen2.link(3, rt, tr, dr, ext)[0]
        at(tx.duration, d, what + ": duration of the exchange")
        at(tx.finish_time, x.start + d, what + ": end of the exchange")
        self.due = x.start + d

    def deliver(self, h, frame):
        if self.due is not None:
            at(h.now, self.due, "time at which a reply is evaluated")

    def power_off(self, h):
        self.due = None

    def after(self, h, handler):
        if self.due is not None:
            expect(h.now <= self.due * (1 + REL) + EPS, "%s: nothing followed by %r the exchange due to end at %r",
                   h.exchange, h.now, self.due)


class Decoding(Monitor):
    """C21."""
    REPLY_OF = dict(query="QueryReply", qrep="QueryReply", qadj="QueryReply", ack="AckReply", reqrn="ReqRNReply",
                    read="ReadReply")

    def deliver(self, h, frame):
        x = h.exchange
        expect(x is not None, "a reply reached the reader outside an exchange")
        what = "%s with %d replies" % (x.kind, len(x.replies))
        same(len(x.replies), 1, what + ": replies of an exchange that is decoded")
        same(len(x.delivered), 1, what + ": times the reply reached the reader")
        sent = x.replies[0][1].reply
        same(content(frame.reply), content(sent), what + ": reply that reached the reader")
        same(type(frame.reply).__name__, self.REPLY_OF[x.kind], what + ": kind of reply")
        expect(frame.bitlen == x.replies[0][1].bitlen, "%s: frame of %r bits instead of %r", what, frame.bitlen,
               x.replies[0][1].bitlen)

    def begin(self, h, x, old):
        if old is None:
            return
        what = "%s with %d replies" % (old.kind, len(old.replies))
        got = bool(old.delivered)
        if len(old.replies) == 1:
            same(len(old.draws), 1, what + ": reception draws")
            u, p = old.draws[0]
            if p is not None:
                want = u <= p
                expect(got == want, "%s: draw %r, probability %r: the reply was %s", what, u, p,
                       "decoded" if got else "lost")
            elif u == 0.0:
                expect(got, "%s: draw 0.0 and the reply was lost", what)
            else:
                expect(not got, "%s: draw %r and the reply was decoded", what, u)
        else:
            expect(not got, "%s: a reply was decoded", what)
        if not got:
            expect(x.kind in ("query", "qrep", "qadj"), "%s, nothing decoded: the reader sent %s", what, x.kind)
        elif old.kind in ("query", "qrep", "qadj"):
            same(x.kind, "ack", what + ", decoded: next command")
            same(x.command.rn, old.replies[0][1].reply.rn, what + ": RN16 of the ACK")
        elif old.kind == "ack":
            expect(x.kind in ("reqrn", "query", "qrep"), "%s, decoded: the reader sent %s", what, x.kind)
        elif old.kind == "reqrn":
            same(x.kind, "read", what + ", decoded: next command")
            same(x.command.rn, old.replies[0][1].reply.rn, what + ": handle of the Read")


def content(reply):
    out = [type(reply).__name__]
    for a in ("rn", "pc", "epc", "memory"):
        v = getattr(reply, a, None)
        out.append(list(v) if isinstance(v, (list, bytes, bytearray, tuple)) else v)
    return out


class Life(Monitor):
    """C22."""

    def start(self, h):
        super().start(h)
        v, k = self.values, self.kwargs
        self.gen = h.cfg.get("gen") or [0.004]
        self.n = k.get("num_tags", v["num_tags"])
        self.most = h.cfg.get("generated", self.n)
        self.most = math.inf if self.most < 0 else self.most
        self.speed = k.get("speed", v["speed"])
        self.life = v["travel_distance"] / self.speed
        self.words = k.get("tid_word_size", v["tid_word_size"])
        self.epc_bits = v.get("epc_bitlen", 96)
        self.upd = v["update_interval"]
        self.pos0 = (k.get("tag_offset", v.get("tag_antenna_x", 5.0)), -v["initial_distance_to_reader"],
                     v.get("tag_antenna_z", 0.0))
        self.next = self.gen[0]
        self.tags = []          # every tag of the run
        self.born, self.died, self.seen = {}, {}, {}
        self.epcs, self.tids, self.ids = {}, {}, {}

    def created(self, h, tag):
        what = "tag number %d" % (len(self.tags) + 1)
        expect(len(self.tags) < self.most, "%s: only %s tags are configured", what, self.most)
        at(h.now, self.next, what + ": time of creation")
        self.tags.append(tag)
        self.next = h.now + self.gen[len(self.tags) % len(self.gen)]
        self.born[id(tag)] = self.seen[id(tag)] = h.now
        for name, value, bits, known in (("EPC", tag.epc, self.epc_bits, self.epcs),
                                         ("TID", tag.tid, 16 * self.words, self.tids)):
            more = h.cfg.get("extras", [0])     # added by the harness
            same(len(value) * 4, max(bits, 16) + 8 * more[tag.tag_id % len(more)], "%s: bits of the %s" % (what, name))
            int(value, 16)
            if len(known) < 2 ** max(0, bits - 16):
                expect(value not in known, "%s: %s %s is also that of tag %s", what, name, value, known.get(value))
            known[value] = len(self.tags)
        expect(tag.tag_id not in self.ids, "%s: number %s is also that of tag %s", what, tag.tag_id, self.ids.get(tag.tag_id))
        self.ids[tag.tag_id] = len(self.tags)
        self.position(h, tag, exact=True)

    def position(self, h, tag, exact):
        dt = h.now - self.born[id(tag)]
        want = (self.pos0[0], self.pos0[1] + self.speed * dt, self.pos0[2])
        now = [float(c) for c in tag.pos]
        if now != self.seen.get(("pos", id(tag))) or exact:
            for a, b in zip(now, want):
                close(a, b, "position of tag %d at %r, %r after its creation: %r instead of %r" % (
                    self.tags.index(tag), h.now, dt, now, want), rel=1e-9, abs_=1e-9)
            self.seen[("pos", id(tag))] = now
            self.seen[id(tag)] = h.now
        else:
            expect(h.now - self.seen[id(tag)] <= self.upd * (1 + 1e-9) + EPS,
                   "position of tag %d was last updated at %r, it is %r now", self.tags.index(tag),
                   self.seen[id(tag)], h.now)

    def removed(self, h, tag):
        at(h.now, self.born[id(tag)] + self.life, "time at which tag %d leaves" % self.tags.index(tag))
        expect(id(tag) not in self.died, "tag left twice")
        self.died[id(tag)] = h.now

    def after(self, h, handler):
        for t in h.model.tags:
            self.position(h, t, exact=False)
            expect(h.now <= (self.born[id(t)] + self.life) * (1 + REL) + EPS, "tag %d is still there at %r, it was "
                   "created at %r", self.tags.index(t), h.now, self.born[id(t)])
        if len(self.tags) < self.most:
            expect(h.now <= self.next * (1 + REL) + EPS, "tag number %d was not created at %r", len(self.tags) + 1,
                   self.next)
        if len(self.died) >= self.n > 0:
            expect(h.now <= max(self.died.values()) + EPS, "the run goes on at %r after all tags have left", h.now)

    def finish(self, h, stats):
        st = h.model.statistics
        same(st.num_tags_created, len(self.tags), "number of tags created")
        gone = [t for t in self.tags if id(t) in self.died]
        recs = [r.tag for r in st.tags_history]
        same([self.tags.index(t) for t in recs], sorted((self.tags.index(t) for t in gone),
                                                        key=lambda i: (self.died[id(self.tags[i])], i)),
             "tags with a closed statistics record")
        for t in gone:
            same(st.get_tag_record(t), None, "open record of a tag that left")
        for t in h.model.tags:
            expect(st.get_tag_record(t) is not None, "tag %d has no record", self.tags.index(t))
        if not h.cfg.get("limits"):
            same(len(gone), self.n, "tags that have left at the end of the run")
            same(stats.exit_reason.name, "STOPPED", "exit reason")
            at(stats.sim_time, max(self.died.values()), "end of the run")


class ReadStatistics(Monitor):
    """C23."""

    def start(self, h):
        super().start(h)
        self.reads, self.rounds, self.current = {}, {}, {}
        self.tags = {}

    def created(self, h, tag):
        self.reads[id(tag)], self.rounds[id(tag)] = [], 0
        self.tags[id(tag)] = tag            # keeps the object alive

    def begin(self, h, x, old):
        if x.kind in ("query", "qrep"):
            self.current = {}
        if x.kind == "query":
            for t in x.took_part:
                self.rounds[id(t)] += 1

    def power_off(self, h):
        self.current = {}

    def deliver(self, h, frame):
        x = h.exchange
        if x is None:
            return
        tag = next((t for t, r in x.replies if r is frame), None) or (x.replies[0][0] if x.replies else None)
        if tag is None or not any(t is tag for t in h.model.tags):
            return
        kind = type(frame.reply).__name__
        if kind == "AckReply":
            rec = dict(round=x.round, antenna=h.model.reader.antenna_index, pos=[float(c) for c in tag.pos], tid=False)
            self.reads[id(tag)].append(rec)
            self.current[id(tag)] = rec
        elif kind == "ReadReply" and id(tag) in self.current:
            self.current[id(tag)]["tid"] = True

    def finish(self, h, stats):
        st = h.model.statistics
        n = inv = tid = total = 0
        for r in st.tags_history:
            i = id(r.tag)
            what = "tag %d" % r.tag.tag_id
            got = [dict(round=x.round_index, antenna=x.antenna_index, pos=[float(c) for c in x.tag_pos],
                        tid=bool(x.read_tid)) for x in r.inventory_history]
            want = self.reads[i]
            same([(x["round"], x["antenna"], x["tid"]) for x in got],
                 [(x["round"], x["antenna"], x["tid"]) for x in want], what + ": read records (round, antenna, data)")
            for a, b in zip(got, want):
                for p, q in zip(a["pos"], b["pos"]):
                    close(p, q, what + ": position of a read record", abs_=1e-12)
            same(r.num_rounds_attained, self.rounds[i], what + ": rounds it took part in")
            n += 1
            inv += bool(want)
            tid += any(x["tid"] for x in want)
            total += self.rounds[i]
        if n:
            close(st.inventory_probability(), inv / n, "inventory probability")
            close(st.read_tid_probability(), tid / n, "data-read probability")
            close(float(st.average_rounds_per_tag()), total / n, "average rounds per tag")
            expect(st.read_tid_probability() <= st.inventory_probability() + 1e-12,
                   "data-read probability above the inventory probability")


class PowerCycle(Monitor):
    """C24."""

    def start(self, h):
        super().start(h)
        v = self.values
        self.periodic = v.get("reader_switch_power", True)
        self.on_for, self.off_for = v["reader_power_on_duration"], v["reader_power_off_duration"]
        self.power = self.kwargs.get("power", v.get("reader_power", 31.5))
        self.n_ant = 1 + len(h.cfg.get("antennas", []))
        self.switch = v.get("reader_antenna_switching_interval", 10)
        self.first = v.get("reader_always_start_with_first_antenna", False)
        self.on = False
        self.due = 0.0          # next switch on or off
        self.ant, self.ant_due = 0, math.inf
        self.round = None
        self.fresh = False      # switched on, no command yet
        self.aborted = []

    def power_on(self, h):
        expect(not self.on, "switched on at %r while on", h.now)
        at(h.now, self.due, "time of switching on")
        self.on, self.fresh = True, True
        self.due = h.now + self.on_for if self.periodic else math.inf
        if self.first:
            self.ant = 0
        self.ant_due = h.now + self.switch if self.n_ant > 1 else math.inf

    def power_off(self, h):
        expect(self.on, "switched off at %r while off", h.now)
        expect(self.periodic, "switched off at %r in always-on mode", h.now)
        at(h.now, self.due, "time of switching off")
        self.on = False
        self.due = h.now + self.off_for
        self.ant_due = math.inf

    def before(self, h, handler, args):
        tx = h.exchange.tx if h.exchange is not None else None
        for a in args:
            if any(a is b for b in self.aborted):
                raise Violation("%s of an abandoned exchange was handled at %r" % (
                    getattr(handler, "__name__", handler), h.now))
        self.running = tx

    def begin(self, h, x, old):
        expect(self.on, "%s sent at %r while the reader is off", x.kind, h.now)
        if self.fresh:
            same(x.kind, "query", "first command after switching on at %r" % h.now)
            expect(x.round is not None and x.round != self.round, "the round %r goes on after switching on", x.round)
            self.fresh = False
        self.round = x.round

    def deliver(self, h, frame):
        expect(self.on, "a reply reached the reader while it is off")
        x = h.exchange
        expect(x is not None and any(r is frame for _, r in x.replies) or not frame_known(x, frame),
               "a reply of another exchange reached the reader at %r", h.now)

    def after(self, h, handler):
        r = h.model.reader
        expect(h.now <= self.due * (1 + REL) + EPS if self.due != math.inf else True,
               "the reader should have been switched %s at %r", "off" if self.on else "on", self.due)
        if self.on:
            same(r.power, self.power, "transmit power while on")
            expect(not self.fresh, "no command was sent after switching on at %r", h.now)
        else:
            same(r.power, None, "transmit power while off")
            same(r.tx_power, None, "transmit power while off")
            same(r.state.name, "OFF", "state of the reader while off")
            expect(h.model.transaction is None, "an exchange is in progress at %r while the reader is off", h.now)
            for t in h.model.tags:
                same(t.state.name, "OFF", "state of tag %d at %r while the reader is off" % (t.tag_id, h.now))
        if h.model.transaction is None and getattr(self, "running", None) is not None:
            self.aborted.append(self.running)
            self.running = None
        i = r.antenna_index
        if i != self.ant:
            expect(self.on, "the antenna changed while the reader is off")
            at(h.now, self.ant_due, "time of switching the antenna")
            same(i, (self.ant + 1) % self.n_ant, "antenna after switching")
            self.ant = i
            self.ant_due = h.now + self.switch
        elif self.ant_due != math.inf and self.n_ant > 1:
            expect(h.now <= self.ant_due * (1 + REL) + EPS, "the antenna did not change at %r", self.ant_due)


def frame_known(x, frame):
    return x is not None and bool(x.replies)


class Journal(Monitor):
    """What happened in a run, as comparable text."""

    def start(self, h):
        super().start(h)
        self.log = []

    def begin(self, h, x, old):
        self.log.append((x.start, x.bits, x.antenna, [(t.tag_id, content(r.reply)) for t, r in x.replies]))

    def deliver(self, h, frame):
        self.log.append((h.now, "got", content(frame.reply)))

    def power_on(self, h):
        self.log.append((h.now, "on"))

    def power_off(self, h):
        self.log.append((h.now, "off"))

    def created(self, h, tag):
        self.log.append((h.now, "created", tag.tag_id, tag.epc, tag.tid, [float(c) for c in tag.pos]))

    def removed(self, h, tag):
        self.log.append((h.now, "removed", tag.tag_id, [float(c) for c in tag.pos]))

    def tag_power(self, h, tag, time, power, before):
        if tag.state.name != before:
            self.log.append((h.now, "tag", tag.tag_id, tag.state.name))

    def finish(self, h, stats):
        for r in h.model.statistics.tags_history:
            self.log.append((r.tag.tag_id, r.num_rounds_attained, r.num_qadjust_attained, [
                (x.round_index, x.antenna_index, [float(c) for c in x.tag_pos], float(x.snr), float(x.ber),
                 bool(x.read_tid)) for x in r.inventory_history]))
        self.log.append((stats.sim_time, stats.num_events_processed, stats.exit_reason.name))


class Inventory(Monitor):
    """C32: the reference tags and the reference reader, joined by what the
    channel let through, next to the whole system."""

    def start(self, h):
        from .readerkit import BASE, RefReader
        super().start(h)
        v, k = self.values, self.kwargs
        words = k.get("tid_word_size", v["tid_word_size"])
        tari, rt, tr, delim, dr, m, trext, _ = self.link
        self.adjust = k.get("useadjust", v["use_query_adjust"])
        self.session = v.get("session", "S0")
        self.reader = RefReader(dict(
            BASE, q=v["q"], m=m, dr=dr, trext=trext, sel=v.get("sel", "ALL"), session=self.session,
            target=v.get("target", "A"), strategy=v.get("target_strategy", "switch"),
            rpt=v.get("rounds_per_target", 1), read=v.get("read_tid_bank", True) and words > 0, words=words))
        self.sens = v.get("tag_sensitivity", -18.0)
        self.persist = {s: v.get(s.lower() + "_persistence", 2.0) for s in ("S1", "S2", "S3")}
        self.tags, self.real = {}, {}
        self.heard, self.drawn = [], {}
        self.expected = None
        self.read = collections.Counter()

    def ref(self, tag):
        from .tagkit import RefTag
        if id(tag) not in self.tags:
            self.real[id(tag)] = tag            # keeps the object alive
            self.tags[id(tag)] = RefTag(self.sens, self.persist, dict(EPC=tag.epc, TID=tag.tid, USER=None, RESERVED=None))
        return self.tags[id(tag)]

    def created(self, h, tag):
        if "extras" in h.cfg:                   # the harness has just lengthened its memory
            self.ref(tag).banks.update(EPC=tag.epc, TID=tag.tid)

    # ---- the reader ----
    def power_on(self, h):
        self.expected = self.reader.event(("on",))

    def power_off(self, h):
        self.reader.event(("off",))
        self.expected = None

    def begin(self, h, x, old):
        what = "%s at %r" % (x.kind, h.now)
        if not self.adjust:
            if old is not None:
                if old.delivered:
                    rep = old.delivered[0].reply
                    self.expected = self.reader.event(("reply", getattr(rep, "rn", None)))
                else:
                    self.expected = self.reader.event(("timeout",))
            expect(self.expected is not None, "%s: the reader is off", what)
            same(x.bits, self.expected[0], what + ": command")
        # every tag in the model hears the command once
        present = collections.Counter(id(t) for t in h.model.tags)
        ears = collections.Counter(id(t) for t, f, r in self.heard)
        for t in h.model.tags:
            same(ears[id(t)], present[id(t)], "%s: times tag %d heard it" % (what, t.tag_id))
        for t, f, r in self.heard:
            expect(id(t) in present, "%s: tag %d heard it after leaving", what, t.tag_id)
            same(f.command.encode(), x.bits, "%s: command heard by tag %d" % (what, t.tag_id))
        for t, f, r in self.heard:
            self.tag(x, t, f.command, r, what)
        self.heard = []

    # ---- the tags ----
    def tag_power(self, h, tag, time, power, before):
        ref = self.ref(tag)
        ref.power(float(h.now), None if power is None else float(power))
        self.level(tag, "power %r at %r" % (power, h.now))

    def slot_draw(self, h, tag, lo, hi, v):
        self.drawn.setdefault(id(tag), []).append((lo, hi, v))

    def received(self, h, tag, frame, reply, before):
        self.heard.append((tag, frame, reply))

    def after(self, h, handler):
        expect(not self.heard, "tags heard %s at %r, which is not a command of an exchange",
               self.heard and self.heard[0][1].command, h.now)

    def level(self, tag, what):
        ref = self.tags[id(tag)]
        same(tag.state.name, ref.state, "%s: state of tag %d" % (what, tag.tag_id))

    def tag(self, x, tag, command, reply, what):
        ref, c, k = self.ref(tag), command, x.kind
        what = "%s, tag %d in state %s" % (what, tag.tag_id, ref.state)
        if k == "query":
            ev = ("query", c.session.name, str(c.target), c.sel.name, c.q, 0)
        elif k == "qrep":
            ev = ("qrep", c.session.name)
        elif k == "qadj":
            ev = ("qadj", c.session.name, c.updn)
        else:
            ev = (k, "right" if ref.rn is not None and c.rn == ref.rn else "wrong")
            if k == "read":
                ev += (c.bank.name, c.word_ptr, c.word_count)
        drawn = self.drawn.pop(id(tag), [])

        def slot(n):
            expect(bool(drawn), "%s: no slot was drawn", what)
            lo, hi, v = drawn.pop(0)
            same((lo, hi), (0, n), what + ": range of the slot")
            return v
        sent = reply.reply if reply is not None else None
        want = ref.receive(ev, slot, lambda: getattr(sent, "rn", None))
        expect(not drawn, "%s: it drew a slot", what)
        got = None
        if sent is not None:
            got = {"AckReply": lambda: ("AckReply", bytes(sent.epc).hex().upper()),
                   "ReadReply": lambda: ("ReadReply", bytes(sent.memory).hex().upper(), sent.rn)}.get(
                type(sent).__name__, lambda: (type(sent).__name__, sent.rn))()
        same(got, want, what + ": reply")
        self.level(tag, what)
        if k == "ack" and want:
            self.read[id(tag)] += 1


class Linked:
    """A tag with other link parameters."""

    def __init__(self, tag, blf, encoding):
        self._tag, self.blf, self.encoding = tag, blf, encoding

    def __getattr__(self, name):
        return getattr(self._tag, name)


class PowerRecords(Monitor):
    """C31."""
    NONE = -120
    FIELDS = ("time", "field_lifetime", "tag_pos", "reader_antenna_index", "reader_antenna_pos", "tag_rx_power",
              "tag_tx_power", "reader_rx_power", "reader_tx_power", "reader_tag_pl", "tag_reader_pl", "snr", "ber")

    def image(self, r):
        def plain(v):
            return [float(c) for c in v] if hasattr(v, "__len__") else float(v)
        return {n: plain(getattr(r, n)) for n in self.FIELDS}

    def start(self, h):
        super().start(h)
        v = self.values
        self.collect = v.get("collect_power_statistics", False)
        self.tick = v["update_interval"]
        self.seen, self.recs, self.born, self.died = {}, {}, {}, {}
        self.on_since = None
        self.switched, self.replied = [], []
        self.k = 0
        self.kept = []
        self.link_then = {}

    def power_on(self, h):
        self.on_since = h.now
        self.switched.append(h.now)

    def power_off(self, h):
        self.on_since = None
        self.switched.append(h.now)

    def begin(self, h, x, old):
        self.replied.append(x)

    def created(self, h, tag):
        self.born[id(tag)] = h.now
        self.recs[id(tag)] = h.model.statistics.get_tag_record(tag)
        self.seen[id(tag)] = 0

    def removed(self, h, tag):
        self.died[id(tag)] = h.now

    def after(self, h, handler):
        for t in h.model.tags:
            rec = self.recs[id(t)]
            new = rec.power_mapping[self.seen[id(t)]:]
            self.seen[id(t)] = len(rec.power_mapping)
            if not self.collect:
                same(len(new), 0, "power records though none are to be collected")
                continue
            expect(len(new) <= 1, "%d power records for tag %d at once", len(new), t.tag_id)
            for r in new:
                self.k += 1
                self.record(h, t, r, "power record of tag %d at %r: " % (t.tag_id, h.now))
                self.kept.append((r, t.tag_id, self.image(r)))

    def record(self, h, t, r, what):
        reader, medium = h.model.reader, h.model.medium
        ant = reader.antenna
        same(float(r.time), float(h.now), what + "time")
        for name, a, b in (("tag", r.tag_pos, t.pos), ("antenna", r.reader_antenna_pos, ant.pos)):
            same([float(c) for c in a], [float(c) for c in b], what + name + " position")
        same(r.reader_antenna_index, reader.antenna_index, what + "antenna")
        if self.on_since is None:
            same(float(r.field_lifetime), math.inf, what + "time since the field is on (it is off)")
        else:
            close(float(r.field_lifetime), h.now - self.on_since, what + "time since the field is on", rel=REL, abs_=EPS)
        on = t.state.name != "OFF"
        fixed = ant.gain + ant.cable_loss + t.antenna.gain + t.antenna.cable_loss
        none = self.NONE

        def num(name, want):
            got = float(getattr(r, name))
            if math.isinf(want) and got == want:
                return
            close(got, float(want), what + name, rel=1e-9, abs_=1e-9)
        num("reader_tx_power", none if self.on_since is None else reader.max_power)
        fwd = none if self.on_since is None else float(medium.get_forward_path_loss(reader, t, h.now))
        num("reader_tag_pl", fwd)
        num("tag_rx_power", reader.max_power + fwd + fixed if on else none)
        if "losses" in h.cfg and h.now == self.born[id(t)]:
            return              # its modulation loss was set just after
        num("tag_tx_power", float(r.tag_rx_power) + t.modulation_loss if on else none)
        back = float(medium.get_backward_path_loss(reader, t, h.now)) if on else none
        num("tag_reader_pl", back)
        num("reader_rx_power", float(r.tag_tx_power) + back + fixed if on else none)
        snr = 0.0
        if on:      # with the link the tag used at that moment (a command may have followed)
            t = Linked(t, *self.link_then[id(t)])
            snr = float(medium.estimate_reader_rx_snr(reader, t, [t], h.now))
        num("snr", snr)
        num("ber", float(medium.estimate_reader_rx_ber(reader, t, [t], snr)) if on else 0.5)

    def tag_power(self, h, tag, time, power, before):
        self.link_then[id(tag)] = (tag.blf, tag.encoding)

    def finish(self, h, stats):
        end = float(stats.sim_time)
        text = h.model.statistics.to_long_string()
        for r, tag_id, then in self.kept:
            now = self.image(r)
            for n in self.FIELDS:
                same(repr(now[n]), repr(then[n]), "%s of the power record of tag %d taken at %r, at the end of the run" % (
                    n, tag_id, then["time"]))
        if not self.collect:
            return
        ticks = []
        t = self.tick
        while t <= end * (1 + REL) + EPS:
            ticks.append(t)
            t += self.tick
        starts = []
        for x in self.replied:
            s = x.tx.reply_start_time
            if s is not None and (x.end is None or s <= x.end * (1 + REL) + EPS) and s <= end * (1 + REL) + EPS:
                starts.append((float(s), x.aborted and x.end is not None and abs(s - x.end) <= EPS))
        common = sorted([(t, False) for t in ticks] + [(t, False) for t in self.switched] + starts)
        for i, born in self.born.items():
            died = self.died.get(i, end)

            def near(a, b):
                return abs(a - b) <= REL * abs(b) + EPS
            want = [(born, False)] + [(t, opt or near(t, born) or near(t, died) or near(t, end)) for t, opt in common
                                      if born * (1 - REL) - EPS <= t <= died * (1 + REL) + EPS]
            want.sort()
            got = [float(r.time) for r in self.recs[i].power_mapping]
            same(got, sorted(got), "order of the power records of a tag")
            j = k = 0
            while k < len(want):        # the updates of one moment together
                t, n = want[k][0], k
                while n < len(want) and near(want[n][0], t):
                    n += 1
                due = sum(not optional for _, optional in want[k:n])
                found = 0
                while found < n - k and j < len(got) and near(got[j], t):
                    j += 1
                    found += 1
                expect(found >= due, "a tag has no power record for the update at %r", t)
                k = n
            expect(j == len(got), "a tag has a power record at %r, where there was no update", got[j] if j < len(got) else 0)
        for rec in h.model.statistics.tags_history:
            for r in rec.power_mapping[:2]:
                expect(str(r) in text, "the report has no power record %s", r)

    def afterwards(self, h, rec):
        """Collecting the records changes nothing."""
        from . import core, rfidsys
        cfg = dict(h.cfg, settings=dict(h.cfg.get("settings", {}), collect_power_statistics=not self.collect))
        logs = []
        for c in (h.cfg, cfg):
            j = Journal()
            rfidsys.System(c, core.Chooser(h.ch.choices), [j]).run()
            logs.append(j.log)
        for a, b in zip(*logs):
            same(repr(b), repr(a), "with the records %scollected" % ("not " if self.collect else ""))
        same(len(logs[1]), len(logs[0]), "number of steps with the records %scollected" % ("not " if self.collect else ""))
        rec.extra["records"] += self.k


class Observers(Monitor):
    """C30, in whole runs."""
    LISTS = ("state_change", "power_on", "power_off", "round_start", "round_finish", "slot_start", "slot_finish")

    def start(self, h):
        super().start(h)
        self.log, self.guest, self.expected = [], [], []
        self.state = h.model.reader.state
        self.checked = 0
        self.on, self.round, self.slot = False, None, None
        self.last_round = -1
        self.guests = None
        self.steps = 0
        r = h.model.reader
        for name in self.LISTS:
            getattr(r, name + "_listeners").add(lambda *a, n=name: self.log.append((n,) + a))

    def after(self, h, handler):
        r = h.model.reader
        for ev in self.log[self.checked:]:
            self.event(*ev)
        if self.guests:
            self.expected += self.log[self.checked:]
        self.checked = len(self.log)
        same(str(r.state), str(self.state), "state of the reader at %r and the last one notified" % h.now)
        same(r.power is not None, self.on, "the reader is powered at %r, as notified" % h.now)
        rnd = r.inventory_round
        same(rnd.index if rnd is not None else None, self.round, "round in progress at %r and as notified" % h.now)
        same(rnd.slot.index if rnd is not None else None, self.slot, "slot in progress at %r and as notified" % h.now)
        self.steps += 1
        if self.steps % 17 == 5:        # a guest comes ...
            self.guests = [(name, getattr(r, name + "_listeners").add(
                lambda *a, n, own: self.guest.append((n,) + a), n=name, own=self.steps)) for name in self.LISTS]
        elif self.steps % 17 == 13 and self.guests:      # ... and goes
            for name, i in self.guests:
                getattr(r, name + "_listeners").remove(i)
            self.guests = None
            same(self.guest, self.expected, "notifications of an observer that came and went")

    def event(self, name, *a):
        if name == "state_change":
            same(str(a[0]), str(self.state), "state left, as notified")
            self.state = a[1]
        elif name in ("power_on", "power_off"):
            same(self.on, name == "power_off", "powered before %s" % name)
            self.on = name == "power_on"
        elif name == "round_start":
            same(self.round, None, "round in progress when round %r starts" % a[0])
            same(a[0], self.last_round + 1, "number of the round that starts")
            self.round, self.slot = a[0], None
            self.last_round, self.next_slot = a[0], 0
        elif name == "round_finish":
            same((self.round, self.slot), (a[0], None), "round and slot in progress when round %r ends" % a[0])
            self.round = None
        elif name == "slot_start":
            same((self.round, self.slot), (a[0], None), "round and slot in progress when slot %r starts" % (a,))
            same(a[1], self.next_slot, "number of the slot that starts")
            self.slot = a[1]
        elif name == "slot_finish":
            same((self.round, self.slot), tuple(a), "slot in progress when slot %r ends" % (a,))
            self.slot, self.next_slot = None, a[1] + 1

    def finish(self, h, stats):
        same(self.guest, self.expected[:len(self.guest)], "notifications of an observer that came and went")
