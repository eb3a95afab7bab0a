"""C16: the tag answers commands as its inventory state machine prescribes."""
import itertools

from lib import core
from lib.tagkit import LINKS, TagUnderTest

LEVEL = "model_checking"
BOUNDS = {
    "quick": "a powered tag next to the reference tag: all command sequences of length <= 3 over 58 commands (two "
             "sessions, targets, selections, Q 0..2 with every slot, right / wrong / stale RN16); all reachable "
             "states to depth 5 (deduplicated with the last command); every slot of Q <= 5 and slots 0, 1, last of "
             "Q <= 15 counted down by QueryRep; every session pair; sequences of full reads; every two of 9 links in consecutive queries; every RN16 "
             "(with a handle of its own), and numbers differing from the right one in one bit; the sequences of length 3 over "
             "32 commands and the directed ones up to 40 commands also with frame objects used again for equal commands",
    "thorough": "sequences of length <= 4 over the 32 core commands, reachable states to depth 7, every slot of Q <= 8",
}
ASSUMPTIONS = ["the Select command is not modelled by the code, so SL stays deasserted",
               "in the sequences of commands RN16 values are drawn distinct; a QueryAdjust that would leave 0..15 keeps Q and slot"]


def alphabet(core_only=False):
    evs = []
    for s in ("S0", "S1"):
        for t in "AB":
            for q, slot in ((0, 0), (1, 0), (1, 1)) if core_only else (
                    (0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (2, 3)):
                evs.append((("query", s, t, ("ALL", "NOT_SEL")[slot % 2], q, (q + slot) % 3), slot))
        if not core_only:
            evs.append((("query", s, "A", "SEL", 1, 1), 0))
    for s in ("S0", "S1") if core_only else ("S0", "S1", "S2"):
        evs.append((("qrep", s), 0))
    for s in ("S0", "S1"):
        for updn in (-1, 0, 1):
            for slot in (0, -1) if updn else (0, 1):
                if core_only and slot and updn == 0:
                    continue
                evs.append((("qadj", s, updn), slot))
    for which in ("right", "wrong") if core_only else ("right", "wrong", "stale"):
        evs.append((("ack", which), 0))
        evs.append((("reqrn", which), 0))
        evs.append((("read", which, "TID", 0, 2), 0))
    if not core_only:
        evs += [(("read", "right", "TID", 2, 3), 0), (("read", "right", "EPC", 1, 20), 0),
                (("read", "right", "USER", 0, 1), 0), (("read", "right", "RESERVED", 0, 1), 0),
                (("read", "right", "TID", 40, 1), 0)]
    return evs


def play(case, rec):
    rns, reuse = (), False
    if isinstance(case, dict):
        rns, reuse, case = case.get("rns", ()), case.get("reuse", False), case["events"]
    t = TagUnderTest(rns, reuse)
    t.power(0.0, -5.0)
    for ev, slot in case:
        t.step(tuple(ev), slot)
        rec.transitions += 1
    rec.traces += 1
    return t


def replay(case, rec):
    play(case, rec)


def subtree(item, rec):
    """All sequences that start with the given ones, to the length given."""
    prefix, evs, n = item[:3]
    reuse = len(item) > 3
    for tail in itertools.product(evs, repeat=n - len(prefix)):
        evs_ = list(prefix) + list(tail)
        t = core.guarded(play, dict(reuse=True, events=evs_) if reuse else evs_, rec)
        if rec.violation:
            return
        rec.state(t.ref.key())


def search(item, rec):
    """Reachable states from one first command, breadth first."""
    first, evs, depth, limit = item
    root = core.guarded(play, [first], rec)
    if rec.violation:
        return
    seen = {(root.ref.key(), first)}
    todo = [([first], evs)]
    for _ in range(depth - 1):
        nxt = []
        for path, _ in todo:
            for ev in evs:
                p = path + [ev]
                t = core.guarded(play, p, rec)
                if rec.violation:
                    return
                k = (t.ref.key(), ev[0][0])
                rec.state(k)
                if k not in seen:
                    seen.add(k)
                    nxt.append((p, None))
            if len(seen) > limit:
                rec.capped = "some searches stopped after %d states" % limit
                return
        todo = nxt
    rec.sample(dict(first=first, states=len(seen), deepest=todo[0][0] if todo else None))


def directed(case, rec):
    play(case, rec)


def every_number(part, rec):
    """A read with every RN16, each with a handle of its own."""
    for n in part:
        core.guarded(directed, dict(rns=[n, n ^ 0x9C39], events=[
            (("query", "S1", "A", "ALL", 0, n % 3), 0), (("ack", n), 0), (("reqrn", n), 0),
            (("read", n ^ 0x9C39, "TID", 0, 2), 0), (("read", n ^ 0x9C39, "TID", 2, 1), 0)]), rec)
        if rec.violation:
            return


def numbers():
    """Numbers that differ from the right one in one bit, and RN16 and
    handle that coincide."""
    out = []
    query = (("query", "S1", "A", "ALL", 0, 1), 0)
    for n in (0, 1, 0xFF, 0x100, 0x5555, 0x7FFF, 0x8000, 0xAAAA, 0xFFFF):
        for h in (n, 0, 0xFFFF, n ^ 0x8000):
            out.append(dict(rns=[n, h], events=[query, (("ack", n), 0), (("reqrn", n), 0), (("read", h, "TID", 0, 2), 0),
                                                (("reqrn", h), 0)]))
            for bit in range(16):
                w = 1 << bit
                out.append(dict(rns=[n, h, n ^ w], events=[
                    query, (("ack", n), 0), (("reqrn", n ^ w), 0), (("read", n, "TID", 0, 2), 0), (("reqrn", n), 0),
                    (("read", h ^ w, "TID", 0, 2), 0), (("read", h, "TID", 0, 2), 0)]))
                out.append(dict(rns=[n, h], events=[query, (("ack", n ^ w), 0), (("ack", n), 0), (("qrep", "S1"), 0)]))
    return out


def full_read(session, target, q, slot, link, ends):
    return ([(("query", session, target, "ALL", q, link), slot)] + [(("qrep", session), 0)] * slot +
            [(("ack", "right"), 0), (("reqrn", "right"), 0), (("read", "right", "TID", 0, 4), 0)] + ends)


def run(rec):
    full, small = alphabet(), alphabet(True)
    items = []
    for ev in full:
        items += [([ev], full, n) for n in (1, 2)] + [([ev, e2], full, 3) for e2 in full]
    # the same commands as frame objects that are sent again and again
    items += [([ev], small, 3 if not rec.thorough else 4, "reuse") for ev in small]
    core.parallel_work(subtree, items, rec)
    if rec.violation:
        return
    core.parallel_work(search, [(ev, small, 7 if rec.thorough else 5,
                                 200000 if rec.thorough else 60000) for ev in small], rec)
    if rec.violation:
        return
    cases = []
    for q in range(16):
        slots = range(2 ** q) if q <= (8 if rec.thorough else 5) else (0, 1, 2, 2 ** q - 1)
        for slot in slots:
            if slot > 2000 and not rec.thorough and q not in (12, 15):
                continue
            base = [(("query", "S2", "A", "ALL", q, q % 3), slot)] + [(("qrep", "S2"), 0)] * slot
            cases.append(base + [(("ack", "right"), 0), (("qrep", "S2"), 0), (("query", "S2", "A", "ALL", q, 0), 0),
                                 (("query", "S2", "B", "ALL", q, 1), 0)])
            # foreign commands in between change nothing
            cases.append(base[:1] + [(("qrep", "S3"), 0), (("qadj", "S1", 1), 0)] + base[1:] + [(("ack", "wrong"), 0)] +
                         [(("qrep", "S2"), 0)] * 3)
            # the adjusted range
            for updn in (-1, 0, 1):
                for slot2 in (0, 1, -1):
                    if slot <= 2:
                        cases.append(base + [(("qadj", "S2", updn), slot2), (("qrep", "S2"), 0), (("ack", "right"), 0)])
    # what a Read returns: every bank, pointer and count around the end of the data
    for bank, ptr, count in itertools.product(("TID", "EPC", "USER", "RESERVED"), range(9), (1, 2, 3, 5, 6, 7, 8, 255)):
        cases.append([(("query", "S1", "A", "ALL", 1, ptr % 3), 0), (("ack", "right"), 0), (("reqrn", "right"), 0),
                      (("read", "right", bank, ptr, count), 0), (("read", "right", bank, ptr // 2, count), 0),
                      (("read", "wrong", bank, ptr, count), 0), (("qrep", "S1"), 0)])
    # the flag: every session, both ways, every way to end a turn, and the next reads
    for s, s2 in itertools.product(("S0", "S1", "S2", "S3"), repeat=2):
        for end in ([(("qrep", s2), 0)], [(("qadj", s2, 1), 0)], [(("query", s2, "A", "ALL", 1, 0), 1)],
                    [(("query", s2, "B", "ALL", 1, 0), 0)], [(("query", s2, "A", "SEL", 1, 0), 0)]):
            for stop in (1, 2, 3):
                read = full_read(s, "A", 2, 1, 1, [])
                read = read[:len(read) - 3 + stop]
                cases.append(read + end + end + full_read(s, "B", 1, 0, 2, end) + full_read(s2, "B", 1, 0, 2, end) +
                             full_read(s, "A", 1, 1, 2, end))
    # every two links one after the other, with and without a turn between
    for a, b in itertools.product(range(len(LINKS)), repeat=2):
        first = [(("query", "S1", "A", "ALL", 0, a), 0)]
        second = [(("query", "S1", "A", "ALL", 0, b), 0), (("ack", "right"), 0), (("reqrn", "right"), 0),
                  (("read", "right", "TID", 0, 3), 0), (("query", "S1", "B", "ALL", 1, a), 1), (("qrep", "S1"), 0), (("ack", "right"), 0)]
        cases += [first + second, first + [(("ack", "wrong"), 0)] + second,
                  [(("query", "S1", "A", "ALL", 1, a), 1), (("qrep", "S1"), 0)] + second,
                  [(("query", "S1", "A", "ALL", 1, a), 1)] + second]
    core.run_cases(directed, cases + numbers() + [dict(reuse=True, events=c) for c in cases if len(c) <= 40], rec)
    if rec.violation:
        return
    core.parallel_work(every_number, [range(n, n + 1024) for n in range(0, 65536, 1024)], rec)
    if rec.violation:
        return
    if rec.thorough:
        core.parallel_work(subtree, [([a, b], small, 4) for a in small for b in small], rec)
