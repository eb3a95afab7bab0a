"""C15: link timings and slot durations."""
import itertools

from lib import core, gen2
from lib.core import close, expect, same
from checks.c14 import Changed, DEFAULTS, OTHER, real, std

LEVEL = "exploration"
RULE = ("every Tari (4) x RTcal (5) x TRcal (every row of the Gen2 table: its end and 4 points inside, plus TRcal/RTcal "
        "ratios) x DR x temperature range, each timing in every form that offers it and with every subset of omitted "
        "parameters; TRcal and RTcal values next to each other (4 ns down to 4 ps apart); slot durations for all of these x M x TRext x first or not x 0 to 2 read operations; the printed table of "
        "timings with every subset of at most two parameters given or omitted; "
        "non-trivial: distinct timings")
BOUNDS = {"quick": RULE, "thorough": RULE + "; 40 points inside every row, at most five parameters"}
ASSUMPTIONS = ["TRcal values within 1% of the end of a table row, but not at it, are not asserted against the table"]

INF = float("inf")


def trcals(dr, inside):
    lo = gen2.LOWEST[dr]
    out = []
    for kind, end, _, _ in gen2.FRT[dr]:
        out.append(end)
        if kind != "at":
            out += [lo + (end - lo) * (i + 1) / (inside + 1) for i in range(inside)]
        lo = end
    out += [33.3, 66.7, 83.3, 133.3] if dr == "DR_643" else []
    return sorted(set(out))


def frange(temp):
    s = std()
    return s.TempRange.EXTENDED if temp else s.TempRange.NOMINAL


def timings(case, rec):
    s = std()
    dr, temp = case["dr"], case["temp"]
    rdr, rtemp = real("dr", dr), frange(temp)
    for us in trcals(dr, case["inside"]):
        trcal = us * 1e-6
        f = gen2.frt(trcal, dr, temp)
        if f is not None:
            close(s.get_frt(trcal, rdr, rtemp), f, "FrT of TRcal=%r us, %s, %s" % (us, dr, rtemp))
        for rtcal in (15.625e-6, 18.75e-6, 37.5e-6, 62.5e-6, 75e-6):
            a = dict(rtcal=rtcal, trcal=trcal, dr=rdr, temp=rtemp)
            lows = s.min_link_t(None, **a)
            highs = s.max_link_t(None, **a)
            both = s.link_t(**a)
            same((len(lows), len(highs), len(both)), (7, 7, 7), "lengths of the lists of timings")
            for n in range(1, 8):
                lo, hi = s.link_t(n, **a)
                what = "T%d for RTcal=%r TRcal=%r %s %s" % (n, rtcal, trcal, dr, rtemp)
                want = gen2.link(n, rtcal, trcal, dr, temp)
                if want is not None:
                    close(lo, want[0], "minimum of " + what)
                    close(hi, want[1], "maximum of " + what)
                if n != 7 or lo < 0.02:
                    expect(lo < hi, "%s: minimum %r, maximum %r", what, lo, hi)
                same(s.min_link_t(n, **a), lo, "min_link_t of " + what)
                same(s.max_link_t(n, **a), hi, "max_link_t of " + what)
                same((lows[n - 1], highs[n - 1]), (lo, hi), "list form of " + what)
                same(tuple(both[n - 1]), (lo, hi), "link_t list of " + what)
            named = [(s.link_t1_min(**a), 1, 0), (s.link_t1_max(**a), 1, 1), (s.link_t2_min(trcal, rdr), 2, 0),
                     (s.link_t2_max(trcal, rdr), 2, 1), (s.link_t3(), 3, 0), (s.link_t4(rtcal), 4, 0),
                     (s.link_t5_min(**a), 5, 0), (s.link_t5_max(), 5, 1), (s.link_t6_min(**a), 6, 0),
                     (s.link_t6_max(), 6, 1), (s.link_t7_min(trcal, rdr), 7, 0), (s.link_t7_max(), 7, 1)]
            for got, n, k in named:
                close(got, both[n - 1][k], "named helper of T%d (%s)" % (n, "max" if k else "min"))
            el = s.get_elementary_timings(rtcal=rtcal, trcal=trcal, dr=rdr, temp=rtemp)
            for n in range(1, 8):
                close(el["T%d(min)" % n], both[n - 1][0], "elementary T%d(min)" % n)
                close(el["T%d(max)" % n], both[n - 1][1], "elementary T%d(max)" % n)
            rec.traces += 1
            rec.outcome([(round(x * 1e12), y) for x, y in both])
    for bad in (0, 8, -1):
        for fn in (s.min_link_t, s.max_link_t):
            try:
                fn(bad)
            except ValueError:
                continue
            raise core.Violation("%s(%d) was accepted" % (fn.__name__, bad))


def neighbours(case, rec):
    """TRcal and RTcal values next to each other: each has its own timings."""
    s = std()
    dr, temp = case["dr"], case["temp"]
    rdr, rtemp = real("dr", dr), frange(temp)
    for us in trcals(dr, 1):
        for step in (0, 4e-9, 1e-9, -1e-9, 1e-10, 2e-11, 4e-12):
            trcal = us * 1e-6 + step
            what = "TRcal=%r s %s %s" % (trcal, dr, rtemp)
            close(s.get_blf(rdr, trcal), gen2.DR_VALUE[dr] / trcal, "BLF for " + what, rel=1e-11)
            for more in (0, 1e-9, -1e-9, 1e-11):
                rtcal = 37.5e-6 + more
                for n in range(1, 8):
                    want = gen2.link(n, rtcal, trcal, dr, temp)
                    if want is None:
                        continue
                    lo, hi = s.link_t(n, rtcal=rtcal, trcal=trcal, dr=rdr, temp=rtemp)
                    close(lo, want[0], "minimum of T%d for RTcal=%r %s" % (n, rtcal, what), rel=1e-11)
                    close(hi, want[1], "maximum of T%d for RTcal=%r %s" % (n, rtcal, what), rel=1e-11)
            rec.traces += 1
            rec.outcome((dr, temp, us, step))


def omissions(case, rec):
    """Every subset of omitted parameters, under standard and changed defaults."""
    s = std()
    base, given = (OTHER, DEFAULTS) if case["changed"] else (DEFAULTS, OTHER)
    values = dict(rtcal=given["rtcal"], trcal=83.333e-6, dr=given["dr"], temp=True)
    with Changed(OTHER if case["changed"] else None):
        for mask in itertools.product((0, 1), repeat=4):
            p = dict(rtcal=base["rtcal"], trcal=base["trcal"], dr=base["dr"], temp=False)
            kw = {}
            for n, on in zip(("rtcal", "trcal", "dr", "temp"), mask):
                if on:
                    p[n] = values[n]
                    kw[n] = frange(True) if n == "temp" else real(n, values[n])
            for n in range(1, 8):
                want = gen2.link(n, p["rtcal"], p["trcal"], p["dr"], p["temp"])
                if want is None:
                    continue
                what = "T%d with %s given" % (n, sorted(kw))
                close(s.min_link_t(n, **kw), want[0], "minimum of " + what)
                close(s.max_link_t(n, **kw), want[1], "maximum of " + what)
                close(s.link_t(n, **kw)[0], want[0], "link_t of " + what)
                close(s.link_t(**kw)[n - 1][1], want[1], "link_t list of " + what)
                close(s.min_link_t(None, **kw)[n - 1], want[0], "list of minimums, " + what)
            w1 = gen2.link(1, p["rtcal"], p["trcal"], p["dr"], p["temp"])
            if w1 is not None:
                for fn in ("link_t1_min", "link_t5_min", "link_t6_min"):
                    close(getattr(s, fn)(**kw), w1[0], fn)
                close(s.link_t1_max(**kw), w1[1], "link_t1_max")
            k2 = {k: v for k, v in kw.items() if k in ("trcal", "dr")}
            close(s.link_t2_min(**k2), 3 * p["trcal"] / gen2.DR_VALUE[p["dr"]], "link_t2_min")
            close(s.link_t2_max(**k2), 20 * p["trcal"] / gen2.DR_VALUE[p["dr"]], "link_t2_max")
            close(s.link_t7_min(**k2), max(20 * p["trcal"] / gen2.DR_VALUE[p["dr"]], 250e-6), "link_t7_min")
            k4 = {k: v for k, v in kw.items() if k == "rtcal"}
            close(s.link_t4(**k4), 2 * p["rtcal"], "link_t4")
            rec.traces += 1
            rec.outcome(("omitted", mask, case["changed"]))


def slots(case, rec):
    s = std()
    dr, temp, m, trext = case["dr"], case["temp"], case["m"], case["trext"]
    rdr, rtemp, rm = real("dr", dr), frange(temp), real("m", m)

    def op(bank, ptr, n):
        o = s.TagReadOp()
        o.bank, o.word_ptr, o.word_count = s.MemoryBank[bank], ptr, n
        return o
    ops = [("TID", 0, 4), ("USER", 130, 64)]
    for us in trcals(dr, 2):
        trcal = us * 1e-6
        if gen2.frt(trcal, dr, temp) is None:
            continue
        for tari, rt in itertools.product((6.25e-6, 12.5e-6, 25e-6), (2.5, 3.0)):
            rtcal = tari * rt
            t1 = gen2.link(1, rtcal, trcal, dr, temp)
            t2 = gen2.link(2, rtcal, trcal, dr, temp)[0]
            t4 = 2 * rtcal
            for first, rn in itertools.product((False, True), (0, 0xFFFF, 0x1234)):
                kw = dict(tari=tari, rtcal=rtcal, trcal=trcal, delim=12.5e-6, dr=rdr, temp=rtemp, m=rm, trext=trext,
                          sel=s.SelFlag.SEL, session=s.Session.S3, target=s.InventoryFlag.B, q=7, rn=rn, crc5=9,
                          crc16=0xF0F0, is_first=first)
                enc = (gen2.query(dr, m, trext, "SEL", "S3", "B", 7, 9) if first else gen2.query_rep("S3"))
                cmd = gen2.reader_frame(enc, tari, rtcal, trcal, 12.5e-6, first)

                def frame(bits):
                    return gen2.reader_frame(bits, tari, rtcal, trcal, 12.5e-6, False)

                def resp(n):
                    return gen2.tag_frame(n, dr, trcal, m, trext)
                what = "slot for TRcal=%r us RTcal=%r %s %s M=%s trext=%s first=%s" % (us, rtcal, dr, rtemp, m, trext, first)
                empty = s.slot_duration(s.SlotType.EMPTY, **kw)
                collision = s.slot_duration(s.SlotType.COLLISION, **kw)
                inventory = s.slot_duration(s.SlotType.INVENTORY, **kw)
                same(s.slot_duration(s.SlotType.ACCESS, **kw), inventory, "access slot without operations")
                w_empty = cmd + max(t1[1], t4)
                w_coll = cmd + max(t1[0] + resp(16) + t2, t4)
                w_inv = w_coll + frame(gen2.ack(rn)) + max(t1[0] + resp(32 + 96) + t2, t4)
                close(empty, w_empty, "empty " + what)
                close(collision, w_coll, "collision " + what)
                close(inventory, w_inv, "inventory " + what)
                if t1[0] + resp(16) + t2 > t1[1]:
                    expect(empty <= collision, "empty %s lasts %r, collision %r", what, empty, collision)
                expect(collision < inventory, "collision %s lasts %r, inventory %r", what, collision, inventory)
                last = inventory
                for k in range(1, 3):
                    acc = s.slot_duration(s.SlotType.ACCESS, access_ops=[op(*o) for o in ops[:k]], **kw)
                    bank, ptr, n = ops[k - 1]
                    add = frame(gen2.read(bank, ptr, n, rn, 0xF0F0)) + t1[0] + resp(33 + 16 * n) + t2
                    close(acc - last, add, "what read operation %d adds to the access %s" % (k, what), rel=1e-6)
                    last = acc
                rec.traces += 1
                rec.outcome((round(empty * 1e12), round(collision * 1e12), round(last * 1e12)))
            for kind in (s.SlotType.EMPTY, s.SlotType.COLLISION, s.SlotType.INVENTORY):
                a = dict(tari=tari, rtcal=rtcal, trcal=trcal, delim=12.5e-6, dr=rdr, temp=rtemp)
                lo, hi = s.slot_duration_min(kind, **a), s.slot_duration_max(kind, **a)
                x = s.slot_duration(kind, m=rm, trext=trext, sel=s.SelFlag.NOT_SEL, session=s.Session.S1,
                                    target=s.InventoryFlag.A, q=5, rn=0x5A5A, crc5=3, crc16=7, **a)
                expect(lo <= x * (1 + 1e-12) and x <= hi * (1 + 1e-12), "%s slot lasts %r, between %r and %r", kind, x, lo, hi)


FIELDS = ("tari", "rtcal", "trcal", "delim", "temp", "dr", "m", "trext", "sel", "session", "target", "q", "bank", "word_ptr",
          "word_count")


def table(case, rec):
    """The table of elementary timings with the listed parameters given."""
    s = std()
    base, given = (OTHER, DEFAULTS) if case["changed"] else (DEFAULTS, OTHER)
    given = dict(given, trcal=83.333e-6)
    if case["changed"]:
        given.update(q=0, word_count=0)
    with Changed(OTHER if case["changed"] else None):
        for names in case["given"]:
            p = {k: (given if k in names else base)[k] for k in FIELDS if k != "temp"}
            p["temp"] = "temp" in names
            a = dict(rn=0x1357, crc=9) if len(names) % 2 else {}
            el = s.get_elementary_timings(**dict({k: frange(True) if k == "temp" else real(k, p[k]) for k in names}, **a))
            rn, crc = a.get("rn", 0), a.get("crc", 0)
            q = gen2.query(p["dr"], p["m"], p["trext"], p["sel"], p["session"], p["target"], p["q"], crc)

            def frame(bits, first=False):
                return gen2.reader_frame(bits, p["tari"], p["rtcal"], p["trcal"], p["delim"], first)

            def resp(n):
                return gen2.tag_frame(n, p["dr"], p["trcal"], p["m"], p["trext"])
            want = dict(Query=frame(q, True), QueryRep=frame(gen2.query_rep(p["session"])), ACK=frame(gen2.ack(rn)),
                        ReqRN=frame(gen2.req_rn(rn, crc)),
                        Read=frame(gen2.read(p["bank"], p["word_ptr"], p["word_count"], rn, crc)),
                        RN16=resp(16), Response=resp(16 + 96 + 16), Handle=resp(32), Data=resp(33 + 48),
                        Tari=p["tari"], RTcal=p["rtcal"], TRcal=p["trcal"], Delim=p["delim"])
            text = dict((k.strip(), v.strip()) for k, v in (line.split(":", 1) for line in
                                                            s.prettify_elementary_timings(el).splitlines()))
            what = " of the table with %s given%s" % (list(names), ", changed defaults" if case["changed"] else "")
            for n in range(1, 8):
                w = gen2.link(n, p["rtcal"], p["trcal"], p["dr"], p["temp"])
                if w is not None:
                    want["T%d(min)" % n] = w[0]
                    if w[1] != INF:
                        want["T%d(max)" % n] = w[1]
            for k, w in want.items():
                close(el[k], w, k + what, rel=1e-9)
                expect(text[k].endswith("us") and abs(float(text[k].split()[0]) - w * 1e6) < 1e-6 * (1 + w * 1e6),
                       "%s%s is printed as %r, it is %r s", k, what, text[k], w)
            echo = dict(TRext=p["trext"], Q=p["q"], DR=real("dr", p["dr"]), M=real("m", p["m"]), Sel=real("sel", p["sel"]),
                        Session=real("session", p["session"]), Target=real("target", p["target"]),
                        Bank=real("bank", p["bank"]), WordPtr=p["word_ptr"], WordCount=p["word_count"],
                        TempRange=frange(p["temp"]))
            for k, w in echo.items():
                same(el[k], w, k + what)
                same(text[k], str(w), "printed " + k + what)
            rec.traces += 1
            rec.outcome((names, case["changed"]))


KINDS = dict(neighbours=neighbours, table=table, timings=timings, omissions=omissions, slots=slots)


def execute(case, rec):
    KINDS[case["kind"]](case, rec)
    rec.transitions += 1
    rec.sample(case)


def replay(case, rec):
    execute(case, rec)


def run(rec):
    inside = 40 if rec.thorough else 4
    cases = [dict(kind="timings", dr=dr, temp=t, inside=inside) for dr in gen2.DR_BITS for t in (False, True)]
    cases += [dict(kind="neighbours", dr=dr, temp=t) for dr in gen2.DR_BITS for t in (False, True)]
    cases += [dict(kind="omissions", changed=c) for c in (False, True)]
    cases += [dict(kind="slots", dr=dr, temp=t, m=m, trext=x) for dr in gen2.DR_BITS for t in (False, True)
              for m in gen2.M_BITS for x in (False, True)]
    few = 5 if rec.thorough else 2
    subsets = [c for n in range(len(FIELDS) + 1) if n <= few or n >= len(FIELDS) - few
               for c in itertools.combinations(FIELDS, n)]
    cases += [dict(kind="table", changed=c, given=subsets[i:i + 100]) for c in (False, True)
              for i in range(0, len(subsets), 100)]
    core.run_cases(execute, cases, rec, chunk=1)
