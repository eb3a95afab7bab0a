"""C14: frame durations."""
import itertools

from lib import core, gen2
from lib.core import Violation, close, expect, same

LEVEL = "exploration"
RULE = ("every command kind with varied fields and every reply length x grid of Tari (4) x RTcal (3) x TRcal (4) x "
        "delimiter (3) x DR x M x TRext, each computed by every function that offers it; every subset of omitted "
        "parameters of every convenience function, under the standard and under changed defaults; command, reply, preamble and frame objects shared between frames, in every order of use, and changed between uses; neighbouring link parameters; non-trivial: "
        "distinct durations")
BOUNDS = {"quick": RULE, "thorough": RULE + "; finer grid"}
ASSUMPTIONS = ["durations are compared with relative tolerance 1e-9"]

TARI = [6.25e-6, 12.5e-6, 18.75e-6, 25e-6]
RT = [2.5, 2.75, 3.0]
TR = [1.1, 1.75, 2.5, 3.0]
DELIM = [12.5e-6, 11.875e-6, 13.125e-6]
DEFAULTS = dict(tari=6.25e-6, rtcal=1.5625e-05, trcal=3.125e-05, delim=12.5e-6, dr="DR_8", m="FM0", trext=False,
                sel="ALL", session="S0", target="A", q=4, crc5=0, crc16=0, rn=0, bank="TID", word_ptr=0, word_count=4,
                epc_bytelen=12, updn=0)
OTHER = dict(tari=25e-6, rtcal=70e-6, trcal=200e-6, delim=13e-6, dr="DR_643", m="M8", trext=True, sel="SEL",
             session="S3", target="B", q=15, crc5=31, crc16=0xFFFF, rn=0xFFFF, bank="USER", word_ptr=300,
             word_count=200, epc_bytelen=12, updn=0)


def std():
    from pysim.models.rfid import epcstd
    return epcstd


def real(name, v):
    s = std()
    if v is None:
        return None
    return {"dr": lambda: s.DivideRatio[v], "m": lambda: s.TagEncoding[v], "encoding": lambda: s.TagEncoding[v],
            "sel": lambda: s.SelFlag[v], "session": lambda: s.Session[v],
            "target": lambda: s.InventoryFlag.A if v == "A" else s.InventoryFlag.B,
            "bank": lambda: s.MemoryBank[v]}.get(name, lambda: v)()


def encode(kind, p):
    if kind == "QUERY":
        return gen2.query(p["dr"], p["m"], p["trext"], p["sel"], p["session"], p["target"], p["q"], p["crc5"])
    if kind == "QUERY_REP":
        return gen2.query_rep(p["session"])
    if kind == "QUERY_ADJUST":
        return gen2.query_adjust(p["session"], p["updn"])
    if kind == "ACK":
        return gen2.ack(p["rn"])
    if kind == "REQ_RN":
        return gen2.req_rn(p["rn"], p["crc16"])
    return gen2.read(p["bank"], p["word_ptr"], p["word_count"], p["rn"], p["crc16"])


def command(kind, p):
    s = std()
    r = {k: real(k, v) for k, v in p.items()}
    return {"QUERY": lambda: s.Query(r["dr"], r["m"], r["trext"], r["sel"], r["session"], r["target"], r["q"], r["crc5"]),
            "QUERY_REP": lambda: s.QueryRep(r["session"]),
            "QUERY_ADJUST": lambda: s.QueryAdjust(r["session"], r["updn"]),
            "ACK": lambda: s.Ack(r["rn"]), "REQ_RN": lambda: s.ReqRN(r["rn"], r["crc16"]),
            "READ": lambda: s.Read(r["bank"], r["word_ptr"], r["word_count"], r["rn"], r["crc16"])}[kind]()


# convenience functions: name, parameters as they call them
CONV = {
    "QUERY": ("query_duration", dict(dr="dr", m="m", trext="trext", sel="sel", session="session", target="target",
                                     q="q", crc5="crc")),
    "QUERY_REP": ("query_rep_duration", dict(session="session")),
    "QUERY_ADJUST": ("query_adjust_duration", dict(session="session", updn="updn")),
    "ACK": ("ack_duration", dict(rn="rn")),
    "REQ_RN": ("reqrn_duration", dict(rn="rn", crc16="crc")),
    "READ": ("read_duration", dict(bank="bank", word_ptr="word_ptr", word_count="word_count", rn="rn", crc16="crc")),
}
LINK = ("tari", "rtcal", "trcal", "delim")


def all_ways(kind, p):
    """(how, value) for every way to compute the duration of a command."""
    s = std()
    cmd = command(kind, p)
    tari, rtcal, trcal, delim = (p[k] for k in LINK)
    pre = (s.ReaderPreamble(tari, rtcal, trcal, delim) if kind == "QUERY" else s.ReaderSync(tari, rtcal, delim))
    f = s.ReaderFrame(pre, cmd)
    yield "ReaderFrame.duration", f.duration
    yield "ReaderFrame body + preamble", f.body_duration + f.preamble_duration
    yield "ReaderFrame of the bit string", s.ReaderFrame(pre, cmd.encode()).duration
    yield "reader_frame_duration", s.reader_frame_duration(cmd, tari, rtcal, trcal, delim)
    yield "reader_frame_duration of the bit string", s.reader_frame_duration(cmd.encode(), tari, rtcal, trcal, delim)
    name, params = CONV[kind]
    kw = {v: real(k, p[k]) for k, v in params.items()}
    yield name, getattr(s, name)(tari=tari, rtcal=rtcal, trcal=trcal, delim=delim, **kw)
    if p.get("word_ptr") is not None:
        kw = {k: real(k, p[k]) for k in params}
        yield "command_duration", s.command_duration(s.CommandCode[kind], tari, rtcal, trcal, delim, **kw)


def commands(case, rec):
    p0 = dict(DEFAULTS, tari=case["tari"])
    for rt, tr, delim in itertools.product(RT, TR, DELIM):
        p = dict(p0, rtcal=rt * p0["tari"], trcal=tr * rt * p0["tari"], delim=delim)
        variants = []
        for dr, m, trext in itertools.product(gen2.DR_BITS, gen2.M_BITS, (False, True)):
            variants.append(("QUERY", dict(p, dr=dr, m=m, trext=trext)))
        for k, vs in (("sel", gen2.SEL_BITS), ("session", gen2.SESSION_BITS), ("target", gen2.TARGET_BITS),
                      ("q", range(16)), ("crc5", range(0, 32, 5))):
            variants += [("QUERY", dict(p, **{k: v})) for v in vs]
        for ses in gen2.SESSION_BITS:
            variants.append(("QUERY_REP", dict(p, session=ses)))
            variants += [("QUERY_ADJUST", dict(p, session=ses, updn=u)) for u in (-1, 0, 1)]
        for rn in (0, 1, 0xFFFF, 0x8000, 0x1234):
            variants.append(("ACK", dict(p, rn=rn)))
            variants += [("REQ_RN", dict(p, rn=rn, crc16=c)) for c in (0, 0xFFFF, 0xF00F)]
            variants += [("READ", dict(p, rn=rn, bank=b, word_ptr=w, word_count=n, crc16=0x0101))
                         for b, w, n in (("TID", 0, 0), ("USER", 127, 255), ("EPC", 128, 64), ("RESERVED", 20000, 4))]
        for kind, q in variants:
            want = gen2.reader_frame(encode(kind, q), q["tari"], q["rtcal"], q["trcal"], q["delim"], kind == "QUERY")
            for how, got in all_ways(kind, q):
                close(got, want, "duration of %s (%s) for %s" % (kind, how, q))
            rec.traces += 1
            rec.outcome(round(want * 1e12))


class Changed:
    """Sets all defaults of the standard parameters."""
    NAMES = dict(tari="tari", rtcal="rtcal", trcal="trcal", delim="delim", dr="divide_ratio", m="tag_encoding",
                 trext="trext", sel="sel", session="session", target="target", q="Q", crc5="default_crc5",
                 crc16="default_crc16", rn="default_rn", bank="read_default_bank", word_ptr="read_default_word_ptr",
                 word_count="read_default_word_count")

    def __init__(self, values):
        self.values = values

    def __enter__(self):
        p = std().stdParams
        self.saved = {a: getattr(p, a) for a in self.NAMES.values()}
        if self.values:
            for k, a in self.NAMES.items():
                setattr(p, a, real(k, self.values[k]))

    def __exit__(self, *exc):
        for a, v in self.saved.items():
            setattr(std().stdParams, a, v)


def omissions(case, rec):
    """All subsets of omitted parameters of one convenience function."""
    s = std()
    kind = case["command"]
    name, params = CONV[kind]
    base = OTHER if case["changed"] else DEFAULTS
    given = DEFAULTS if case["changed"] else OTHER
    names = [n for n in list(LINK) + list(params) if n != "updn"]
    with Changed(OTHER if case["changed"] else None):
        for mask in itertools.product((0, 1), repeat=len(names)):
            p = dict(base)
            kw, ckw = {}, {}
            for n, on in zip(names, mask):
                if on:
                    p[n] = given[n]
                    kw[params.get(n, n)] = real(n, given[n])
                    ckw[n] = real(n, given[n])
            want = gen2.reader_frame(encode(kind, p), p["tari"], p["rtcal"], p["trcal"], p["delim"], kind == "QUERY")
            close(getattr(s, name)(**kw), want, "%s(%s)" % (name, sorted(kw)))
            close(s.command_duration(s.CommandCode[kind], **ckw), want, "command_duration(%s, %s)" % (kind, sorted(ckw)))
            rec.traces += 1
            rec.outcome(round(want * 1e12))
        for mask in itertools.product((0, 1), repeat=4):
            p = dict(base)
            kw = {}
            for n, on in zip(LINK, mask):
                if on:
                    p[n] = kw[n] = given[n]
            want = gen2.reader_frame(encode(kind, base), p["tari"], p["rtcal"], p["trcal"], p["delim"], kind == "QUERY")
            close(s.reader_frame_duration(command(kind, base), **kw), want, "reader_frame_duration(%s)" % sorted(kw))


# --- replies ---------------------------------------------------------------
def reply(kind, n):
    s = std()
    return {"QUERY_REPLY": lambda: s.QueryReply(5), "ACK_REPLY": lambda: s.AckReply([7] * n),
            "REQRN_REPLY": lambda: s.ReqRNReply(5), "READ_REPLY": lambda: s.ReadReply([7] * (2 * n))}[kind]()


def reply_bits(kind, n):
    return {"QUERY_REPLY": 16, "ACK_REPLY": 32 + 8 * n, "REQRN_REPLY": 32, "READ_REPLY": 33 + 16 * n}[kind]


RCONV = {"QUERY_REPLY": ("query_reply_duration", None, None), "ACK_REPLY": ("ack_reply_duration", "epc_bytelen", "epc_bytelen"),
         "REQRN_REPLY": ("reqrn_reply_duration", None, None), "READ_REPLY": ("read_reply_duration", "words_count", "words_count")}


def replies(case, rec):
    s = std()
    m, dr = case["m"], case["dr"]
    enc, ratio = real("m", m), real("dr", dr)
    for trext, tari, rt, tr in itertools.product((False, True), TARI, RT, TR):
        trcal = tari * rt * tr
        blf = gen2.DR_VALUE[dr] / trcal
        close(s.get_blf(ratio, trcal), blf, "backscatter link frequency")
        close(s.tag_bitrate(ratio, trcal, enc), blf / gen2.SYMBOLS[m], "bit rate of a tag")
        close(s.get_pri(trcal, ratio), 1 / blf, "pulse repetition interval")
        pre = s.create_tag_preamble(enc, trext)
        same(pre.bitlen, gen2.preamble_bits(m, trext), "preamble bits")
        same(s.tag_preamble_bitlen(enc, trext), gen2.preamble_bits(m, trext), "tag_preamble_bitlen")
        t_pre = gen2.preamble_bits(m, trext) * gen2.SYMBOLS[m] / blf
        close(pre.get_duration(blf), t_pre, "preamble duration")
        close(s.tag_preamble_duration(blf, enc, trext), t_pre, "tag_preamble_duration")
        for kind in RCONV:
            for n in ((0,) if RCONV[kind][1] is None else (0, 1, 2, 6, 12, 31, 62, 64, 128, 255, 256, 300, 1000)):
                want = gen2.tag_frame(reply_bits(kind, n), dr, trcal, m, trext)
                r = reply(kind, n)
                f = s.TagFrame(pre, r)
                what = "%s n=%d %s %s trext=%s" % (kind, n, m, dr, trext)
                close(f.get_duration(blf), want, "TagFrame duration of " + what)
                same(f.bitlen, gen2.preamble_bits(m, trext) + reply_bits(kind, n) + 1, "TagFrame bits of " + what)
                close(f.get_body_duration(blf), reply_bits(kind, n) * gen2.SYMBOLS[m] / blf, "body of " + what)
                close(s.tag_frame_duration(r, blf, enc, trext), want, "tag_frame_duration of " + what)
                name, arg, carg = RCONV[kind]
                kw = {arg: n} if arg else {}
                close(getattr(s, name)(ratio, trcal, enc, trext, **kw), want, name + " of " + what)
                close(s.reply_duration(s.ReplyType[kind], ratio, trcal, enc, trext, **kw), want,
                      "reply_duration of " + what)
                rec.traces += 1
                rec.outcome(round(want * 1e12))


def reply_omissions(case, rec):
    s = std()
    base = OTHER if case["changed"] else DEFAULTS
    given = DEFAULTS if case["changed"] else OTHER
    with Changed(OTHER if case["changed"] else None):
        for kind, (name, arg, _) in RCONV.items():
            for mask in itertools.product((0, 1), repeat=5):
                p = dict(base)
                kw = {}
                for n, r, on in zip(("dr", "trcal", "m", "trext"), ("dr", "trcal", "encoding", "trext"), mask):
                    if on:
                        p[n] = given[n]
                        kw[r] = real(n, given[n])
                count = {"ACK_REPLY": 12, "READ_REPLY": base["word_count"]}.get(kind, 0)
                if arg and mask[4]:
                    count = kw[arg] = 3
                elif mask[4]:
                    continue
                want = gen2.tag_frame(reply_bits(kind, count), p["dr"], p["trcal"], p["m"], p["trext"])
                close(getattr(s, name)(**kw), want, "%s(%s)" % (name, sorted(kw)))
                close(s.reply_duration(s.ReplyType[kind], **kw), want, "reply_duration(%s, %s)" % (kind, sorted(kw)))
                rec.traces += 1
                rec.outcome(round(want * 1e12))
        for mask in itertools.product((0, 1), repeat=3):
            p = dict(base)
            blf = gen2.DR_VALUE[base["dr"]] / base["trcal"]
            kw = {}
            if mask[0]:
                kw["blf"] = blf = 123456.0
            if mask[1]:
                p["m"] = given["m"]
                kw["encoding"] = real("m", given["m"])
            if mask[2]:
                p["trext"] = kw["trext"] = given["trext"]
            pre = gen2.preamble_bits(p["m"], p["trext"])
            close(s.tag_frame_duration(s.QueryReply(1), **kw), (pre + 17) * gen2.SYMBOLS[p["m"]] / blf,
                  "tag_frame_duration(%s)" % sorted(kw))
            close(s.tag_preamble_duration(**kw), pre * gen2.SYMBOLS[p["m"]] / blf, "tag_preamble_duration(%s)" % sorted(kw))
        for mask in itertools.product((0, 1), repeat=3):
            p, kw = dict(base), {}
            for n, r, on in zip(("dr", "trcal", "m"), ("dr", "trcal", "encoding"), mask):
                if on:
                    p[n] = given[n]
                    kw[r] = real(n, given[n])
            close(s.tag_bitrate(**kw), gen2.DR_VALUE[p["dr"]] / p["trcal"] / gen2.SYMBOLS[p["m"]], "tag_bitrate(%s)" % sorted(kw))
            kw.pop("encoding", None)
            close(s.get_blf(**kw), gen2.DR_VALUE[p["dr"]] / p["trcal"], "get_blf(%s)" % sorted(kw))
            close(s.get_pri(**kw), p["trcal"] / gen2.DR_VALUE[p["dr"]], "get_pri(%s)" % sorted(kw))


def elementary(case, rec):
    s = std()
    for base, changed in ((DEFAULTS, None), (OTHER, OTHER)):
        with Changed(changed):
            for over in ([{}] + [{k: (OTHER if base is DEFAULTS else DEFAULTS)[k]} for k in Changed.NAMES
                                 if k not in ("crc5", "crc16", "rn")]):
                p = dict(base, **over)
                kw = {k: real(k, v) for k, v in over.items()}
                t = s.get_elementary_timings(rn=9, crc=3, epc="00" * 5, mem="11" * 8, **kw)
                p.update(rn=9, crc5=3, crc16=3)
                for label, kind in (("Query", "QUERY"), ("QueryRep", "QUERY_REP"), ("ACK", "ACK"), ("ReqRN", "REQ_RN"),
                                    ("Read", "READ")):
                    want = gen2.reader_frame(encode(kind, p), p["tari"], p["rtcal"], p["trcal"], p["delim"], kind == "QUERY")
                    close(t[label], want, "elementary timing of %s with %s" % (label, over))
                for label, n in (("RN16", 16), ("Response", 32 + 40), ("Handle", 32), ("Data", 33 + 64)):
                    close(t[label], gen2.tag_frame(n, p["dr"], p["trcal"], p["m"], p["trext"]),
                          "elementary timing of %s with %s" % (label, over))
                rec.traces += 1
                rec.outcome(("elementary", base is OTHER, sorted(over)))


def shared(case, rec):
    """The same command, reply, preamble and frame objects used again and again, in every order."""
    s = std()
    links = [(6.25e-6, 2.5, 1.1, 12.5e-6), (25e-6, 3.0, 3.0, 12.5e-6), (25e-6, 2.5, 3.0, 13.125e-6), (12.5e-6, 2.75, 1.75, 12.5e-6)]
    links = [dict(tari=t, rtcal=a * t, trcal=b * a * t, delim=d) for t, a, b, d in links]
    kinds = [("QUERY", {}), ("QUERY_REP", dict(session="S3")), ("QUERY_ADJUST", dict(updn=-1)), ("ACK", dict(rn=0xF00F)),
             ("REQ_RN", dict(rn=3)), ("READ", dict(rn=9, word_count=77))]
    made = [(k, dict(DEFAULTS, **v), command(k, dict(DEFAULTS, **v))) for k, v in kinds]
    pre = [{True: s.ReaderPreamble(x["tari"], x["rtcal"], x["trcal"], x["delim"]),
            False: s.ReaderSync(x["tari"], x["rtcal"], x["delim"])} for x in links]
    frames = {(i, j): s.ReaderFrame(pre[j][k == "QUERY"], c) for i, (k, _, c) in enumerate(made) for j in range(len(links))}

    def ask(i, j):
        k, p, c = made[i]
        x = links[j]
        want = gen2.reader_frame(encode(k, p), x["tari"], x["rtcal"], x["trcal"], x["delim"], k == "QUERY")
        f = frames[i, j]
        what = "%s with %r, objects used before" % (k, x)
        close(f.duration, want, "duration of " + what)
        close(f.body_duration + f.preamble_duration, want, "body and preamble of " + what)
        close(s.ReaderFrame(pre[j][k == "QUERY"], c).duration, want, "new frame of " + what)
        close(s.reader_frame_duration(c, x["tari"], x["rtcal"], x["trcal"], x["delim"]), want, "reader_frame_duration of " + what)
        rec.traces += 1
    for i in range(len(made)):
        for order in itertools.permutations(range(len(links))):
            for j in order:
                ask(i, j)
    for j in range(len(links)):
        for order in itertools.permutations(range(len(made)), 3):
            for i in order:
                ask(i, j)
    # replies
    rates = [(dr, x["trcal"]) for dr in gen2.DR_VALUE for x in links]
    reps = [(k, n, reply(k, n)) for k, n in (("QUERY_REPLY", 0), ("ACK_REPLY", 12), ("ACK_REPLY", 0), ("REQRN_REPLY", 0), ("READ_REPLY", 9))]
    tpre = {(m, trext): s.create_tag_preamble(real("m", m), trext) for m in gen2.M_BITS for trext in (False, True)}
    tframes = {(i, q): s.TagFrame(tpre[q], r) for i, (_, _, r) in enumerate(reps) for q in tpre}

    def hear(i, q, rate):
        k, n, r = reps[i]
        dr, trcal = rate
        blf = gen2.DR_VALUE[dr] / trcal
        want = gen2.tag_frame(reply_bits(k, n), dr, trcal, *q)
        what = "%s n=%d %r %r, objects used before" % (k, n, q, rate)
        for f in (tframes[i, q], s.TagFrame(tpre[q], r)):
            close(f.get_duration(blf), want, "duration of " + what)
            close(f.get_body_duration(blf), reply_bits(k, n) * gen2.SYMBOLS[q[0]] / blf, "body of " + what)
            same(f.bitlen, gen2.preamble_bits(*q) + reply_bits(k, n) + 1, "bits of " + what)
        close(tpre[q].get_duration(blf), gen2.preamble_bits(*q) * gen2.SYMBOLS[q[0]] / blf, "preamble of " + what)
        close(s.tag_frame_duration(r, blf, real("m", q[0]), q[1]), want, "tag_frame_duration of " + what)
        rec.traces += 1
    uses = list(itertools.product(range(len(reps)), tpre, rates))
    for step in (1, 7, 11, 13, 17, 19):     # coprime to their number
        for x in range(len(uses)):
            hear(*uses[x * step % len(uses)])
    rec.outcome(("shared", len(uses), len(frames)))


def changed(case, rec):
    """Frames and preambles changed after their durations were asked for."""
    s = std()

    def put(o, **values):
        """False where the object cannot be changed."""
        try:
            for k, v in values.items():
                setattr(o, k, v)
        except AttributeError:
            return False
        return True
    kinds = [("QUERY_REPLY", 0), ("ACK_REPLY", 12), ("ACK_REPLY", 0), ("REQRN_REPLY", 0), ("READ_REPLY", 9)]
    forms = [(m, x) for m in gen2.M_BITS for x in (False, True)]
    rates = [(dr, t) for dr in gen2.DR_VALUE for t in (33.3e-6, 200e-6)]

    def hear(f, q, kind, what):
        for dr, trcal in rates:
            blf = gen2.DR_VALUE[dr] / trcal
            close(f.get_duration(blf), gen2.tag_frame(reply_bits(*kind), dr, trcal, *q), "duration of " + what)
            close(f.get_body_duration(blf), reply_bits(*kind) * gen2.SYMBOLS[q[0]] / blf, "body of " + what)
        same(f.bitlen, gen2.preamble_bits(*q) + reply_bits(*kind) + 1, "bits of " + what)
        rec.traces += 1
    for (q, q2), (a, b) in itertools.product(itertools.product(forms, repeat=2), itertools.product(kinds, repeat=2)):
        f = s.TagFrame(s.create_tag_preamble(real("m", q[0]), q[1]), reply(*a))
        hear(f, q, a, "%r %r" % (q, a))
        if put(f, preamble=s.create_tag_preamble(real("m", q2[0]), q2[1])):
            hear(f, q2, a, "%r, preamble changed from %r to %r" % (a, q, q2))
            if put(f, reply=reply(*b)):
                hear(f, q2, b, "%r, reply changed from %r to %r" % (q2, a, b))
            if q[0] == q2[0] and put(f.preamble, extended=q[1]):
                hear(f, q, b, "%r, TRext changed from %r to %r" % (b, q2, q))
    links = [(6.25e-6, 2.5, 1.1, 12.5e-6), (25e-6, 3.0, 3.0, 12.5e-6), (25e-6, 2.5, 3.0, 13.125e-6)]
    links = [dict(tari=t, rtcal=a * t, trcal=b * a * t, delim=d) for t, a, b, d in links]
    cmds = [("QUERY", {}), ("QUERY", dict(q=15, m="M8")), ("QUERY_REP", dict(session="S3")), ("QUERY_ADJUST", dict(updn=-1)),
            ("ACK", dict(rn=0xF00F)), ("ACK", dict(rn=1)), ("REQ_RN", dict(rn=3)), ("READ", dict(rn=9, word_count=77))]
    cmds = [(k, dict(DEFAULTS, **v)) for k, v in cmds]

    def pre(x, first):
        return s.ReaderPreamble(x["tari"], x["rtcal"], x["trcal"], x["delim"]) if first else \
            s.ReaderSync(x["tari"], x["rtcal"], x["delim"])

    def ask(f, k, p, x, first, what):
        want = gen2.reader_frame(encode(k, p), x["tari"], x["rtcal"], x["trcal"], x["delim"], first)
        close(f.duration, want, "duration of " + what)
        close(f.body_duration + f.preamble_duration, want, "body and preamble of " + what)
        rec.traces += 1
    for (x, y), (a, b) in itertools.product(itertools.product(links, repeat=2), itertools.product(cmds, repeat=2)):
        first = a[0] == "QUERY"
        f = s.ReaderFrame(pre(x, first), command(*a))
        ask(f, a[0], a[1], x, first, "%s %r" % (a[0], x))
        if put(f, command=command(*b)):
            ask(f, b[0], b[1], x, first, "%s, command changed from %s" % (b[0], a[0]))
            if put(f, preamble=pre(y, not first)):
                ask(f, b[0], b[1], y, not first, "%s, preamble changed from %r to %r" % (b[0], x, y))
                names = [n for n in LINK if not first or n != "trcal"]
                now = dict(y)
                for n in names:
                    if not put(f.preamble, **{n: x[n]}):
                        break
                    now[n] = x[n]
                    ask(f, b[0], b[1], now, not first, "%s, %s of the preamble changed" % (b[0], n))
    rec.outcome(("changed", len(forms), len(links)))


def neighbours(case, rec):
    """Link parameters next to each other."""
    s = std()
    m, dr = case["m"], case["dr"]
    for us in (33.3, 66.7, 100.0, 200.0):
        for step in (0, 4e-9, 1e-9, -1e-9, 1e-10, 2e-11, 4e-12):
            trcal = us * 1e-6 + step
            blf = gen2.DR_VALUE[dr] / trcal
            what = " for TRcal=%r s %s %s" % (trcal, dr, m)
            close(s.get_blf(real("dr", dr), trcal), blf, "link frequency" + what, rel=1e-11)
            close(s.get_pri(trcal, real("dr", dr)), 1 / blf, "pulse repetition interval" + what, rel=1e-11)
            close(s.tag_bitrate(real("dr", dr), trcal, real("m", m)), blf / gen2.SYMBOLS[m], "bit rate" + what, rel=1e-11)
            for trext in (False, True):
                close(s.query_reply_duration(real("dr", dr), trcal, real("m", m), trext),
                      gen2.tag_frame(16, dr, trcal, m, trext), "RN16" + what, rel=1e-11)
                close(s.tag_frame_duration(reply("READ_REPLY", 6), blf, real("m", m), trext),
                      gen2.tag_frame(33 + 96, dr, trcal, m, trext), "data" + what, rel=1e-11)
            p = dict(DEFAULTS, tari=12.5e-6 + step, rtcal=37.5e-6 - step, trcal=trcal, delim=12.5e-6 + step)
            for kind in ("QUERY", "READ"):
                want = gen2.reader_frame(encode(kind, p), p["tari"], p["rtcal"], p["trcal"], p["delim"], kind == "QUERY")
                for how, got in all_ways(kind, p):
                    close(got, want, "duration of %s (%s) for %s" % (kind, how, p), rel=1e-11)
            rec.traces += 1
            rec.outcome((m, dr, us, step))


KINDS = dict(changed=changed, neighbours=neighbours, shared=shared, commands=commands, omissions=omissions, replies=replies, reply_omissions=reply_omissions,
             elementary=elementary)


def execute(case, rec):
    KINDS[case["kind"]](case, rec)
    rec.transitions += 1
    rec.sample(case)


def replay(case, rec):
    execute(case, rec)


def run(rec):
    taris = TARI + ([7e-6, 10e-6, 15e-6, 20e-6, 22.5e-6] if rec.thorough else [])
    cases = [dict(kind="commands", tari=t) for t in taris]
    cases += [dict(kind="omissions", command=k, changed=c) for k in CONV for c in (False, True)]
    cases += [dict(kind="replies", m=m, dr=dr) for m in gen2.M_BITS for dr in gen2.DR_BITS]
    cases += [dict(kind="reply_omissions", changed=c) for c in (False, True)] + [dict(kind="elementary"), dict(kind="shared"), dict(kind="changed")]
    cases += [dict(kind="neighbours", m=m, dr=dr) for m in gen2.M_BITS for dr in gen2.DR_BITS]
    core.run_cases(execute, cases, rec, chunk=1)
