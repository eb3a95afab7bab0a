"""C13: encodings of commands, lengths and payloads of replies."""
import itertools

from lib import core, gen2
from lib.core import expect, same

LEVEL = "exploration"
RULE = ("every Query (all fields, 32 CRC values), every QueryRep and QueryAdjust, ACK and Req_RN for every RN16 (and "
        "every CRC), Read for every bank x 300 + 40 boundary word pointers x every word count x boundary handles, "
        "each with every omissible parameter omitted in turn; commands changed from any of up to 32 values to any other; replies with every payload length of 0 to 255 bytes in 6 "
        "forms; non-trivial: distinct encodings")
BOUNDS = {"quick": RULE, "thorough": RULE}
ASSUMPTIONS = ["field values lie within their widths"]

WORDS = [0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x1234, 0x5555, 0xAAAA, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]
PTRS = list(range(300)) + [2 ** k + d for k in (9, 10, 13, 14, 15, 16, 20, 21, 22, 28) for d in (-1, 0, 1)]


def std():
    from pysim.models.rfid import epcstd
    return epcstd


def check(cmd, want, what, rec):
    got = cmd.encode()
    same(got, want, "encoding of %s" % what)
    same(cmd.bitlen, len(want), "bit length of %s" % what)
    rec.traces += 1
    rec.outcome(got)


def enum(name):
    return list(getattr(std(), name))


def query_cases(rec, case):
    s = std()
    dr, m, trext = s.DivideRatio[case["dr"]], s.TagEncoding[case["m"]], case["trext"]
    for sel, session, target in itertools.product(s.SelFlag, s.Session, (s.InventoryFlag.A, s.InventoryFlag.B)):
        t = "A" if target is s.InventoryFlag.A else "B"
        sel_name = {s.SelFlag.ALL: "ALL", s.SelFlag.SEL: "SEL", s.SelFlag.NOT_SEL: "NOT_SEL"}[sel]
        ses = "S%d" % session.index
        for q in range(16):
            for crc in range(32):
                want = gen2.query(case["dr"], case["m"], trext, sel_name, ses, t, q, crc)
                check(s.Query(dr, m, trext, sel, session, target, q, crc), want, "Query q=%d crc=%d" % (q, crc), rec)


def defaults(rec, case):
    """Every subset of omitted parameters means the values of stdParams,
    whatever they are."""
    s = std()
    p = s.stdParams
    saved = {k: getattr(p, k) for k in ("divide_ratio", "tag_encoding", "trext", "sel", "session", "target", "Q",
                                        "default_crc5", "default_crc16", "default_rn", "read_default_bank",
                                        "read_default_word_ptr", "read_default_word_count")}
    try:
        if case["changed"]:
            for k, v in dict(divide_ratio=s.DivideRatio.DR_643, tag_encoding=s.TagEncoding.M8, trext=True,
                             sel=s.SelFlag.SEL, session=s.Session.S3, target=s.InventoryFlag.B, Q=9, default_crc5=21,
                             default_crc16=0xBEEF, default_rn=0xCAFE, read_default_bank=s.MemoryBank.USER,
                             read_default_word_ptr=300, read_default_word_count=77).items():
                setattr(p, k, v)
            d = dict(dr="DR_643", m="M8", trext=True, sel="SEL", session="S3", target="B", q=9, crc5=21, crc16=0xBEEF,
                     rn=0xCAFE, bank="USER", ptr=300, count=77)
        else:
            d = dict(dr="DR_8", m="FM0", trext=False, sel="ALL", session="S0", target="A", q=4, crc5=0, crc16=0, rn=0,
                     bank="TID", ptr=0, count=4)
        given = dict(dr=("DR_8", s.DivideRatio.DR_8), m=("FM0", s.TagEncoding.FM0), trext=(False, False),
                     sel=("ALL", s.SelFlag.ALL), session=("S0", s.Session.S0), target=("A", s.InventoryFlag.A),
                     q=(0, 0), crc=(0, 0))
        other = dict(dr=("DR_643", s.DivideRatio.DR_643), m=("M4", s.TagEncoding.M4), trext=(True, True),
                     sel=("NOT_SEL", s.SelFlag.NOT_SEL), session=("S2", s.Session.S2),
                     target=("B", s.InventoryFlag.B), q=(15, 15), crc=(31, 31))
        names = list(given)
        for values in (given, other):
            for mask in itertools.product((0, 1), repeat=len(names)):
                kw, want = {}, dict(d, crc=d["crc5"])
                for n, on in zip(names, mask):
                    if on:
                        kw[n], want[n] = values[n][1], values[n][0]
                check(s.Query(**kw), gen2.query(*[want[n] for n in names]), "Query(%s)" % sorted(kw), rec)
        check(s.QueryRep(), gen2.query_rep(d["session"]), "QueryRep()", rec)
        check(s.QueryAdjust(), gen2.query_adjust(d["session"], 0), "QueryAdjust()", rec)
        check(s.QueryAdjust(updn=-1), gen2.query_adjust(d["session"], -1), "QueryAdjust(updn=-1)", rec)
        check(s.Ack(None), gen2.ack(d["rn"]), "Ack(None)", rec)
        for rn in (None, 0, 0xFFFF):
            for crc in (None, 0, 0xFFFF):
                w_rn, w_crc = d["rn"] if rn is None else rn, d["crc16"] if crc is None else crc
                check(s.ReqRN(rn=rn, crc=crc), gen2.req_rn(w_rn, w_crc), "ReqRN(%r, %r)" % (rn, crc), rec)
                for bank, ptr, n in itertools.product((None, "RESERVED", "EPC"), (None, 0, 5), (None, 0, 200)):
                    check(s.Read(bank=None if bank is None else s.MemoryBank[bank], word_ptr=ptr, word_count=n, rn=rn,
                                 crc=crc),
                          gen2.read(bank or d["bank"], d["ptr"] if ptr is None else ptr,
                                    d["count"] if n is None else n, w_rn, w_crc),
                          "Read(%r, %r, %r, %r, %r)" % (bank, ptr, n, rn, crc), rec)
    finally:
        for k, v in saved.items():
            setattr(p, k, v)


def words(rec, case):
    s = std()
    for v in range(case["lo"], case["hi"]):
        check(s.Ack(v), gen2.ack(v), "ACK %d" % v, rec)
        check(s.ReqRN(v, 0), gen2.req_rn(v, 0), "Req_RN %d" % v, rec)
        check(s.ReqRN(0x1234, v), gen2.req_rn(0x1234, v), "Req_RN crc %d" % v, rec)
        check(s.Read(s.MemoryBank.TID, 0, 4, v, v ^ 0xFFFF), gen2.read("TID", 0, 4, v, v ^ 0xFFFF),
              "Read rn %d" % v, rec)


def reads(rec, case):
    s = std()
    bank = s.MemoryBank[case["bank"]]
    for ptr in PTRS:
        for count in range(256):
            rn = WORDS[(ptr + count) % len(WORDS)]
            check(s.Read(bank, ptr, count, rn, 0), gen2.read(case["bank"], ptr, count, rn, 0),
                  "Read ptr=%d count=%d" % (ptr, count), rec)


def rest(rec, case):
    s = std()
    for session in s.Session:
        ses = "S%d" % session.index
        check(s.QueryRep(session), gen2.query_rep(ses), "QueryRep %s" % ses, rec)
        for updn in (-1, 0, 1):
            check(s.QueryAdjust(session, updn), gen2.query_adjust(ses, updn), "QueryAdjust %s %d" % (ses, updn), rec)
    for bad in (2, -2, None):
        try:
            s.QueryAdjust(s.Session.S0, bad).encode()
        except (ValueError, TypeError):
            continue
        raise core.Violation("QueryAdjust with UpDn %r was encoded" % (bad,))
    for v in list(range(70000)) + [2 ** k + d for k in range(17, 40) for d in (-1, 0, 1)]:
        same(s.encode_ebv(v), gen2.ebv(v), "extensible bit vector of %d" % v)
    for n in (1, 4, 5, 8, 16):
        for v in range(min(2 ** n, 70000)):
            same(s.encode_int(v, n), gen2.bits(v, n), "%d-bit integer %d" % (n, v))


def replies(rec, case):
    s = std()
    same(s.QueryReply(0xFFFF).bitlen, 16, "bit length of an RN16 reply")
    same(s.QueryReply(0xABCD).rn, 0xABCD, "RN16 of a reply")
    same(s.ReqRNReply(0xFFFF).bitlen, 32, "bit length of a handle reply")
    same(s.ReqRNReply(0xABC0).rn, 0xABC0, "handle of a reply")
    for n in range(256):
        data = [(i * 37 + n * 11) % 256 for i in range(n)]
        if n >= 2:
            data[0], data[-1] = 0, 255
        text = "".join("%02X" % b for b in data)
        forms = [data, tuple(data), bytes(data), bytearray(data), text, text.lower(),
                 " ".join("%02X" % b for b in data)]
        for f in forms:
            a = s.AckReply(f, 0x3000, 0x1D0F)
            same(list(a.epc), data, "EPC of a reply given as %s" % type(f).__name__)
            same(a.bitlen, 32 + 8 * n, "bit length of an EPC reply")
            same(a.get_epc_string(), text, "EPC string of a reply")
            r = s.ReadReply(f, 0x1234)
            same(list(r.memory), data, "data of a reply given as %s" % type(f).__name__)
            same(r.bitlen, 33 + 8 * n, "bit length of a data reply")
            same(r.get_memory_string(), text, "data string of a reply")
            same(r.rn, 0x1234, "handle of a data reply")
            same(list(s.to_bytes(f)), data, "to_bytes")
            rec.traces += 1
            rec.outcome((n, type(f).__name__))
        if n:
            same(s.AckReply(text).get_epc_string("-"), "-".join("%02X" % b for b in data), "separated EPC string")
    for bad in ([256], [-1], ["00"], 5, [1.5]):
        try:
            s.to_bytes(bad)
        except (ValueError, TypeError):
            continue
        raise core.Violation("to_bytes(%r) was accepted" % (bad,))


def changed(rec, case):
    """A command whose fields are set after its encoding was asked for."""
    s = std()

    def put(cmd, values):
        for k, v in values.items():
            setattr(cmd, k, v)
        return cmd
    t, f = s.InventoryFlag.A, s.InventoryFlag.B
    q = [(dict(dr=s.DivideRatio[dr], m=s.TagEncoding[m], trext=tr, sel=sel, session=s.Session["S%d" % ses], target=tg, q=qq, crc=crc),
          gen2.query(dr, m, tr, {s.SelFlag.ALL: "ALL", s.SelFlag.SEL: "SEL", s.SelFlag.NOT_SEL: "NOT_SEL"}[sel], "S%d" % ses,
                     "A" if tg is t else "B", qq, crc))
         for dr, m, tr, sel, ses, tg, qq, crc in (
             ("DR_8", "FM0", False, s.SelFlag.ALL, 0, t, 0, 0), ("DR_643", "M8", True, s.SelFlag.SEL, 3, f, 15, 31),
             ("DR_8", "M2", True, s.SelFlag.NOT_SEL, 1, t, 7, 0), ("DR_643", "FM0", False, s.SelFlag.ALL, 2, f, 1, 16))]
    sets = [(s.Query, q),
            (s.QueryRep, [(dict(session=x), gen2.query_rep("S%d" % x.index)) for x in s.Session]),
            (s.QueryAdjust, [(dict(session=x, updn=u), gen2.query_adjust("S%d" % x.index, u)) for x in s.Session for u in (-1, 0, 1)]),
            (s.Ack, [(dict(rn=n), gen2.ack(n)) for n in WORDS]),
            (s.ReqRN, [(dict(rn=n, crc=c), gen2.req_rn(n, c)) for n in WORDS for c in (0, 0xBEEF)]),
            (s.Read, [(dict(bank=s.MemoryBank[b], word_ptr=p, word_count=c, rn=n, crc=x), gen2.read(b, p, c, n, x))
                      for b in gen2.BANK_BITS for p in (0, 127, 128, 20000) for c, n, x in ((0, 0, 0), (255, 0xFFFF, 0x1D0F))])]
    for cls, values in sets:
        for (kw, want), (kw2, want2) in itertools.product(values, repeat=2):
            for asked in ("encode", "bitlen", "text"):
                cmd = cls(**kw)
                got = dict(encode=lambda: cmd.encode(), bitlen=lambda: cmd.bitlen, text=lambda: str(cmd))[asked]()
                same(got, dict(encode=want, bitlen=len(want), text=got)[asked], "%s of %s" % (asked, cls.__name__))
                try:
                    put(cmd, kw2)
                except AttributeError:      # commands that cannot be changed
                    continue
                check(cmd, want2, "%s set to %s after its %s was asked for as %s" % (cls.__name__, kw2, asked, kw), rec)
                check(put(cmd, kw), want, "%s set back to %s" % (cls.__name__, kw), rec)


KINDS = dict(changed=changed, query=query_cases, defaults=defaults, words=words, reads=reads, rest=rest, replies=replies)


def execute(case, rec):
    KINDS[case["kind"]](rec, case)
    rec.transitions += 1
    rec.sample(case)


def replay(case, rec):
    execute(case, rec)


def run(rec):
    cases = [dict(kind="query", dr=dr, m=m, trext=t) for dr in gen2.DR_BITS for m in gen2.M_BITS for t in (False, True)]
    cases += [dict(kind="defaults", changed=c) for c in (False, True)]
    cases += [dict(kind="words", lo=i, hi=i + 8192) for i in range(0, 65536, 8192)]
    cases += [dict(kind="reads", bank=b) for b in gen2.BANK_BITS]
    cases += [dict(kind="rest"), dict(kind="changed"), dict(kind="replies")]
    core.run_cases(execute, cases, rec, chunk=1)
