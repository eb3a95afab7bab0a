"""C29: inputs of the read-time models from protocol parameters."""
import itertools

import numpy as np

from lib import core, gen2
from lib.core import close, expect, same

LEVEL = "exploration"
RULE = ("fragmentation of 1 to 150 words into 1 to 40 fragments; messages for every Tari (4) x DR x encoding x TRext x "
        "fragments (1 to 8) x words (1 to 64), and up to 2000 words and 70 fragments; every field against formulas of the standard; success probabilities for "
        "13 bit error rates (0 to 1) and state times for every such combination; outcomes are distinct parameter sets")
BOUNDS = {"quick": RULE, "thorough": RULE + "; words up to 128, fragments up to 16"}
ASSUMPTIONS = ["propagation delay of 10 us each way (the constant of the module)",
               "frequency tolerance rows of T1 whose ends the table leaves open are compared with the module's own T1 only"]
BER = [0.0, 1e-6, 1e-4, 1e-3, 2e-3, 5e-3, 0.01, 0.05, 0.1, 0.3, 0.5, 0.9, 1.0]


def fragments(case, rec):
    from pysim.models.tag_time import calculate_params as cp
    for words in case["words"]:
        for n in case["chunks"]:
            one, last = cp.calculate_chunks(words, n)
            what = "%d words in %d fragments" % (words, n)
            if n == 1:
                same(one, words, what + ": words of the fragment")
            else:
                same((n - 1) * one + last, words, what + ": all words")
                same(one, words // n, what + ": words of an equal fragment")
                expect(last >= one, "%s: last fragment of %d words", what, last)
            rec.traces += 1
            rec.outcome((words, n, one, last))


def messages(case, rec):
    from pysim.models.rfid import epcstd as e
    from pysim.models.tag_time import calculate_params as cp
    tari_us, dr, m, trext, n, words = (case[k] for k in ("tari", "dr", "m", "trext", "chunks", "words"))
    what = "Tari %r, %s, %s, TRext %r, %d words in %d fragments" % (tari_us, dr, m, trext, words, n)
    one, last = cp.calculate_chunks(words, n)
    par = cp.build_messages_df(tari_us, e.TagEncoding[m], e.DivideRatio[dr], trext, n, one, last)
    tari = tari_us * 1e-6
    rtcal = 2.75 * tari
    trcal = 1.95 * rtcal
    sizes = [words] if n == 1 else [words // n] * (n - 1) + [words // n + words % n]

    def frame(bits, query=False):
        return gen2.reader_frame(bits, tari, rtcal, trcal, 12.5e-6, query)

    def reply(bits):
        return gen2.tag_frame(bits, dr, trcal, m, trext)

    def blen(bits):
        return gen2.preamble_bits(m, trext) + bits + 1
    command = {"Query": frame(gen2.query(dr, m, trext, "ALL", "S0", "A", 4, 0x15), True), "QueryRep": frame(gen2.query_rep("S0")),
               "Ack": frame(gen2.ack(0x5555)), "Req_RN": frame(gen2.req_rn(0x5555, 0x5555)),
               "Read": frame(gen2.read("TID", 0, 4, 0x5555, 0x5555))}
    for k, v in command.items():
        close(par[k], v, "%s: duration of %s" % (what, k))
    close(par["rtcal"], rtcal, what + ": RTcal")
    close(par["trcal"], trcal, what + ": TRcal")
    close(par["RTcal"], rtcal, what + ": RTcal")
    close(par["TRcal"], trcal, what + ": TRcal")
    close(par["BLF"], gen2.DR_VALUE[dr] / trcal, what + ": BLF")
    same((par["DR"].name, par["M"].name, par["TRext"], par["Tari"]), (dr, m, trext, tari_us), what + ": parameters")
    # RN16; PC, EPC of 12 bytes and CRC; handle with CRC; header, words,
    # handle and CRC
    bits = [16, 16 + 96 + 16, 32] + [1 + 16 * w + 16 + 16 for w in sizes]
    for k, b in zip(("RN16", "EPC+PC+CRC", "Handle"), bits):
        close(par[k], reply(b), "%s: duration of %s" % (what, k))
        same(par[k + "_len"], blen(b), "%s: length of %s" % (what, k))
    same(par["Query_len"], 22, what + ": length of Query")
    same(len(par["Data"]), n, what + ": number of data replies")
    same(len(par["Data_len"]), n, what + ": number of data replies")
    for i in range(n):
        close(par["Data"][i], reply(bits[3 + i]), "%s: duration of data reply %d" % (what, i))
        same(par["Data_len"][i], blen(bits[3 + i]), "%s: length of data reply %d" % (what, i))
    # probabilities
    for ber in (np.array(BER), np.array(BER[3:4]), np.array(list(reversed(BER)))):
        pts = len(ber)
        probs = cp.prepare_probs(par, n, ber, pts)
        same(len(probs), pts, what + ": number of points")
        for i in range(pts):
            same(len(probs[i]), 3 + n, what + ": probabilities of a point")
            for s in range(3 + n):
                close(float(probs[i][s]), (1 - float(ber[i])) ** blen(bits[s]), "%s: success probability of state %d with BER %r" %
                      (what, s, float(ber[i])), rel=1e-9, abs_=1e-300)
        # times
        times = cp.prepare_times(par, probs, n)
        same(len(times), pts, what + ": number of points of the times")
        t1 = gen2.link(1, rtcal, trcal, dr, False)
        t1 = t1[1] if t1 else e.link_t1_max(rtcal=rtcal, trcal=trcal, dr=e.DivideRatio[dr])
        t2 = gen2.link(2, rtcal, trcal, dr, False)[1]
        cmds = [command["Query"], command["Ack"], command["Req_RN"]] + [command["Read"]] * n
        for i in range(pts):
            same(len(times[i]), 3 + n, what + ": times of a point")
            for s in range(3 + n):
                close(float(times[i][s]), t1 + t2 + cmds[s] + reply(bits[s]) + 2e-5, "%s: time of state %d" % (what, s))
    rec.traces += 1
    rec.transitions += 3 * (3 + n)
    rec.outcome((what, [float(x) for x in times[0]]))
    if rec.traces % 500 == 1:
        rec.sample(dict(case=case, times=[float(x) for x in times[0]]))


def names(case, rec):
    """EPC and TID of the module are of the sizes the formulas use."""
    from pysim.models.tag_time import calculate_params as cp
    for n in range(0, 40):
        s = cp.random_hex_string(n)
        same(len(s), 2 * n, "digits of a random string of %d bytes" % n)
        expect(all(c in "0123456789ABCDEF" for c in s), "random string %r", s)
        rec.traces += 1
        rec.outcome(("hex", n))


def one(case, rec):
    dict(fragments=fragments, messages=messages, names=names)[case["kind"]](case, rec)


def replay(case, rec):
    one(case, rec)


def cases(t):
    out = [dict(kind="names")]
    for w in (*range(1, 151, 10), 250, 1020, 65530):
        out.append(dict(kind="fragments", words=list(range(w, w + 10)), chunks=list(range(1, 41))))
    top, frag = (128, 16) if t else (64, 8)
    large = [(1, w) for w in (127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 2000)] + [
        (n, w) for n in (9, 12, 16, 17, 32, 33, 70) for w in (n, n + 1, 3 * n - 1, 255, 256, 700)]
    for tari, dr, m, trext in itertools.product((6.25, 12.5, 18.75, 25.0), ("DR_8", "DR_643"), ("FM0", "M2", "M4", "M8"),
                                                (False, True)):
        for n, words in list(itertools.product(range(1, frag + 1), range(1, top + 1))) + (large if trext else large[::5]):
            if n <= words:
                out.append(dict(kind="messages", tari=tari, dr=dr, m=m, trext=trext, chunks=n, words=words))
    return out


def run(rec):
    core.run_cases(one, cases(rec.thorough), rec)
