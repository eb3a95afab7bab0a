"""EPC Gen2 formulas, written from the standard (not from the code)."""

SYMBOLS = {"FM0": 1, "M2": 2, "M4": 4, "M8": 8}
M_BITS = {"FM0": "00", "M2": "01", "M4": "10", "M8": "11"}
SEL_BITS = {"ALL": "00", "NOT_SEL": "10", "SEL": "11"}
SESSION_BITS = {"S0": "00", "S1": "01", "S2": "10", "S3": "11"}
TARGET_BITS = {"A": "0", "B": "1"}
BANK_BITS = {"RESERVED": "00", "EPC": "01", "TID": "10", "USER": "11"}
DR_BITS = {"DR_8": "0", "DR_643": "1"}
DR_VALUE = {"DR_8": 8.0, "DR_643": 64.0 / 3}
UPDN_BITS = {1: "110", 0: "000", -1: "011"}


def bits(value, width):
    out = ""
    for i in range(width - 1, -1, -1):
        out += "1" if (value >> i) & 1 else "0"
    return out


def ebv(value):
    groups = [value & 127]
    value >>= 7
    while value:
        groups.insert(0, value & 127)
        value >>= 7
    return "".join(("1" if i < len(groups) - 1 else "0") + bits(g, 7) for i, g in enumerate(groups))


def query(dr, m, trext, sel, session, target, q, crc):
    return ("1000" + DR_BITS[dr] + M_BITS[m] + ("1" if trext else "0") + SEL_BITS[sel] + SESSION_BITS[session] +
            TARGET_BITS[target] + bits(q, 4) + bits(crc, 5))


def query_rep(session):
    return "00" + SESSION_BITS[session]


def query_adjust(session, updn):
    return "1001" + SESSION_BITS[session] + UPDN_BITS[updn]


def ack(rn):
    return "01" + bits(rn, 16)


def req_rn(rn, crc):
    return "11000001" + bits(rn, 16) + bits(crc, 16)


def read(bank, ptr, count, rn, crc):
    return "11000010" + BANK_BITS[bank] + ebv(ptr) + bits(count, 8) + bits(rn, 16) + bits(crc, 16)


def reader_frame(encoded, tari, rtcal, trcal, delim, is_query):
    ones = encoded.count("1")
    zeros = len(encoded) - ones
    return delim + tari + rtcal + (trcal if is_query else 0) + zeros * tari + ones * (rtcal - tari)


def preamble_bits(m, trext):
    if m == "FM0":
        return 18 if trext else 6
    return 22 if trext else 10


def tag_frame(nbits, dr, trcal, m, trext):
    return (preamble_bits(m, trext) + nbits + 1) * SYMBOLS[m] * trcal / DR_VALUE[dr]


# Table 6.9: (upper end of the row in us, is the end part of the row, FrT nominal, FrT extended)
FRT = {
    "DR_643": [("at", 33.333, 15, 15), ("to", 66.667, 22, 22), ("at", 66.667, 10, 15), ("to", 83.333, 12, 15),
               ("at", 83.333, 10, 10), ("incl", 133.333, 10, 12), ("incl", 200.0, 7, 7), ("incl", 225.0, 5, 5)],
    "DR_8": [("to", 25.0, 19, 19), ("at", 25.0, 10, 15), ("to", 31.25, 12, 15), ("at", 31.25, 10, 10),
             ("to", 50.0, 10, 10), ("at", 50.0, 7, 7), ("incl", 75.0, 7, 7), ("incl", 200.0, 4, 4)],
}
LOWEST = {"DR_643": 33.333, "DR_8": 17.2}


def frt(trcal, dr, extended):
    """Frequency tolerance, None within 1% of the end of a row (but not
    nearly at it), where the table leaves room for interpretation."""
    us = trcal * 1e6
    if us < LOWEST[dr] * 0.9985:
        return None         # not in the table
    for kind, end, nom, ext in FRT[dr]:
        f = (ext if extended else nom) / 100.0
        near = abs(us - end) <= 0.0035 * end / 3.3     # rounding of 33.3, 66.7, ...
        if kind == "at" and near:
            return f
        if kind == "incl" and near:
            return f
        if abs(us - end) <= 0.0105 * end and not near:
            return None
        if kind in ("to", "incl") and us < end and not near:
            return f
    return None


def link(n, rtcal, trcal, dr, extended):
    """(min, max) of T1 to T7."""
    pri = trcal / DR_VALUE[dr]
    f = frt(trcal, dr, extended)
    base = max(rtcal, 10 * pri)
    t1 = (base * (1 - f) - 2e-6, base * (1 + f) + 2e-6) if f is not None else None
    if n == 1:
        return t1
    if n == 2:
        return 3 * pri, 20 * pri
    if n == 3:
        return 0.0, float("inf")
    if n == 4:
        return 2 * rtcal, float("inf")
    if n in (5, 6):
        return (t1[0], 0.02) if t1 else None
    return max(20 * pri, 250e-6), 0.02
