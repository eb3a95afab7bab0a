"""C26: radio quantities stay physical."""
import cmath
import itertools
import math

import numpy as np

from lib import core, env, readerkit
from lib.core import close, expect, same

LEVEL = "exploration"
RULE = ("every point of the grids: decibels (1200 values, both units), bit error rate (2 models x 3000 SNR values), patterns "
        "(4000 angles; patch: 41 x 41 angles x 4 sizes, against its closed form; exactly aligned antennas), reflection (101 angles x 5 "
        "materials x 3 polarizations), link budget (up to 1000 m) and path loss (about 9000 geometries, "
        "in free space up to where a ten-millionth of the amplitude is left, x antenna directions x media "
        "x times) against formulas written from the text, the same objects changed in every pair of 19 attributes compared with new ones, and their time, mirror, distance and reciprocity relations; outcomes are "
        "distinct received powers and rates")
BOUNDS = {"quick": RULE, "thorough": RULE + ", all grids several times finer"}
ASSUMPTIONS = ["distances stay above a tenth of a wavelength (far-field formulas)", "path loss is decided for the two-ray "
               "geometry the code documents (wall x = 0, dipole antennas)"]
C = 2.99792458e8


# ---- formulas ----
def dipole(cos):
    if cos <= 1e-9:
        return 0.0
    s = math.sqrt(max(0.0, 1 - cos * cos))
    return abs(math.cos(math.pi / 2 * s) / cos)


def fresnel(kind, cosine, pol, eps, sigma, wavelen):
    if kind == "const":
        return -1 + 0j
    eta = eps - 60j * wavelen * sigma
    sine = math.sqrt(max(0.0, 1 - cosine * cosine))
    root = cmath.sqrt(eta - cosine * cosine)
    par = (sine - root) / (sine + root) if pol != 0 else 0
    perp = (sine - root / eta) / (sine + root / eta) if pol != 1 else 0
    return pol * par + (1 - pol) * perp


def unit(v):
    n = math.sqrt(sum(a * a for a in v))
    return [a / n for a in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def two_ray(t, lam, refl, tx, rx):
    """Attenuation in dB between two ends (pos, direction, velocity)."""
    tp, td, tv = tx
    rp, rd, rv = rx
    td, rd = unit(td), unit(rd)
    k = 2 * math.pi / lam
    img = [-rp[0], rp[1], rp[2]]
    v0 = [b - a for a, b in zip(tp, rp)]
    v1 = [b - a for a, b in zip(tp, img)]
    d0, d1 = math.sqrt(dot(v0, v0)), math.sqrt(dot(v1, v1))
    u0, u1 = [a / d0 for a in v0], [a / d1 for a in v1]
    back1 = [-u1[0], u1[1], u1[2]]       # the mirrored ray, at the receiver
    g0 = dipole(dot(u0, td)) * dipole(-dot(u0, rd))
    g1 = dipole(dot(u1, td)) * dipole(-dot(back1, rd))
    rel = [b - a for a, b in zip(tv, rv)]
    rel1 = [b - a for a, b in zip(tv, [-rv[0], rv[1], rv[2]])]      # the mirror image moves as a mirror image
    r = refl(-back1[0])
    s = 0.5 / k * (g0 / d0 * cmath.exp(-1j * k * (d0 - t * dot(u0, rel))) +
                   r * g1 / d1 * cmath.exp(-1j * k * (d1 - t * dot(u1, rel1))))
    p = abs(s) ** 2
    return 10 * math.log10(p) if p >= 1e-15 else -math.inf, p


def patch(a_cos, t_cos, wavelen, width, length):
    """Rectangular patch: sinc across the width, two slots along the length."""
    if a_cos < 1e-9:
        return 0.0
    a_sin, t_sin = (math.sqrt(max(0.0, 1 - x * x)) for x in (a_cos, t_cos))
    x = math.pi / wavelen * width * a_sin * t_sin
    f = (math.sin(x) / x if abs(x) > 1e-12 else 1.0) * math.cos(math.pi / wavelen * length * a_sin * t_cos)
    return abs(f) * math.sqrt(t_cos ** 2 + (a_cos * t_sin) ** 2)


SYMBOLS = dict(FM0=1, M2=2, M4=4, M8=8)


def effective(raw, encoding, blf, trext, bandwidth):
    """SNR after despreading, with the phase error left by the preamble."""
    if raw < 1e-8:
        return 0.0
    m = SYMBOLS[encoding]
    preamble = ((18 if trext else 6) if m == 1 else (22 if trext else 10)) * m / blf
    return m * raw / blf * bandwidth * math.cos((raw * preamble * bandwidth) ** -0.5) ** 2


# ---- small functions ----
def decibels(case, rec):
    from pysim.models.rfid import channel as c
    for e in case["exps"]:
        x = 10.0 ** e
        for dbm in (False, True):
            v = c.to_log(x, dbm=dbm)
            close(v, 10 * e + (30 if dbm else 0), "to_log(%r, dbm=%r)" % (x, dbm), abs_=1e-9)
            close(c.from_log(v, dbm=dbm), x, "from_log(to_log(%r)), dbm=%r" % (x, dbm))
            y = 10 * e
            close(c.to_log(c.from_log(y, dbm=dbm), dbm=dbm), y, "to_log(from_log(%r)), dbm=%r" % (y, dbm), abs_=1e-9) \
                if c.from_log(y, dbm=dbm) >= 1e-14 else None
            rec.traces += 1
        close(c.to_power(math.sqrt(x), log=False), x, "to_power")
        close(c.snr(-70 + 10 * e, -70), x, "snr of %r dB" % (10 * e))
    same(c.to_log(0.0), -math.inf, "to_log(0)")
    rec.outcome(("dB", case["exps"][0]))


def rates(case, rec):
    from pysim.models.rfid import channel as c
    last = None
    for e in case["exps"]:
        x = 10.0 ** e
        b = float(c.ber(x, distr=case["distr"]))
        expect(-1e-12 <= b <= 0.5 + 1e-12, "bit error rate %r for SNR %r (%s)", b, x, case["distr"])
        if last is not None:
            expect(b <= last[1] + 1e-12, "bit error rate grows from %r to %r when the SNR grows from %r to %r (%s)",
                   last[1], b, last[0], x, case["distr"])
        last = (x, b)
        if x >= 1e-7:
            if case["distr"] == "rayleigh":
                t = math.sqrt(1 + 2 / x)
                w = 0.5 - 1 / t + 2 / math.pi * math.atan(t) / t
            else:
                q = 0.5 * math.erfc(math.sqrt(x / 2))
                w = 2 * q * (1 - q)
            close(b, w, "bit error rate for SNR %r (%s)" % (x, case["distr"]), rel=1e-6, abs_=1e-12)
        rec.traces += 1
        rec.outcome((case["distr"], "%.6g" % b))
    if case["exps"][-1] >= 3:
        expect(last[1] < 1e-2, "bit error rate %r for SNR %r", last[1], last[0])


def patterns(case, rec):
    from pysim.models.rfid import channel as c
    if case["what"] == "dipole":
        for a in case["cos"]:
            r = float(c.rp_dipole(azimuth=np.float64(a)))
            expect(0 <= r <= 1 + 1e-12, "dipole pattern %r for cosine %r", r, a)
            close(r, dipole(a), "dipole pattern for cosine %r" % a, rel=1e-9, abs_=1e-6)
            close(float(c.rp_dipole(azimuth=float(a))), r, "dipole pattern for a float")
            same(float(c.rp_isotropic(azimuth=a)), 1.0, "isotropic pattern")
            rec.traces += 1
            rec.outcome(("dipole", "%.6g" % r))
    elif case["what"] == "patch":
        for a, t in itertools.product(case["cos"], case["cos"]):
            r = float(c.rp_patch(a_cos=a, t_cos=t, wavelen=case["wavelen"], width=case["width"], length=case["length"]))
            expect(-1e-12 <= r <= 1 + 1e-12, "patch pattern %r for %r, %r", r, a, t)
            close(r, patch(a, t, case["wavelen"], case["width"], case["length"]),
                  "patch pattern (%r m x %r m) for cosines %r, %r" % (case["width"], case["length"], a, t), abs_=1e-9)
            rec.traces += 1
    else:
        for cos, (eps, sig), pol in itertools.product(case["cos"], case["media"], (0, 0.5, 1.0)):
            r = complex(c.reflection(cosine=cos, polarization=pol, permittivity=eps, conductivity=sig, wavelen=0.3486))
            expect(abs(r) <= 1 + 1e-9, "reflection coefficient %r", r)
            w = fresnel("reflection", cos, pol, eps, sig, 0.3486)
            expect(abs(r - w) < 1e-9, "reflection coefficient %r instead of %r (cosine %r, polarization %r, %r, %r)", r, w,
                   cos, pol, eps, sig)
            rec.traces += 1
            expect(abs(complex(c.reflection_constant(cosine=cos)) + 1) < 1e-12, "constant reflection")


def free_space(case, rec):
    """Without a reflected ray the loss grows by 20 dB per decade."""
    from pysim.models.rfid import channel as c
    last = None
    for d in case["dist"]:
        p = np.array([30.0, 0.0, 0.0]) + d * np.array(unit(case["dir"]))
        link = dict(time=0.0, ground_reflection=lambda **k: 0.0, wavelen=case["wavelen"], tx_pos=np.array([30.0, 0.0, 0.0]),
                    tx_dir_theta=np.array(unit(case["dir"])), tx_dir_phi=None, tx_velocity=np.zeros(3), tx_rp=c.rp_isotropic,
                    rx_pos=p, rx_dir_theta=-np.array(unit(case["dir"])), rx_dir_phi=None, rx_velocity=np.zeros(3),
                    rx_rp=c.rp_isotropic)
        r = float(c.two_ray_pathloss(log=True, **link))
        close(abs(complex(c.two_ray_pathloss(log=False, **link))) ** 2, 10 ** (r / 10), "amplitude of the loss at %r m" % d)
        close(float(c.two_ray_pathloss(crutch=True, **link)), 10 ** (r / 10), "power of the loss at %r m" % d)
        close(r, 20 * math.log10(case["wavelen"] / (4 * math.pi * d)), "free-space loss at %r m" % d, abs_=1e-6)
        if last is not None:
            expect(r < last, "free-space loss does not fall at %r m", d)
        last = r
        rec.traces += 1
        rec.outcome(("free", "%.6g" % r))


# ---- the medium ----
def build(case):
    """Reader, tag and medium set up through their public attributes; the
    reader is off."""
    from pysim.models.rfid import objects
    env.fast_array_printing()
    rut = readerkit.ReaderUnderTest(dict(m=case.get("m", "M4"), trext=case.get("trext", True)))
    r = rut.reader
    a = r.antenna
    a.pos = np.asarray(case["rpos"], dtype=float)
    a.direction_theta = np.asarray(case["rdir"])
    a.gain, a.cable_loss = case.get("rgain", 6.0), case.get("rcable", -2.0)
    r.max_power = case.get("power", 31.5)
    r.noise = case.get("noise", -80.0)
    m = objects.Medium()
    for k, v in case["medium"].items():
        setattr(m, k, v)
    t = objects.Tag(1)
    t.kernel = r.kernel
    r.kernel.context.tags.append(t)
    r.kernel.context.statistics.create_tag_record(t)
    t.pos = np.asarray(case["tpos"], dtype=float)
    t.velocity, t.direction = case.get("speed", 10.0), np.asarray(case.get("way", [0, 1, 0]))
    t.epc, t.tid = "AAAA0000", "AAAA0001"
    t.antenna.direction_theta = np.asarray(case["tdir"])
    t.antenna.gain, t.antenna.cable_loss = case.get("tgain", 3.0), case.get("tcable", 0.0)
    t.modulation_loss, t.sensitivity = case.get("modulation", -12.0), -200.0
    t.setup(0.0)
    return r, m, t


def switch_on(r, time):
    r.kernel.time = time
    frame = r.turn_on()
    same(r.power, r.max_power, "power of the reader after switching on")
    return frame



def budget(case, rec):
    from pysim.models.rfid import channel as c
    r, m, t = build(case)
    med = dict(frequency=860e6, permittivity=15.0, conductivity=0.03, polarization_loss=-3.0, use_doppler=True,
               ground_reflection_type="reflection", ber_distribution="rayleigh")
    med.update(case["medium"])
    lam = C / med["frequency"]
    what = "reader %r -> %r, tag %r -> %r, %r" % (case["rpos"], case["rdir"], case["tpos"], case["tdir"], case["medium"])
    # unpowered
    same(m.estimate_tag_rx_power(r, t, 0.0), None, what + ": power received from a reader that is off")
    same(m.estimate_reader_rx_power(r, t, 0.0), None, what + ": power received from a tag that is off")
    same(float(m.estimate_reader_rx_snr(r, t, [t], 0.0)), 0.0, what + ": SNR of a tag that is off")
    frame = switch_on(r, case.get("on", 0.0))
    vel = [case.get("speed", 10.0) * x for x in unit(case.get("way", (0, 1, 0)))]
    for time in case["times"]:
        tm = time - case.get("on", 0.0) if med["use_doppler"] else 0.0
        ends = dict(r=(case["rpos"], case["rdir"], [0, 0, 0]), t=(case["tpos"], case["tdir"], vel))

        def loss(a, b, pol):
            return two_ray(tm, lam, lambda cos: fresnel(med["ground_reflection_type"], cos, pol, med["permittivity"],
                                                        med["conductivity"], lam), ends[a], ends[b])
        gains = case.get("rgain", 6.0) + case.get("rcable", -2.0) + case.get("tgain", 3.0) + case.get("tcable", 0.0)
        fwd, lin = loss("r", "t", 0.5)
        got = float(m.estimate_tag_rx_power(r, t, time))
        expect(not math.isnan(got), "%s, time %r: received power is not a number", what, time)
        near(got, case.get("power", 31.5) + gains + med["polarization_loss"] + fwd, lin,
             "%s, time %r: power received by the tag" % (what, time))
        # the parts add up exactly, whatever the path loss
        if math.isfinite(got):
            close(got - float(m.get_forward_path_loss(r, t, time)), case.get("power", 31.5) + gains,
                  what + ": link budget to the tag", abs_=1e-9)
        rec.outcome("%.5f" % got)
        # (a noise of 0 dBm needs strong signals)
        strong = 75.0 if case.get("noise", -80.0) >= 0 else 0.0
        for p in (-10.0 + strong, 3.5 + strong):
            t.set_power(time, p)
            if t.power is None:
                continue
            bwd, lin2 = loss("t", "r", 1.0)
            back = float(m.estimate_reader_rx_power(r, t, time))
            near(back, p + case.get("modulation", -12.0) + gains + med["polarization_loss"] + bwd, lin2,
                 "%s, time %r: power received by the reader" % (what, time))
            if math.isfinite(back):
                close(back - float(m.get_backward_path_loss(r, t, time)), p + case.get("modulation", -12.0) + gains,
                      what + ": link budget to the reader", abs_=1e-9)
            if p == -10.0 + strong and time == case["times"][0]:
                t.receive(frame)
            raw = 10 ** ((back - case.get("noise", -80.0)) / 10)
            close(float(c.snr(back, r.noise)), raw, what + ": SNR at the antenna")
            snr = float(m.estimate_reader_rx_snr(r, t, [t], time))
            expect(math.isfinite(snr) and snr >= 0, "%s: SNR at the reader is %r", what, snr)
            words = [effective(raw, t.encoding.name, t.blf, trext, m.bandwidth) for trext in (False, True)]
            expect(any(abs(snr - w) <= 1e-9 + 1e-6 * w for w in words),
                   "%s, time %r: effective SNR %r of a reply of %r dBm, expected %r (or %r with a long preamble)", what, time, snr,
                   back, *words)
            ber = float(m.estimate_reader_rx_ber(r, t, [t], snr))
            expect(-1e-12 <= ber <= 0.5 + 1e-12, "%s: bit error rate %r", what, ber)
            close(ber, float(c.ber(snr, distr=med["ber_distribution"])), what + ": bit error rate")
        rec.traces += 1


def observe(r, m, t, times, trext):
    out = []
    for time in times:
        out += [("power at the tag", time, m.estimate_tag_rx_power(r, t, time)),
                ("forward path loss", time, m.get_forward_path_loss(r, t, time))]
        for p in (-10.0, 3.5):
            t.set_power(time, p)
            snr = float(m.estimate_reader_rx_snr(r, t, [t], time))
            out += [("power at the reader (%r dBm)" % p, time, m.estimate_reader_rx_power(r, t, time)),
                    ("backward path loss", time, m.get_backward_path_loss(r, t, time)), ("SNR", time, snr),
                    ("bit error rate", time, m.estimate_reader_rx_ber(r, t, [t], snr))]
    return [(a, b, float(c)) for a, b, c in out]


# what can change during a run, or between two questions: (field, values)
CHANGES = (("frequency", (915e6, 433e6)), ("permittivity", (3.0, 80.0)), ("conductivity", (0.5, 0.0)),
           ("polarization_loss", (0.0, -7.5)), ("use_doppler", (False, True)), ("ground_reflection_type", ("const", "reflection")),
           ("ber_distribution", ("awgn", "rayleigh")), ("rpos", ([4.0, 0.5, 3.0], [6.5, -1.0, 7.0])),
           ("tpos", ([2.5, -2.0, 0.5], [3.0, 1.5, 0.0])), ("rdir", ([1, 2, -3], [0, 0, -1])), ("tdir", ([0, -1, 2], [1, 0, 3])),
           ("rgain", (9.0, 0.0)), ("rcable", (0.0, -4.0)), ("tgain", (0.0, 5.0)), ("tcable", (-1.0, -2.5)),
           ("modulation", (-5.0, -20.0, 0.0)), ("noise", (-60.0, -100.0, 0.0)), ("speed", (33.0, 0.0)), ("way", ([1, 2, 2], [3, -4, 0])))
MEDIUM = ("frequency", "permittivity", "conductivity", "polarization_loss", "use_doppler", "ground_reflection_type", "ber_distribution")


def change(r, m, t, field, v):
    if field in MEDIUM:
        setattr(m, field, v)
        return
    o, name = dict(rpos=(r.antenna, "pos"), rdir=(r.antenna, "direction_theta"), rgain=(r.antenna, "gain"),
                   rcable=(r.antenna, "cable_loss"), noise=(r, "noise"), tpos=(t, "pos"), tdir=(t.antenna, "direction_theta"),
                   tgain=(t.antenna, "gain"), tcable=(t.antenna, "cable_loss"), modulation=(t, "modulation_loss"),
                   speed=(t, "velocity"), way=(t, "direction"))[field]
    setattr(o, name, np.asarray(v, dtype=float) if isinstance(v, list) else v)


def reused(case, rec):
    """The same objects, asked again after each change, agree with new ones."""
    now = dict(rpos=[5.0, 0.0, 5.0], rdir=[0, 1, -2], tpos=[4.0, 0.7, 0.0], tdir=[0, 0, 1], medium={}, noise=-90.0)
    r, m, t = build(now)
    t.receive(switch_on(r, 0.0))
    base = dict(rgain=6.0, rcable=-2.0, tgain=3.0, tcable=0.0, modulation=-12.0, speed=10.0, way=[0, 1, 0], frequency=860e6,
                permittivity=15.0, conductivity=0.03, polarization_loss=-3.0, use_doppler=True, ground_reflection_type="reflection",
                ber_distribution="rayleigh", **{k: now[k] for k in ("rpos", "rdir", "tpos", "tdir", "noise")})
    done = []
    for field, i in [(None, None)] + [tuple(s) for s in case["steps"]]:
        if field is not None:
            v = base[field] if i is None else dict(CHANGES)[field][i]
            change(r, m, t, field, v)
            if field in MEDIUM:
                now = dict(now, medium=dict(now["medium"], **{field: v}))
            else:
                now = dict(now, **{field: v})
            done.append((field, v))
        r2, m2, t2 = build(now)
        t2.receive(switch_on(r2, 0.0))
        for a, b in zip(observe(r, m, t, case["times"], True), observe(r2, m2, t2, case["times"], True)):
            same(a, b, "after the changes %s: what the changed objects give, and new ones" % (done,))
            rec.outcome((a[0], "%.6g" % a[2]))
        rec.traces += 1


def near(got, want, lin, what):
    """Equal up to the rounding of phases, which weighs in deep fades."""
    if not math.isfinite(want):
        expect(got == want or lin < 2e-15, "%s: got %r, expected %r", what, got, want)
        return
    close(got, want, what, rel=0, abs_=1e-6 + 1e-13 / max(lin, 1e-15) ** .5)


def relations(case, rec):
    """Time, mirror and frequency relations of the path loss."""
    r, m, t = build(case)
    switch_on(r, 0.0)
    t.set_power(0.0, -5.0)
    y = case["tpos"][1]

    def both(time):
        return [float(m.get_forward_path_loss(r, t, time)), float(m.get_backward_path_loss(r, t, time))]
    m.use_doppler = False
    a = both(0.0)
    what = "reader %r, tag %r" % (case["rpos"], case["tpos"])
    for time in (0.013, 0.7, 1.9):
        same(both(time), a, what + ": path loss without Doppler at %r" % time)
    t.pos = np.asarray([case["tpos"][0], -y, case["tpos"][2]], dtype=float)
    b = both(0.0)
    for p, q in zip(a, b):
        if math.isfinite(p) and p > -130:
            close(q, p, what + ": path loss at the mirrored position", rel=0, abs_=1e-4)
    for p in a + b:
        expect(p < 0, "%s: path loss of %r dB", what, p)
    rec.traces += 1
    rec.outcome(["%.6f" % x for x in a])


def exchange(case, rec):
    """Both ends see the same loss when they change places."""
    from pysim.models.rfid import channel as c
    refl = c.reflection if case["reflection"] else c.reflection_constant
    rx, tx = (np.asarray(case[k], dtype=float) for k in ("rpos", "tpos"))
    a, b = (np.asarray(unit(case[k])) for k in ("rdir", "tdir"))
    still, moving = np.zeros(3), case["speed"] * np.asarray(unit(case["way"]))
    rest = dict(ground_reflection=refl, wavelen=case["wavelen"], permittivity=15.0, conductivity=0.03, log=True,
                polarization=case["polarization"], tx_dir_phi=None, rx_dir_phi=None)
    for time in (0.0, 0.01, 0.7):
        for rp1, rp2 in ((c.rp_dipole, c.rp_dipole), (c.rp_dipole, c.rp_isotropic)):
            there = float(c.two_ray_pathloss(
                time=time, tx_pos=rx, tx_dir_theta=a, tx_velocity=still, tx_rp=rp1, rx_pos=tx, rx_dir_theta=b,
                rx_velocity=moving, rx_rp=rp2, **rest))
            back = float(c.two_ray_pathloss(
                time=time, tx_pos=tx, tx_dir_theta=b, tx_velocity=moving, tx_rp=rp2, rx_pos=rx, rx_dir_theta=a,
                rx_velocity=still, rx_rp=rp1, **rest))
            if max(there, back) > -130:
                close(there, back, "path loss between %r -> %r and %r -> %r at %r, there and back" % (
                    case["rpos"], case["rdir"], case["tpos"], case["tdir"], time), rel=0, abs_=1e-5)
            rec.outcome("%.5f" % there)
    rec.traces += 1


def on_average(case, rec):
    """Loss averaged over windows of distance falls (reflection included)."""
    means = []
    for lo in (2.0, 6.0, 18.0):
        tot = n = 0
        for i in range(60):
            y = lo * (1 + i / 60.0)
            c = dict(case, tpos=[case["rpos"][0], y, case["rpos"][2]], rdir=[0, 1, 0], tdir=[0, -1, 0])
            r, m, t = build(c)
            switch_on(r, 0.0)
            m.use_doppler = False
            tot += 10 ** (float(m.get_forward_path_loss(r, t, 0.0)) / 10)
            n += 1
        means.append(tot / n)
        rec.traces += n
    expect(means[0] > means[1] > means[2], "average path gain at about 3, 9 and 27 m: %r", means)
    rec.outcome(("avg", str(means)))


def one(case, rec):
    dict(decibels=decibels, rates=rates, patterns=patterns, free_space=free_space, budget=budget, relations=relations, exchange=exchange,
         on_average=on_average, reused=reused)[case["kind"]](case, rec)


def replay(case, rec):
    one(case, rec)


def cases(t):
    out = []
    f = 4 if t else 1
    exps = [round(-14 + i * 0.04 / f, 5) for i in range(500 * f + 1)]
    for i in range(0, len(exps), 100):
        out.append(dict(kind="decibels", exps=exps[i:i + 101]))
    for d in ("rayleigh", "awgn"):
        grid = [round(-12 + i * 0.02 / f, 6) for i in range(1500 * f + 1)]
        for i in range(0, len(grid), 300):
            out.append(dict(kind="rates", distr=d, exps=grid[i:i + 301]))
        fine = [math.log10(1e-8) + (i - 100) * 1e-4 for i in range(200)] + [-7 + i * 0.001 for i in range(600)]
        out.append(dict(kind="rates", distr=d, exps=sorted(fine)))
    cos = [-1 + i / (1000.0 * f) for i in range(2000 * f + 1)]
    cos += [1.0000000000000002, -1.0000000000000002, 1 - 2 ** -53, 1e-9, 1e-10, 2e-9, 1e-8, 1e-7, 1e-5, 0.0]
    for i in range(0, len(cos), 250):
        out.append(dict(kind="patterns", what="dipole", cos=cos[i:i + 250]))
    pc = [-1 + i / 20.0 for i in range(41)]
    for w, l in ((0.17, 0.17), (0.1, 0.17), (0.35, 0.1), (0.17, 0.05)):
        out.append(dict(kind="patterns", what="patch", cos=pc, wavelen=0.3486, width=w, length=l))
    out.append(dict(kind="patterns", what="reflection", cos=[i / 100.0 for i in range(101)],
                    media=[(15.0, 0.03), (3.0, 0.0), (80.0, 4.0), (5.0, 0.001), (1.5, 0.5)]))
    for d in ((0, 1, 0), (0, 0, 1), (1, 2, -3), (0, -1, 1), (1, 0, 0)):
        for lam in (0.3486, 0.3276, 0.125):
            out.append(dict(kind="free_space", dir=list(d), wavelen=lam, dist=[0.2 * 1.05 ** i for i in range(100)]))
            out.append(dict(kind="free_space", dir=list(d), wavelen=lam, dist=[x for x in (30 * 1.4 ** i for i in range(40)) if lam / (4 * math.pi * x) > 1e-7]))
    media = [dict(), dict(use_doppler=False), dict(ground_reflection_type="const"), dict(frequency=915e6),
             dict(permittivity=4.0, conductivity=0.5), dict(polarization_loss=0.0, use_doppler=False)]
    dirs = [([0, 0, -1], [0, 0, 1]), ([0, 1, -2], [0, 0, 1]), ([1, 0, -1], [-1, 0, 1]), ([0, 0, -3], [0, -1, 1])]
    ys = [round(-12 + i * 0.75 / (f if t else 1), 4) for i in range(33 * f)]
    n = 0
    for (rd, td), med, rp, tx in itertools.product(dirs, media, ([5.0, 0.0, 5.0], [2.0, 0.3, 3.0], [0.5, 0.0, 6.0]),
                                                   (5.0, 1.0, 7.5)):
        for y in ys:
            n += 1
            if not t and n % 3:
                continue
            k = n if t else n // 3
            out.append(dict(kind="budget", rpos=rp, rdir=rd, tpos=[tx, y, (0.0, 1.0)[k % 2]], tdir=td, medium=med,
                            times=(0.0, 0.37, 1.9), power=(31.5, 0.0, 20.0)[k % 3], rgain=(6.0, 8.0)[k % 2],
                            rcable=(-2.0, 0.0)[k // 2 % 2], tgain=(3.0, 0.0)[k // 3 % 2], tcable=(0.0, -1.5)[k // 5 % 2],
                            modulation=(-12.0, -5.0, 0.0)[k // 7 % 3], speed=(10.0, 40.0, 0.0)[k // 4 % 3],
                            on=(0.0, 0.31)[k % 2], noise=(-80.0, -60.0, 0.0)[k // 2 % 3], m=("M4", "FM0", "M2", "M8")[k % 4], trext=k % 3 == 0))
    # far away
    for (rd, td), med, y in itertools.product(dirs, media, (-1000.0, -317.0, -60.0, 25.0, 140.0, 600.0)):
        out.append(dict(kind="budget", rpos=[5.0, 0.0, 5.0], rdir=rd, tpos=[2.0, y, 0.0], tdir=td, medium=med, times=(0.0, 0.37),
                        noise=-110.0))
    # tags that do not move along the road
    for (rd, td), way, y in itertools.product(dirs, ([1, 0, 0], [-1, 1, 0], [1, 2, 1], [0, 0, 1]), (-3.0, 0.0, 1.7)):
        out.append(dict(kind="budget", rpos=[5.0, 0.0, 5.0], rdir=rd, tpos=[2.0, y, 0.0], tdir=td, medium={}, way=way,
                        times=(0.0, 0.013, 0.37), on=(0.0, 0.01)[y > 0]))
    # antennas that point exactly at each other
    for x, y, z in itertools.product((0.5, 1.3, 2.92, 5.0), (-2.74, -1.1, 0.0, 0.37, 2.74), (-0.7, -1.9, -4.83)):
        out.append(dict(kind="budget", rpos=[6.0, 0.0, 5.0], rdir=[-x, y, z], tpos=[6.0 - x, y, 5.0 + z],
                        tdir=[x, -y, -z], medium={}, times=(0.0, 0.5)))
    for med, rp, tx in itertools.product((dict(), dict(ground_reflection_type="const")), ([5.0, 0.0, 5.0], [2.0, 0.0, 3.0]),
                                         (5.0, 1.0, 7.5)):
        for rd, td in (([0, 0, -1], [0, 0, 1]), ([1, 0, -1], [-1, 0, 1])):
            for i in range(40 * f):
                out.append(dict(kind="relations", rpos=rp, rdir=rd, tpos=[tx, round(0.05 + i * 0.3 / f, 4), 0.0], tdir=td,
                                medium=med))
    ways = [[x, y, z] for x, y, z in itertools.product((-1, 0, 1), repeat=3) if (x, y, z) != (0, 0, 0)]
    for n, (rd, td) in enumerate(itertools.product(ways, ways)):
        for i, y in enumerate((-7.3, -2.0, 0.4, 3.1)[n % (1 if t else 2)::1 if t else 2]):
            out.append(dict(kind="exchange", rpos=[5.0, 0.0, 5.0], rdir=rd, tpos=[(2.0, 6.5)[n // 2 % 2], y, (0.0, 0.7)[i % 2]],
                            tdir=td, reflection=(n + i) % 3 > 0, polarization=(0.5, 1.0, 0.0)[n % 3], speed=(10.0, 0.0, 40.0)[n % 3],
                            way=ways[(n // 3 + i) % len(ways)], wavelen=(0.3486, 0.3276)[n % 2]))
    for med in media:
        for rp in ([5.0, 0.0, 5.0], [2.0, 0.0, 3.0], [12.0, 0.0, 1.0]):
            out.append(dict(kind="on_average", rpos=rp, medium=dict(med)))
    names = [k for k, v in CHANGES]
    for a, b in itertools.product(names, names):
        out.append(dict(kind="reused", times=(0.0, 0.013), steps=[(a, 0), (b, 0), (a, 1), (b, None), (a, None), (a, 0)]))
    for i in range(12 if t else 4):
        out.append(dict(kind="reused", times=(0.013, 0.7), steps=[(names[(i + k * 7) % len(names)], (1, 0, None)[(k + i) % 3]) for k in range(40)]))
    return out


def run(rec):
    rec.sample(dict(kind="budget", rpos=[5.0, 0.0, 5.0], tpos=[5.0, 1.5, 0.0]))
    core.run_cases(one, cases(rec.thorough), rec, chunk=30)
