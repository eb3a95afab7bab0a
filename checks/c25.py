"""C25: settings and overrides take effect exactly where they should."""
import copy
import dataclasses
import itertools

import numpy as np

from lib import core, env, gen2, rfidsys
from lib.core import Violation, close, expect, same

LEVEL = "exploration"
RULE = ("every setting (49) and override (11) with 1 to 3 values each: all singles and all pairs (about 5000 models), 150 "
        "extreme values of settings and overrides, "
        "compared attribute by attribute with the configured values; the same singles and every third pair as short "
        "runs (first tag, first command); every documented influence as a pair of whole runs that must differ; models "
        "built in sequence from all ordered pairs of 20 settings share nothing; outcomes are distinct models")
BOUNDS = {"quick": RULE, "thorough": RULE + "; every pair as a short run, all triples of overrides"}
ASSUMPTIONS = ["the public attributes of Model, Reader, Antenna, Medium, Generator and Tag are the ones "
               "print_model_settings lists"]

DEFAULTS = dict(
    delim=12.5e-6, tari=6.25e-6, rtcal_tari_mul=3.0, trcal_rtcal_mul=2.5, temp="NOMINAL", speed=30 / 3.6,
    initial_distance_to_reader=10.0, travel_distance=20.0, reader_antenna_x=5.0, reader_antenna_z=5.0,
    tag_antenna_x=5.0, tag_antenna_z=0.0, reader_antenna_direction=[0, 0, -1], tag_antenna_direction=[0, 0, 1],
    update_interval=0.01, reader_power=31.5, reader_antenna_gain=6.0, reader_cable_loss=-2.0, tag_antenna_gain=3.0,
    tag_modulation_loss=-12.0, tag_sensitivity=-18.0, reader_noise=-80.0, ber_distribution="rayleigh",
    frequency=860e6, permittivity=15.0, conductivity=0.03, polarization_loss=-3.0,
    ground_reflection_type="reflection", use_doppler=True, reader_switch_power=True, reader_power_on_duration=2.0,
    reader_power_off_duration=0.1, reader_antenna_switching_interval=10,
    reader_always_start_with_first_antenna=False, read_tid_bank=True, tid_word_size=8, encoding="M4", dr="DR_8",
    sel="ALL", session="S0", trext=True, q=5, use_query_adjust=True, adjust_delta=0.1, q_fp=None, target="A",
    target_strategy="switch", rounds_per_target=1, epc_bitlen=96, s1_persistence=2.0, s2_persistence=2.0,
    s3_persistence=2.0, num_tags=1000, collect_power_statistics=False)
VALUES = dict(
    delim=[13e-6], tari=[12.5e-6, 25e-6], rtcal_tari_mul=[2.5, 2.75], trcal_rtcal_mul=[2.0, 1.2], temp=["EXTENDED"],
    speed=[11.0], initial_distance_to_reader=[3.0, -2.0], travel_distance=[7.5], reader_antenna_x=[4.0, 0.25],
    reader_antenna_z=[3.5], tag_antenna_x=[2.5, 6.0], tag_antenna_z=[0.75], reader_antenna_direction=[[0, 1, -1]],
    tag_antenna_direction=[[1, 0, 1]], update_interval=[0.004], reader_power=[20.0, 0.0], reader_antenna_gain=[4.5],
    reader_cable_loss=[-1.0, 0.0], tag_antenna_gain=[0.0, 2.0], tag_modulation_loss=[-7.0], tag_sensitivity=[-25.0],
    reader_noise=[-60.0], ber_distribution=["awgn"], frequency=[915e6], permittivity=[5.0], conductivity=[0.1],
    polarization_loss=[0.0, -1.0], ground_reflection_type=["const"], use_doppler=[False], reader_switch_power=[False],
    reader_power_on_duration=[0.5], reader_power_off_duration=[0.3], reader_antenna_switching_interval=[0.7],
    reader_always_start_with_first_antenna=[True], read_tid_bank=[False], tid_word_size=[0, 1, 6],
    encoding=["FM0", "M2", "M8"], dr=["DR_643"], sel=["SEL", "NOT_SEL"], session=["S1", "S2", "S3"], trext=[False],
    q=[0, 2, 15], use_query_adjust=[False], adjust_delta=[0.4, 0.0], q_fp=[0.0, 3.4], target=["B"],
    target_strategy=["const"], rounds_per_target=[3], epc_bitlen=[128, 32], s1_persistence=[0.5, 0.0],
    s2_persistence=[0.6, 0.0], s3_persistence=[0.7, 0.0], num_tags=[1, 7], collect_power_statistics=[True])
OVERRIDES = dict(speed=[33.0], encoding=["FM0", "M8"], tari=[18.75e-6], tid_word_size=[0, 3, 31], reader_offset=[3.25, 0.0],
                 tag_offset=[1.5, 0.0], altitude=[6.5, 0.0], power=[25.0, 0.0], num_tags=[3, 0],
                 useadjust=[False, True], delta=[0.9, 0.0])
# values far from the usual ones, each on its own
WIDE = dict(
    delim=[1e-6, 1e-4], tari=[1e-9, 1.0], rtcal_tari_mul=[1.0, 100.0], trcal_rtcal_mul=[0.5, 77.7],
    speed=[1e-6, 300.0, 30, 3e8], initial_distance_to_reader=[0.0, 1e6, -1e6, 1e-9], travel_distance=[1e-6, 1e7],
    reader_antenna_x=[1e-6, 1e6, 300], reader_antenna_z=[0.0, -3.0, 1e5], tag_antenna_x=[1e-6, 1e4],
    tag_antenna_z=[-7.0, 1e4], reader_antenna_direction=[[1e-6, 0, 0], [100, -200, 300]],
    tag_antenna_direction=[[0, 0, 1e9], [-1, -1, -1]], update_interval=[1e-9, 1000.0],
    reader_power=[-40.0, 100.0, 29, 31.123456789], reader_antenna_gain=[-20.0, 60.0, 6.0000001],
    reader_cable_loss=[-100.0, 3.0], tag_antenna_gain=[-30.0, 40.0], tag_modulation_loss=[-90.0, 0.0, 4.0],
    tag_sensitivity=[-100.0, 0.0, 10.0], reader_noise=[-300.0, 0.0, 20.0], frequency=[1e3, 433e6, 5.8e9],
    permittivity=[1.0, 81.0], conductivity=[0.0, 5e7], polarization_loss=[-60.0, 3.0],
    reader_power_on_duration=[1e-5, 4e4], reader_power_off_duration=[1e-6, 86400.0],
    reader_antenna_switching_interval=[1e-5, 1e5], tid_word_size=[2, 64, 127, 255, 256, 1000], q=list(range(16)),
    adjust_delta=[1e-6, 1.0, 15.0, -0.5], q_fp=[0.49999, 15.0, 7.123456789], rounds_per_target=[2, 255, 10 ** 6],
    epc_bitlen=[16, 24, 48, 240, 256, 496, 512, 4096], s1_persistence=[1e-6, 1e6], s2_persistence=[1e-6, 1e6],
    s3_persistence=[1e-6, 1e6], num_tags=[0, 2, 255, 65537, 10 ** 9])
WIDE_OVERRIDES = dict(
    speed=[1e-6, 300.0, 30], tari=[1e-9, 6.25e-6, 1.0], tid_word_size=[1, 2, 64, 255, 256, 1000],
    reader_offset=[1e-6, 1e6, 3], tag_offset=[1e-6, 1e6, 2], altitude=[-3.0, 1e5, 1e-6, 5], power=[-40.0, 100.0, 29, 1e-3],
    num_tags=[1, 2, 255, 65537, 10 ** 9], delta=[1e-6, 1, 15.0, -0.5, 0.123456789])

TARGET = dict(speed="speed", encoding="encoding", tari="tari", tid_word_size="tid_word_size",
              reader_offset="reader_antenna_x", tag_offset="tag_antenna_x", altitude="reader_antenna_z",
              power="reader_power", num_tags="num_tags", useadjust="use_query_adjust", delta="adjust_delta")


def in_force(settings, kwargs):
    v = dict(DEFAULTS)
    v.update(settings)
    for k, x in kwargs.items():
        v[TARGET[k]] = x
    return v


def expected(v):
    """Attributes of the model for the values in force."""
    rt = v["tari"] * v["rtcal_tari_mul"]
    r = {"reader." + a: v[b] for a, b in dict(
        tari="tari", delim="delim", temp="temp", session="session", target="target", sel="sel", dr="dr", trext="trext",
        tag_encoding="encoding", target_strategy="target_strategy", rounds_per_target="rounds_per_target",
        max_power="reader_power", power_on_duration="reader_power_on_duration",
        power_off_duration="reader_power_off_duration", noise="reader_noise", read_tid_words_num="tid_word_size",
        always_start_with_first_antenna="reader_always_start_with_first_antenna",
        antenna_switch_interval="reader_antenna_switching_interval", q="q", use_query_adjust="use_query_adjust",
        adjust_delta="adjust_delta").items()}
    r["reader.rtcal"] = rt
    r["reader.trcal"] = rt * v["trcal_rtcal_mul"]
    r["reader.read_tid_bank"] = v["read_tid_bank"] and v["tid_word_size"] > 0
    r["reader.q_fp"] = v["q"] if v["q_fp"] is None else v["q_fp"]
    r["reader.power_control_mode"] = "PERIODIC" if v["reader_switch_power"] else "ALWAYS_ON"
    r["reader.antennas"] = 1
    r["antenna.pos"] = [v["reader_antenna_x"], 0, v["reader_antenna_z"]]
    r["antenna.direction_theta"] = v["reader_antenna_direction"]
    r["antenna.gain"] = v["reader_antenna_gain"]
    r["antenna.cable_loss"] = v["reader_cable_loss"]
    for a in ("ber_distribution", "ground_reflection_type", "frequency", "permittivity", "conductivity",
              "polarization_loss", "use_doppler"):
        r["medium." + a] = v[a]
    r["model.max_tags_num"] = r["generator.max_tags_generated"] = v["num_tags"]
    r["model.update_interval"] = v["update_interval"]
    r["statistics.use_power_statistics"] = v["collect_power_statistics"]
    r["generator.pos0"] = [v["tag_antenna_x"], -v["initial_distance_to_reader"], v["tag_antenna_z"]]
    r["generator.direction"] = [0, 1, 0]
    r["generator.tag_antenna_direction"] = v["tag_antenna_direction"]
    r["generator.tid_bitlen"] = v["tid_word_size"] * 16
    for a, b in dict(velocity="speed", travel_distance="travel_distance", epc_bitlen="epc_bitlen",
                     antenna_gain="tag_antenna_gain", modulation_loss="tag_modulation_loss",
                     sensitivity="tag_sensitivity", s1_persistence="s1_persistence", s2_persistence="s2_persistence",
                     s3_persistence="s3_persistence").items():
        r["generator." + a] = v[b]
    r["generator.lifetime"] = v["travel_distance"] / v["speed"]
    r["generators"] = 1
    return r


def plain(x):
    if hasattr(x, "name") and not isinstance(x, str):
        return x.name
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


def actual(model, names):
    objs = dict(reader=model.reader, antenna=model.reader.antenna, medium=model.medium, model=model,
                statistics=model.statistics, generator=model.generators[0])
    out = {}
    for n in names:
        if n == "generators":
            out[n] = len(model.generators)
        elif n == "reader.antennas":
            out[n] = len(model.reader.antennas) if hasattr(model.reader, "antennas") else 1
        else:
            o, a = n.split(".")
            out[n] = plain(getattr(objs[o], a))
    return out


def compare(got, want, what):
    for n, w in want.items():
        g = got[n]
        if isinstance(w, float) and not isinstance(g, (bool, str)) and g is not None:
            close(g, w, "%s: %s" % (what, n), rel=1e-12)
        elif isinstance(w, list):
            expect(len(g) == len(w) and all(abs(a - b) <= 1e-12 for a, b in zip(g, w)), "%s: %s is %r instead of %r",
                   what, n, g, w)
        else:
            same(g, w, "%s: %s" % (what, n))


def settings_of(values, gen=None):
    configurator, std = rfidsys.modules()[:2]
    kw = {}
    for k, x in values.items():
        kw[k] = np.asarray(x) if isinstance(x, list) else rfidsys.real_value(std, k, x)
    if gen is not None:
        kw["generation_interval"] = gen
    return configurator.Settings(**kw)


def real_kwargs(kwargs):
    std = rfidsys.modules()[1]
    return {k: rfidsys.real_value(std, k, x) for k, x in kwargs.items()}


def frozen(settings):
    return {f.name: (plain(getattr(settings, f.name)) if f.name != "generation_interval"
                     else tuple(settings.generation_interval)) for f in dataclasses.fields(settings)}


def built(case, rec):
    """One model from one set of settings and overrides."""
    configurator = rfidsys.modules()[0]
    values, kwargs = case["settings"], case["kwargs"]
    calls = []
    s = settings_of(values, (lambda a, b: calls.append((a, b)) or 0.25, 4, 5.0))
    before = frozen(s)
    model = configurator.create_model(s, **real_kwargs(kwargs))
    same(frozen(s), before, "the settings after building a model")
    v = in_force(values, kwargs)
    want = expected(v)
    what = "settings %r, overrides %r" % (values, kwargs)
    got = actual(model, want)
    compare(got, want, what)
    close(s.rtcal, DEFAULTS["tari"] * in_force(values, {})["rtcal_tari_mul"] if "tari" not in values else
          values["tari"] * in_force(values, {})["rtcal_tari_mul"], what + ": settings.rtcal")
    close(s.trcal, s.rtcal * in_force(values, {})["trcal_rtcal_mul"], what + ": settings.trcal")
    same(s.tid_bitlen, 16 * in_force(values, {})["tid_word_size"], what + ": settings.tid_bitlen")
    same(model.generators[0].interval, 0.25, what + ": generation interval")
    same(calls[-1:], [(4, 5.0)], what + ": arguments of the generation interval")
    rec.outcome(sorted(got.items(), key=str))
    rec.traces += 1
    if rec.traces % 500 == 1:
        rec.sample(case)


class First:
    """Checks the first tags and the first commands of a run."""

    def __init__(self, v):
        self.v = v
        self.n = 0

    def begin(self, h, x, old):
        v = self.v
        self.n += 1
        if self.n == 1:
            # with alternating targets a switch-on starts from A (C18)
            target = "A" if v["target_strategy"] == "switch" else v["target"]
            want = gen2.query(v["dr"], v["encoding"], v["trext"], v["sel"], v["session"], target, v["q"], 0)
            same(x.bits[:-5], want[:-5], "first Query")
            rt = v["tari"] * v["rtcal_tari_mul"]
            close(float(x.tx.command_duration), gen2.reader_frame(x.bits, v["tari"], rt, rt * v["trcal_rtcal_mul"],
                                                                   v["delim"], True), "duration of the first Query")
            same(h.model.reader.power, v["reader_power"], "power of the reader")

    def created(self, h, t):
        v = self.v
        what = "tag"
        same(len(t.epc) * 4, v["epc_bitlen"], what + ": EPC bits")
        same(len(t.tid) * 4, max(16, v["tid_word_size"] * 16), what + ": TID bits")
        for a, b in (("sensitivity", "tag_sensitivity"), ("modulation_loss", "tag_modulation_loss"),
                     ("velocity", "speed"), ("s1_persistence", "s1_persistence"), ("s2_persistence", "s2_persistence"),
                     ("s3_persistence", "s3_persistence")):
            close(getattr(t, a), v[b], "%s: %s" % (what, a))
        close(t.antenna.gain, v["tag_antenna_gain"], what + ": antenna gain")
        same(plain(t.antenna.direction_theta), v["tag_antenna_direction"], what + ": antenna direction")
        same([float(c) for c in t.antenna.pos], [float(v["tag_antenna_x"]), -float(v["initial_distance_to_reader"]),
                                                 float(v["tag_antenna_z"])], what + ": position of its antenna")
        same(plain(t.direction), [0, 1, 0], what + ": direction")


class AsConfigured(rfidsys.System):
    """A System whose settings are the defaults of Settings, not FAST."""


def started(case, rec):
    v = in_force(case["settings"], case["kwargs"])
    if v["num_tags"] <= 0:
        return
    first = First(v)
    base = {k: (np.asarray(x) if isinstance(x, list) else x) for k, x in dict(DEFAULTS, **case["settings"]).items()}
    cfg = dict(settings=base, kwargs=case["kwargs"], gen=[0.0], limits=dict(max_num_events=8))
    h = rfidsys.System(cfg, core.Chooser([]), [first])
    h.run()
    expect(first.n >= 1, "no command was sent")
    rec.traces += 1
    rec.transitions += h.events
    rec.outcome((case["settings"], case["kwargs"], "run"))


def identity(case, rec):
    """Tags carry identities of the configured lengths."""
    configurator = rfidsys.modules()[0]
    model = configurator.create_model(settings_of(dict(epc_bitlen=case["bits"])), tid_word_size=case["words"])
    for i in range(3):
        t = model.generators[0].create_tag(model)
        same((len(t.epc) * 4, len(t.tid) * 4), (case["bits"], 16 * case["words"]), "bits of EPC and TID")
    rec.traces += 1
    rec.outcome(("identity", case["bits"], case["words"]))


# ---- influences ----
class Trace:
    def __init__(self):
        self.log = []

    def start(self, h):
        self.h = h

    def begin(self, h, x, old):
        self.log.append(("cmd", round(x.start, 9), x.bits, [(t.tag_id, type(r.reply).__name__, r.bitlen)
                                                             for t, r in x.replies], x.antenna,
                         round(float(x.tx.duration), 9)))
        if old is not None and len(old.replies) == 1:
            self.log.append(("p", ["%.9g" % p for u, p in old.draws if p is not None], len(old.delivered)))

    def created(self, h, t):
        self.log.append(("new", round(h.now, 9), len(t.epc), len(t.tid)))

    def removed(self, h, t):
        self.log.append(("gone", round(h.now, 9)))

    def tag_power(self, h, tag, time, power, before):
        self.log.append(("power", tag.tag_id, None if power is None else "%.9g" % power, tag.state.name, round(time, 9)))

    def power_on(self, h):
        self.log.append(("on", round(h.now, 9)))

    def power_off(self, h):
        self.log.append(("off", round(h.now, 9)))

    def finish(self, h, stats):
        st = h.model.statistics
        self.log.append(("end", round(h.now, 9), st.num_tags_created,
                         [(r.num_rounds_attained, len(r.inventory_history), [x.read_tid for x in r.inventory_history])
                          for r in st.tags_history],
                         [len(getattr(r, "power_mapping", [])) for r in st.tags_history]))


TWO = [dict(pos=[5.0, 0.3, 3.0], gain=7.0)]
# setting: (values, other settings, antennas, slots)
INFLUENCE = {k: (v, {}, [], "spread") for k, v in VALUES.items()}
INFLUENCE.update(
    temp=(["EXTENDED"], dict(rtcal_tari_mul=2.5, trcal_rtcal_mul=1.8), [], "spread"),
    speed=([80.0], {}, [], "spread"),
    travel_distance=([1.5], {}, [], "spread"),
    initial_distance_to_reader=([0.5, 1.2], {}, [], "spread"),
    update_interval=([0.001], {}, [], "spread"),
    reader_power=([28.0, 20.0], {}, [], "spread"),
    tag_sensitivity=([-6.5], {}, [], "spread"),
    reader_power_on_duration=([0.004], {}, [], "spread"),
    reader_power_off_duration=([0.002], {}, [], "spread"),
    reader_antenna_switching_interval=([0.001, 0.003], {}, TWO, "spread"),
    reader_always_start_with_first_antenna=([False], dict(reader_antenna_switching_interval=0.005), TWO, "spread"),
    tid_word_size=([0, 1, 6], {}, [], "spread"),
    use_query_adjust=([True], dict(q=2, adjust_delta=0.6), [], "zero"),
    adjust_delta=([0.3, 0.9], dict(q=2, adjust_delta=0.6, use_query_adjust=True), [], "zero"),
    q_fp=([1.5, 3.0], dict(q=2, adjust_delta=0.6, use_query_adjust=True), [], "zero"),
    target=(["B"], {}, [], "spread"),
    target_strategy=(["switch"], {}, [], "spread"),
    rounds_per_target=([2, 3], dict(target_strategy="switch"), [], "spread"),
    encoding=(["M2", "M4", "M8"], dict(reader_power_on_duration=0.02, speed=60.0), [], "spread"),
    trext=([True], {}, [], "spread"),
    num_tags=([1, 3], {}, [], "spread"),
    q=([0, 2, 3], {}, [], "spread"),
    s1_persistence=([0.0004], dict(session="S1"), [], "spread"),
    s2_persistence=([0.0004], dict(session="S2"), [], "spread"),
    s3_persistence=([0.0004], dict(session="S3"), [], "spread"),
    use_doppler=([False], {}, [], "spread"),
    epc_bitlen=([128, 32], {}, [], "spread"),
    collect_power_statistics=([True], {}, [], "spread"),
)


def trace(cfg):
    t = Trace()
    h = rfidsys.System(cfg, core.Chooser([]), [t])
    h.run()
    return t.log, h


def influences(case, rec):
    name, value = case["setting"], case["value"]
    _, other, ants, slots = INFLUENCE[name]
    base = dict(settings=dict(other), antennas=ants, slots=slots, gen=[0.002], reception=["below"])
    changed = copy.deepcopy(base)
    changed["settings"][name] = value if not isinstance(value, list) else np.asarray(value)
    a, ha = trace(base)
    b, hb = trace(changed)
    # nothing is stored between runs
    c, _ = trace(base)
    same(a, c, "the same run after one with %s=%r" % (name, value))
    expect(a != b, "%s=%r has no influence on the simulation", name, value)
    if name == "collect_power_statistics":
        na, nb = mapping(ha), mapping(hb)
        same(na, 0, "power records that are collected although not asked for")
        expect(nb > 0, "no power records are collected although asked for")
    else:
        check_shift(name, value, a, b)
    rec.traces += 3
    rec.transitions += ha.events + hb.events
    rec.outcome(("influence", name, str(value)))


def mapping(h):
    n = 0
    for r in h.model.statistics.tags_history:
        for a in dir(r):
            if "power" in a and not a.startswith("__"):
                x = getattr(r, a)
                try:
                    n += len(x)
                except TypeError:
                    pass
    return n


SHIFT = dict(reader_power=31.5, reader_antenna_gain=6.0, reader_cable_loss=-2.0, tag_antenna_gain=3.0,
             polarization_loss=-3.0)


def check_shift(name, value, a, b):
    """The first power a tag receives changes by exactly the change in dB."""
    if name not in SHIFT:
        return
    pa = next(float(x[2]) for x in a if x[0] == "power" and x[2] is not None)
    pb = next(float(x[2]) for x in b if x[0] == "power" and x[2] is not None)
    close(pb - pa, value - SHIFT[name], "change of the received power with %s=%r" % (name, value), rel=0, abs_=1e-6)


def shared(case, rec):
    """Two models: neither keeps or changes anything of the other."""
    configurator = rfidsys.modules()[0]
    a, b = case["a"], case["b"]
    sa = settings_of(a[0])
    ma = configurator.create_model(sa, **real_kwargs(a[1]))
    wa = expected(in_force(*a))
    compare(actual(ma, wa), wa, "first model")
    sb = settings_of(b[0])
    mb = configurator.create_model(sb, **real_kwargs(b[1]))
    wb = expected(in_force(*b))
    compare(actual(ma, wa), wa, "first model after building a second one")
    compare(actual(mb, wb), wb, "second model")
    m0 = configurator.create_model()
    w0 = expected(in_force({}, {}))
    compare(actual(m0, w0), w0, "model with default settings after others")
    pairs = [(mb.reader, ma.reader), (mb.medium, ma.medium), (mb.reader.antenna, ma.reader.antenna),
             (mb.generators[0], ma.generators[0]), (mb.statistics, ma.statistics), (mb, ma)]
    for x, y in pairs:
        expect(x is not y, "two models share their %s", type(x).__name__)
    # changing the second one by assignment and in place
    for n in wb:
        if "." not in n or n in ("reader.antennas", "generator.lifetime"):
            continue
        o, attr = n.split(".")
        obj = dict(reader=mb.reader, antenna=mb.reader.antenna, medium=mb.medium, model=mb, statistics=mb.statistics,
                   generator=mb.generators[0])[o]
        val = getattr(obj, attr)
        if isinstance(val, np.ndarray):
            val[...] = 9
        setattr(obj, attr, "changed")
    compare(actual(ma, wa), wa, "first model after changing a second one")
    compare(actual(m0, w0), w0, "third model after changing the second one")
    m1 = configurator.create_model(settings_of(a[0]), **real_kwargs(a[1]))
    compare(actual(m1, wa), wa, "model built after changing another one")
    rec.traces += 1
    rec.outcome((str(a), str(b)))


def single_choices():
    out = [("s", k, x) for k, xs in VALUES.items() for x in xs]
    out += [("k", k, x) for k, xs in OVERRIDES.items() for x in xs]
    return out


def make(*choices):
    case = dict(settings={}, kwargs={})
    for kind, k, x in choices:
        d = case["settings" if kind == "s" else "kwargs"]
        if k in d:
            return None
        d[k] = x
    return case


def runnable(case):
    """Link timings exist for the TRcal in force."""
    v = in_force(case["settings"], case["kwargs"])
    rt = v["tari"] * v["rtcal_tari_mul"]
    t = rt * v["trcal_rtcal_mul"]
    return gen2.link(1, rt, t, v["dr"], v["temp"] == "EXTENDED") is not None and t <= (
        224e-6 if v["dr"] == "DR_643" else 199e-6)


def one(case, rec):
    {"built": built, "identity": identity, "started": started, "influences": influences, "shared": shared}[case["kind"]](case, rec)


def replay(case, rec):
    one(case, rec)


def run(rec):
    env.fast_array_printing()
    ch = single_choices()
    combos = [make()] + [make(c) for c in ch]
    combos += [c for c in (make(a, b) for a, b in itertools.combinations(ch, 2)) if c]
    if rec.thorough:
        ks = [c for c in ch if c[0] == "k"]
        combos += [c for c in (make(*t) for t in itertools.combinations(ks, 3)) if c]
    cases = [dict(c, kind="built") for c in combos]
    wide = [make(("s", k, x)) for k, xs in WIDE.items() for x in xs]
    wide += [make(("k", k, x)) for k, xs in WIDE_OVERRIDES.items() for x in xs]
    wide += [make(("s", TARGET[k], x), ("k", k, y)) for k, xs in WIDE_OVERRIDES.items() for x in WIDE.get(TARGET[k], ())
             for y in xs]
    cases += [dict(c, kind="built") for c in wide]
    cases += [dict(kind="identity", bits=b, words=w) for b in (16, 24, 48, 64, 96, 128, 240, 256, 496, 512)
              for w in (1, 2, 8, 64, 255, 300)]
    ok = [dict(c, kind="started") for i, c in enumerate(combos)
          if runnable(c) and (rec.thorough or i <= len(ch) or i % 3 == 0)]
    cases += ok
    cases += [dict(kind="influences", setting=n, value=x) for n, d in INFLUENCE.items() for x in d[0]]
    sets = [({}, {})]
    for i in range(19):
        pick = ch[i::19]
        s, k = {}, {}
        for kind, name, x in pick:
            (s if kind == "s" else k)[name] = x
        sets.append((s, k))
    cases += [dict(kind="shared", a=a, b=b) for a in sets for b in sets]
    core.run_cases(one, cases, rec, chunk=40)
