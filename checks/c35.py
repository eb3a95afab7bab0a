"""C35: helpers for the experiments' graphs."""
import itertools
import os
import shutil
import tempfile

from lib import core, plotkit
from lib.core import expect, same

LEVEL = "exploration"
RULE = ("pictures: 12 names (none, blank, with spaces, dots, folders, non-ASCII) x 7 sets of extensions x 4 folders x 3 choices of "
        "the current figure of 1 to 3, recorded at the plotting library, 4 of them written and read back; axis labels: 7 nestings of 1 to 4 axes x both directions x 7 "
        "lists of platforms x 3 platforms, and 40000 numbers (whole, fractional, of every size, int, float and numpy) through "
        "the installed formatter; colours: 2051 positions; non-trivial: distinct cases")
BOUNDS = {"quick": RULE, "thorough": RULE.replace("40000", "1200000").replace("2051", "20051")}
ASSUMPTIONS = ["labels are compared to 6 significant digits", "the locale is C (no other one is installed)"]
NAMES = (None, "", "   ", "\t", "a", " a b ", "x.y", "sub/name", "имя", "0", "a-b_c", ".hidden")
EXTS = ("default", (), ("png",), ["svg", "png"], ("pdf", "png", "jpg"), ("PNG",), ("png", "PNG", "svg"))
DIRS = ("default", "out", "a/b", "")
PLATFORMS = ("default", (), None, ("Linux",), ("Windows",), ["Darwin", "Linux"], ("Windows", "Darwin"))


def module():
    import matplotlib
    matplotlib.use("Agg")
    from pysim.experiments.utility import graphs_style
    return graphs_style


def pictures(case):
    import matplotlib.pyplot as plt
    g, log, saved = module(), [], []
    kw = {}
    if case["exts"] != "default":
        kw["exts"] = case["exts"]
    if case["directory"] != "default":
        kw["directory"] = case["directory"]
    with plotkit.drawn(log, saved):
        figs = [plt.figure() for _ in range(case["figures"])]
        plt.figure(figs[case["current"]].number)
        ret = g.savefig(case["name"], **kw)
    same(ret, None, "result of savefig")
    exts = ("pdf", "png") if case["exts"] == "default" else case["exts"]
    folder = "images" if case["directory"] == "default" else case["directory"]
    name = (case["name"] or "").strip()
    want = [os.path.join(folder, name + "." + e) for e in exts] if name else []
    got = [os.path.normpath(e[1]) for e in log if e[0] == "saved"]
    same(sorted(got), sorted(map(os.path.normpath, want)), "pictures saved under the name %r" % (case["name"],))
    expect(all(f is figs[case["current"]] for f in saved), "a figure other than the current one was saved")


def written(case):
    import matplotlib.pyplot as plt
    g = module()
    d, old = tempfile.mkdtemp(prefix="picture-", dir=os.getcwd()), os.getcwd()
    try:
        os.chdir(d)
        os.makedirs("images")
        fig, ax = plt.subplots()
        ax.plot([1, 2, 3])
        g.savefig(case["name"], exts=case["exts"])
        plt.close(fig)
        found = sorted(os.listdir("images"))
        same(found, sorted(case["name"] + "." + e for e in case["exts"]), "files written")
        for f in found:
            with open(os.path.join("images", f), "rb") as h:
                head = h.read(64)
            expect({"png": b"PNG", "pdf": b"%PDF", "svg": b"<?xml"}[f.rsplit(".")[-1]] in head, "file %s starts with %r", f, head)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


NESTINGS = ("one", "two", "list", "tuple", "mixed", "empty", "twice")


def axes_case(case):
    import matplotlib.pyplot as plt
    g = module()
    with plotkit.drawn([]):
        fig, arr = plt.subplots(2, 3)
        ax = list(arr.ravel())
        args, asked = dict(one=([ax[0]], [0]), two=([ax[0], ax[2]], [0, 2]), list=([[ax[1], ax[2]]], [1, 2]),
                           tuple=([(ax[0], ax[3])], [0, 3]), mixed=([ax[4], [ax[1]], (ax[0], ax[3])], [0, 1, 3, 4]), empty=([], []),
                           twice=([ax[5], [ax[5], ax[0]]], [0, 5]))[case["nesting"]]
        for i, a in enumerate(ax):          # labels of the user's own
            if (i + case["own"]) % 3:
                a.yaxis.set_major_formatter(plt.FuncFormatter(lambda v, n: "mine"))
            if (i + case["own"]) % 2:
                a.xaxis.set_major_formatter(plt.FuncFormatter(lambda v, n: "mine"))
        before = [(a.xaxis.get_major_formatter(), a.yaxis.get_major_formatter()) for a in ax]
        kw = {} if case["platforms"] == "default" else dict(platforms=case["platforms"])
        for k in ("use_x", "use_y"):
            if case[k] is not None:
                kw[k] = case[k]
        system, g.platform.system = g.platform.system, lambda: case["system"]
        try:
            g.set_axes_formatter(*args, **kw)
        finally:
            g.platform.system = system
        names = ("Linux",) if case["platforms"] == "default" else case["platforms"]
        active = not names or case["system"] in names
        for i, (a, b) in enumerate(zip(ax, before)):
            for k, old, new in (("use_x", b[0], a.xaxis.get_major_formatter()), ("use_y", b[1], a.yaxis.get_major_formatter())):
                same(new is not old, bool(active and i in asked and case[k]), "formatter (%s) of axes %d replaced" % (k, i))
                if new is not old:
                    labels(new, (3, 1234567.0 / 8, 250000.0, -2))
                elif isinstance(old, plt.FuncFormatter):
                    same(new(3, 0), "mine", "label of axes %d (%s)" % (i, k))


def labels(formatter, values):
    for v in values:
        text = formatter(v, 0)
        expect(isinstance(text, str), "label of %r: %r", v, text)
        try:
            number = float(text.replace(",", "."))
        except ValueError:
            expect(False, "label of %r: %r", v, text)
        expect(abs(number - float(v)) <= 5.1e-6 * abs(float(v)), "label of %r: %r", v, text)
        if float(v) == int(v) and abs(v) < 10 ** 6 and type(v) in (int, float):
            expect(text.lstrip("-").isdecimal(), "label of the whole number %r: %r", v, text)


def numbers(case):
    import matplotlib.pyplot as plt
    import numpy as np
    g = module()
    with plotkit.drawn([]):
        fig, ax = plt.subplots()
        g.set_axes_formatter(ax, use_x=True, use_y=True, platforms=())
        f = ax.xaxis.get_major_formatter() if case["axis"] == "x" else ax.yaxis.get_major_formatter()
    lo, n = case["from"], case["count"]
    labels(f, range(lo, lo + n))
    labels(f, (float(i) for i in range(lo, lo + n)))
    labels(f, (i / 8 for i in range(lo, lo + n)))
    labels(f, ((i or 1) * 10.0 ** (i % 19 - 9) for i in range(lo, lo + n)))
    labels(f, (np.float64(i) / 3 for i in range(lo, lo + n, 7)))
    labels(f, (np.int64(i) for i in range(lo, lo + n, 7)))


def colours(case):
    import matplotlib
    g = module()
    cmap = matplotlib.colormaps["inferno"]
    for i in range(case["n"] + 1):
        x = i / case["n"]
        same(tuple(map(float, g.get_color(x))), tuple(map(float, cmap(x))), "colour of %r" % x)
    seen = [sum(w * c for w, c in zip((0.2126, 0.7152, 0.0722), g.get_color(i / 64)[:3])) for i in range(65)]
    expect(all(a < b for a, b in zip(seen, seen[1:])), "colours do not get lighter: %s", seen)


def setup(case):
    import matplotlib
    g = module()
    calls = []
    old, g.locale.setlocale = g.locale.setlocale, lambda *a: calls.append(a)
    try:
        with matplotlib.rc_context():
            g.setup_matplotlib()
            same(matplotlib.rcParams["image.cmap"], "inferno", "current colour map")
            same(matplotlib.rcParams["axes.formatter.use_locale"], True, "numbers in the locale's format")
    finally:
        g.locale.setlocale = old
    same([(c[0], str(c[1])[:5]) for c in calls], [(g.locale.LC_ALL, "ru_RU")], "locale")


def execute(case, rec):
    dict(pictures=pictures, written=written, axes=axes_case, numbers=numbers, colours=colours, setup=setup)[case["kind"]](case)
    rec.traces += 1
    rec.outcome(case)
    if rec.traces % 100 == 1:
        rec.sample(case)


def replay(case, rec):
    execute(case, rec)


def run(rec):
    cases = [dict(kind="setup")]
    for name, exts, d in itertools.product(NAMES, EXTS, DIRS):
        for figures, current in ((1, 0), (3, 0), (3, 1)):
            cases.append(dict(kind="pictures", name=name, exts=exts, directory=d, figures=figures, current=current))
    cases += [dict(kind="written", name=n, exts=e) for n, e in (("a", ["png"]), ("b.c", ["pdf", "png"]), ("имя", ["svg"]), ("a b", ["png", "svg"]))]
    for nesting, x, y, p, s in itertools.product(NESTINGS, (None, False, True), (None, False, True), PLATFORMS, ("Linux", "Windows", "Darwin")):
        cases.append(dict(kind="axes", nesting=nesting, use_x=x, use_y=y, platforms=p, system=s, own=len(cases) % 6))
    step, k = 625, 480 if rec.thorough else 16
    cases += [dict(kind="numbers", axis="xy"[i % 2], **{"from": (i - k // 2) * step, "count": step}) for i in range(k)]
    cases += [dict(kind="colours", n=n) for n in ((50, 2000, 18000) if rec.thorough else (50, 2000))]
    core.run_cases(execute, cases, rec)
