"""C08: log records: content, routing, configuration."""
import io
import itertools
import logging
import os
import sys

from lib import core, env
from lib.core import expect, same

LEVEL = "exploration"
RULE = ("(1) every combination of logger level (6), console (off / plain / coloured, 4 levels), file (none / name, 4 "
        "levels) x file name form (run id or not, 4 separators, 11 names), each written to at 8 levels by 7 methods, "
        "with messages of 18 kinds of content, at several model times, inside a kernel run and through a logger of its own; (2) every sequence of 1 to 4 "
        "configurations over 6 configurations x forced or not, with records after each (2 and 3 also with one configuration object changed in place); non-trivial: distinct cases")
BOUNDS = {"quick": RULE, "thorough": RULE.replace("1 to 4", "1 to 5")}
ASSUMPTIONS = ["loggers of different runs that share a model name also share their destinations (as named loggers of "
               "the standard library do)"]

FMT = "@{simTime!r}|{runId}|{levelno}|{name}|{funcName}|{message}"
EXTRA_LEVELS = (5, 25, 45)


def log_all(lg):
    """The model's code: one record per method and level."""
    lg.debug("d-%d", 1)
    lg.info("i-%s", "x")
    lg.warning("w")
    lg.error("e-%d-%d", 1, 2)
    lg.critical("c")
    for lv in EXTRA_LEVELS:
        lg.log(lv, "l-%d", lv)
    lg.log(logging.INFO, "li")
    for method, msg, args in ODD:
        getattr(lg, method)(*((30,) if method == "log" else ()), msg, *args)
    try:
        raise ValueError("inner")
    except ValueError:
        lg.exception("exc")


RECORDS = [(10, "d-1"), (20, "i-x"), (30, "w"), (40, "e-1-2"), (50, "c"), (5, "l-5"), (25, "l-25"), (45, "l-45"),
           (20, "li")]


class Text:
    def __str__(self):
        return "object"


# Messages of any content: (method, message, arguments).
ODD = []
for _i, (_msg, _args, _text) in enumerate((
        ("100%", (), "100%"), ("100%% %s", (), "100%% %s"), ("%d%%", (5,), "5%"), ("{} {simTime} {0}", (), "{} {simTime} {0}"),
        ("%(a)s-%(b)d", (dict(a="x", b=2),), "x-2"), (17, (), "17"), (None, (), "None"), (Text(), (), "object"),
        ("", (), ""), ("привет, метка", (), "привет, метка"), ("%s", ("100%",), "100%"), (0, (), "0"), (("a", 1), (), "('a', 1)"),
        ("x" * 300, (), "x" * 300), ("%r", ([],), "[]"), ("%.3f", (1 / 3,), "0.333"), ("%s %s", (None, False), "None False"),
        ("  spaces  ", (), "  spaces  "))):
    for _n, _level in (("debug", 10), ("info", 20), ("warning", 30), ("error", 40), ("critical", 50), ("log", 30)):
        if (_i + _level // 10) % 3 == 0 or _n == "warning":
            ODD.append((_n, _msg, _args))
            RECORDS.append((_level, _text))
RECORDS.append((40, "exc"))


class Root(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        self.n += 1


def parse(text):
    """Our records, in order, without colour codes and tracebacks."""
    import re
    out = []
    for line in text.splitlines():
        line = re.sub(r"\x1b\[[0-9;]*m", "", line)
        if line.startswith("@"):
            out.append(line[1:].split("|"))
    return out


def expected(cfg, dest_level, time, run_id, name, caller="log_all"):
    lv = dest_level or cfg["level"]
    return [[repr(time), str(run_id), str(n), name, caller, msg] for n, msg in RECORDS
            if n >= cfg["level"] and n >= lv]


def make_config(cfg):
    from pysim.sim.logger import ModelLoggerConfig
    return ModelLoggerConfig(fmt=FMT, **cfg)


def changed(config, other):
    try:
        for k, v in vars(other).items():
            setattr(config, k, v)
    except (AttributeError, TypeError):     # cannot be changed
        return other
    return config


def full_name(cfg, run_id):
    name = cfg.get("file_name")
    if name is None or cfg.get("file_name_no_run_id", True):
        return name
    sep = cfg.get("file_name_sep", "_")
    if name.lower().endswith(".log"):
        return name[:-4] + sep + str(run_id) + name[-4:]
    return name + sep + str(run_id)


def in_scratch(fn):
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix="log-", dir=os.getcwd())
    old, err, cwd = sys.stderr, sys.stdout, os.getcwd()
    os.chdir(d)
    root = Root()
    logging.getLogger().addHandler(root)
    sys.stderr = io.StringIO()
    try:
        fn()
        same(root.n, 0, "records that also reached the root logger")
    finally:
        logging.getLogger().removeHandler(root)
        sys.stderr = old
        sys.stdout = err
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        for n in ("m", "kernel-model"):
            for h in list(logging.getLogger(n).handlers):
                h.close()
            logging.getLogger(n).handlers = []


def read(name):
    with open(name, encoding="utf-8") as f:
        return parse(f.read())


def check_files(wanted):
    same(sorted(os.listdir(".")), sorted(wanted), "log files")


# (1) one configuration ----------------------------------------------------
def one_config(case, rec):
    cfg, run_id = case["cfg"], case["run_id"]
    from pysim.sim.logger import ModelLogger

    def direct():
        t = [0.0]
        lg = ModelLogger("m", time_getter=lambda: t[0], run_id=run_id)
        lg.setup(make_config(cfg))
        lg.setup()      # later configurations do not count
        want_c, want_f = [], []
        for now in (0.0, 1.5, 1e6):
            t[0] = now
            log_all(lg)
            rec.transitions += len(RECORDS)
            want_c += expected(cfg, cfg.get("console_level"), now, run_id, "m")
            want_f += expected(cfg, cfg.get("file_level"), now, run_id, "m")
        same(parse(sys.stderr.getvalue()), want_c if cfg.get("use_console") else [], "records on the console")
        name = full_name(cfg, run_id)
        check_files([name] if name else [])
        if name:
            same(read(name), want_f, "records in the file")

    def kernel():
        from pysim.sim.simulator import build_simulation, run_simulation
        t = []

        def handler(sim, n):
            t.append(sim.time)
            log_all(sim.logger)
            if n:
                sim.schedule(0.75, handler, (n - 1,))

        def init(sim):
            handler(sim, 3)
        run_simulation(build_simulation("kernel-model", init=init, logger_config=make_config(cfg)))
        got_c = [r for r in parse(sys.stderr.getvalue()) if r[4] == "log_all"]
        files = os.listdir(".")
        same(len(files), 1 if cfg.get("file_name") else 0, "number of log files")
        got_f = [r for r in read(files[0]) if r[4] == "log_all"] if files else []
        ids = {r[1] for r in got_c + got_f}
        expect(len(ids) <= 1, "several run ids in one run: %s", ids)
        rid = ids.pop() if ids else "?"
        if files and rid != "?":
            same(files[0], full_name(cfg, rid), "name of the log file")
        want_c = sum((expected(cfg, cfg.get("console_level"), x, rid, "kernel-model") for x in t), [])
        want_f = sum((expected(cfg, cfg.get("file_level"), x, rid, "kernel-model") for x in t), [])
        same(got_c, want_c if cfg.get("use_console") else [], "records of the run on the console")
        if files:
            same(got_f, want_f, "records of the run in the file")
    in_scratch(kernel if case["via"] == "kernel" else direct)
    rec.traces += 1
    rec.outcome(case)


# (2) sequences of configurations -------------------------------------------
CONFIGS = [
    None,
    dict(level=10, use_console=True),
    dict(level=20, use_console=True, console_level=40, file_name="a.log", file_level=30),
    dict(level=10, file_name="b", file_name_no_run_id=False),
    dict(level=30, file_name="a.log"),
    dict(level=40, use_console=True, colored_console=False, file_name="c.log", file_name_no_run_id=False,
         file_name_sep="-"),
]


def config_sequence(case, rec):
    from pysim.sim.logger import ModelLogger

    def body():
        t = [0]
        lg = ModelLogger("m", time_getter=lambda: t[0], run_id=7)
        current = None
        shared = make_config({})
        console, files = [], {}
        for i, (k, forced) in enumerate(case["steps"]):
            cfg = CONFIGS[k]
            if cfg is not None and case.get("same"):        # one object, changed and applied again
                shared = changed(shared, make_config(cfg))
                lg.setup(shared, force_run=forced)
            elif cfg is None:
                lg.setup(force_run=forced) if forced else lg.setup()
            else:
                lg.setup(make_config(cfg), forced) if i % 2 else lg.setup(config=make_config(cfg), force_run=forced)
            if current is None or forced:
                current = cfg if cfg is not None else dict(level=50)
                name = full_name(current, 7)
                if name:
                    files[name] = []
            t[0] = i + 0.5
            log_all(lg)
            rec.transitions += 1
            if current.get("use_console"):
                console += expected(current, current.get("console_level"), t[0], 7, "m")
            name = full_name(current, 7)
            if name:
                files[name] += expected(current, current.get("file_level"), t[0], 7, "m")
        same(parse(sys.stderr.getvalue()), console, "records on the console")
        check_files(files)
        for name, want in files.items():
            same(read(name), want, "records in the file %s" % name)
    in_scratch(body)
    rec.traces += 1
    rec.outcome(case)


def file_name(case, rec):
    from pysim.sim.logger import ModelLogger
    cfg = dict(file_name=case["name"], file_name_sep=case["sep"], file_name_no_run_id=False)
    got = ModelLogger.build_file_name(case["name"], case["run_id"], case["sep"])
    same(got, full_name(cfg, case["run_id"]), "file name")
    rec.traces += 1
    rec.outcome(case)


def entry_point(case, rec):
    """A model's own run_model obeys the configuration it is given."""
    from checks.c04 import entry
    import pysim.sim.logger as module

    def body():
        n = [0]

        def integer(lo, hi):
            n[0] += 1
            return lo + n[0] % (hi - lo)
        with env.draws(env.Draws(unit=lambda: 0.5, integer=integer)):
            run = entry(case["model"], module.ModelLoggerConfig(
                fmt=FMT, level=case["level"], use_console=case["console"], file_name="e.log", file_level=10))
            run(max_num_events=40)
        check_files(["e.log"])
        recs, shown = read("e.log"), parse(sys.stderr.getvalue())
        expect(all(int(r[2]) >= case["level"] for r in recs), "records below the level of the logger")
        expect(recs or case["level"] > 10 or case["model"] == "tag_time", "no record of the run")
        same(len(shown), len(recs) if case["console"] else 0, "records on the console")
    try:
        in_scratch(body)
    finally:
        for name in list(logging.root.manager.loggerDict):
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                if isinstance(h, logging.FileHandler) and h.baseFilename.endswith("e.log"):
                    h.close()
                    lg.handlers = []
    rec.traces += 1
    rec.outcome(case)


def execute(case, rec):
    {"entry": entry_point, "config": one_config, "sequence": config_sequence, "name": file_name}[case["kind"]](case, rec)
    if rec.traces % 500 == 1:
        rec.sample(case)


def replay(case, rec):
    execute(case, rec)


def run(rec):
    cases = []
    consoles = [dict()] + [dict(use_console=True, colored_console=c, console_level=lv)
                           for c in (False, True) for lv in (None, 10, 30, 50)]
    names = ["run.log", "run", "run.txt", "dots.in.name.log", "RUN.LOG", "x.log.bak", "log", ".log", "catalog", "a.logs", "b.xlog"]
    files = [dict()] + [dict(file_name="run.log", file_level=lv) for lv in (0, 10, 30, 50)]
    for level, c, f in itertools.product((5, 10, 20, 30, 40, 50), consoles, files):
        cfg = dict(level=level, **c, **f)
        cases.append(dict(kind="config", cfg=cfg, run_id=972274, via="direct"))
        cases.append(dict(kind="config", cfg=cfg, run_id=None, via="kernel"))
    for name, no_id, sep, rid in itertools.product(names, (True, False), ("_", "-", "__", ""), (0, 1, 123456)):
        cfg = dict(level=10, file_name=name, file_name_no_run_id=no_id, file_name_sep=sep)
        cases.append(dict(kind="config", cfg=cfg, run_id=rid, via="direct"))
        cases.append(dict(kind="config", cfg=cfg, run_id=None, via="kernel"))
        cases.append(dict(kind="name", name=name, sep=sep, run_id=rid))
    steps = [(k, f) for k in range(len(CONFIGS)) for f in (False, True)]
    for n in range(1, 6 if rec.thorough else 5):
        for seq in itertools.product(steps, repeat=n):
            cases.append(dict(kind="sequence", steps=[list(s) for s in seq]))
            if n in (2, 3) and all(s[0] for s in seq):
                cases.append(dict(kind="sequence", steps=[list(s) for s in seq], same=True))
    for model in ("pingpong", "tag_time", "rfid"):
        for level, console in itertools.product((10, 20, 40), (False, True)):
            cases.append(dict(kind="entry", model=model, level=level, console=console))
    core.run_cases(execute, cases, rec)
