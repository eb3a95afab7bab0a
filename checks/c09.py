"""C09: the command line offers every well-formed model package."""
import importlib
import itertools
import os
import shutil
import sys
import tempfile

from lib import core
from lib.core import expect, same

LEVEL = "exploration"
RULE = ("every assignment of 9 kinds of content (command, group, command with an options class, no package, no "
        "cli module, no command, not a command, broken dependency, sub-package cli) to 4 package names in a models "
        "directory of its own, of 4 more kinds (the command object of another package, a command named like another "
        "package, group with one subcommand, imported command) with each other and these to 2 names beside a third "
        "package, 29 names of every form (one letter, leading underscore, capitals, names of the program's own modules "
        "and commands, long, not ASCII) with each content beside another, all of them together, then the real "
        "directory; non-trivial: distinct assignments")
BOUNDS = {"quick": RULE, "thorough": RULE.replace("4 package", "5 package")}
ASSUMPTIONS = ["a broken package fails with ModuleNotFoundError, as a missing module does"]

# names of every form that a package can have
NAMES = ("_hidden", "a", "x9", "Upper", "ALLCAPS", "with_underscore", "trailing_", "__dunder__", "main", "list", "run",
         "cli", "model", "models", "test_model", "testbed", "my_tests", "pysim", "sim", "core", "click", "examples",
         "a_very_long_model_name_of_more_than_forty_characters", "v2_0", "base", "common", "utils", "template",
         "\u043c\u043e\u0434\u0435\u043b\u044c")

CMD = '''import click
@click.command({own!r})
@click.option("-x", default="none")
def cli_run(**kw):
    """Docs."""
    print("reached {name} x=" + kw["x"])
'''
GROUP = '''import click
@click.group(invoke_without_command=True)
@click.option("-x", default="none")
def cli_run(x):
    print("reached {name} x=" + x)
'''
SUBCLASS = '''import click
class Special(click.Command):
    pass
@click.command(cls=Special)
@click.option("-x", default="none")
def cli_run(x):
    print("reached {name} x=" + x)
'''
GROUP1 = '''import click
@click.group(invoke_without_command=True)
@click.option("-x", default="none")
def cli_run(x):
    print("reached {name} x=" + x)
@cli_run.command("only")
def only():
    print("reached-sub {name}")
'''
ALIAS = "from pysim.models.base0.cli import cli_run\n"
IMPORTED = "from .commands import cli_run\n"
GOOD = ("command", "group", "subclass", "package-cli")
KINDS = GOOD + ("module", "no-cli", "no-command", "not-command", "broken")
# alias: the command object of package base0; crossname: a command whose own
# name is the name of another package; group1: a group with one subcommand
MORE_GOOD = ("alias", "crossname", "group1", "imported")


def make(root, name, kind):
    if kind == "module":
        with open(os.path.join(root, name + ".py"), "w") as f:
            f.write(CMD.format(own="run", name=name))
        return
    d = os.path.join(root, name)
    os.makedirs(d)
    open(os.path.join(d, "__init__.py"), "w").close()
    text = {"command": CMD.format(own="start", name=name), "group": GROUP.format(name=name),
            "subclass": SUBCLASS.format(name=name), "no-command": "def run():\n    pass\n",
            "not-command": "def cli_run():\n    print('reached')\n",
            "broken": "import no_such_module_anywhere\n" + CMD.format(own="start", name=name),
            "package-cli": CMD.format(own="run", name=name), "alias": ALIAS, "imported": IMPORTED,
            "crossname": CMD.format(own="base0", name=name), "group1": GROUP1.format(name=name)}.get(kind)
    if kind == "imported":
        with open(os.path.join(d, "commands.py"), "w") as f:
            f.write(CMD.format(own="start", name=name))
    if text is None:
        with open(os.path.join(d, "model.py"), "w") as f:
            f.write(CMD.format(own="run", name=name))
        return
    path = os.path.join(d, "cli.py")
    if kind == "package-cli":
        os.makedirs(os.path.join(d, "cli"))
        path = os.path.join(d, "cli", "__init__.py")
    with open(path, "w") as f:
        f.write(text)


def forget(names):
    for m in list(sys.modules):
        if m == "pysim.main" or any(m == "pysim.models." + n or m.startswith("pysim.models.%s." % n) for n in names):
            del sys.modules[m]
    import pysim
    if hasattr(pysim, "main"):
        del pysim.main


def execute(case, rec):
    from click.testing import CliRunner
    import pysim.models
    names = list(case["packages"])
    root = tempfile.mkdtemp(prefix="models-", dir=os.getcwd())
    old = list(pysim.models.__path__)
    try:
        if case["real"]:
            good, extra = ["pingpong", "rfid", "tag_time"], []
        else:
            for name, kind in case["packages"].items():
                make(root, name, kind)
            pysim.models.__path__[:] = [root]
            good = [n for n, k in case["packages"].items() if k in GOOD + MORE_GOOD]
        forget(names)
        importlib.invalidate_caches()
        main = importlib.import_module("pysim.main")
        res = CliRunner().invoke(main.cli, ["list"])
        same(res.exit_code, 0, "exit code of 'list' (%r)" % (res.exception,))
        listed = [ln.strip().lstrip("*").strip() for ln in res.output.splitlines() if ln.strip().startswith("*")]
        same(sorted(listed), sorted(good), "listed models")
        same(sorted(main.run.commands), sorted(good), "runnable models")
        help_ = CliRunner().invoke(main.cli, ["run", "--help"])
        same(help_.exit_code, 0, "exit code of 'run --help'")
        for name in names if not case["real"] else good:
            argv = ["run", name] + (["--help"] if case["real"] else ["-x", "7"])
            res = CliRunner().invoke(main.cli, argv)
            rec.transitions += 1
            if name in good:
                same(res.exit_code, 0, "exit code of 'run %s' (%r)" % (name, res.exception))
                if case["real"]:
                    mod = importlib.import_module("pysim.models.%s.cli" % name)
                    expect(main.run.commands[name] is mod.cli_run, "'run %s' runs another command", name)
                else:
                    same([ln for ln in res.output.splitlines() if "reached" in ln], ["reached %s x=7" % ("base0" if case["packages"][name] == "alias" else name)],
                         "what 'run %s' ran" % name)
                    if case["packages"][name] == "group1":
                        res = CliRunner().invoke(main.cli, ["run", name, "-x", "8", "only"])
                        same(res.output.split("\n")[-3:-1], ["reached %s x=8" % name, "reached-sub %s" % name],
                             "what 'run %s only' ran" % name)
            else:
                expect(res.exit_code != 0 and "reached" not in res.output, "'run %s' (%s) was accepted",
                       name, case["packages"].get(name))
    finally:
        pysim.models.__path__[:] = old
        forget(names)
        shutil.rmtree(root, ignore_errors=True)
    rec.traces += 1
    rec.outcome(case)
    if rec.traces % 100 == 1:
        rec.sample([case, listed])


def replay(case, rec):
    execute(case, rec)


def run(rec):
    cases = [dict(real=True, packages={})]
    names = ["alpha", "zz_top", "mid1", "Beta"] + (["a_b"] if rec.thorough else [])
    for kinds in itertools.product(KINDS, repeat=len(names)):
        cases.append(dict(real=False, packages=dict(zip(names, kinds))))
    cases.append(dict(real=False, packages={}))
    names = ["alpha", "zz_top"] + (["mid1"] if rec.thorough else [])
    for kinds in itertools.product(KINDS + MORE_GOOD, repeat=len(names)):
        if set(kinds) & set(MORE_GOOD):
            cases.append(dict(real=False, packages=dict(zip(names, kinds), base0="command")))
    for kinds in (KINDS, KINDS[::-1]):
        cases.append(dict(real=False, packages={"p%d" % i: k for i, k in enumerate(kinds)}))
    for i, name in enumerate(NAMES):
        for j, kind in enumerate(GOOD + ("no-cli", "module")):
            cases.append(dict(real=False, packages={name: kind, NAMES[(i + j + 1) % len(NAMES)]: GOOD[(i + j) % 4]}))
    cases.append(dict(real=False, packages={n: GOOD[i % 4] for i, n in enumerate(NAMES)}))
    core.run_cases(execute, cases, rec)
