"""C30: listed dependencies are exactly the input variables a definition reads"""
import contextlib
import io
import json
import os
import subprocess
import sys
from collections import OrderedDict

from vf.checks import c11

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = "output monitor: the lists printed by the real tool against the variables of the generating trees"
RULE = ("definitions rendered from random expression trees (with functions, keywords, strings, indices and names shared by "
        "variables, functions, keywords and outputs), in specification files with literal, missing and malformed "
        "definitions, frequencies and realms, and in definition files with comments; all variables or a random "
        "selection with unknown ones; printed lists parsed and compared; distinct by definitions and selection")
CASES = {"quick": 30000, "thorough": 300000}
REQUIRED = ["json", "deffile", "selection", "unknown", "literal", "malformed", "no_dependencies", "nothing_needed",
            "keyword", "function", "own_name", "frequency", "equals_sign", "comment", "process"]


def plain(rng, t):
    """The tree with indices free of variables (those are not supported by the converter)"""
    k = t[0]
    if k == "var":
        return ("var", t[1], tuple(number(rng, i) for i in t[2]))
    if k in ("neg", "pos"):
        return (k, plain(rng, t[1]))
    if k == "bin":
        return (k, t[1], plain(rng, t[2]), plain(rng, t[3]))
    if k == "fun":
        return (k, t[1], tuple(plain(rng, a) for a in t[2]), tuple((n, plain(rng, v)) for n, v in t[3]))
    return t


def number(rng, t):
    if t[0] == "slice":
        return ("slice",) + tuple(None if p is None else ("num", str(rng.randint(0, 5))) for p in t[1:4]) + (t[4],)
    return ("num", str(rng.randint(0, 5)))


def names(t):
    """Variables of a tree"""
    k = t[0]
    if k == "var":
        return {t[1]}
    if k in ("neg", "pos"):
        return names(t[1])
    if k == "bin":
        return names(t[2]) | names(t[3])
    if k == "fun":
        out = set()
        for a in t[2]:
            out |= names(a)
        for _n, v in t[3]:
            out |= names(v)
        return out
    return set()


def parse_output(text):
    """Printed lists: ({variable: [names] or "none" or "undefined" or other text}, [all names])"""
    lines = text.split("\n")
    i = lines.index("Output Variable Dependencies:")
    j = lines.index("Complete Specification Requires the Following Input Variables:")
    each, order = {}, []
    for line in lines[i + 1:j]:
        if not line.strip():
            continue
        head, _, rest = line.partition(":")
        name = head.strip().split(" ")[0]
        order.append(name)
        rest = rest.strip()
        if rest.endswith("."):
            each[name] = rest
        else:
            each[name] = rest.split()
    return each, order, " ".join(lines[j + 1:]).split(), lines[:i]


def definition(ctx, rng, depth, no_hash):
    """(text, set of names or None when it is malformed)"""
    r = rng.random()
    if r < 0.08:
        ctx.count("malformed")
        return rng.choice(["x +", "f(x", "x ? y", "3 x", "(a", "x[", "1/0", "x,y"]), None
    if r < 0.12:
        ctx.count("many_names")
        many = rng.sample(["v%d_%s" % (i, "n" * rng.choice([0, 0, 30])) for i in range(60)], rng.randint(9, 60))
        return rng.choice([" + ", "*", " - "]).join(many), set(many)
    for _ in range(50):
        t = plain(rng, c11.gen_tree(rng, depth))
        try:
            c11.value(t)
        except (c11.Bad, c11.Lenient, OverflowError, RecursionError):
            continue
        s = c11.render(rng, t, rng.choice([0, 0.2]), rng.random() < 0.5)[0].strip()
        if no_hash and ("#" in s):
            continue
        if "fun" in str(t):
            ctx.count("function")
            if "=" in s:
                ctx.count("keyword")
        return s, names(t)
    return "x", {"x"}


def make(ctx, rng, folder):
    """(arguments, {variable: names or None}, not defined)"""
    n = rng.choice([0, 1, 2, 3, 5, 8])
    outs = rng.sample(["x", "y", "tas", "pr", "T", "lat", "sum", "out_1", "_a", "up", "time", "zz9"], n)
    quiet = rng.random() < 0.1
    dd = OrderedDict()
    for o in outs:
        dd[o] = definition(ctx, rng, rng.choice([0, 1, 2, 3]), True)
        if quiet:
            dd[o] = ("2*3", set())
        if dd[o][1] is not None and o in dd[o][1]:
            ctx.count("own_name")
    fn = os.path.join(folder, rng.choice(["a.json", "defs.txt"]))
    argv = [rng.choice(["-n", "--filename"]), fn]
    undefined = set()
    known = OrderedDict((o, v) for o, (_t, v) in dd.items())
    if rng.random() < 0.6:
        ctx.count("json")
        spec = OrderedDict()
        for o, (t, _v) in dd.items():
            spec[o] = OrderedDict([("definition", t)])
            a = {}
            if rng.random() < 0.4:
                a["frequency"] = rng.choice(["mon", "day", "6hr"])
                ctx.count("frequency")
            if rng.random() < 0.4:
                a["realm"] = rng.choice(["atmos", "land", "ocean seaIce"])
            if a or rng.random() < 0.5:
                spec[o]["attributes"] = a
        for o in ("lit", "bare"):
            if rng.random() < 0.3:
                spec[o] = {"definition": [1, 2.5]} if o == "lit" else {"dimensions": []}
                undefined.add(o)
                if o == "lit":
                    ctx.count("literal")
        with open(fn, "w") as f:
            json.dump(spec, f)
        if rng.random() < 0.3:
            argv.append(rng.choice(["-f", "--frequency"]))
    else:
        ctx.count("deffile")
        argv.insert(0, rng.choice(["-d", "--deffile"]))
        with open(fn, "w") as f:
            for o, (t, _v) in dd.items():
                if rng.random() < 0.3:
                    f.write(rng.choice(["\n", "# a = b\n", "   \n", "# TABLE: Amon\n", "  # x\n", "#c#d = e\n"]))
                    ctx.count("comment")
                if "=" in t:
                    ctx.count("equals_sign")
                e = rng.choice(["=", " = ", "  ="])
                f.write("{}{}{}{}{}\n".format(rng.choice(["", "  "]), o, e, t, rng.choice(["", " # q = r", "  ", "#*.h0.*", " # q # r = s", "## q"])))
    sel = None
    if rng.random() < 0.5:
        sel = rng.sample(outs, rng.randint(0, len(outs)))
        extra = rng.sample(["nosuch", "other", "lit", "bare", "no-such", "t.2"], rng.choice([0, 0, 1, 2]))
        sel = rng.sample(sel + extra, len(sel) + len(extra))
    if not sel:
        sel = None
    if sel:
        ctx.count("selection")
        argv = argv + sel if rng.random() < 0.7 else sel + argv
    return argv, known, undefined, sel


def judge(ctx, text, known, undefined, sel, what):
    each, order, every, before = parse_output(text)
    want = sorted(sel) if sel else sorted(known)
    ctx.check(sorted(order) == want, "variables", lambda: "{}: listed {} expected {}\n{}".format(what, order, want, text))
    union = set()
    for o in want:
        got = each[o]
        if o not in known:
            ok = got == "Not defined." or (o in undefined and got == "No dependencies.")
            ctx.check(ok, "unknown", lambda: "{}: {} reported as {!r}".format(what, o, got))
            ctx.count("unknown")
        elif known[o] is None:
            ctx.check(isinstance(got, str) and got not in ("Not defined.", "No dependencies."), "malformed",
                      lambda: "{}: malformed definition of {} reported as {!r}".format(what, o, got))
        elif not known[o]:
            ctx.check(got == "No dependencies." or got == [], "none", lambda: "{}: {} depends on {!r}".format(what, o, got))
            ctx.count("no_dependencies")
        else:
            union |= known[o]
            ctx.check(isinstance(got, list) and sorted(got) == sorted(known[o]), "dependencies",
                      lambda: "{}: {} depends on {!r} expected {}".format(what, o, got, sorted(known[o])))
            ctx.count("dependencies_compared", len(known[o]))
    ctx.check(sorted(every) == sorted(union), "all", lambda: "{}: needs {} expected {}".format(what, every, sorted(union)))
    if not union:
        ctx.count("nothing_needed")


def case(ctx):
    from pyconform.cli import vardeps

    rng = ctx.rng
    argv, known, undefined, sel = make(ctx, rng, ctx.scratch())
    text = io.StringIO()
    what = "{} with {}".format(argv, open(next(a for a in argv if a.startswith("/"))).read())
    with contextlib.redirect_stdout(text):
        vardeps.main(argv)
    judge(ctx, text.getvalue(), known, undefined, sel, what)
    ctx.sample(what)
    ctx.nontrivial(what.replace(ctx.scratch(), ""))


def process(ctx):
    rng = ctx.rng
    argv, known, undefined, sel = make(ctx, rng, ctx.scratch())
    repo = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["pyconform"].__file__)))

    def go(argv):
        return subprocess.run([sys.executable, "-W", "ignore", "-m", "pyconform.cli.vardeps"] + argv, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, timeout=200, env=dict(os.environ, PYTHONPATH=repo), cwd="/")

    p = go(argv)
    ctx.check(p.returncode == 0, "exit", lambda: "{}: {} {}".format(argv, p.returncode, p.stderr[-1500:]))
    judge(ctx, p.stdout, known, undefined, sel, str(argv))
    p = go(["-n", "/nonexistent/file"])
    ctx.check(p.returncode != 0, "missing-file", lambda: p.stdout)
    ctx.count("process")


def fixed(tier):
    return [("process%d" % i, process) for i in range(2 if tier == "quick" else 10)]
