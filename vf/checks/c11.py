"""C11: definitions are parsed by the documented grammar and precedence"""
import math
import re

from vf.core import Skip

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "differential runtime monitor: PLY parser against an independent Pratt parser and known trees"
RULE = ("random expression trees (depth 0-6) rendered with minimal, random or full parentheses and "
        "spacing, plus mutated, truncated and token-shuffled strings, parsed in sequences that mix "
        "good and bad strings; every tree compared with the generating tree and with an independent "
        "precedence-climbing parser, every earlier result compared again at the end of the sequence; "
        "non-trivial = at least two operators, a call or an index, or a rejected string; distinct by "
        "string")
CASES = {"quick": 9000, "thorough": 60000}
REQUIRED = ["tree", "reject", "mutant_accepted", "folded", "index", "keyword", "string", "deep"]

BIN = {"==": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "*": 4, "/": 4, "**": 6}
NEG = 5


class Bad(Exception):
    pass


class Lenient(Exception):
    """Neither clearly valid nor clearly invalid: not judged"""


# ------------------------------------------------------------------ reference parser
TOKEN = re.compile(
    r"""(?P<ws>[ \t]+)
      |(?P<flt>(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+)
      |(?P<int>[0-9]+)
      |(?P<str>"[^"\\]*(?:\\.[^"\\]*)*"|'[^'\\]*(?:\\.[^'\\]*)*')
      |(?P<name>[A-Za-z_][A-Za-z0-9_]*)
      |(?P<op>\*\*|<=|>=|==|[-*/+<>=,:()\[\]])""", re.X)


def tokenize(s):
    pos, out = 0, []
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            raise Bad("character {!r}".format(s[pos]))
        pos = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out + [("end", "")]


def is_const(x):
    return isinstance(x, (int, float, complex))


def fold(op, a, b):
    if not (is_const(a) and is_const(b)):
        return ("op", op, (a, b))
    try:
        if op == "**":
            if isinstance(a, int) and isinstance(b, int) and abs(b) * max(1, abs(a)).bit_length() > 4000:
                raise Lenient()
            return a ** b
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                "==": lambda: a == b}[op]()
    except (ArithmeticError, TypeError):
        raise Bad("constant arithmetic")


def negate(a):
    return -a if is_const(a) else ("op", "-", (a,))


class Ref:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def want(self, op):
        if self.next() != ("op", op):
            raise Bad("expected " + op)

    def top(self):
        e = self.expr(0)
        if self.peek()[0] != "end":
            raise Bad("trailing")
        return e

    def expr(self, limit):
        left = self.prefix()
        while True:
            k, op = self.peek()
            if k != "op" or op not in BIN or BIN[op] <= limit:
                return left
            self.next()
            left = fold(op, left, self.expr(BIN[op]))

    def prefix(self):
        k, v = self.next()
        if k == "int":
            return int(v)
        if k == "flt":
            return float(v)
        if (k, v) == ("op", "("):
            e = self.expr(0)
            self.want(")")
            return e
        if (k, v) == ("op", "-"):
            return negate(self.expr(NEG))
        if (k, v) == ("op", "+"):
            return self.expr(NEG)
        if k == "name":
            if self.peek() == ("op", "("):
                return self.call(v)
            if self.peek() == ("op", "["):
                self.next()
                idx = [self.index()]
                while self.peek() == ("op", ","):
                    self.next()
                    idx.append(self.index())
                self.want("]")
                return ("var", v, tuple(idx))
            return ("var", v, ())
        raise Bad("unexpected {!r}".format(v))

    def arg(self):
        k, v = self.peek()
        if k == "str":
            self.next()
            return v[1:-1]
        return self.expr(0)

    def call(self, name):
        self.want("(")
        args, kwds = [], {}
        if self.peek() == ("op", ")"):
            self.next()
            return ("fun", name, (), ())
        if self.peek() == ("op", ","):
            raise Lenient()
        while True:
            if self.peek()[0] == "name" and self.peek(1) == ("op", "="):
                kw = self.next()[1]
                self.next()
                if kw in kwds:
                    raise Lenient()
                kwds[kw] = self.arg()
            elif kwds:
                raise Bad("positional after keyword")
            else:
                args.append(self.arg())
            k = self.next()
            if k == ("op", ")"):
                return ("fun", name, tuple(args), tuple(sorted(kwds.items())))
            if k != ("op", ","):
                raise Bad("argument list")

    def index(self):
        def part():
            if self.peek() in (("op", ":"), ("op", ","), ("op", "]")):
                return None
            return self.expr(0)

        a = part()
        if self.peek() != ("op", ":"):
            if a is None:
                raise Bad("empty index")
            return a
        self.next()
        b = part()
        c = None
        if self.peek() == ("op", ":"):
            self.next()
            c = part()
        return ("slice", a, b, c)


# ------------------------------------------------------------------ repository result -> tree
def norm(x):
    from pyconform.parsing import FuncType, OpType, VarType

    if isinstance(x, OpType):
        return ("op", x.key, tuple(norm(a) for a in x.args))
    if isinstance(x, FuncType):
        return ("fun", x.key, tuple(norm(a) for a in x.args),
                tuple(sorted((k, norm(v)) for k, v in x.kwds.items())))
    if isinstance(x, VarType):
        return ("var", x.key, tuple(norm(a) for a in x.ind))
    if isinstance(x, slice):
        return ("slice", norm(x.start), norm(x.stop), norm(x.step))
    return x


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_const(a) and is_const(b):
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        return a == b and type(a) is type(b)
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ generator
NAMES = ["x", "y", "T", "lat", "PRECT", "v_2", "_a", "e5", "E", "sum", "up"]


def num(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(["0", "1", "2", "3", "7", "12", "100", "007"])
    return rng.choice(["0.5", "1.", ".25", "1e3", "2.5e-1", "1E+2", "86400.0", "1e-3", "3.e1", ".5e2"])


def gen_tree(rng, depth):
    r = rng.random()
    if depth <= 0 or r < 0.15:
        r = rng.random()
        if r < 0.4:
            return ("num", num(rng))
        return ("var", rng.choice(NAMES), ())
    if r < 0.22:
        n = rng.randint(1, 3)
        def part():
            return None if rng.random() < 0.4 else gen_tree(rng, rng.choice([0, 0, 0, 1]))
        idx = []
        for _ in range(n):
            if rng.random() < 0.5:
                idx.append(gen_tree(rng, rng.choice([0, 0, 1])))
            else:
                idx.append(("slice", part(), part(), part(), rng.random() < 0.5))
        return ("var", rng.choice(NAMES), tuple(idx))
    if r < 0.34:
        args = [("str", gen_str(rng)) if rng.random() < 0.2 else gen_tree(rng, depth - 1)
                for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        kw = rng.sample(["units", "a", "below", "x"], rng.choice([0, 0, 0, 1, 2]))
        kwds = [(k, ("str", gen_str(rng)) if rng.random() < 0.4 else gen_tree(rng, depth - 1)) for k in kw]
        return ("fun", rng.choice(NAMES), tuple(args), tuple(kwds))
    if r < 0.46:
        return ("neg", gen_tree(rng, depth - 1))
    if r < 0.49:
        return ("pos", gen_tree(rng, depth - 1))
    op = rng.choice(["+", "-", "*", "/", "+", "-", "*", "/", "**", "**", "<", ">", "<=", ">=", "=="])
    if op == "**":
        right = rng.choice([("num", rng.choice(["2", "3", "0", "1"])), ("var", "n", ()),
                            ("neg", ("num", rng.choice(["1", "2"]))), ("neg", ("var", "n", ()))])
        if rng.random() < 0.3:
            right = ("bin", "**", ("var", "m", ()), right)
        return ("bin", op, gen_tree(rng, depth - 1), right)
    return ("bin", op, gen_tree(rng, depth - 1), gen_tree(rng, depth - 1))


def gen_str(rng):
    q = rng.choice("\"'")
    body = "".join(rng.choice("ab1 ,()[]=*#:{}" + ("'" if q == '"' else '"')) for _ in range(rng.randint(0, 8)))
    if rng.random() < 0.15:
        body += "\\" + q + "z"
    return q + body + q


def value(t):
    k = t[0]
    if k == "num":
        return float(t[1]) if any(c in t[1] for c in ".eE") else int(t[1])
    if k == "str":
        return t[1][1:-1]
    if k == "neg":
        return negate(value(t[1]))
    if k == "pos":
        return value(t[1])
    if k == "bin":
        return fold(t[1], value(t[2]), value(t[3]))
    if k == "var":
        return ("var", t[1], tuple(value(i) for i in t[2]))
    if k == "slice":
        return ("slice",) + tuple(None if p is None else value(p) for p in t[1:4])
    return ("fun", t[1], tuple(value(a) for a in t[2]),
            tuple(sorted((n, value(v)) for n, v in t[3])))


def render(rng, t, extra, sp):
    """(text, binding strength)"""
    def s():
        return rng.choice(["", " ", "  ", "\t"]) if sp else ""

    def wrap(x):
        return "(" + s() + x + s() + ")"

    def sub(u, need):
        x, p = render(rng, u, extra, sp)
        return wrap(x) if p < need else x

    k = t[0]
    if k in ("num", "str"):
        r, p = t[1], 9
    elif k in ("neg", "pos"):
        r, p = ("-" if k == "neg" else "+") + s() + sub(t[1], NEG), NEG
    elif k == "bin":
        op = t[1]
        b = BIN[op]
        left = sub(t[2], b)
        if t[3][0] in ("neg", "pos") and op == "**" and rng.random() < 0.5:
            r, p = left + s() + op + s() + sub(t[3], NEG), 5.5
        else:
            r, p = left + s() + op + s() + sub(t[3], b + 0.6), b
    elif k == "var":
        r, p = t[1], 9
        if t[2]:
            r += s() + "[" + (s() + "," + s()).join(
                render(rng, i, extra, sp)[0] for i in t[2]) + s() + "]"
    elif k == "slice":
        parts = ["" if q is None else render(rng, q, extra, sp)[0] for q in t[1:4]]
        r = parts[0] + s() + ":" + s() + parts[1]
        if t[3] is not None or t[4]:
            r += s() + ":" + s() + parts[2]
        return r, 9
    else:
        items = [render(rng, a, extra, sp)[0] for a in t[2]]
        items += [n + s() + "=" + s() + render(rng, v, extra, sp)[0] for n, v in t[3]]
        r, p = t[1] + s() + "(" + s() + (s() + "," + s()).join(items) + s() + ")", 9
    if k != "str" and rng.random() < extra:
        return wrap(r), 9
    return r, p


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        i = rng.randint(0, len(s))
        if r < 0.3 and s:
            del s[i:i + rng.randint(1, 2)]
        elif r < 0.6:
            s.insert(i, rng.choice(list("()[],:=+-*/<>'\"1.e a?#!&|^~;\n{}%\\") + ["**", "==", "x", "2.5"]))
        elif r < 0.75 and s:
            s = s[:i]
        elif len(s) > 1:
            j = rng.randrange(len(s))
            i = min(i, len(s) - 1)
            s[i], s[j] = s[j], s[i]
    return "".join(s)


def soup(rng):
    toks = ["x", "y", "f", "(", ")", "[", "]", ",", ":", "=", "+", "-", "*", "/", "**", "<", ">", "<=",
            ">=", "==", "1", "2", "0.5", "'s'", "f(", "x["]
    return rng.choice(["", " "]).join(rng.choice(toks) for _ in range(rng.randint(1, 9)))


def has(t, kind):
    return isinstance(t, tuple) and (t[:1] == (kind,) or any(has(u, kind) for u in t))


def reference(s):
    try:
        return "tree", Ref(s).top()
    except Bad as e:
        return "bad", str(e)
    except (Lenient, OverflowError, RecursionError):
        return "skip", None


def check_string(ctx, s, keep, expected=None):
    from pyconform.parsing import parse_definition

    kind, ref = reference(s)
    if kind == "skip":
        ctx.count("not_judged")
        return
    if expected is not None and not (kind == "tree" and same(ref, expected)):
        raise RuntimeError("harness: reference parser disagrees with the generator on {!r}: {} {} {}".format(
            s, kind, ref, expected))
    try:
        raw = parse_definition(s)
        err = None
    except (AttributeError, KeyError, IndexError, UnboundLocalError, NameError, RecursionError) as e:
        ctx.fail("error-report", "parsing {!r} failed internally: {!r}".format(s, e))
    except Exception as e:
        err = e
    if kind == "bad":
        ctx.check(err is not None, "accepts-malformed",
                  lambda: "{!r} ({}) was parsed to {}".format(s, ref, norm(raw)))
        ctx.count("reject")
        ctx.nontrivial("bad", s)
        return
    ctx.check(err is None, "rejects-well-formed", lambda: "{!r}: {!r}".format(s, err))
    got = norm(raw)
    ctx.check(same(got, ref), "tree", lambda: "{!r} parsed to {} expected {}".format(s, got, ref))
    keep.append((s, raw, got))
    ctx.count("tree")
    if is_const(ref) and any(c in s for c in "+-*/<>="):
        ctx.count("folded")
    for k, name in (("slice", "index"), ("fun", "function")):
        if has(ref, k):
            ctx.count(name)
    if "=" in s and has(ref, "fun"):
        ctx.count("keyword")
    if "'" in s or '"' in s:
        ctx.count("string")
    if s.count("(") > 6:
        ctx.count("deep")
    if sum(s.count(c) for c in "+-*/<>([") >= 2:
        ctx.nontrivial("t", s)


def case(ctx):
    rng = ctx.rng
    keep = []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        t = gen_tree(rng, rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]))
        s, _p = render(rng, t, rng.choice([0, 0, 0.2, 0.6, 1.0]), rng.random() < 0.5)
        if r < 0.55:
            try:
                want = value(t)
            except (Bad, Lenient, OverflowError):
                ctx.count("not_judged")
                continue
            check_string(ctx, s, keep, expected=want)
        elif r < 0.85:
            n = len(keep)
            check_string(ctx, mutate(rng, s), keep)
            ctx.count("mutant_accepted", len(keep) - n)
        else:
            check_string(ctx, soup(rng), keep)
        ctx.sample(s)
    for s, raw, got in keep:
        ctx.check(same(norm(raw), got), "history",
                  lambda: "result of parsing {!r} changed later: {} was {}".format(s, norm(raw), got))


def fixed(tier):
    def precedence(ctx):
        """All three-operator chains over atoms"""
        ops = list(BIN)
        keep = []
        for a in ops:
            for b in ops:
                for pre in ("", "-"):
                    for mid in ("", "-"):
                        check_string(ctx, "{}x{}{}y{}z".format(pre, a, mid, b), keep)
                        if a != "/" and b != "/":
                            check_string(ctx, "{}2{}{}3{}2".format(pre, a, mid, b), keep)
        for n in (1, 5, 30):
            check_string(ctx, "(" * n + "x" + ")" * n, keep)
            check_string(ctx, "f(" * n + "x" + ")" * n, keep)
            check_string(ctx, "-" * n + "x", keep)
            check_string(ctx, "(" * n + "x" + ")" * (n - 1), keep)
        for s in ("", " ", "(", "x+", "f(", "x[", "x[1", "'a'", "f('a')", "f(x,)", "f(x=1,2)", "x[]", "1 2",
                  "x y", "a=1", "x(1)(2)", "x[1][2]", "f(x)[1]", "f('a)", "1..2", "x++y", "x+*y"):
            check_string(ctx, s, keep)
    return [("precedence", precedence)]
