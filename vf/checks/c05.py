"""C05: evaluating and executing never changes input data or stored operands"""
import copy
import hashlib
import os
import warnings
from collections import OrderedDict

import numpy as np

from vf import flow, gen
from vf.core import Skip

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "purity monitor: operands, nodes and input files compared byte by byte before and after each evaluation"
RULE = ("(a) histories of 20 operations, functions and numpy calls over a pool of quantities that share memory, "
        "all of them compared after each; (b) graphs over shared data and read nodes, asked in random order and "
        "repeatedly for random indices: every answer to one question the same, stored data unchanged; (c) data "
        "flows executed two or three times under different chunkings: input files byte for byte unchanged, output "
        "the same; non-trivial = operands shared; distinct by history")
CASES = {"quick": 1500, "thorough": 30000}
REQUIRED = ["operations", "rejected", "shared_memory", "flipped", "converted", "node_questions", "repeated",
            "shared_nodes", "executions", "files_hashed", "inplace", "literal_flow", "functions"]


# ---------------------------------------------------------------- (a) operations
def _pool(ctx, sz):
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    group = rng.choice(gen.GROUPS[:8])
    pool = []
    for _ in range(rng.randint(2, 4)):
        a, _q = gen.quantity(rng, sz, gen.dims(rng, sz, 0, 3), rng.choice(group), "any",
                             positive=rng.choice([None, "up", "down"]),
                             dtype=rng.choice(["f8", "f8", "f4", "i4"]))
        pool.append(a)
    if rng.random() < 0.6:
        a = rng.choice(pool)
        b = PhysArray(a, name="shared") if rng.random() < 0.5 else a[tuple(slice(None) for _ in a.dimensions)]
        pool.append(b)
        ctx.count("shared_memory")
    return pool, group


OPS = ["+", "-", "*", "/", "//", "**", "neg", "abs", "compare", "convert", "transpose", "mean", "sum", "index",
       "new", "copy", "invert", "numpy", "scalar", "inplace", "setitem", "function", "function", "function",
       "directions"]


def _operation(ctx, op, a, b, group):
    """Do one operation; returns the array that it may change, or None"""
    from pyconform.functions import find_function
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    if op == "+":
        a + b
    elif op == "-":
        a - b
    elif op == "*":
        a * b
    elif op == "/":
        a / b
    elif op == "//":
        a // b
    elif op == "**":
        a ** rng.choice([2, 3, -1, 2.0, 0, b])
    elif op == "neg":
        -a
    elif op == "abs":
        abs(a)
    elif op == "compare":
        rng.choice([lambda: a < b, lambda: a == b, lambda: a >= 1.0, lambda: a != b])()
    elif op == "convert":
        a.convert(rng.choice(group + ["kg", "K"]))
        ctx.count("converted")
    elif op == "transpose":
        d = list(a.dimensions)
        rng.shuffle(d)
        a.transpose(tuple(d))
    elif op in ("mean", "sum"):
        ds = rng.sample(list(a.dimensions), rng.randint(0, len(a.dimensions)))
        getattr(a, op)(dimensions=ds)
    elif op == "index":
        a[tuple(gen.rand_index(rng, n) for n in a.shape)]
    elif op == "new":
        PhysArray(a, name="other", units=rng.choice(group), positive=rng.choice([None, "up", "down"]))
    elif op == "copy":
        c = a.copy()
        c.flip()
        c *= 2
        ctx.count("flipped")
    elif op == "invert":
        a.invert()
    elif op == "numpy":
        rng.choice([np.sqrt, np.abs, np.ma.masked_invalid, np.ma.filled, np.max])(a)
    elif op == "scalar":
        rng.choice([lambda: 2 * a, lambda: a + 0, lambda: 1 - a, lambda: 3.5 / a])()
    elif op == "inplace":
        c = a.copy()
        ctx.count("inplace")
        if rng.random() < 0.5:
            c += b
        else:
            c *= b
    elif op == "setitem":
        c = a.copy()
        ctx.count("inplace")
        c[tuple(gen.rand_slice(rng, n) for n in c.shape)] = b if rng.random() < 0.5 else 0.0
    elif op == "directions":
        c = a.copy()
        getattr(c, rng.choice(["up", "down", "flip"]))()
        ctx.count("flipped")
    else:
        _function(ctx, a, b, group)


def _function(ctx, a, b, group):
    from pyconform.flownodes import DataNode, EvalNode
    from pyconform.functions import find_function

    rng = ctx.rng
    f = rng.choice(["sqrt", "mean", "sum", "min", "max", "up", "down", "chunits", "limit", "rmunits", "chdims"])
    args, kwds = [], {}
    ds = rng.sample(list(a.dimensions), rng.randint(0, len(a.dimensions)))
    if f in ("mean", "sum", "min", "max"):
        args = ds
    elif f == "chunits":
        kwds = {"units": rng.choice(group)}
    elif f == "limit":
        kwds = {k: rng.uniform(-30, 30) for k in rng.choice([["above"], ["below"], ["above", "below"]])}
    elif f == "chdims":
        args = ["n%d" % i for i in range(len(a.dimensions))]
    node = EvalNode(f, find_function(f), DataNode(a), *args, **kwds)
    node[None]
    r = node[rng.choice([{}, (), slice(None)]) if a.ndim else {}]
    ctx.count("functions")
    if rng.random() < 0.3:
        # what a function gives out can be changed by the next one in the chain
        EvalNode("up", find_function("up"), DataNode(r))[{}]


def c_operations(ctx):
    rng = ctx.rng
    pool, group = _pool(ctx, gen.sizes(rng, 1, 3))
    history = []
    before = [gen.snapshot_visible(a) for a in pool]
    for _ in range(20):
        op = rng.choice(OPS)
        i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
        a, b = pool[i], pool[j]
        history.append("{}({},{})".format(op, i, j))
        try:
            with np.errstate(all="ignore"):
                _operation(ctx, op, a, b, group)
            ctx.count("operations")
        except Exception:  # noqa  (rejected: may not have changed anything either)
            ctx.count("rejected")
        for k, x in enumerate(pool):
            now = gen.snapshot_visible(x)
            ctx.check(now == before[k], "operand-changed-" + op,
                      lambda: "{} {!r} {!r}: quantity {} changed: {!r}".format(history[-3:], a, b, k, x))
    ctx.nontrivial(history, [a.dimensions for a in pool])
    ctx.sample(", ".join(history[:8]))


# ---------------------------------------------------------------- (b) nodes
def _answer(a):
    return gen.snapshot_visible(a)


def c_nodes(ctx):
    from pyconform.datasets import InputDatasetDesc
    from pyconform.flownodes import DataNode, EvalNode, MapNode, ReadNode, ValidateNode
    from pyconform.datasets import DimensionDesc, VariableDesc
    from pyconform.functions import find_function, find_operator
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    d = ctx.scratch()
    inp = flow.Inputs(ctx, rng, lo=1, hi=4, positives=("up", "down", None))
    flow.fix_order(inp)
    files = inp.write(rng, d)
    ids = InputDatasetDesc(filenames=files)
    data = inp.inputs()
    nodes, stored = [], []
    for n, q in data.items():
        if rng.random() < 0.6:
            a = PhysArray(np.ma.MaskedArray(q.val.copy(), mask=q.mask.copy()), name=n, units=q.units,
                          dimensions=q.dims, positive=q.positive or rng.choice([None, "up", "down"]))
            stored.append((a, gen.snapshot_visible(a)))
            nodes.append((DataNode(a), "data " + n))
        else:
            nodes.append((ReadNode(ids.variables[n]), "read " + n))
    made = 0
    for _ in range(12):
        # mapped nodes speak of output dimensions: not to be mixed with others
        below = [p for p in nodes if "map(" not in p[1]]
        x, tx = rng.choice(below)
        y, ty = rng.choice(below)
        if rng.random() < 0.1:
            x, tx = rng.choice(nodes)
            y, ty = x, tx
        f = rng.choice(["+", "-", "*", "/", "neg", "up", "down", "chunits", "limit", "rmunits", "sqrt", "map",
                        "validate", "chdims", "**"])
        try:
            info = x[None]
            if f in "+-*/" and f != "neg":
                node = EvalNode(f, find_operator(f, numargs=2), x, y)
            elif f == "**":
                node = EvalNode(f, find_operator(f, numargs=2), x, rng.choice([2, 1, -1]))
            elif f == "neg":
                node = EvalNode("-", find_operator("-", numargs=1), x)
            elif f == "chunits":
                node = EvalNode(f, find_function(f), x, units=rng.choice(["m", "kg"]))
            elif f == "limit":
                node = EvalNode(f, find_function(f), x, above=10.0, below=-5.0)
            elif f == "chdims":
                node = EvalNode(f, find_function(f), x, *["n" + k for k in info.dimensions])
            elif f == "map":
                node = MapNode("map", x, {k: k + "o" for k in info.dimensions})
            elif f == "validate":
                order = list(info.dimensions)
                rng.shuffle(order)
                attrs = OrderedDict(positive=rng.choice(["up", "down"])) if rng.random() < 0.7 else OrderedDict()
                if rng.random() < 0.4:
                    attrs["valid_max"] = 20.0
                node = ValidateNode(VariableDesc("out", datatype="double", attributes=attrs,
                                                 dimensions=tuple(DimensionDesc(k) for k in order)), x)
            else:
                node = EvalNode(f, find_function(f), x)
            node[None]
        except Exception:  # noqa: not a legal combination
            continue
        text = "{}({})".format(f, tx) if f not in "+-*/" else "({} {} {})".format(tx, f, ty)
        nodes.append((node, text))
        made += 1
    if not made:
        raise Skip()
    answers = {}
    shared = 0
    for _ in range(30):
        k = rng.randrange(len(nodes))
        node, text = nodes[k]
        info = node[None]
        if rng.random() < 0.15:
            idx = None
        else:
            idx = {dd: rng.choice([slice(None), slice(0, 1), slice(None, None, -1), slice(1, 3)])
                   for dd in info.dimensions if rng.random() < 0.6}
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = node[idx]
        except (ValueError, TypeError, IndexError):
            continue
        key = (k, repr(sorted(idx.items()) if idx is not None else None))
        snap = _answer(got)
        ctx.count("node_questions")
        if key in answers:
            ctx.count("repeated")
            ctx.check(snap == answers[key], "answer-changed",
                      lambda: "{}[{}] answered differently: {!r}".format(text, idx, got))
        answers[key] = snap
        for a, s in stored:
            ctx.check(gen.snapshot_visible(a) == s, "stored-changed",
                      lambda: "{}[{}] changed the stored {!r}".format(text, idx, a))
        shared += text.count("data") > 0
        # the one who asked may do with the answer what he likes (an answer of a data node is the stored array)
    # every question again
    for (k, ridx), snap in list(answers.items()):
        idx = eval(ridx)  # noqa: S307 (slices and strings written above)
        idx = None if idx is None else dict(idx)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = nodes[k][0][idx]
        ctx.count("repeated")
        ctx.check(_answer(got) == snap, "answer-changed",
                  lambda: "{}[{}] answered differently after other questions: {!r}".format(nodes[k][1], idx, got))
    if shared:
        ctx.count("shared_nodes")
    ctx.nontrivial([t for _n, t in nodes])
    ctx.sample("; ".join(t for _n, t in nodes[-4:]))


# ---------------------------------------------------------------- (c) executions
def _hash(f):
    with open(f, "rb") as o:
        return hashlib.md5(o.read()).hexdigest()


def c_runs(ctx):
    rng = ctx.rng
    d = ctx.scratch()
    os.makedirs(d + "/in")
    inp = flow.Inputs(ctx, rng, hi=5, chars=0.3)
    flow.fix_order(inp)
    files = inp.write(rng, d + "/in")
    spec = flow.Spec(inp, rng, d + "/out", keywords=0.2, depth=rng.choice([1, 2, 3]), directions=rng.random() < 0.5, chars=0.5)
    before = {f: (_hash(f), os.stat(f).st_mtime_ns, os.stat(f).st_size) for f in files}
    names = sorted(os.listdir(d + "/in"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        df = flow.build(files, spec.dsdict())
    base = None
    ch = [k for k in spec.chunkable() if k not in ("labellen", "strlen")]
    for i in range(rng.choice([2, 3])):
        chunks = OrderedDict((k, rng.randint(1, 4)) for k in rng.sample(ch, rng.randint(0, len(ch))))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            df.execute(serial=True, chunks=copy.copy(chunks))
        ctx.count("executions")
        now = {f: flow.digest(f) for f in flow.listing(d + "/out")}
        if base is None:
            base = now
        ctx.check(sorted(base) == sorted(now), "again-files", "another set of files in the next execution")
        for f in now:
            diff = flow.differ(base[f], now[f], rtol=1e-6)
            ctx.check(diff is None, "again-differs", lambda: "execution {} of the same data flow, chunks {}: {}".format(
                i + 1, dict(chunks), diff))
        ctx.check(sorted(os.listdir(d + "/in")) == names, "input-folder",
                  lambda: "input folder holds {} instead of {}".format(sorted(os.listdir(d + "/in")), names))
        for f in files:
            ctx.check((_hash(f), os.stat(f).st_mtime_ns, os.stat(f).st_size) == before[f], "input-changed",
                      lambda: "input file {} was changed".format(os.path.basename(f)))
            ctx.count("files_hashed")
    if spec.literal:
        ctx.count("literal_flow")
    ctx.nontrivial(sorted(flow.text(e) for e in spec.expr.values()))


def case(ctx):
    r = ctx.rng.random()
    (c_operations if r < 0.5 else c_nodes if r < 0.8 else c_runs)(ctx)
