"""C01: written output equals an independent evaluation of its definition"""
import os

import numpy as np

from vf import flow

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "end-to-end reference-model oracle over the written NetCDF files"
RULE = ("random input datasets (1-4 dimensions of length 1-5, f4/f8/i4, missing points, one to many "
        "files, four formats) and random specifications (1-4 variables, expressions of depth 0-4 with "
        "operators, constants, slices, reductions, unit and direction changes, renamed and permuted "
        "dimensions, types, units, directions), run through the real pipeline; files re-read with "
        "netCDF4 and compared point by point; non-trivial = an expression with an operator, call or "
        "index over non-scalar data; distinct by definition strings, shapes and output dimensions")
CASES = {"quick": 1000, "thorough": 15000}
REQUIRED = ["given_data_used", "elements_compared", "missing_points_compared", "files_compared", "transposed", "unit_conversions",
            "reductions", "indexed", "directed", "sqrt", "chdims", "number_with_units", "function_of_number",
            "integers_compared", "rounded", "rounded_int64", "wider_than_inputs", "unsigned_inputs", "keyword", "keyword_given"]


def case(ctx):
    rng = ctx.rng
    d = ctx.scratch()
    os.makedirs(d + "/in")
    inp = flow.Inputs(ctx, rng, long=0.06, empty=0.03)
    flow.fix_order(inp)
    files = inp.write(rng, d + "/in")
    if rng.random() < 0.5:
        files = rng.sample(files, len(files))
    spec = flow.Spec(inp, rng, d + "/out", keywords=0.2, depth=rng.choice([1, 2, 3, 4]), reduce=not inp.empty)
    kwds = {"history": rng.random() < 0.5}
    if rng.random() < 0.2:
        kwds["deflate"] = rng.randint(0, 9)
    if rng.random() < 0.3 and spec.chunkable():
        kwds["chunks"] = {c: rng.choice([1, 2, 3, 4, 5, 6, 40]) for c in rng.sample(spec.chunkable(), 1)}
    what = "; ".join("{}({})[{}] = {}".format(n, ",".join(v["dimensions"]), v["attributes"].get("units"),
                                             v["definition"]) for n, v in spec.d.items())
    flow.run(files, spec.dsdict(), **kwds)
    flow.judge_files(ctx, spec, d + "/out", "flow", what)
    for n, e in spec.expr.items():
        w = spec.want[n]
        odims = tuple(spec.dimmap[x] for x in flow.evaluate(e, spec.inputs(False)).q.dims)
        if odims != w["dims"]:
            ctx.count("transposed")
        if spec.d[n]["attributes"].get("units") not in (None, "?"):
            ctx.count("unit_conversions")
        if flow.summed(e):
            ctx.count("reductions")
        for x in flow.walk(e):
            if x[0] == "bin" and len(x) == 5:
                ctx.count("keyword_given" if flow.variables(x[3]) & set(spec.given) else "keyword")
        if any(x[0] == "idx" for x in flow.walk(e)):
            ctx.count("indexed")
        if w["dtype"] == "i8" and (abs(w["q"].val[~w["q"].mask] % 1.0 - 0.5) < 0.45).any():
            ctx.count("rounded_int64")
        for f in ("sqrt", "chdims"):
            if f + "(" in flow.text(e):
                ctx.count(f)
        for x in flow.walk(e):
            if x[0] == "call" and x[2][0][0] == "num":
                ctx.count("number_with_units" if x[1] == "chunits" else "function_of_number")
        if spec.d[n]["attributes"].get("positive"):
            ctx.count("directed")
        if e[0] != "var" and w["q"].val.size > 1:
            ctx.nontrivial(flow.text(e), w["q"].val.shape, w["dims"])
    if spec.given and any(flow.variables(e) & set(spec.given) for e in spec.expr.values()):
        ctx.count("given_data_used")
    ctx.sample(what)
