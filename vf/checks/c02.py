"""C02: chunked execution writes the same output as unchunked execution"""
import os
from collections import OrderedDict

from vf import flow

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "differential runtime monitor: chunked against unchunked executions and a reference model"
RULE = ("random datasets and specifications (with reversed coordinates, text, literals, permuted and "
        "indexed variables, validation bounds) executed unchunked and under 2-5 chunk maps each "
        "(any subset and order of the chunkable output dimensions, sizes from 1 to beyond the "
        "dimension); files compared with each other and point by point with the reference model; "
        "non-trivial = at least two chunks; distinct by dimension sizes, chunk map and definitions")
CASES = {"quick": 260, "thorough": 6000}
REQUIRED = ["given_data_used", "chunked_runs", "multi_dim_chunks", "non_dividing", "oversized", "inverted", "text_compared",
            "elements_compared", "literal", "validated", "long_dimensions", "many_chunks",
            "hundred_chunks", "empty_dimensions", "empty_chunked"]


def case(ctx):
    rng = ctx.rng
    d = ctx.scratch()
    os.makedirs(d + "/in")
    inp = flow.Inputs(ctx, rng, hi=6, chars=0.4, long=0.12, empty=0.12)
    flow.fix_order(inp)
    files = inp.write(rng, d + "/in")
    spec = flow.Spec(inp, rng, d + "/out", keywords=0.2, depth=rng.choice([0, 1, 2, 3]), directions=rng.random() < 0.6,
                     chars=0.6, reduce=not inp.empty and rng.random() < 0.3)
    # Validation bounds make missing points of their own: compared between runs only
    bounded = rng.random() < 0.3
    if bounded:
        for n in spec.files.values():
            w = spec.want[n]
            if "q" not in w:
                continue
            good = sorted(w["q"].val[~w["q"].mask].tolist())
            if good:
                spec.d[n]["attributes"][rng.choice(["valid_min", "valid_max"])] = rng.choice(good)
                ctx.count("validated")
    flow.run(files, spec.dsdict())
    what = "; ".join("{}({}) = {}".format(n, ",".join(v["dimensions"]), v["definition"])
                     for n, v in spec.d.items())
    if not bounded:
        flow.judge_files(ctx, spec, d + "/out", "unchunked", what)
    base = {f: flow.digest(f) for f in flow.listing(d + "/out")}
    ch = spec.chunkable()
    extra = {"names": "strlen", "label": "labellen"}
    ch += [e for n, e in extra.items() if n in spec.d and spec.d[n]["definition"] == "c0"]
    ch = [c for c in ch if c != "labellen"]
    if not ch:
        return
    size = {spec.dimmap[k]: n for k, n in inp.size.items()}
    size["strlen"] = inp.chars["c0"][2] if "c0" in inp.chars else 1
    for _ in range(rng.randint(2, 5)):
        keys = rng.sample(ch, rng.randint(1, len(ch)))
        chunks = OrderedDict((k, rng.choice([1, 1, 2, 3, max(1, size[k]), size[k] + 2, rng.randint(1, 6)]))
                             for k in keys)
        for k in keys:  # few and many chunks of a long dimension; a last chunk of a point or two
            if size[k] > 10 and rng.random() < 0.8:
                chunks[k] = rng.choice([1, 1, 2, 7, rng.randint(3, size[k]), size[k] - 1, size[k] - 2,
                                        max(1, (size[k] - 1) // rng.randint(1, 4))])
        two = [k for k in ch if size[k] > 10]
        if len(two) > 1 and rng.random() < 0.6:  # more than a hundred chunks of two dimensions
            for k in two:
                chunks[k] = 1
            keys = list(chunks)
            ctx.count("hundred_chunks")
        for f in flow.listing(d + "/out"):
            os.unlink(f)
        flow.run(files, spec.dsdict(), chunks=chunks)
        w = "chunks {} {}".format(dict(chunks), what)
        have = flow.listing(d + "/out")
        ctx.check(sorted(base) == have, "files", lambda: "{}: files {} / {}".format(w, sorted(base), have))
        for f in have:
            diff = flow.differ(base[f], flow.digest(f), rtol=1e-6)
            ctx.check(diff is None, "differs", lambda: "{} {}: {}".format(w, os.path.basename(f), diff))
        if not bounded:
            flow.judge_files(ctx, spec, d + "/out", "chunked", w)
        ctx.count("chunked_runs")
        many = [k for k in keys if chunks[k] < size[k]]
        if any(size[k] > 10 * chunks[k] for k in many):
            ctx.count("many_chunks")
        if inp.empty and spec.dimmap[inp.unlimited] in keys:
            ctx.count("empty_chunked")
        if len(many) > 1:
            ctx.count("multi_dim_chunks")
        if any(size[k] % chunks[k] for k in many):
            ctx.count("non_dividing")
        if any(chunks[k] > size[k] for k in keys):
            ctx.count("oversized")
        if set(many) & spec.flipped:
            ctx.count("inverted")
        if spec.literal:
            ctx.count("literal")
        if many:
            ctx.nontrivial(sorted(size.items()), list(chunks.items()),
                           sorted(flow.text(e) for e in spec.expr.values()))
    if spec.given and any(flow.variables(e) & set(spec.given) for e in spec.expr.values()):
        ctx.count("given_data_used")
    ctx.sample(what)
