ID="c19-first-reduction"; PROPERTY="C19"
EDITS=[("pyconform/dataflow.py","""                if isinstance(nd, EvalNode):
                    unmapped_sumlike_dimensions.update(nd.sumlike_dimensions)
""","""                if isinstance(nd, EvalNode) and nd.sumlike_dimensions:
                    unmapped_sumlike_dimensions.update(nd.sumlike_dimensions)
                    break
""")]
NEEDS="one definition that reduces over two different dimensions, and a chunk request over a dimension that a third definition keeps but the second reduction sums over"
BREAKS="a chunk request over a dimension that a definition sums over is accepted"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 4, "y": 6}, {"v": (("x", "y"), np.arange(24.0).reshape(4, 6), {}), "k": (("x",), np.arange(4.0), {}), "l": (("y",), np.arange(6.0), {})})
spec = {"k": var("k", ["x"], file="k.nc"), "l": var("l", ["y"], file="l.nc"), "m": var("sum(mean(v, 'y'), 'x')", [], file="m.nc")}
for d in ("x", "y"):
    try:
        convert([i], spec, chunks={d: 3})
    except ValueError:
        continue
    expect(False, "chunks over " + d + " were accepted")
'''
