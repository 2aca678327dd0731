ID="c02-chunk-bookkeeping"; PROPERTY="C02"
EDITS=[("pyconform/flownodes.py","""                if repr(wchunk) not in vchunks[vname]:""","""                if repr(wchunk[:2]) not in vchunks[vname]:"""),
("pyconform/flownodes.py","""                    vchunks[vname].add(repr(wchunk))""","""                    vchunks[vname].add(repr(wchunk[:2]))""")]
NEEDS="a variable of three or more dimensions, chunked over the third or a later one"
BREAKS="only the first chunk along the later dimensions is written; the rest stays at the fill value"
DEMO='''
from demo_common import *
data = np.arange(24.0).reshape(2, 3, 4)
i = infile("i.nc", {"x": 2, "y": 3, "z": 4}, {"v": (("x", "y", "z"), data, {})})
for ch in ({}, {"x": 1}, {"y": 2}, {"z": 3}, {"x": 1, "z": 1}):
    convert([i], {"v": var("v", ["x", "y", "z"], file="o.nc")}, chunks=ch)
    r = read("o.nc", "v")
    expect(not np.ma.getmaskarray(r).any() and np.array_equal(r, data), str(ch))
'''
