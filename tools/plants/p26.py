ID="c21-literal-with-input-text"; PROPERTY="C21"
EDITS=[("pyconform/dataflow.py","""                    ddesc.is_set() and ddesc.stringlen and ddesc.size < idd.size
""","""                    ddesc.is_set() and ddesc.stringlen and ddesc.size > idd.size
""")]
NEEDS="a literal text and a text read from input that share a string dimension, with different lengths"
BREAKS="the longer of the two does not fit or is cut"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 2, "n": 6}, {"s": (("x", "n"), np.array([list("abcdef"), list("uvwxyz")], dtype="S1"), {})})
try:
    convert([i], {"s": var("s", ["x", "n"], "char", file="s.nc"), "l": var(["ab", "c"], ["x", "n"], "char")})
except Exception as e:
    expect(False, str(e))
got = b"".join(read("s.nc", "s").filled(b"").ravel())
expect(got == b"abcdefuvwxyz", str(got))
'''
