ID="c03-directory-race"; PROPERTY="C03"
EDITS=[("pyconform/flownodes.py","""                try:
                    makedirs(fdir)
                except:
                    if exists(fdir):""","""                try:
                    makedirs(fdir)
                except PermissionError:
                    if exists(fdir):""")]
NEEDS="two ranks that find the same new output directory missing at the same time"
BREAKS="the rank that comes second fails with FileExistsError and its files are never written"
DEMO='''
import os
real = os.makedirs
def makedirs(path, *a, **k):
    if path.endswith("new/dir"):
        real(path)  # another rank was faster
    return real(path, *a, **k)
os.makedirs = makedirs
from demo_common import *
i = infile("i.nc", {"x": 3}, {"x": (("x",), np.arange(3.0), {})})
try:
    convert([i], {"x": var("x", ["x"], file="new/dir/o.nc")})
except Exception as e:
    expect(False, repr(e))
expect(read("new/dir/o.nc", "x").tolist() == [0, 1, 2], "content")
'''
