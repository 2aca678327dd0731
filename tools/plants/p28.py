ID="c04-written-in-place"; PROPERTY="C04"
EDITS=[("pyconform/flownodes.py","""            tmp_fname = "{}{}".format(fname, self._tmp_ext)
            fdir""","""            if not exists(fname):
                self._tmp_ext = ""
            tmp_fname = "{}{}".format(fname, self._tmp_ext)
            fdir"""),("pyconform/flownodes.py","""            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""","""            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if self._tmp_ext and exists(tmp_fname):
                rename(tmp_fname, self.label)
""")]
NEEDS="a run that is killed while it writes a file that did not exist before"
BREAKS="the partial file stands under the output name"
DEMO='''
from demo_common import *
import pyconform.flownodes as fl
i = infile("i.nc", {"x": 4}, {"v": (("x",), np.arange(4.0), {})})
f = flow([i], {"v": var("v", ["x"], file="o.nc")})
seen = []
get = fl.ValidateNode.__getitem__
def look(self, index):
    seen.append(os.path.exists(os.path.join(SCRATCH, "o.nc")))
    return get(self, index)
fl.ValidateNode.__getitem__ = look
f.execute(serial=True, chunks={"x": 1})
expect(seen and not any(seen), "visible before it is complete")
'''
