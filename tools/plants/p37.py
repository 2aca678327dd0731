ID="c03-names-of-nodes"; PROPERTY="C03"
EDITS=[("pyconform/dataflow.py","""        fnames = scomm.partition(
            list(self._filesizes.items()), func=WeightBalanced(), involved=True
        )
""","""        fnames = sorted(self._filesizes)[scomm.get_rank() :: scomm.get_size() - 1 or 1]
""")]
NEEDS="three or more ranks: the stride leaves files to two ranks"
BREAKS="files are written by two ranks"
DEMO='''
from demo_common import *
from asaptools.simplecomm import SimpleComm
class Rank(SimpleComm):
    def __init__(self, rank, size):
        super().__init__()
        self._r, self._s = rank, size
    def get_rank(self):
        return self._r
    def get_size(self):
        return self._s
    def is_manager(self):
        return self._r == 0
    def sync(self):
        pass
    def partition(self, data=None, func=None, involved=False, tag=0):
        return func(data, self._r, self._s)
import pyconform.flownodes as fl
written = []
run = fl.WriteNode.execute
fl.WriteNode.execute = lambda self, **k: written.append(self.label)
names = ["o%d.nc" % k for k in range(5)]
i = infile("i.nc", {"x": 4}, {"v": (("x",), np.arange(4.0), {})})
spec = {"v%d" % k: var("v", ["x"], file=n) for k, n in enumerate(names)}
out, sys.stdout = sys.stdout, open(os.devnull, "w")
for r in range(3):
    flow([i], spec).execute(scomm=Rank(r, 3))
sys.stdout = out
expect(sorted(os.path.basename(n) for n in written) == names, str(sorted(written)))
'''
