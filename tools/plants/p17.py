ID="c09-sums-of-equal-names"; PROPERTY="C09"
EDITS=[("pyconform/functions.py","""        dimensions = self.arguments[1:]
        indims = [d for d in dimensions if d in data.dimensions]
        return data.sum(""","""        dimensions = ",".join(self.arguments[1:])
        indims = [d for d in data.dimensions if d in dimensions]
        return data.sum(""")]
NEEDS="a sum over a dimension whose name contains the name of another dimension of the data (lat and lat_aux, x and xi)"
BREAKS="the sum is taken over both dimensions"
DEMO='''
from demo_common import *
from pyconform.flownodes import DataNode
from pyconform.functions import SumFunction
from pyconform.physarray import PhysArray
v = DataNode(PhysArray(np.ones((2, 3)), name="v", dimensions=("lev", "ilev")))
expect(SumFunction(v, "ilev")[:].dimensions == ("lev",), "summed over too much")
'''
