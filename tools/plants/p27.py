ID="c12-map-ellipsis"; PROPERTY="C12"
EDITS=[("pyconform/flownodes.py","""            out_index = index_tuple(index, len(inp_dims))
            inp_index""","""            out_index = index if isinstance(index, tuple) else (index,)
            inp_index""")]
NEEDS="an index that starts with an ellipsis, on a node that maps dimensions"
BREAKS="indices after the ellipsis apply to other dimensions"
DEMO='''
from demo_common import *
from pyconform.flownodes import DataNode, MapNode
from pyconform.physarray import PhysArray
v = MapNode("m", DataNode(PhysArray(np.arange(12.0).reshape(3, 4), name="v", dimensions=("a", "b"))), {"a": "x", "b": "y"})
try:
    got = v[..., 1:2]
except Exception as e:
    expect(False, repr(e))
expect(got.shape == (3, 1), "shape {}".format(got.shape))
'''
