ID="c10-ellipsis-after-integer"; PROPERTY="C10"
EDITS=[("pyconform/indexing.py","    idx2 = index_tuple(index2, ndims1)\n","    idx2 = index_tuple(index2, ndims0)\n")]
NEEDS="a subset taken with an integer and then an index with an ellipsis before another index"
BREAKS="the last index is applied to another dimension, or not at all"
DEMO='''
from demo_common import *
from pyconform.indexing import join
a = np.arange(24).reshape(2, 3, 4)
want = a[1][..., 2]
try:
    got = a[join((2, 3, 4), 1, (Ellipsis, 2))]
except Exception as e:
    got = repr(e)
expect(np.array_equal(got, want), "{} expected {}".format(got, want))
'''
