ID="c10-index-outside-subset"; PROPERTY="C10"
EDITS=[("pyconform/indexing.py","                if i2 < -l1 or i2 >= l1:","                if i2 < -l1 or i2 >= l0:")]
NEEDS="an integer index beyond the end of a subset but within the whole variable"
BREAKS="an element outside of the subset is read instead of an error"
DEMO='''
from demo_common import *
from pyconform.indexing import join
try:
    got = join((10,), (slice(0, 6, 2),), (3,))
except IndexError:
    got = None
expect(got is None, "index outside the subset accepted: {}".format(got))
'''
