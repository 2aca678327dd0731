ID="c07-sum-loses-direction"; PROPERTY="C07"
EDITS=[("pyconform/physarray.py","""        return PhysArray(
            sumval,
            name="sum({}, dims=[{}])".format(self.name, dim_str),
            dimensions=new_dims,
            positive=self.positive,
""","""        return PhysArray(
            sumval,
            name="sum({}, dims=[{}])".format(self.name, dim_str),
            dimensions=new_dims,
""")]
NEEDS="a sum of data with a direction whose output declares the opposite one"
BREAKS="the direction is lost and the output keeps the sign of the input"
DEMO='''
from demo_common import *
i = infile("i.nc", {"x": 4, "y": 2}, {"v": (("x", "y"), np.ones((4, 2)), {"positive": "up"})})
convert([i], {"v": var("sum(v, 'y')", ["x"], file="v.nc", positive="down")})
expect((read("v.nc", "v") == -2).all(), "not turned over")
'''
