ID="c30-keyword-expressions"; PROPERTY="C30"
EDITS=[("pyconform/cli/vardeps.py","""        for kwd in obj.kwds:
            vars = variable""","""        for kwd in (k for k in obj.kwds if isinstance(obj.kwds[k], parsing.VarType)):
            vars = variable""")]
NEEDS="a keyword argument that is an expression rather than a variable"
BREAKS="variables read by the expression are not reported"
DEMO='''
from demo_common import *
import io
import json
from contextlib import redirect_stdout
from pyconform.cli.vardeps import main
p = os.path.join(SCRATCH, "spec.json")
json.dump({"v": {"definition": "bounds(lev, idata=2*ilev)", "attributes": {}}}, open(p, "w"))
out = io.StringIO()
with redirect_stdout(out):
    main(["-n", p])
expect("ilev" in out.getvalue(), out.getvalue())
'''
