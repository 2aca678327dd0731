ID="c30-last-row"; PROPERTY="C30"
EDITS=[("pyconform/cli/vardeps.py",'def print_columnar(x, textwidth=10000000, indent=0, header=""):','def print_columnar(x, textwidth=200, indent=0, header=""):'),
("pyconform/cli/vardeps.py","""    Nc = (textwidth - indent + 3) // (Lmax + 3)
    Nr = len(x) // Nc + int(len(x) % Nc > 0)
    A = [x[i::Nr] for i in range(Nr)]
""","""    Nc = max((textwidth - indent + 3) // (Lmax + 3), 1)
    Nr = max(len(x) // Nc, 1)
    A = [x[i * Nc : (i + 1) * Nc] for i in range(Nr)]
""")]
NEEDS="a definition with so many or so long names that they need more than one row, the last one incomplete"
BREAKS="the names of the last row are not listed"
DEMO='''
from demo_common import *
import io
import json
from contextlib import redirect_stdout
from pyconform.cli.vardeps import main
names = ["component_number_%02d" % k for k in range(23)]
p = os.path.join(SCRATCH, "spec.json")
json.dump({"v": {"definition": "+".join(names), "attributes": {}}}, open(p, "w"))
out = io.StringIO()
with redirect_stdout(out):
    main(["-n", p])
first = out.getvalue().split("Complete")[0]
missing = [n for n in names if n not in first]
expect(not missing, str(missing))
'''
