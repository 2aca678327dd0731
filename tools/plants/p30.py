ID="c31-second-external-variable"; PROPERTY="C31"
EDITS=[("pyconform/cli/iconform.py","""                                or "FILL" in attr["external_variables"]
                            ):
                                attr["external_variables"] = "volcello"
""","""                                or "areacello" in attr["external_variables"]
                            ):
                                attr["external_variables"] = "volcello"
""")]
NEEDS="a variable whose cell measures name both the area and the volume of ocean cells"
BREAKS="the list of external variables names only the volume, or __FILL__ remains"
DEMO='''
from demo_common import *
from pyconform.cli.iconform import fill_missing_glob_attributes
v = {"cell_measures": "area: areacello volume: volcello", "frequency": "mon", "mipTable": "Omon"}
got = fill_missing_glob_attributes({"external_variables": "__FILL__"}, {}, v, {})
expect(got.get("external_variables") == "areacello volcello", str(got))
'''
