ID="c11-keyword-leak"; PROPERTY="C11"
EDITS=[("pyconform/parsing.py","""    p[0] = FuncType(p[1], p[3], {})
""","""    p[0] = FuncType(p[1], p[3])
"""),("pyconform/parsing.py","""    p[0] = FuncType(p[1], [], p[3])
""","""    p[0] = FuncType(p[1])
    p[0].kwds.update(p[3])
""")]
NEEDS="two definitions parsed in one process: one with keywords only, and later one with arguments only"
BREAKS="keywords of one definition appear in another one"
DEMO='''
from demo_common import *
from pyconform.parsing import parse_definition
expect(parse_definition("f(a=1)").kwds == {"a": 1}, "keywords")
expect(parse_definition("g(x)").kwds == {}, "keywords of an earlier definition")
'''
