ID="c11-quotes-within-quotes"; PROPERTY="C11"
EDITS=[("pyconform/parsing.py","    t.value = t.value[1:-1]\n","    t.value = t.value.strip(t.value[0])\n")]
NEEDS="a quoted argument that begins or ends with a quote character of its own"
BREAKS="quote characters that belong to the text are lost"
DEMO='''
from demo_common import *
from pyconform.parsing import parse_definition
bs = chr(92)
text = 'f("say ' + bs + '"hi' + bs + '"")'
got = parse_definition(text).args[0]
expect(got == 'say ' + bs + '"hi' + bs + '"', repr(got))
'''
