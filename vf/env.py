"""
Environment of a check process: import the code under test from /repo without
letting it write into /repo, and quietly.
"""
import os
import sys

from vf.core import REPO


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # PLY would rewrite the tracked parsetab.py if the grammar changed: keep the
    # tables in memory instead.
    import ply.yacc

    real = ply.yacc.yacc

    def yacc(*args, **kwds):
        kwds["write_tables"] = False
        kwds["debug"] = False
        kwds.setdefault("errorlog", ply.yacc.NullLogger())
        if not args and "module" not in kwds:
            # PLY finds the grammar through the calling frame: this wrapper is in between
            kwds["module"] = sys.modules[sys._getframe(1).f_globals["__name__"]]
        return real(*args, **kwds)

    if not getattr(ply.yacc, "_vf_wrapped", False):
        ply.yacc.yacc = yacc
        ply.yacc._vf_wrapped = True
    import pyconform

    here = os.path.realpath(pyconform.__file__)
    if not here.startswith(REPO + os.sep):
        raise RuntimeError("pyconform was imported from {} not {}".format(here, REPO))
