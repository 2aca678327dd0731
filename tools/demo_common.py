"""Helpers of the demonstrations: small input files, runs in a scratch directory that is removed"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings
from collections import OrderedDict

import netCDF4
import numpy as np

import ply.yacc

_yacc = ply.yacc.yacc


def _quiet(*a, **k):  # never rewrite the tracked parser tables
    k["write_tables"] = False
    k["debug"] = False
    k.setdefault("errorlog", ply.yacc.NullLogger())
    if not a and "module" not in k:
        k["module"] = sys.modules[sys._getframe(1).f_globals["__name__"]]
    return _yacc(*a, **k)


ply.yacc.yacc = _quiet

SCRATCH = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)


def infile(name, dims, variables, unlimited=()):
    """dims {name: size}, variables {name: (dims, data, attributes)}"""
    path = os.path.join(SCRATCH, name)
    with netCDF4.Dataset(path, "w") as f:
        for d, n in dims.items():
            f.createDimension(d, None if d in unlimited else n)
        for n, (ds, data, attrs) in variables.items():
            data = np.ma.asarray(data)
            v = f.createVariable(n, data.dtype, ds, fill_value=attrs.get("_FillValue"))
            v.setncatts({k: x for k, x in attrs.items() if k != "_FillValue"})
            v[...] = data
    return path


def var(definition, dims, datatype="double", file=None, **attrs):
    v = OrderedDict(definition=definition, datatype=datatype, dimensions=list(dims), attributes=OrderedDict(attrs))
    if file:
        v["file"] = file if isinstance(file, dict) else {"filename": os.path.join(SCRATCH, file)}
    return v


def flow(files, spec):
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    return DataFlow(InputDatasetDesc(filenames=files), OutputDatasetDesc(dsdict=spec))


def convert(files, spec, **kw):
    """Runs quietly; returns the warnings"""
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            flow(files, spec).execute(serial=True, **kw)
    finally:
        sys.stdout.close()
        sys.stdout = out
    return w


def read(name, v):
    with netCDF4.Dataset(os.path.join(SCRATCH, name)) as f:
        return np.ma.asarray(f.variables[v][...])


def expect(cond, message):
    if not cond:
        print("BROKEN:", message)
        sys.exit(1)
