"""C31: generated specifications reproduce the request tables and the definitions"""
import contextlib
import io
import json
import os
import re
import subprocess
import sys
import uuid
from collections import OrderedDict

import numpy as np

from vf import flow
from vf.core import Violation

ID = "C31"
LEVEL = "exploration"
TECHNIQUE = "output monitor: files written by the real generator against specifications computed from the generated tables"
RULE = ("random CMOR request tables (1 to 3, with generic levels, requested and scalar axes, blank fields, own "
        "frequencies), definition files with table and coordinate sections, comments, blank and keyword definitions, and "
        "1 to 3 files of global attributes (text and JSON, blanks to be filled); every specification written is compared "
        "key by key with one computed from the same structures, handed to the output dataset description, and some are "
        "converted; distinct by options, tables, definitions and attributes")
CASES = {"quick": 2500, "thorough": 60000}
REQUIRED = ["tables_2", "user_list", "listed_elsewhere", "blank_definition", "unmatched", "table_without_section",
            "coords_override", "coords_decoy", "requested_list", "requested_text", "generic_level", "missing_axis_definition",
            "filled", "similar_names", "folder_like_json", "several_attribute_files", "attributes_json", "attributes_number", "parent", "no_parent", "variant",
            "further_info", "grids", "external_variables", "own_frequency", "deflate", "classic", "experiments_2",
            "test_output", "valid_spec", "converted", "scalar_variable", "input_glob", "equals_sign", "process", "untyped_axis"]

TABLES = ["Amon", "Omon", "day", "fx", "3hr", "Lmon", "6hrLev", "Eyr", "AERmon", "CFsubhr", "Odec", "SIday", "Site10"]
FREQ = {"mon": "_{%Y%m-%Y%m}", "day": "_{%Y%m%d-%Y%m%d}", "fx": "", "3hr": "_{%Y%m%d%H%M-%Y%m%d%H%M}",
        "6hr": "_{%Y%m%d%H%M-%Y%m%d%H%M}", "yr": "_{%Y-%Y}", "monC": "_{%Y%m-%Y%m}-clim", "dec": "_{%Y-%Y}",
        "subhrPt": "_{%Y%m%d%H%M-%Y%m%d%H%M}", "1hrCM": "_{%Y%m%d%H%M-%Y%m%d%H%M}-clim", "odd": ""}
TYPES = {"real": "real", "double": "double", "integer": "int", "int": "int", "float": "float", "character": "char"}
REALMS = ["atmos", "land", "landIce", "ocean", "seaIce", "atmosChem", "ocnBgChem", "aerosol"]
NAMES = ["tas", "pr", "ta", "ua", "zg", "hus", "cl", "sos", "thetao", "mrso", "snw", "sic", "co2mass", "ps", "rlut", "od550"]
PATH = "{out}/{mip_era}/{activity_id}/{institution_id}/{source_id}/{exp}/{ripf}/{table}/{var}/{grid}/"


def axis(rng, ctx, name):
    a = OrderedDict()
    a["standard_name"] = name.rstrip("12345678")
    a["units"] = {"time": "days since ?", "longitude": "degrees_east", "latitude": "degrees_north"}.get(
        name.rstrip("12"), rng.choice(["Pa", "m", "1", ""]))
    a["axis"] = rng.choice(["X", "Y", "Z", "T", ""])
    a["long_name"] = "the " + name
    a["climatology"] = rng.choice(["", "yes"])
    a["formula"] = ""
    a["must_have_bounds"] = rng.choice(["yes", "no"])
    a["out_name"] = name[:3]
    a["positive"] = rng.choice(["", "", "up"])
    a["requested"] = ""
    a["requested_bounds"] = ""
    a["stored_direction"] = rng.choice(["increasing", ""])
    a["tolerance"] = ""
    a["type"] = rng.choice(["double", "double", "real", "integer"])
    a["valid_max"] = ""
    a["valid_min"] = ""
    a["value"] = ""
    if name == "plev8":
        a["requested"] = ["100000.", "85000.", "70000.", "50000."][:rng.randint(1, 4)]
        a["positive"] = "down"
        ctx.count("requested_list")
    elif name == "sdepth":
        a["requested"] = rng.choice(["0.05", "0.5 1.5 2.", "1 2"])
        ctx.count("requested_text")
    elif name == "height2m":
        a["value"] = "2."
    elif name == "basin":
        a["type"] = "character"
        a["requested"] = ["atlantic_ocean", "global_ocean"]
    elif name == "site":
        a["type"] = rng.choice(["", "integer"])
        if a["type"] == "":
            ctx.count("untyped_axis")
    return a


def table(rng, ctx, tid, names, simple):
    h = OrderedDict()
    h["data_specs_version"] = rng.choice(["01.00.21", "01.00.05"])
    h["cmor_version"] = "3.2"
    h["table_id"] = rng.choice(["Table ", ""]) + tid
    h["realm"] = rng.choice(REALMS)
    if rng.random() < 0.1:
        h["realm"] = "atmos seaIce"
    h["frequency"] = rng.choice(sorted(FREQ))
    if rng.random() < 0.3:
        h["experiment"] = "an experiment of the table"
    if rng.random() < 0.3:
        h["activity_id"] = "TableMIP"
    h["missing_value"] = "1e20"
    h["product"] = "output"
    generic = rng.choice([None, "", "alevel", "alevel alevhalf", "olevel"])
    if generic is not None:
        h["generic_levels"] = generic
    h["mip_era"] = "CMIP6"
    pool = ["longitude", "latitude", "time", "time1", "plev8", "sdepth", "height2m", "basin", "site"]
    if simple:
        pool = pool[:6]
    axes = OrderedDict((a, axis(rng, ctx, a)) for a in rng.sample(pool, len(pool)))
    levels = (generic or "").split()
    entries = OrderedDict()
    for v in names:
        e = OrderedDict()
        if rng.random() < 0.7:
            e["frequency"] = h["frequency"]
            if rng.random() < 0.3:
                e["frequency"] = rng.choice(sorted(FREQ))
                if e["frequency"] != h["frequency"]:
                    ctx.count("own_frequency")
        e["modeling_realm"] = h["realm"].split()[0]
        e["standard_name"] = rng.choice(["air_temperature", "", "flux"])
        e["units"] = rng.choice(["K", "kg m-2 s-1", "1", "%"])
        e["cell_methods"] = rng.choice(["area: time: mean", "time: point", ""])
        e["cell_measures"] = rng.choice(["", "area: areacella", "area: areacello volume: volcello", "area: areacellr",
                                         "--OPT", "area: areacellg", "area: areacella areacellr",
                                         "area: areacello areacella areacellr areacellg volume: volcello"])
        e["long_name"] = "Name of " + v
        e["comment"] = rng.choice(["", "Comment on " + v])
        d = rng.choice([["longitude", "latitude"], ["longitude", "latitude"], [], ["latitude"]])
        d = d + rng.choice([[], [], ["plev8"], levels[:1], ["sdepth"], ["site"] if not simple else []])
        d = d + rng.choice([["time"], ["time"], ["time1"], []])
        if not simple and rng.random() < 0.2:
            d = d + [rng.choice(["height2m", "basin"])]
        d = [x for x in d if x]
        if set(d) & set(levels):
            ctx.count("generic_level")
        if not d:
            ctx.count("scalar_variable")
        e["dimensions"] = rng.choice([" ", " ", "  "]).join(d)
        e["out_name"] = v
        e["type"] = rng.choice(["real", "real", "double", "integer", ""])
        e["positive"] = rng.choice(["", "", "up", "down"])
        e["valid_min"] = rng.choice(["", "", "-5.5"])
        e["valid_max"] = ""
        e["ok_min_mean_abs"] = ""
        e["ok_max_mean_abs"] = ""
        for k in rng.sample(sorted(e), rng.choice([0, 0, 1, 3])):
            if k not in ("dimensions", "frequency"):
                e.pop(k)
        entries[v] = e
    return OrderedDict([("Header", h), ("axis_entry", axes), ("variable_entry", entries)])


def definitions_file(rng, ctx, defs):
    """Text of the definitions {section: {name: (definition, glob or None)}}"""
    out = []
    for sec, d in defs.items():
        box = rng.random() < 0.5
        if box:
            out.append("#" * 28)
        if sec.startswith("Coords_"):
            out.append("#{}Coords{}:{}{}".format(rng.choice(["", "  "]), rng.choice(["", " "]), rng.choice(["", " "]), sec[7:]))
        else:
            out.append("#{}TABLE{}:{}{}".format(rng.choice(["", "  "]), rng.choice(["", " "]), rng.choice(["", " "]), sec))
        if box:
            out.append("#" * 28)
        for n, (t, g) in d.items():
            line = rng.choice(["", "", "  "]) + n + rng.choice(["=", " = ", "= "]) + t
            if g:
                line += rng.choice(["  #", "#", " # "]) + g
            out.append(line)
            if rng.random() < 0.15:
                out.append(rng.choice(["", "   ", "# remark = here", "##", "#x=y"]))
    return "\n".join(out) + rng.choice(["", "\n"])


DEFS = ["TREFHT", "PRECC + PRECL", "mean(T, 'lev')", "chunits(Q, units='g/kg')", "T[:,0]", "X*2 - Y", "vinth2p(T, hyam)",
        "func(a, b=1, c='x=y')"]


def attributes(rng, ctx, folder):
    """(argument, {name: value or None for a blank to be filled})"""
    a = OrderedDict()

    def maybe(p, k, *v):
        if rng.random() < p:
            a[k] = rng.choice(v)

    a["netcdf_type"] = rng.choice(["NETCDF4", "NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET"])
    maybe(0.8, "activity_id", "CMIP", "ScenarioMIP", None)
    maybe(0.7, "institution_id", "NCAR")
    maybe(0.7, "source_id", "CESM2")
    maybe(0.7, "mip_era", "CMIP6")
    maybe(0.7, "grid_label", "gn", "gr")
    maybe(0.5, "Conventions", "CF-1.7 CMIP-6.2")
    maybe(0.4, "contact", "someone@example.org", None)
    maybe(0.4, "references", "Doe, J. (2020), a=b; see: c")
    for k in ("data_specs_version", "frequency", "realm", "table_id", "variable_id", "tracking_id", "creation_date"):
        maybe(0.6, k, None, None, None, "own")
    maybe(0.6, "external_variables", None)
    maybe(0.4, "further_info_url", None, "http://example.org/x")
    maybe(0.3, "experiment", "my experiment", None)
    maybe(0.4, "experiment_id", "amip", "amip", None)
    maybe(0.3, "sub_experiment_id", "none", "none", None)
    maybe(0.2, "sub_experiment", "none", None)
    maybe(0.4, "variant_label", "r1i1p1f1", "r15i10p3f2", None)
    if a.get("variant_label"):
        ctx.count("variant")
    if rng.random() < 0.3:
        a["grids"] = ",".join(REALMS[:4]) + ":native grid one; " + ",".join(REALMS[4:]) + ":grid two"
        a["grid"] = rng.choice([None, "x"])
        if "realm" not in a or a["realm"] == "own":
            a["realm"] = None
    elif rng.random() < 0.3:
        a["grid"] = rng.choice([None, "my grid"])
    if rng.random() < 0.5:
        if rng.random() < 0.7:
            a["branch_method"] = rng.choice(["standard", "no parent"])
            a["parent_activity_id"] = rng.choice(["CMIP", "CMIP", None])
            a.setdefault("mip_era", "CMIP6")
            a.setdefault("source_id", "CESM2")
        a["branch_time_in_child"] = rng.choice(["365.0D0", "0.0D0", "1.825D3", None])
        a["branch_time_in_parent"] = rng.choice(["36500.0D0", "10", None])
        for k in ("parent_mip_era", "parent_source_id", "parent_time_units"):
            a[k] = rng.choice([None, "t"])
    if rng.random() < 0.5:
        a["compression"] = rng.choice(["0", "1", "2", "5"])
        if rng.random() < 0.5:
            a["shuffle"] = "on"
    # Written into one or more files, later ones replacing values of earlier ones
    nf = rng.choice([1, 1, 2, 3])
    parts = [OrderedDict() for _ in range(nf)]
    for k in rng.sample(list(a), len(a)):
        i = rng.randrange(nf)
        parts[i][k] = a[k]
        if i and rng.random() < 0.2:
            parts[rng.randrange(i)][k] = "replaced"
    files = []
    if rng.random() < 0.15:
        folder = os.path.join(folder, "of_jsons")
        os.mkdir(folder)
        ctx.count("folder_like_json")
    for i, p in enumerate(parts):
        if rng.random() < 0.5 and None not in p.values():
            fn = os.path.join(folder, "attributes%d.json" % i)
            q = OrderedDict(p)
            if rng.random() < 0.5:
                q["number"] = a["number"] = rng.choice([3, 2.5])
                ctx.count("attributes_number")
            if rng.random() < 0.3:
                q["empty"] = None
                a["empty"] = ""
            if q.get("compression", "x").isdigit() and rng.random() < 0.5:
                q["compression"] = int(q["compression"])
            with open(fn, "w") as f:
                json.dump(q, f)
            ctx.count("attributes_json")
        else:
            fn = os.path.join(folder, "attributes%d.ga" % i)
            with open(fn, "w") as f:
                for k, v in p.items():
                    if rng.random() < 0.2:
                        f.write(rng.choice(["\n", "#  branch_method\n", "# comment = nothing\n"]))
                    e = rng.choice(["=", " = "])
                    f.write(k + e + (v if v is not None else "") + "\n")
        files.append(fn)
    if nf > 1:
        ctx.count("several_attribute_files")
    return ",".join(files), a


def fill(ctx, a, head, e, tid):
    """Expected global attributes of the file of a variable"""
    out = OrderedDict((k, v) for k, v in a.items() if k not in ("grids", "netcdf_type"))
    source = {"data_specs_version": head["data_specs_version"], "frequency": e["frequency"], "realm": head["realm"],
              "table_id": tid, "variable_id": e["variable_id"], "creation_date": ""}
    source.update((k, head[k]) for k in ("experiment", "activity_id") if k in head)
    if any(k in out and out[k] is None for k in ("experiment_id", "sub_experiment", "parent_activity_id")) and len(source) > 6:
        ctx.count("similar_names")
    for k, v in source.items():
        if k in out and out[k] is None:
            out[k] = v
            ctx.count("filled")
    if out.get("tracking_id", "") is None:
        out["tracking_id"] = uuid
    if out.get("external_variables", "") is None:
        cm = e.get("cell_measures", "")
        ext = [x for x in ("areacello", "areacella", "areacellr", "areacellg", "volcello") if x in cm]
        if ext:
            out["external_variables"] = " ".join(ext)
            ctx.count("external_variables")
        else:
            del out["external_variables"]
    number = {"365.0D0": 365.0, "0.0D0": 0.0, "1.825D3": 1825.0, None: "", "36500.0D0": 36500.0, "10": 10.0}
    if "branch_method" in out and out["branch_method"] != "no parent":
        ctx.count("parent")
        for k in ("branch_time_in_child", "branch_time_in_parent"):
            out[k] = number[a[k]]
        out["parent_mip_era"] = out["mip_era"]
        out["parent_source_id"] = out["source_id"]
        out["parent_time_units"] = "days since 0001-01-01 00:00:00"
    elif "branch_time_in_child" in out:
        ctx.count("no_parent")
        for k in ("parent_mip_era", "parent_source_id", "parent_time_units"):
            out[k] = "no parent"
        if "branch_method" in out:
            out["branch_time_in_child"] = number[a["branch_time_in_child"]]
            out["branch_time_in_parent"] = 0.0
        else:
            out["branch_time_in_child"] = out["branch_time_in_parent"] = "no parent"
    ripf = "None"
    if out.get("variant_label"):
        n = re.match(r"r(\d+)i(\d+)p(\d+)f(\d+)$", out["variant_label"]).groups()
        for k, i in zip(("realization_index", "initialization_index", "physics_index", "forcing_index"), n):
            out[k] = int(i)
        ripf = out["variant_label"]
    out["variant_label"] = ripf
    if out.get("further_info_url", "") is None:
        need = ("mip_era", "institution_id", "source_id", "experiment_id")
        if all(k in out for k in need) and a.get("variant_label", 0) != 0:
            out["further_info_url"] = "https://furtherinfo.es-doc.org/" + ".".join(
                [out[k] or "__FILL__" for k in need] + [
                    "__FILL__" if out.get("sub_experiment_id", "") is None else out.get("sub_experiment_id", ""), a["variant_label"] or "__FILL__"])
            ctx.count("further_info")
            if "__FILL__" in out["further_info_url"]:
                out["further_info_url"] = ""
    if "grids" in a:
        out["grid"] = "native grid one" if head["realm"].split()[0] in REALMS[:4] else "grid two"
        ctx.count("grids")
    for k, v in out.items():
        if v is None:
            out[k] = ""
    return out, ripf


def expected(ctx, tables, order, defs, a, exp, out_dir, listed):
    """({file key: {name: entry}}, printed lines, exact axes?)"""
    spec, printed = OrderedDict(), []
    for tid, t in tables.items():
        head = t["Header"]
        if tid not in defs:
            ctx.count("table_without_section")
            continue
        sec = defs[tid]
        levels = head.get("generic_levels", "").split()
        names = [v for v in listed if v in t["variable_entry"]] if listed else list(t["variable_entry"])
        for v in names:
            e = dict(t["variable_entry"][v])
            if v not in sec:
                printed.append("missing: " + v)
                ctx.count("unmatched")
                continue
            text, glob = sec[v]
            if not text:
                ctx.count("blank_definition")
            e["variable_id"] = v
            e["mipTable"] = tid
            e["realm"] = head["realm"]
            e["frequency"] = e.get("frequency") or head["frequency"]
            attrs, ripf = fill(ctx, a, head, e, tid)
            dims = list(reversed(e["dimensions"].split())) if "dimensions" in e else []
            w = dict((k, x) for k, x in e.items() if x != "")
            w["comment"] = text
            if dims:
                w["coordinates"] = " ".join(dims)
            kept = dict(attrs)
            fspec = {"attributes": kept, "format": a["netcdf_type"]}
            if a["netcdf_type"].startswith("NETCDF4"):
                if "compression" in a:
                    fspec["deflate"] = int(a["compression"])
                    kept.pop("compression")
                    ctx.count("deflate")
                fspec["shuffle"] = kept.pop("shuffle", None)
            else:
                ctx.count("classic")
            fspec["filename"] = PATH.format(out=out_dir, mip_era=a.get("mip_era", ""), activity_id=(
                "None" if a.get("activity_id", "") is None and not attrs["activity_id"] else attrs.get("activity_id", "")),
                institution_id=a.get("institution_id", ""), source_id=a.get("source_id", ""), exp=exp, ripf=ripf, table=tid,
                var=v, grid=a.get("grid_label", "")), "_".join([v, tid, a.get("source_id", ""), exp, ripf, a.get(
                    "grid_label", "")]) + FREQ[e["frequency"]] + ".nc"
            entry = {"attributes": w, "definition": text, "file": fspec, "dimensions": dims,
                     "datatype": TYPES.get(e.get("type", ""), "real")}
            if glob:
                entry["input_glob"] = glob
                ctx.count("input_glob")
            key = attrs.get("activity_id", "") + "_" + tid + "_" + head["realm"].replace(" ", "_")
            spec.setdefault(key, OrderedDict())[v] = entry
            mine = [r for r in head["realm"].split() if "Coords_" + r in defs]
            near = [s for s in defs if s.startswith("Coords_") and s[7:] in head["realm"]]
            for d in dims:
                if d in spec[key]:
                    continue
                x = {"dimensions": [d]}
                ax = {} if d in levels else t["axis_entry"][d]
                x["attributes"] = dict((k, y) for k, y in ax.items() if y != "")
                if "time" in d:
                    x["attributes"]["units"] = "days since 0001-01-01 00:00:00"
                if ax.get("type"):
                    x["datatype"] = TYPES[ax["type"]]
                r = ax.get("requested", "")
                if r:
                    r = r.split() if isinstance(r, str) else r
                    x["definition"] = r
                if mine and d in defs["Coords_" + mine[0]]:
                    x["definition"] = defs["Coords_" + mine[0]][d][0]
                    ctx.count("coords_override")
                    if len(near) > 1:
                        ctx.count("coords_decoy")
                elif near and not mine:
                    x["definition"] = any  # section of a realm with a similar name
                elif "definition" not in x:
                    ctx.count("missing_axis_definition")
                    if mine:
                        printed.append("MISSING {} in Coords_{} (for variable {})".format(d, mine[0], v))
                spec[key][d] = x
    return spec, printed


def same(x, y):
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        def num(z):
            try:
                return [float(i) for i in z]
            except (TypeError, ValueError):
                return list(z)
        return isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and num(x) == num(y)
    return type(x) in (int, float) and type(y) in (int, float) and x == y or type(x) is type(y) and x == y


def compare(ctx, got, want, what, ids):
    """One entry of a specification"""
    for k in sorted(set(got) | set(want)):
        key = "entry-" + k
        if k == "definition" and want.get(k) is any:
            continue
        if k == "attributes":
            match(ctx, got.get(k), want[k], "attributes", what)
        elif k == "file":
            f, w = got.get(k, {}), want[k]
            ctx.check(isinstance(f, dict) and set(f) - {"shuffle"} == set(w) - {"shuffle"}, "file-keys",
                      lambda: "{}: file section has {} expected {}".format(what, sorted(f), sorted(w)))
            ctx.check("shuffle" not in f or same(f["shuffle"], w["shuffle"]), "file-shuffle",
                      lambda: "{}: shuffle is {!r} expected {!r}".format(what, f["shuffle"], w["shuffle"]))
            fa, wa = dict(f["attributes"]), dict(w["attributes"])
            if wa.get("tracking_id") is uuid:
                t = fa.pop("tracking_id", None)
                wa.pop("tracking_id")
                ok = isinstance(t, str) and re.match(r"hdl:21\.14100/[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$", t)
                ctx.check(ok and t not in ids, "tracking_id", lambda: "{}: tracking id {!r} of {} others".format(what, t, len(ids)))
                ids.add(t)
            if not w["format"].startswith("NETCDF4"):
                for n in ("compression", "shuffle"):
                    fa.pop(n, None)
                    wa.pop(n, None)
            match(ctx, fa, wa, "file-attributes", what)
            for n in ("format", "deflate"):
                ctx.check(same(f.get(n), w.get(n)), "file-" + n, lambda: "{}: {} is {!r} expected {!r}".format(
                    what, n, f.get(n), w.get(n)))
            head, tail = w["filename"]
            g = f["filename"]
            ok = g.startswith(head) and re.match(r"v\d{8}/", g[len(head):]) and g[len(head) + 10:] == tail
            ctx.check(ok, "filename", lambda: "{}: file name {!r} expected {!r} version {!r}".format(what, g, head, tail))
        elif k == "input_glob":
            g = got.get(k)
            ctx.check(isinstance(g, str) and g.strip() == want.get(k, ""), key, lambda: "{}: {!r} expected {!r}".format(
                what, g, want.get(k)))
        else:
            ctx.check(k in got and k in want and same(got[k], want[k]), key,
                      lambda: "{}: {} is {!r} expected {!r}".format(what, k, got.get(k), want.get(k)))
    ctx.count("entries")


def match(ctx, got, want, key, what):
    for k in sorted(set(got) | set(want)):
        ctx.check(k in got and k in want and same(got[k], want[k]), key,
                  lambda: "{}: {} {} is {!r} expected {!r}".format(what, key, k, got.get(k, "absent"), want.get(k, "absent")))


def make(ctx, rng, folder, simple=False):
    ids = rng.sample(TABLES, rng.choice([1, 1, 2, 3]))
    tables = OrderedDict()
    for i in ids:
        tables[i] = table(rng, ctx, i, rng.sample(NAMES, rng.choice([1, 2, 4, 8])), simple)
    if len(ids) > 1:
        ctx.count("tables_2")
    files = []
    for i, t in tables.items():
        files.append(os.path.join(folder, "CMIP6_" + i + ".json"))
        with open(files[-1], "w") as f:
            json.dump(t, f)
    defs = OrderedDict()
    for i, t in tables.items():
        if rng.random() < 0.1:
            continue
        sec = OrderedDict()
        for v in rng.sample(list(t["variable_entry"]), len(t["variable_entry"])):
            if rng.random() < 0.85:
                text = rng.choice(DEFS) if rng.random() < 0.85 else ""
                if "=" in text:
                    ctx.count("equals_sign")
                sec[v] = (text, rng.choice([None, None, "*.h0.*.nc", "tas*"]))
        if rng.random() < 0.3:
            sec["unknown"] = ("X", None)
        defs[i] = sec
    if rng.random() < 0.2:
        defs["Other"] = OrderedDict([("tas", ("T", None))])
    realms = sorted(set(r for t in tables.values() for r in t["Header"]["realm"].split()))
    some = [r for r in realms if rng.random() < 0.75] + rng.sample(["land", "landIce", "atmos", "ocean", "atmosChem"], 2)
    for t in tables.values():  # One section for each table
        two = t["Header"]["realm"].split()
        if len(two) == 2 and set(two) <= set(some):
            gone = rng.choice(two)
            some = [r for r in some if r != gone]
    for r in sorted(set(some)):
        sec = OrderedDict()
        for d in ["time", "time1", "latitude", "longitude", "alevel", "alevhalf", "olevel", "height2m", "site", "plev8"]:
            if rng.random() < (1.0 if simple else 0.8) and (d != "plev8" or rng.random() < 0.2):
                sec[d] = (rng.choice([d, "in_" + d, "f({}, a=1)".format(d), ""]) if not simple else d, None)
        defs["Coords_" + r] = sec
    keys = list(defs)
    rng.shuffle(keys)
    defs = OrderedDict((k, defs[k]) for k in keys)
    dfile = os.path.join(folder, "defs.def")
    with open(dfile, "w") as f:
        f.write(definitions_file(rng, ctx, defs))
    garg, a = attributes(rng, ctx, folder)
    argv = ["-d", dfile, "-g", garg, "-tt", "cmor", "-t", ",".join(files)]
    listed = []
    if rng.random() < 0.4:
        pool = sorted(set(v for t in tables.values() for v in t["variable_entry"]))
        listed = rng.sample(pool, rng.randint(1, len(pool)))
        if any(v not in t["variable_entry"] for v in listed for t in tables.values()):
            ctx.count("listed_elsewhere")
        ctx.count("user_list")
        if rng.random() < 0.5:
            fn = os.path.join(folder, "list.txt")
            with open(fn, "w") as f:
                f.write("\n".join(rng.choice([v, " " + v, v + "\n"]) for v in listed) + "\n")
            argv += ["-u", fn]
        else:
            argv += ["-u", ",".join(listed)]
    exps = rng.sample(["amip", "historical", "my_exp"], rng.choice([1, 1, 2]))
    if len(exps) > 1:
        ctx.count("experiments_2")
    argv += [rng.choice(["-e", "--exp"]), ",".join(exps)]
    spec_dir = os.path.join(folder, "specs", "x") if rng.random() < 0.5 else folder + "/specs"
    out_dir = os.path.join(folder, "out")
    argv += ["-o", spec_dir, "-p", out_dir]
    test = rng.random() < 0.2
    if test:
        argv += ["-to", "True"]
        ctx.count("test_output")
    return argv, tables, defs, a, exps, spec_dir, out_dir, listed, test


def judge(ctx, made, text, what):
    argv, tables, defs, a, exps, spec_dir, out_dir, listed, test = made
    lines = text.split("\n")
    got = {}
    for fn in sorted(os.listdir(spec_dir)):
        with open(os.path.join(spec_dir, fn)) as f:
            got[fn] = json.load(f)
    ids, files, valid = set(), set(), []
    messages = []
    for exp in exps:
        spec, printed = expected(ctx, tables, tables, defs, a, exp, out_dir, listed)
        messages += printed
        for key, entries in spec.items():
            if not test:
                fn = "{}_{}_spec.json".format(exp, key)
                files.add(fn)
                ctx.check(fn in got, "file-missing", lambda: "{}: no {} in {}".format(what, fn, sorted(got)))
                ctx.check(set(got[fn]) == set(entries), "entries", lambda: "{}: {} has {} expected {}".format(
                    what, fn, sorted(got[fn]), sorted(entries)))
                for n in entries:
                    compare(ctx, got[fn][n], entries[n], what + ": " + fn + ": " + n, ids)
                valid.append((fn, entries))
                continue
            for n in entries:
                fn = "{}_{}_{}_spec.json".format(exp, key, n)
                if "file" not in entries[n]:
                    files.add(fn)
                    continue
                files.add(fn)
                ctx.check(fn in got, "file-missing", lambda: "{}: no {} in {}".format(what, fn, sorted(got)))
                mine = [n] + entries[n]["dimensions"]
                ctx.check(set(got[fn]) == set(mine), "entries", lambda: "{}: {} has {} expected {}".format(
                    what, fn, sorted(got[fn]), sorted(mine)))
                here = set()
                for m in mine:
                    compare(ctx, got[fn][m], entries[m], what + ": " + fn + ": " + m, here)
                valid.append((fn, dict((m, entries[m]) for m in mine)))
    extra = set(got) - files
    ctx.check(not extra, "file-extra", lambda: "{}: unexpected {}".format(what, sorted(extra)))
    said = sorted(s.strip() for s in lines if s.startswith(("missing:", "MISSING")))
    vague = any(x.get("definition") is any for _f, e in valid for x in e.values())
    want = sorted(messages)
    if vague:
        said, want = [[s for s in x if s.startswith("missing:")] for x in (said, want)]
    ctx.check(said == want, "messages", lambda: "{}: printed {} expected {}".format(what, said, want))
    return got, valid


def accepted(ctx, got, valid, what):
    """Everything complete that was written is accepted by the converter"""
    from pyconform import datasets

    for fn, entries in valid:
        if any(x.get("definition", None) in (None, any, "") and "file" not in x for x in entries.values()):
            continue
        if any(x.get("datatype") == "char" for x in entries.values()):
            continue
        try:
            ds = datasets.OutputDatasetDesc("out", dsdict=got[fn])
        except Exception as e:
            ctx.fail("invalid-spec", "{}: {} rejected: {!r}".format(what, fn, e))
        own = [n for n, x in entries.items() if "file" in x and x["definition"]]
        names = sorted(got[fn][n]["file"]["filename"] for n in own)
        ctx.check(sorted(ds.files) == names, "files-described", lambda: "{}: {} describes {} expected {}".format(
            what, fn, sorted(ds.files), names))
        for n in own:
            d = ds.files[got[fn][n]["file"]["filename"]]
            w = entries[n]["file"].get("deflate", 2)
            ctx.check(d.deflate == w, "deflate", lambda: "{}: {} {} deflate {} expected {}".format(what, fn, n, d.deflate, w))
        ctx.count("valid_spec")


def text_of(made):
    out = []
    for a in made[0]:
        for p in a.split(","):
            if p.startswith("/") and os.path.isfile(p):
                with open(p) as f:
                    out.append(os.path.basename(p) + "=" + f.read())
    return " ".join(made[0]) + "\n" + "\n".join(out)


def generate(made):
    from pyconform.cli import iconform

    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        iconform.main(made[0])
    return text.getvalue()


def case(ctx):
    rng = ctx.rng
    folder = ctx.scratch()
    if rng.random() < 0.04:
        return convert(ctx)
    made = make(ctx, rng, folder)
    printed = generate(made)
    what = text_of(made)
    try:
        got, valid = judge(ctx, made, printed, "specifications")
        accepted(ctx, got, valid, "specifications")
    except Violation as e:
        raise Violation(e.key, e.message + "\n" + what)
    ctx.sample(what[:3000])
    ctx.nontrivial(what.replace(folder, ""))


def convert(ctx):
    """A generated specification drives the converter"""
    made = []
    try:
        _convert(ctx, made)
    except Violation as e:
        raise Violation(e.key, e.message + "\n" + text_of(made[0]))


def _convert(ctx, out):
    rng, np_rng = ctx.rng, ctx.np_rng
    folder = ctx.scratch()
    made = make(ctx, rng, folder, simple=True)
    out.append(made)
    argv, tables, defs, a, exps, spec_dir, out_dir, listed, test = made
    for tid, t in tables.items():  # definitions that read one variable of the same dimensions
        for v, e in t["variable_entry"].items():
            e["dimensions"] = "longitude latitude time"
            e["units"] = "K"
            e["type"] = rng.choice(["real", "double", ""])
            e["frequency"] = rng.choice(["mon", "day", "yr"])
            if tid in defs and v in defs[tid]:
                defs[tid][v] = (rng.choice(["T1", "T2", "T1 + T2"]), None)
        with open(os.path.join(folder, "CMIP6_" + tid + ".json"), "w") as f:
            for x in t["axis_entry"].values():
                x["type"] = "double"
            json.dump(t, f)
        for r in t["Header"]["realm"].split()[:1]:
            for s in [s for s in defs if s.startswith("Coords_")]:
                defs[s] = OrderedDict((d, (d, None)) for d in ("time", "latitude", "longitude"))
            defs["Coords_" + r] = OrderedDict((d, (d, None)) for d in ("time", "latitude", "longitude"))
        two = t["Header"]["realm"].split()[1:]
        for r in two:
            defs.pop("Coords_" + r, None)
    for r in set(t["Header"]["realm"].split()[0] for t in tables.values()):
        defs.setdefault("Coords_" + r, OrderedDict((d, (d, None)) for d in ("time", "latitude", "longitude")))
    with open(os.path.join(folder, "defs.def"), "w") as f:
        f.write(definitions_file(rng, ctx, defs))
    printed = generate(made)
    what = "conversion"
    if any(len(t["Header"]["realm"].split()) > 1 for t in tables.values()):
        return
    got, valid = judge(ctx, made, printed, what)
    accepted(ctx, got, valid, what)
    import netCDF4

    src = os.path.join(folder, "in.nc")
    nt, ny, nx = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 4)
    data = {}
    with netCDF4.Dataset(src, "w") as ds:
        for d, n in (("time", nt), ("latitude", ny), ("longitude", nx)):
            ds.createDimension(d, n)
            v = ds.createVariable(d, "f8", (d,))
            v.units = {"time": "days since 0001-01-01 00:00:00", "latitude": "degrees_north", "longitude": "degrees_east"}[d]
            v[:] = data[d] = np.arange(1.0, n + 1) * (400 if d == "time" else 1)
            if d == "time":
                v.calendar = "noleap"
        for n in ("T1", "T2"):
            v = ds.createVariable(n, "f8", ("time", "latitude", "longitude"))
            v.units = "K"
            v[:] = data[n] = np_rng.uniform(200, 300, (nt, ny, nx))
    data["T1 + T2"] = data["T1"] + data["T2"]
    for fn, entries in valid:
        flow.run([src], got[fn])
    names = flow.listing(out_dir) if os.path.isdir(out_dir) else []
    seen = set()
    for fn, entries in valid:
        for n, x in entries.items():
            if "file" not in x or x["definition"] == "":
                continue
            # The dates of the range, from days of years of 365 days
            full = got[fn][n]["file"]["filename"]
            stem = os.path.normpath(full.split("{")[0])
            mine = [p for p in names if p.startswith(stem)]
            ctx.check(len(mine) == 1, "converted-file", lambda: "{}: {} files for {} in {}".format(what, mine, full, names))
            seen.add(mine[0])
            r = flow.read(mine[0])
            _t, dims, vals, attrs = r["vars"][n]
            want = data[x["definition"]]
            ctx.check(dims == ("time", "latitude", "longitude") and np.allclose(vals, want, rtol=1e-6), "converted-data",
                      lambda: "{}: {} of {} is {} {} expected {}".format(what, n, mine[0], dims, vals, want))
            ctx.check(attrs.get("units") == "K" and attrs.get("comment") == x["definition"], "converted-attributes",
                      lambda: "{}: attributes {}".format(what, attrs))
            for k, w in got[fn][n]["file"]["attributes"].items():
                g = r["attrs"].get(k)
                if k == "creation_date":  # set when the file is written
                    w = g if re.match(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$", str(g)) else w
                ctx.check(g == w or (w == "" and k not in r["attrs"]), "converted-global",
                          lambda: "{}: global {} is {!r} expected {!r}".format(what, k, g, w))
            year = int((data["time"][0]) // 365) + 1
            ctx.check(os.path.basename(mine[0])[len(os.path.basename(stem)):].startswith("%04d" % year), "converted-date",
                      lambda: "{}: {} for first year {}".format(what, mine[0], year))
            ctx.count("converted")
    ctx.check(seen == set(names), "converted-extra", lambda: "{}: {} written, expected {}".format(what, names, sorted(seen)))
    ctx.nontrivial(text_of(made).replace(folder, ""))


def process(ctx):
    rng = ctx.rng
    repo = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["pyconform"].__file__)))
    made = make(ctx, rng, ctx.scratch())

    def go(argv):
        return subprocess.run([sys.executable, "-W", "ignore", "-m", "pyconform.cli.iconform"] + argv, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, timeout=200, env=dict(os.environ, PYTHONPATH=repo),
                              cwd=ctx.scratch())

    p = go(made[0])
    ctx.check(p.returncode == 0, "exit", lambda: "{}: {} {}".format(text_of(made), p.returncode, p.stderr[-1500:]))
    judge(ctx, made, p.stdout, text_of(made))
    i = made[0].index("-d")
    p = go(made[0][:i + 1] + ["/nonexistent/defs"] + made[0][i + 2:])
    ctx.check(p.returncode != 0, "missing-file", lambda: p.stdout)
    i = made[0].index("-g")
    g = made[0][i + 1].split(",")
    g.insert(rng.randint(0, len(g)), "/nonexistent/attributes" + rng.choice(["", ".json"]))
    p = go(made[0][:i + 1] + [",".join(g)] + made[0][i + 2:])
    ctx.check(p.returncode != 0, "missing-attributes-file", lambda: "{}: {}".format(g, p.stdout))
    ctx.count("process")


def fixed(tier):
    return [("process%d" % i, process) for i in range(2 if tier == "quick" else 10)] + [
        ("convert%d" % i, convert) for i in range(20 if tier == "quick" else 200)]
