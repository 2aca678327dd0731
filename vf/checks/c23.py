"""C23: time-series files are put in date order and gaps are found"""
import hashlib
import os

import numpy as np

from vf import cal as C

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "outcome monitor: returned order, counts and error against the generated dates; file hashes and open descriptors"
RULE = ("random series of one to six files (twelve frequencies, six calendars, units and reference dates that differ "
        "between files, with and without bounds) given in random order, intact or with a file or steps removed, "
        "repeated or overlapping; non-trivial = more than one file; distinct by frequency, split and fault")
CASES = {"quick": 4500, "thorough": 40000}
REQUIRED = ["intact", "one_file", "file_removed", "end_file_removed", "file_repeated", "steps_removed",
            "step_repeated", "overlap", "year_removed", "mixed_frequency", "bounds", "mixed_units", "shuffled",
            "no_calendar", "same_average", "not_aligned", "one_letter", "delayed", "crosses_leap_day"] + ["calendar_" + c for c in C.CALENDARS]

FREQS = ["1hour", "3hour", "6hour", "12hour", "30min", "day", "5day", "7day", "mon", "season", "year", "decade"]
PER = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}


def _series(rng, cal, freq, n, stamp):
    """(start, stamp) in seconds from the start of year 1 of n consecutive steps, and the end of the last"""
    y = rng.choice([rng.randint(1583, 2300), rng.randint(1, 900) if cal != "standard" else 1999, 1999, 1850])
    edges = []
    if freq in ("mon", "season", "year", "decade"):
        k = {"mon": 1, "season": 3, "year": 12, "decade": 120}[freq]
        m = rng.randint(1, 12)
        d, s = rng.choice([(1, 0), (1, 0), (15, 43200), (1, 6 * 3600)])
        for i in range(n + 1):
            mm = m - 1 + i * k
            edges.append(C.day(cal, y + mm // 12, mm % 12 + 1, d) * 86400 + s)
    else:
        step = {"1hour": 3600, "3hour": 10800, "6hour": 21600, "12hour": 43200, "30min": 1800, "day": 86400,
                "5day": 5 * 86400, "7day": 7 * 86400}[freq]
        s = C.day(cal, y, rng.randint(1, 12), rng.randint(1, 28)) * 86400 + rng.choice([0, 0, 43200, 10800])
        edges = [s + i * step for i in range(n + 1)]
    out = []
    for a, b in zip(edges, edges[1:]):
        out.append((a, {"start": a, "end": b, "middle": (a + b) / 2.0}[stamp], b))
    return out


def case(ctx):
    import netCDF4
    from pyconform import mapdates

    rng = ctx.rng
    folder = ctx.scratch()
    cal = rng.choice(C.CALENDARS)
    freq = rng.choice(FREQS)
    nf = rng.choice([1, 2, 3, 4, 6])
    sizes = [rng.choice([3, 4, 5, 12]) for _ in range(nf)]
    fault = rng.choice(["intact", "intact", "intact", "file_removed", "end_file_removed", "file_repeated",
                        "steps_removed", "step_repeated", "overlap", "year_removed", "mixed_frequency", "same_average", "delayed"])
    bounds = rng.random() < 0.5
    stamp = rng.choice(["start", "end", "middle"]) if bounds else rng.choice(["start", "end"])
    total = sum(sizes)
    series = _series(rng, cal, freq, total + 12, stamp)
    files, at = [], 0
    for k in sizes:
        files.append(series[at:at + k])
        at += k
    error = True
    listed = True
    if fault == "file_removed" and nf >= 3:
        del files[rng.randint(1, nf - 2)]
    elif fault == "end_file_removed" and nf >= 2:
        del files[rng.choice([0, -1])]
        error = False
    elif fault == "file_repeated":
        i = rng.randrange(nf)
        files.insert(i, list(files[i]))
    elif fault == "steps_removed":
        i = rng.randrange(nf)
        f = series[sum(sizes[:i]):sum(sizes[:i]) + max(4, sizes[i])] if i == nf - 1 else files[i]
        if len(f) < 4:
            fault = "intact"
        else:
            f = list(f)
            del f[rng.randint(1, len(f) - 2)]
            files[i] = f
            listed = False
    elif fault == "step_repeated":
        i = rng.randrange(nf)
        f = list(files[i])
        j = rng.randrange(len(f))
        f.insert(j, f[j])
        files[i] = f
        listed = False
    elif fault == "overlap" and nf >= 2:
        i = rng.randrange(nf - 1)
        files[i] = files[i] + files[i + 1][:rng.randint(1, 2)]
    elif fault == "year_removed" and nf >= 2 and freq == "mon":
        i = rng.randint(1, nf - 1)
        k = sum(sizes[:i])
        tail = series[k + 12:]
        files = files[:i]
        at = 0
        for n in sizes[i:]:
            files.append(tail[at:at + n])
            at += n
        if any(len(f) < 3 for f in files):
            fault, error = "intact", False
    elif fault == "mixed_frequency" and nf >= 2 and freq in ("mon", "year") and series[0][0] % 86400 == 0:
        # days that start where the next month or year would
        a = files[0][-1][2]
        step = 86400
        mids = {"start": 0, "end": step, "middle": step / 2.0}[stamp]
        n = rng.randint(3, 9)
        files = [files[0], [(a + i * step, a + i * step + mids, a + (i + 1) * step) for i in range(n)]]
        if stamp == "end" and not bounds:
            # stamps of the days must meet those of the months
            files[1] = [(x, x, y) for x, _s, y in files[1]]
            files[0] = [(x, x, y) for x, _s, y in files[0]]
    elif fault == "delayed" and PER["days"] * 8 > series[1][0] - series[0][0] and nf > 1:
        # less than a step between two steps too much, within a file or between two
        i = rng.randrange(nf)
        j = rng.randrange(1 if i == 0 else 0, len(files[i]))
        late = (series[1][0] - series[0][0]) * rng.choice([0.02, 0.05, 0.25, 0.5])
        files[i] = [tuple(x + late if n >= j else x for x in f) for n, f in enumerate(files[i])]
        files[i + 1:] = [[tuple(x + late for x in f) for f in g] for g in files[i + 1:]]
        listed = j == 0
    elif fault == "same_average":
        # one file inside another, with the same mean
        i = rng.randrange(nf)
        k = len(files[i])
        if k < 5 or nf > 1:
            fault, error = "intact", False
        else:
            files.insert(0, files[i][1:-1])
    else:
        fault, error = "intact", False
    if fault == "intact":
        error = False
    ctx.count(fault)
    ctx.count("calendar_" + cal)
    nocal = cal == "standard" and rng.random() < 0.4
    if nocal:
        ctx.count("no_calendar")
    one = len(files) <= 9 and rng.random() < 0.15
    if one:
        ctx.count("one_letter")
    mixed = rng.random() < 0.5
    if mixed and len(files) > 1:
        ctx.count("mixed_units")
    if bounds:
        ctx.count("bounds")
    if any(a // 86400 != b // 86400 and C.date(cal, int(b // 86400))[1:] == (3, 1) and freq == "day" for a, _s, b in series):
        ctx.count("crosses_leap_day")
    unit, ref = None, None
    paths, want = [], []
    perm = list(range(len(files)))
    rng.shuffle(perm)
    names = ["f%d.nc" % i for i in perm] if not one else ["abcdefghi"[i] for i in perm]
    for i, f in enumerate(files):
        if unit is None or mixed:
            unit = rng.choice(list(PER))
            y0 = C.date(cal, int(f[0][0] // 86400))[0]
            ry = rng.choice([max(1, y0 - rng.randint(0, 40)), 1850, 2000])
            if cal == "standard" and ry < 1583:
                ry = 1850
            ref = (ry, rng.choice([1, 3, 12]), 1)
        r0 = C.day(cal, *ref) * 86400
        path = os.path.join(folder, names[i])
        with netCDF4.Dataset(path, "w", format=rng.choice(["NETCDF4", "NETCDF3_CLASSIC"])) as nc:
            nc.createDimension("time", None)
            nc.createDimension("b", 2)
            t = nc.createVariable("time", "f8", ("time",))
            t.units = "%s since %04d-%02d-%02d" % ((unit,) + ref) + rng.choice(["", " 00:00:00"])
            if not nocal:
                t.calendar = rng.choice([cal] + [a for a, b in C.ALIAS.items() if b == cal])
            t[:] = [(s - r0) / PER[unit] for _a, s, _b in f]
            if bounds:
                t.bounds = "tb"
                v = nc.createVariable("tb", "f8", ("time", "b"))
                v[:] = np.array([[(a - r0) / PER[unit], (b - r0) / PER[unit]] for a, _s, b in f])
        paths.append(path)
        want.append((f[0][0] if bounds else f[0][1], f[-1][2], names[i], len(f)))
    order = list(range(len(paths)))
    rng.shuffle(order)
    if order != sorted(order):
        ctx.count("shuffled")
    given = [paths[i] for i in order]
    if len(given) == 1:
        ctx.count("one_file")
    before = {p: (hashlib.sha256(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns) for p in paths}
    what = "{} {} {} bounds={} stamp={} {}".format(freq, cal, fault, bounds, stamp, [
        (n, k, C.date(cal, int(s // 86400)), s % 86400) for s, _e, n, k in want])
    if one:
        # names without a folder, of one letter
        here = os.getcwd()
        os.chdir(folder)
        try:
            got = mapdates.get_files_in_order([os.path.basename(p) for p in given])
        finally:
            os.chdir(here)
    else:
        got = mapdates.get_files_in_order(given)
    ctx.check(len(got) == 3, "result", lambda: repr(got))
    files_got, counts, err = got
    ctx.sample(what)
    if len(files) > 1:
        ctx.nontrivial(freq, cal, sizes, fault, order)
    ctx.check(bool(err) == error, "gap" if error else "false-gap",
              lambda: "error {} for {}: {}".format(err, given, what))
    if not error or listed:
        ctx.check(sorted(zip(files_got, counts)) == sorted((n, k) for _a, _b, n, k in want), "listing",
                  lambda: "{} {} for {}".format(files_got, counts, what))
        if fault not in ("file_repeated", "same_average"):
            ctx.check(list(zip(files_got, counts)) == [(n, k) for _a, _b, n, k in sorted(want)], "order",
                      lambda: "{} {} for {}".format(files_got, counts, what))
    after = {p: (hashlib.sha256(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns) for p in paths}
    ctx.check(before == after, "changed", lambda: "files were changed: " + what)
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            fds.append(os.readlink("/proc/self/fd/" + fd))
        except OSError:
            pass
    ctx.check(not [x for x in fds if x.startswith(folder)], "left-open", lambda: "files left open: " + what)
    if not error and len(files) > 1:
        got2 = mapdates.get_files_in_order(sorted(paths), alignment=False)
        ctx.check(tuple(map(list, got2[:2])) == (files_got, counts) and not got2[2], "not-aligned", lambda: what)
        ctx.count("not_aligned")
