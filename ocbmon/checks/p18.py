"""P18: the general ASCII loader returns the table that was written."""

import datetime as dt
import os

import numpy as np

from ocbmon import gen
from ocbmon.checks.p10 import judge_sod
from ocbmon.core import Suite

suite = Suite("P18", "random tables with float, integer, and text columns, "
              "any number of rows and header lines, names from the file or "
              "the caller, separators, comments, and dates split over one to "
              "three columns at any place; unusable files; non-trivial by the "
              "layout and loaded values",
              ["each column of the table has a name"])

# Format, width in columns, function that writes the columns, and resolution
FORMATS = {
    "%Y%m%d %H:%M": lambda tt: [tt.strftime("%Y%m%d"), tt.strftime("%H:%M")],
    "%Y-%m-%d %H:%M:%S": lambda tt: [tt.strftime("%Y-%m-%d"),
                                     tt.strftime("%H:%M:%S")],
    "%Y-%m-%d": lambda tt: [tt.strftime("%Y-%m-%d")],
    "%Y-%m-%dT%H:%M:%S": lambda tt: [tt.strftime("%Y-%m-%dT%H:%M:%S")],
    "%Y %j SOD": lambda tt: [tt.strftime("%Y"), tt.strftime("%j"), sod(tt)],
    "%Y %m %d": lambda tt: [tt.strftime("%Y"), tt.strftime("%m"),
                            tt.strftime("%d")],
    "%Y-%j %H%M%S": lambda tt: [tt.strftime("%Y-%j"), tt.strftime("%H%M%S")],
    "%d-%b-%Y %H:%M:%S": lambda tt: [tt.strftime("%d-%b-%Y"),
                                     tt.strftime("%H:%M:%S")],
    "%A-%d-%B-%Y %H:%M:%S.%f": lambda tt: [tt.strftime("%A-%d-%B-%Y"),
                                           tt.strftime("%H:%M:%S.%f")],
    "%Y-%m-%d %p %I:%M:%S": lambda tt: [tt.strftime("%Y-%m-%d"),
                                        tt.strftime("%p"),
                                        tt.strftime("%I:%M:%S")],
    "%d.%m.%y %I %M %S %p": lambda tt: [tt.strftime(kk) for kk in (
        "%d.%m.%y", "%I", "%M", "%S", "%p")],
    "%Y %m %d %H %M %S %f": lambda tt: [tt.strftime(kk) for kk in (
        "%Y", "%m", "%d", "%H", "%M", "%S", "%f")],
    "%Y%m%d %S:%M:%H": lambda tt: [tt.strftime("%Y%m%d"),
                                   tt.strftime("%S:%M:%H")],
    "%Y%m%d SOD": lambda tt: [tt.strftime("%Y%m%d"), sod(tt)],
    "YYDDD SOD": lambda tt: [yyddd(tt), sod(tt)],
    "yyddd sod": lambda tt: [yyddd(tt), sod(tt)],
    "YYDDD %H:%M:%S": lambda tt: [yyddd(tt), tt.strftime("%H:%M:%S")],
    "YEAR SOY": lambda tt: [tt.strftime("%Y"), soy(tt)],
    "year soy": lambda tt: [tt.strftime("%Y"), soy(tt)],
    "SOY YEAR": lambda tt: [soy(tt), tt.strftime("%Y")],
    "soy YEAR": lambda tt: [soy(tt), tt.strftime("%Y")]}


def sod(tt):
    """Write the seconds of day."""
    sec = tt.hour * 3600 + tt.minute * 60 + tt.second
    return "{:d}".format(sec) if tt.microsecond == 0 else "{:.3f}".format(
        sec + tt.microsecond * 1e-6)


def soy(tt):
    """Write the seconds of year."""
    return str(int((tt.replace(microsecond=0) - dt.datetime(
        tt.year, 1, 1)).total_seconds()))


def yyddd(tt):
    """Write the years since 1900 and the day of year."""
    return "{:d}{:s}".format(tt.year - 1900, tt.strftime("%j"))


def resolve(fmt, tt):
    """Time that the written columns state."""
    if fmt in ("%Y-%m-%d", "%Y %m %d"):
        return tt.replace(hour=0, minute=0, second=0, microsecond=0)
    if fmt == "%Y%m%d %H:%M":
        return tt.replace(second=0, microsecond=0)
    if fmt.lower().find("sod") > 0 or fmt.find("%f") > 0:
        return tt
    return tt.replace(microsecond=0)


@suite.group(360)
def table(case):
    """Every value of the table is in its place."""
    import ocbpy.instruments.general as gener

    rng = case.rng
    num = int(rng.choice([0, 1, 1, 2, 3, 10, 40]))
    if rng.random() < 0.02:
        num = min(gen.LARGE, int(rng.integers(100, 3000)))
    delim = [None, None, ",", ";"][int(rng.integers(4))]
    comment = [None, None, None, "%"][int(rng.integers(4))]
    opts, gft = {}, {}
    if delim is not None:
        gft["delimiter"] = delim
        opts["hsplit"] = delim
    if comment is not None:
        gft["comments"] = comment

    # Draw the columns, as a list of names, types, and texts
    cols = list()
    timed = rng.random() < 0.7
    ncol = int(rng.integers(0 if timed else 1, 6))
    for ii in range(ncol if num > 40 else gen.count(rng, ncol, ncol + 1, 60)):
        kind = str(rng.choice(["float", "float", "int", "str"]))
        if kind == "float":
            vals = [float(repr(float(rng.normal() * 10.0**rng.uniform(-6, 7))))
                    for _ in range(num)]
            text = [repr(vv) if rng.random() < 0.8 else "{:.0f}".format(vv)
                    for vv in vals]
            for jj in range(num):
                if rng.random() < 0.05:
                    text[jj] = str(rng.choice(["nan", "inf", "-inf"]))
            vals = [float(tt) for tt in text]
        elif kind == "int":
            vals = [int(vv) for vv in rng.integers(-10**6, 10**9, num)]
            text = [str(vv) for vv in vals]
        else:
            vals = ["".join(rng.choice(list("abcXYZ019_-."), int(
                rng.integers(1, 70)))) for _ in range(num)]
            text = list(vals)
        cols.append(["{:s}{:d}".format(str(rng.choice(["fom", "R", "x_"])),
                                       ii), kind, text, vals])
    fmt, times, places = None, None, list()
    if timed:
        fmt = str(rng.choice(list(FORMATS)))
        start = gen.start_time(rng)
        frac = rng.random() < 0.3
        times = [start + dt.timedelta(seconds=int(rng.integers(90000)),
                                      milliseconds=int(rng.integers(1000))
                                      * frac) for _ in range(num)]
        parts = [FORMATS[fmt](tt) for tt in times]
        tnames = fmt.split(" ")
        # Put the parts of the time at any place, in order
        spot = sorted(int(ii) for ii in rng.integers(0, len(cols) + 1,
                                                     len(tnames)))
        if rng.random() < 0.3:
            spot = [0] * len(tnames)
        # The columns may be in another order than the parts
        order = list(range(len(tnames)))
        if rng.random() < 0.3:
            order = [int(oo) for oo in rng.permutation(len(tnames))]
        places = [0] * len(tnames)
        for ind, (pos, jj) in enumerate(zip(spot, order)):
            name = tnames[jj]
            low = name.lower()
            kind = {"year": "int", "soy": "int", "sod": "float"}.get(
                low, "time")
            text = [pp[jj] for pp in parts]
            vals = [{"int": int, "float": float, "time": str}[kind](tt)
                    for tt in text]
            name = str(rng.choice(["TIME", "Date", "yr"])) + str(jj)
            cols.insert(pos + ind, [name, kind, text, vals])
            places[jj] = pos + ind
        # An existing column may use the name of the time
        taken = int(rng.choice([0, 0, 0, 0, 1, 2, 3, 4]))
        free = [ii for ii in range(len(cols)) if ii not in places]
        for ii, name in zip(free, ["datetime", "DATETIME", "DT",
                                    "dt"][:taken]):
            cols[ii][0] = name
        opts["datetime_cols"] = list(places)
        opts["datetime_fmt"] = fmt
    ints = [ii for ii, cc in enumerate(cols) if cc[1] == "int"
            and ii not in places]
    strs = [ii for ii, cc in enumerate(cols) if cc[1] == "str"]
    if len(ints) > 0 or rng.random() < 0.2:
        opts["int_cols"] = list(ints)
    if len(strs) > 0 or rng.random() < 0.2:
        opts["str_cols"] = list(strs)
    limit = 50
    if rng.random() < 0.4:
        limit = int(rng.integers(1, 90))
        if fmt is not None and rng.random() < 0.5:
            # Next to the length of the time
            limit = max(1, max([len(tt) for ii in places
                                for tt in cols[ii][2]] + [2])
                        + int(rng.integers(-2, 2)))
        opts["max_str_length"] = limit

    # Write the table
    names = [cc[0] for cc in cols]
    sep = delim if delim is not None else " "
    hlines = int(rng.integers(0, 4))
    lines = ["{:s}header line {:d} of 3".format("# " if rng.random() < 0.7
                                                else "", ii)
             for ii in range(hlines)]
    title = sep.join(names)
    if delim is None and rng.random() < 0.3:
        title = "   ".join(names)
    if rng.random() < 0.6:
        title = str(rng.choice(["#", "# "])) + title
    if comment is not None and rng.random() < 0.5:
        title += " " + comment + " these are names"
    given = hlines == 0 or rng.random() < 0.4
    if given:
        # The names of the caller take precedence
        opts["header"] = (["by the caller"] if rng.random() < 0.3 else []) \
            + [title]
    else:
        lines[-1] = title
    body = list()
    for ii in range(num):
        row = sep.join(cc[2][ii] for cc in cols)
        if delim is None and rng.random() < 0.3:
            row = "  " + row.replace(" ", "  ") + "  "
        if rng.random() < 0.08:
            row += " {:s} remark".format("#" if comment is None else comment)
        if rng.random() < 0.05:
            body.append(("#" if comment is None else comment) + " left out")
        if rng.random() < 0.05:
            body.append("")
        body.append(row)
    path = os.path.join(case.tmp, "table_{:d}".format(next(gen.COUNT)))
    with open(path, "w") as fout:
        fout.write("\n".join(lines + body) + ("\n" if rng.random() < 0.9
                                              else ""))
    if len(gft) > 0:
        opts["gft_kwargs"] = gft
    case.show(text=lines + body, opts=opts, hlines=hlines)
    if os.path.getsize(path) == 0:
        lines = None
    keep = repr(opts)
    out = case.call(gener.load_ascii_data, path, hlines, **opts)
    case.same(repr(opts), keep, "input was altered")
    case.check(len(out) == 2, "output", out)
    head = list(opts.get("header", []))
    if lines is None:
        case.same(list(out[0]), head, "header of an empty file")
        case.same(out[1], {}, "data of an empty file")
        return
    case.same(list(out[0]), head + [ll.strip() for ll in lines],
              "header lines")
    want = dict()
    for name, kind, text, vals in cols:
        want[name] = (kind, vals)
    case.same(list(out[1])[:len(names)], names, "columns")
    tkey = [kk for kk in out[1] if kk not in want]
    if fmt is None:
        case.same(tkey, [], "columns which were not written")
    else:
        used = [kk for kk in ("datetime", "DATETIME", "DT", "dt")
                if kk not in want][:1]
        case.same(tkey, used, "name of the time")
    if fmt is not None and len(used) > 0:
        case.check(len(out[1][tkey[0]]) == num, "number of times",
                   len(out[1][tkey[0]]), num)
        for got, tt in zip(out[1][tkey[0]], times):
            tt = resolve(fmt, tt)
            if fmt.lower().find("sod") >= 0 and tt.microsecond > 0:
                day = tt.replace(hour=0, minute=0, second=0, microsecond=0)
                judge_sod(case, got, day, float(sod(tt)))
            else:
                case.same(got, tt, "time by format " + fmt)
    width = max([limit] + [0 if fmt is None else len(tt) for ii in places
                           for tt in cols[ii][2]])
    for name, (kind, vals) in want.items():
        got = out[1][name]
        case.check(len(got) == num, "rows of " + name, len(got), num)
        if num == 0:
            continue
        case.check(isinstance(got, np.ndarray), "type of " + name, type(got))
        if kind == "float":
            case.check(got.dtype.kind == "f", "type of " + name, got.dtype)
            case.check(np.array_equal(got, np.array(vals), equal_nan=True),
                       "values of " + name, got, vals)
        elif kind == "int":
            case.check(got.dtype.kind == "i", "type of " + name, got.dtype)
            case.same([int(vv) for vv in got], vals, "values of " + name)
        elif kind == "time":
            case.same([str(vv) for vv in got], vals, "values of " + name)
        else:
            case.check(got.dtype.kind == "U", "type of " + name, got.dtype)
            for gg, vv in zip(got, vals):
                gg = str(gg)
                case.check(vv == gg or (vv.startswith(gg)
                                        and len(gg) >= width), "values of "
                           + name, gg, vv, width)
                if fmt is None:
                    case.same(gg, vv[:limit], "text of at most {:d} "
                              "letters".format(limit))
    case.seen(fmt, hlines, given, delim, comment, num, places,
              [cc[2][:2] for cc in cols])


@suite.group(24, 200)
def unusable(case):
    """Files which are missing, empty, too large, or without names."""
    import ocbpy.instruments.general as gener

    rng = case.rng
    kind = str(rng.choice(["missing", "directory", "empty", "large", "limit",
                           "small", "nameless"]))
    path = os.path.join(case.tmp, "file_{:d}".format(next(gen.COUNT)))
    good = False
    if kind == "directory":
        os.mkdir(path)
    elif kind != "missing":
        size = {"empty": 0, "large": 2000000000 + int(rng.integers(
            1, 10**int(rng.integers(1, 9)))), "limit": 2000000000 - int(
                rng.integers(0, 2)), "small": int(rng.integers(1, 5000)),
                "nameless": 0}[kind]
        with open(path, "w") as fout:
            if kind == "nameless":
                fout.write("1.0 2.0\n3.0 4.0\n")
        if size > 0:
            os.truncate(path, size)
        good = kind in ("limit", "small", "nameless")
    case.show(kind=kind)
    case.check(bool(case.call(gener.test_file, path)) == good,
               "file is usable", kind, good)
    if not good or kind == "nameless":
        head = [] if kind == "nameless" else [[], ["a b"], ["one", "a b"]][
            int(rng.integers(3))]
        opts = {"header": list(head)} if len(head) > 0 else {}
        hlines = 0 if kind == "nameless" else int(rng.integers(3))
        out = case.call(gener.load_ascii_data, path, hlines, **opts)
        case.same(list(out[0]), head, "header of an unusable file")
        case.same(out[1], {}, "data of an unusable file")
        case.seen(kind, head, hlines)
    case.seen(kind, str(rng.integers(10**9)))
