"""P20: DMSP SSJ crossings become boundaries, each once and in order."""

import datetime as dt
import math
import os

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.core import Suite

suite = Suite("P20", "random SSJ files (one to many days, satellites, and "
              "crossings, any column order and comments, crossings over "
              "midnight, in any order) next to files which cannot be used, at "
              "several altitudes and methods; every line of the four output "
              "files is accounted for and loaded; non-trivial by input files "
              "and crossings",
              ["aacgmv2 locates the boundaries", "all of the input files are "
               "in one directory"])

HEAD = "#sc date time r x y fom x_1 y_1 x_2 y_2"
PARTS = ["EQ1", "PO1", "PO2", "EQ2"]


def csv_name(sat, day, version="v1.1.2"):
    """Name of a SSJ file."""
    return "dmsp-f{:02d}_ssj_precipitating-electrons-ions_{:s}_{:s}_" \
        "boundaries.csv".format(sat, day.strftime("%Y%m%d"), version)


def draw_rows(rng, num):
    """Draw the values of crossings."""
    rows = list()
    for _ in range(num):
        hemi = int(rng.choice([1, -1]))
        start = int(rng.integers(0, 86400))
        if rng.random() < 0.1:
            start = int(rng.choice([0, 86000, 86399]))
        sec = start + np.sort(rng.integers(1, 1400, 4))
        lat = hemi * rng.uniform(58.0, 85.0, 4)
        if rng.random() < 0.15:
            # Some boundaries are not in the expected hemisphere
            lat[int(rng.integers(4))] *= -1
        lon = rng.uniform(0.0, 360.0, 4)
        row = {"hemisphere": hemi, "FOM": round(float(rng.uniform(0, 5)), 3),
               "UTSecond Pass Start": start, "UTSecond Pass End": start + 3000}
        for ii, part in enumerate(PARTS):
            row["UTSec " + part] = int(sec[ii])
            row["SC_GEOCENTRIC_LAT " + part] = round(float(lat[ii]), 3)
            row["SC_GEOCENTRIC_LON " + part] = round(float(lon[ii]), 3)
            row["mlat " + part] = round(float(rng.uniform(-90, 90)), 3)
            row["mlt " + part] = round(float(rng.uniform(0, 24)), 3)
        rows.append(row)
    return rows


def write_csv(rng, path, rows, keys=None):
    """Write a SSJ file."""
    if keys is None:
        keys = ["UTSecond Pass Start", "UTSecond Pass End", "hemisphere"] + [
            "UTSec " + part for part in PARTS] + ["FOM"] + [
                name + part for name in ("SC_GEOCENTRIC_LAT ",
                                         "SC_GEOCENTRIC_LON ", "mlat ", "mlt ")
                for part in PARTS]
        if rng.random() < 0.3:
            keys = [keys[ii] for ii in rng.permutation(len(keys))]
        if rng.random() < 0.2:
            keys = [kk for kk in keys if not kk.startswith("ml")]
    with open(path, "w") as fout:
        for ii in range(int(rng.choice([0, 1, 10, 40]))):
            fout.write("# comment {:d}, with a comma\n".format(ii))
        fout.write(",".join(keys) + "\n")
        for row in rows:
            fout.write(",".join(str(row[kk]) for kk in keys) + "\n")


def model_line(sat, day, row, name, alt, method):
    """Calculate the boundary of one crossing."""
    import aacgmv2

    one, two = [part for part in PARTS if part.startswith(name)]
    mid = day + dt.timedelta(seconds=0.5 * (row["UTSec " + one]
                                            + row["UTSec " + two]))
    out = {"sat": sat, "time": mid, "fom": row["FOM"]}
    pos = list()
    for part in (one, two):
        mlat, _, mlt = aacgmv2.get_aacgm_coord(
            row["SC_GEOCENTRIC_LAT " + part], row["SC_GEOCENTRIC_LON "
                                                  + part], alt, mid,
            method=method)
        colat = 90.0 - abs(float(mlat))
        ang = math.radians(15.0 * (float(mlt) - 6.0))
        pos.append((colat * math.cos(ang), colat * math.sin(ang)))
    out["pts"] = pos
    out["x"] = 0.5 * (pos[0][0] + pos[1][0])
    out["y"] = 0.5 * (pos[0][1] + pos[1][1])
    out["r"] = 0.5 * math.hypot(pos[0][0] - pos[1][0], pos[0][1] - pos[1][1])
    return out


def fits(text, want, tol):
    """Compare a line of the output with a crossing."""
    part = text.split()
    if len(part) != 11 or int(part[0]) != want["sat"]:
        return "satellite or columns"
    tt = dt.datetime.strptime(" ".join(part[1:3]), "%Y-%m-%d %H:%M:%S")
    if abs((tt - want["time"]).total_seconds()) > 0.75:
        return "time"
    vals = [want["r"], want["x"], want["y"], want["fom"]] + [
        cc for pp in want["pts"] for cc in pp]
    for name, got, val in zip(["r", "x", "y", "fom", "x_1", "y_1", "x_2",
                               "y_2"], part[3:], vals):
        got = float(got)
        if math.isnan(got) != math.isnan(val):
            return name
        if abs(got - val) > (5.1e-4 if name == "fom" else tol):
            return "{:s} ({:.5f} is not {:.5f})".format(name, got, val)
    return ""


def judge(case, out, place, days, want, tol):
    """Account for every line of the output."""
    import ocbpy

    dates = "{:s}_{:s}".format(min(days).strftime("%Y%m%d"),
                               max(days).strftime("%Y%m%d"))
    names = dict()
    for hh, hname in ((1, "north"), (-1, "south")):
        for bb, bname in (("PO", "ocb"), ("EQ", "eab")):
            names["dmsp-ssj_{:s}_{:s}_v1.1.2.{:s}".format(
                hname, dates, bname)] = (hh, bb)
    case.same(sorted(str(ff) for ff in out), sorted(os.path.join(place, nn)
                                                    for nn in names),
              "output files")
    for fname in out:
        hemi, bound = names[os.path.basename(str(fname))]
        with open(fname) as fin:
            lines = fin.read().splitlines()
        case.same(lines[0].strip(), HEAD, "header")
        rest = sorted(want[hemi, bound], key=lambda ww: ww["time"])
        case.check(len(lines) - 1 == len(rest), "number of boundaries",
                   len(lines) - 1, len(rest))
        # Boundaries at the same second may be written in any order
        last = None
        left = list(rest)
        for line in lines[1:]:
            tt = dt.datetime.strptime(" ".join(line.split()[1:3]),
                                      "%Y-%m-%d %H:%M:%S")
            case.check(last is None or tt >= last, "order of the boundaries",
                       str(last), str(tt))
            last = tt
            why = list()
            for ii, ww in enumerate(left):
                why.append(fits(line, ww, tol))
                if why[-1] == "":
                    del left[ii]
                    break
                if (ww["time"] - tt).total_seconds() > 2.0:
                    break
            case.check(len(why) > 0 and why[-1] == "", "boundary differs "
                       "from the crossing by " + str(why), line,
                       [str(ww) for ww in left[:2]])
        # The boundary classes understand the file
        cls = ocbpy.OCBoundary if bound == "PO" else ocbpy.EABoundary
        obj = case.call(cls, filename=str(fname), instrument="dmsp-ssj",
                        hemisphere=hemi)
        case.same(int(obj.records), len(rest), "loaded boundaries")
        if len(rest) > 0:
            case.close_to(obj.r, [float(ll.split()[3]) for ll in lines[1:]],
                          1e-9, "loaded radii")
            phi = [refs.wrap(math.degrees(math.atan2(
                float(ll.split()[5]), float(ll.split()[4]))) + 90.0, 0.0,
                360.0) for ll in lines[1:]]
            good = ~np.isnan(np.asarray(obj.phi_cent, dtype=float))
            case.check(float(np.max(np.append(np.where(good, refs.circ_diff(
                np.asarray(obj.phi_cent), np.array(phi), 360.0), 0.0), 0.0)))
                < 1e-6, "loaded centres", obj.phi_cent, phi)


@suite.group(50, 800)
def convert(case):
    """Each crossing is written once, in the file it belongs to."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    place = os.path.join(case.tmp, str(rng.choice(["a-f", "b", "c-final.d"])))
    os.mkdir(place)
    base = gen.start_time(rng).replace(hour=0, minute=0, second=0)
    base = base.replace(year=int(rng.integers(2006, 2016)), day=min(base.day,
                                                                   28))
    files, want, days = list(), {(hh, bb): list() for hh in (1, -1)
                                 for bb in ("PO", "EQ")}, list()
    method, alt, opts = "GEOCENTRIC|ALLOWTRACE", 830.0, {}
    if rng.random() < 0.3:
        alt = float(rng.choice([110.0, 300.0, 845.5]))
        opts["ref_alt"] = alt
    if rng.random() < 0.3:
        method = str(rng.choice(["GEOCENTRIC|TRACE", "ALLOWTRACE",
                                 "GEOCENTRIC"]))
        opts["method"] = method
    num = int(rng.integers(1, 5))
    for _ in range(num):
        sat = int(rng.integers(16, 19))
        day = base + dt.timedelta(days=int(rng.integers(0, 3)))
        path = os.path.join(place, csv_name(sat, day))
        if path in files:
            continue
        rows = draw_rows(rng, int(rng.choice([1, 1, 2, 5])) if rng.random()
                         < 0.97 else int(rng.integers(28, 80)))
        write_csv(rng, path, rows)
        files.append(path)
        days.append(day)
        for row in rows:
            for bb in ("PO", "EQ"):
                want[row["hemisphere"], bb].append(model_line(
                    sat, day, row, bb, alt, method))
    args = list(files)
    bad = int(rng.integers(8))
    if bad == 0:
        # Not a file
        args.insert(int(rng.integers(len(args) + 1)), os.path.join(
            place, "missing.csv"))
    elif bad == 1:
        args.insert(int(rng.integers(len(args) + 1)), place)
    elif bad == 2:
        # Another number of columns, or no rows
        path = os.path.join(place, csv_name(20, base))
        keys = ["UTSec PO1", "FOM", "hemisphere"]
        cols = str(rng.choice(["", ",3.0,4.0"]))
        with open(path, "w") as fout:
            fout.write("# nothing\n" + ",".join(keys) + "\n")
            for _ in range(int(rng.integers(0, 3))):
                fout.write("1.0,2.0{:s}\n".format(cols))
        args.insert(int(rng.integers(len(args) + 1)), path)
        days.append(base)
    if len(args) == 1 and rng.random() < 0.5:
        args = args[0]
    elif rng.random() < 0.3:
        args = np.array(args)
    case.show(files=[os.path.basename(ff) for ff in files], opts=opts,
              bad=bad, place=os.path.basename(place))
    keep = {ff: open(ff).read() for ff in files}
    out = case.call(ssj.format_ssj_boundary_files, args, **opts)
    judge(case, out, place, days, want, 1.6e-3 if method.find("|TRACE") > 0
          else 5.1e-4)
    for ff, text in keep.items():
        with open(ff) as fin:
            case.same(fin.read(), text, "input file")
    case.seen([os.path.basename(ff) for ff in files], alt, method, bad,
              [str(ww["time"]) for ww in want[1, "PO"]])


@suite.group(10, 60)
def nothing(case):
    """Without any file there is an error and no output."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    kind = int(rng.integers(4))
    args = [[], os.path.join(case.tmp, "missing.csv"), [case.tmp],
            [os.path.join(case.tmp, "one.csv"), os.path.join(
                case.tmp, "two.csv")]][kind]
    before = sorted(os.listdir(case.tmp))
    case.show(args=args)
    case.raises(ValueError, ssj.format_ssj_boundary_files, args)
    case.same(sorted(os.listdir(case.tmp)), before, "files without input")
    case.seen(kind, str(rng.integers(10**6)))


@suite.group(200, 3000)
def evaluate(case):
    """Files are selected by their satellite and day."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    sat = int(rng.integers(6, 19))
    day = dt.datetime(2005, 1, 1) + dt.timedelta(days=int(rng.integers(5000)))
    name = csv_name(sat, day, str(rng.choice(["v1.1.2", "v1.0.0"])))
    sats = [int(ss) for ss in rng.choice(range(6, 19), int(rng.integers(0,
                                                                       6)))]
    if rng.random() < 0.6:
        sats.append(sat)
    start, end = [None if rng.random() < 0.25 else day + dt.timedelta(
        days=int(rng.choice([-400, -31, -1, 0, 0, 1, 2, 400])))
        for _ in range(2)]
    if end is not None and rng.random() < 0.3:
        end += dt.timedelta(seconds=int(rng.integers(1, 86400)))
    want = sat in sats and (start is None or day >= start) and (
        end is None or day < end)
    case.show(name=name, start=str(start), end=str(end), sats=sats)
    got = case.call(ssj.evaluate_dmsp_boundary_file, name, start, end, sats)
    case.check(bool(got) == want, "selection of a file", got, want)
    case.seen(name, str(start), str(end), sorted(sats))
