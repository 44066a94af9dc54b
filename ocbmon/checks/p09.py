"""P09: loading a boundary file yields exactly its records."""

import datetime as dt
import math
import os

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.core import Suite

suite = Suite("P09", "random boundary files of all formats, from a single "
              "record to many, next to year, month, and day boundaries, with "
              "time windows on, next to, and away from the record times, or "
              "open at one end, as OCB, EAB, or both; non-trivial by format, "
              "window, and records kept", ["files are sorted by time"])

BASE_KEYS = ("r", "r_cent", "phi_cent", "fom")


def draw_window(rng, dtimes):
    """Draw a time window, which may be open."""
    def edge():
        kind = int(rng.integers(5))
        tt = dtimes[int(rng.integers(len(dtimes)))]
        if kind == 0:
            return None
        if kind == 1:
            return tt
        if kind == 2:
            return tt + dt.timedelta(seconds=float(rng.choice(
                [-1, -0.25, 0.25, 1])))
        if kind == 3:
            return tt + dt.timedelta(minutes=int(rng.integers(-9000, 9000)))
        return dt.datetime(tt.year, 1, 1)

    start, end = edge(), edge()
    if start is not None and end is not None and end < start \
            and rng.random() < 0.9:
        start, end = end, start
    return start, end


def inside(tt, start, end):
    """Determine if a time lies in an inclusive window."""
    return (start is None or tt >= start) and (end is None or tt <= end)


def judge(case, obj, recs, msg=""):
    """Compare the loaded records with those in the file."""
    num = len(recs)
    case.same(int(obj.records), num, msg + "number of records")
    case.same(list(obj.dtime), [rec.dtime for rec in recs], msg
              + "record times")
    for key, name in (("r", "rad"), ("r_cent", "rcent"), ("fom", "fom")):
        case.close_to(getattr(obj, key), [getattr(rec, name) for rec in recs],
                      1e-9, msg + "attribute " + key)
    for ii, rec in enumerate(recs):
        case.check(0.0 <= obj.phi_cent[ii] <= 360.0, msg + "phi_cent range",
                   obj.phi_cent[ii])
        if rec.rcent > 1e-6 or "x" not in rec.extra:
            diff = float(refs.circ_diff(obj.phi_cent[ii], rec.phi, 360.0))
            case.check(diff < 1e-7, msg + "attribute phi_cent",
                       obj.phi_cent[ii], rec.phi)
        for key, val in rec.extra.items():
            case.check(hasattr(obj, key), msg + "file column is missing", key)
            col = getattr(obj, key)
            case.same(len(col), num, msg + "length of attribute " + key)
            case.check(abs(float(col[ii]) - val) < 1e-9, msg + "attribute "
                       + key, col[ii], val)
    case.same(len(obj.rfunc), num, msg + "number of correction functions")
    case.same(len(obj.rfunc_kwargs), num, msg + "number of correction keywords")


def judge_corr(case, obj, recs, hemi, msg=""):
    """The correction of each record is the requested one."""
    mlt = case.rng.uniform(0, 24, 3)
    for ii, rec in enumerate(recs):
        obj.rec_ind = ii
        out = case.call(obj.normal_coord, hemi * np.full(3, 80.0), mlt)
        want = [rec.r_corr(mm) for mm in mlt]
        case.close_to(np.broadcast_to(out[2], (3, )), want, 1e-8, msg
                      + "correction of record {:d}".format(ii))


def default_corr(recs, cls, inst):
    """Set the default correction."""
    for rec in recs:
        if cls == "OCB" and inst == "ampere":
            rec.corr, rec.kw = refs.elliptical, {}
        else:
            rec.corr, rec.kw = refs.circular, {}


@suite.group(260)
def window(case):
    """One boundary, with or without a time window."""
    import ocbpy

    rng = case.rng
    cls = "OCB" if rng.random() < 0.6 else "EAB"
    inst = str(rng.choice(gen.INSTS))
    hemi = int(rng.choice([1, -1]))
    num = 1 if rng.random() < 0.15 else gen.count(rng, 2, 25, 3000)
    rows, recs = gen.records(rng, num, inst)
    path = gen.write_file(case, inst, rows)
    dtimes = [rec.dtime for rec in recs]
    kwargs = {}
    start = end = None
    if rng.random() < 0.7:
        start, end = draw_window(rng, dtimes)
        if start is not None or rng.random() < 0.5:
            kwargs["stime"] = start
        if end is not None or rng.random() < 0.5:
            kwargs["etime"] = end
    keep = [rec for rec in recs if inside(rec.dtime, start, end)]
    default = 74.0 if cls == "OCB" else 64.0
    ref = default
    if rng.random() < 0.6:
        ref = round(float(rng.uniform(50, 85)), 3)
        kwargs["boundary_lat"] = ref * (1 if rng.random() < 0.5 else -1)
    rfunc, rkw, per = gen.corrections(rng, len(keep))
    default_corr(keep, cls, inst)
    if per is not None:
        for rec, (corr, kw) in zip(keep, per):
            rec.corr, rec.kw = corr, kw
    if rfunc is not None:
        kwargs["rfunc"] = rfunc
    if rkw is not None:
        kwargs["rfunc_kwargs"] = rkw
    name = inst.upper() if rng.random() < 0.2 else inst
    case.show(cls=cls, inst=name, hemi=hemi, kwargs=kwargs, rows=rows)
    obj = case.call(getattr(ocbpy, "OCBoundary" if cls == "OCB" else
                            "EABoundary"), filename=path, instrument=name,
                    hemisphere=hemi, **kwargs)
    case.same(obj.filename, path, "filename")
    case.same(obj.instrument, inst, "instrument")
    case.same(obj.hemisphere, hemi, "hemisphere")
    case.check(abs(obj.boundary_lat - hemi * ref) < 1e-12,
               "reference latitude", obj.boundary_lat, hemi * ref)
    case.same((obj.min_fom, obj.max_fom), gen.FOM_OK[inst],
              "quality limits of the instrument")
    case.same(int(obj.rec_ind), -1, "initial index")
    judge(case, obj, keep)
    judge_corr(case, obj, keep, hemi)
    case.seen(cls, inst, hemi, num, len(keep), str(start), str(end), ref)
    if rng.random() < 0.25:
        # The file has other content later on
        orig = [(str(tt), float(rr)) for tt, rr in zip(obj.dtime, obj.r)]
        rows, recs = gen.records(rng, int(rng.integers(1, 12)), inst)
        gen.write_file(case, inst, rows, os.path.basename(path))
        default_corr(recs, cls, inst)
        case.show(rewritten=rows)
        new = case.call(getattr(ocbpy, "OCBoundary" if cls == "OCB" else
                                "EABoundary"), filename=path, instrument=name,
                        hemisphere=hemi)
        judge(case, new, recs, "rewritten file")
        case.same([(str(tt), float(rr)) for tt, rr in zip(obj.dtime, obj.r)],
                  orig, "records that were loaded before")


@suite.group(60)
def generic(case):
    """A file from another source, in the default or a custom layout."""
    import ocbpy

    rng = case.rng
    cls = "OCB" if rng.random() < 0.6 else "EAB"
    hemi = int(rng.choice([1, -1]))
    num = 1 if rng.random() < 0.15 else int(rng.integers(2, 15))
    layout = str(rng.choice(gen.INSTS))
    rows, recs = gen.records(rng, num, layout)
    rfunc, rkw, per = gen.corrections(rng, num, str(rng.choice(["one",
                                                                "one-kw"])))
    for rec in recs:
        rec.corr, rec.kw = per[0]
    # A custom layout may resolve fractions of seconds
    sub = layout == "dmsp-ssj" and rng.random() < 0.5
    if sub:
        for ii, rec in enumerate(recs):
            part = int(rng.choice([0, 250000, 500000, 999999]))
            rec.dtime += dt.timedelta(microseconds=part)
            cols = rows[ii].split()
            cols[2] = "{:s}.{:06d}".format(cols[2], part)
            rows[ii] = " ".join(cols)
    start, end = draw_window(rng, [rec.dtime for rec in recs])
    keep = [rec for rec in recs if inside(rec.dtime, start, end)]
    make = getattr(ocbpy, "OCBoundary" if cls == "OCB" else "EABoundary")
    name = str(rng.choice(["", "other", "themis"]))
    case.show(cls=cls, layout=layout, hemi=hemi, stime=start, etime=end,
              rows=rows, inst=name)
    if layout == "image":
        path = gen.write_file(case, "image", rows)
        obj = case.call(make, filename=path, instrument=name, hemisphere=hemi,
                        stime=start, etime=end, rfunc=rfunc,
                        rfunc_kwargs=rkw)
    else:
        # Use the loading method with custom columns and header lines, also
        # for the instruments with a layout of their own
        if rng.random() < 0.3:
            name = str(rng.choice(gen.INSTS))
        nhead = int(rng.integers(0, 4))
        path = os.path.join(case.tmp, "custom.ocb")
        with open(path, "w") as fout:
            for ii in range(nhead):
                fout.write("header {:d} # with , text\n".format(ii))
            fout.write("\n".join(rows) + "\n")
        obj = case.call(make, filename=None, instrument=name, hemisphere=hemi,
                        rfunc=rfunc, rfunc_kwargs=rkw)
        case.same(obj.records, 0, "records without a file")
        obj.filename = path
        cols, fmt = ("date time r x y fom", "%Y%m%d %H:%M") \
            if layout == "ampere" else ("sc date time r x y fom x_1 y_1 x_2 "
                                        "y_2", "%Y-%m-%d %H:%M:%S")
        if sub:
            fmt += ".%f"
        case.call(obj.load, hlines=nhead, ocb_cols=cols, datetime_fmt=fmt,
                  stime=start, etime=end)
    case.same((obj.min_fom, obj.max_fom), gen.FOM_OK.get(
        name, (-math.inf, math.inf)), "quality limits of another source")
    judge(case, obj, keep)
    judge_corr(case, obj, keep, hemi)
    case.seen(cls, layout, hemi, num, len(keep), str(start), str(end), name)


@suite.group(80)
def paired(case):
    """Both boundaries of a pair are loaded with their own input."""
    import ocbpy

    rng = case.rng
    hemi = int(rng.choice([1, -1]))
    insts = [str(ii) for ii in rng.choice(["image", "ampere", "dmsp-ssj"], 2)]
    num = int(rng.integers(1, 12))
    base = gen.times(rng, num, "ampere", gap=(60, 400))
    orows, orecs = gen.records(rng, num, insts[0], dtimes=base, fom="good")
    erows, erecs = gen.records(rng, num, insts[1], dtimes=base, fom="good",
                               rad=(22.0, 30.0))
    ofile = gen.write_file(case, insts[0], orows)
    efile = gen.write_file(case, insts[1], erows)
    start, end = draw_window(rng, base) if rng.random() < 0.6 else (None, None)
    okeep = [rec for rec in orecs if inside(rec.dtime, start, end)]
    ekeep = [rec for rec in erecs if inside(rec.dtime, start, end)]
    kwargs = {"stime": start, "etime": end}
    lats = {"ocb": 74.0, "eab": 64.0}
    if rng.random() < 0.5:
        lats["ocb"] = round(float(rng.uniform(71, 80)), 3)
        kwargs["ocb_lat"] = lats["ocb"] * (1 if rng.random() < 0.6 else hemi)
    if rng.random() < 0.5:
        lats["eab"] = round(float(rng.uniform(58, 70)), 3)
        kwargs["eab_lat"] = lats["eab"] * (1 if rng.random() < 0.6 else hemi)
    for name, keep, inst in (("ocb", okeep, insts[0]), ("eab", ekeep,
                                                        insts[1])):
        rfunc, rkw, per = gen.corrections(rng, len(keep))
        default_corr(keep, name.upper(), inst)
        if per is not None:
            for rec, (corr, kw) in zip(keep, per):
                rec.corr, rec.kw = corr, kw
        if rfunc is not None:
            kwargs[name + "_rfunc"] = rfunc
        if rkw is not None:
            kwargs[name + "_rfunc_kwargs"] = rkw
    case.show(insts=insts, hemi=hemi, kwargs=kwargs, orows=orows, erows=erows)
    obj = case.call(ocbpy.DualBoundary, eab_filename=efile, ocb_filename=ofile,
                    ocb_instrument=insts[0], eab_instrument=insts[1],
                    hemisphere=hemi, **kwargs)
    for name, keep, inst in (("ocb", okeep, insts[0]), ("eab", ekeep,
                                                        insts[1])):
        bound = getattr(obj, name)
        case.same((bound.instrument, bound.hemisphere), (inst, hemi),
                  name + " source")
        case.check(abs(bound.boundary_lat - hemi * lats[name]) < 1e-12, name
                   + " reference latitude", bound.boundary_lat, lats[name])
        judge(case, bound, keep, name + " ")
        judge_corr(case, bound, keep, hemi, name + " ")
    case.seen(insts, hemi, num, len(okeep), str(start), str(end), lats)


@suite.group(20)
def absent(case):
    """Without a usable file there are no records, and no error."""
    import ocbpy

    rng = case.rng
    cls = "OCBoundary" if rng.random() < 0.5 else "EABoundary"
    hemi = int(rng.choice([1, -1]))
    kind = int(rng.integers(4))
    inst = str(rng.choice(gen.INSTS))
    path = [None, os.path.join(case.tmp, "missing.ocb"), case.tmp,
            os.path.join(case.tmp, "empty.ocb")][kind]
    if kind == 3:
        open(path, "w").close()
    case.show(cls=cls, path=path, inst=inst, hemi=hemi)
    obj = case.call(getattr(ocbpy, cls), filename=path, instrument=inst,
                    hemisphere=hemi)
    case.check(obj.filename is None, "unusable filename is kept", obj.filename)
    case.same((int(obj.records), obj.hemisphere), (0, hemi), "empty object")
    for key in ("dtime", ) + BASE_KEYS:
        case.check(getattr(obj, key) is None, "attribute without data", key)
    case.check(len(str(obj)) > 0, "string form")
    case.seen(cls, kind, inst, hemi)
