"""P26: printed representations describe, and rebuild, the object."""

import copy
import datetime
import re

import numpy as np

from ocbmon import gen
from ocbmon.checks import p05
from ocbmon.checks.p29 import state
from ocbmon.core import Suite

suite = Suite("P26", "random boundary objects (all classes, instruments, "
              "corrections, time ranges, sections of files), pairs, and "
              "vectors (scalar, array, several boundaries, before and after "
              "scaling, long arrays); the representation is evaluated, and "
              "the text is read back; non-trivial by class and text",
              ["reference latitudes have up to six decimals",
               "numpy prints arrays with eight digits"])


def space():
    """Provide the names that a representation may use."""
    import numpy

    import ocbmon
    import ocbpy

    return {"numpy": numpy, "np": numpy, "nan": numpy.nan, "inf": numpy.inf,
            "datetime": datetime, "ocbpy": ocbpy, "ocbmon": ocbmon,
            "float64": numpy.float64, "int64": numpy.int64}




def judge_text(case, text, obj, name):
    """Judge the readable form of one boundary object."""
    case.check("{:s} file: {:s}".format(name, obj.filename) in text,
               "file name", text)
    case.check(obj.instrument.upper() in text, "instrument", text)
    case.check("{:.1f} degrees".format(obj.boundary_lat) in text,
               "reference latitude", text)
    if obj.records == 0:
        case.check("No data loaded" in text, "no data", text)
        return
    case.check("{:d} records from {:} to {:}".format(
        obj.records, obj.dtime[0], obj.dtime[-1]) in text, "period", text)
    num = obj.records
    rows = [rr for rr in text.split("\n") if re.match(
        r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)? -?\d+\.\d\d -?\d+\.\d\d", rr)]
    pick = sorted(set([0, min(1, num - 1), max(num - 2, 0), num - 1]))
    case.same(rows, ["{:} {:.2f} {:.2f} {:.2f}".format(
        obj.dtime[ii], obj.phi_cent[ii], obj.r_cent[ii], obj.r[ii])
        for ii in pick], "listed records")
    want = set()
    for ii in range(num):
        want.add("{:s}.{:s}(**{:s})".format(
            obj.rfunc[ii].__module__, obj.rfunc[ii].__name__, str(
                obj.rfunc_kwargs[ii])))
    for line in want:
        case.check(line in text.split("\n"), "scaling function", line, text)


@suite.group(160)
def boundary(case):
    """Boundary objects are rebuilt from their representation."""
    import ocbpy

    rng = case.rng
    cls = str(rng.choice(["OCBoundary", "EABoundary"]))
    num = gen.count(rng, 1, 7, 1300, 0.06)
    inst = str(rng.choice(gen.INSTS))
    rows, recs = gen.records(rng, num, inst, gap=(60, 7000))
    name = [None, "it's a file.ocb", "with \"two\" names.ocb", "data=1.ocb"][
        int(rng.choice([0, 1, 2, 3], p=[0.7, 0.1, 0.1, 0.1]))]
    path = gen.write_file(case, inst, rows, name)
    stime = etime = None
    low, high = 0, num
    if rng.random() < 0.4:
        low, high = sorted(int(vv) for vv in rng.choice(
            np.arange(num + 1), 2, replace=num < 2))
        high = max(high, low + 1)
        low = min(low, num - 1)
        high = min(high, num)
        stime, etime = recs[low].dtime, recs[high - 1].dtime
        low = min(ii for ii in range(num) if recs[ii].dtime >= stime)
        high = 1 + max(ii for ii in range(num) if recs[ii].dtime <= etime)
    rfunc, rkw, _ = gen.corrections(rng, high - low)
    hemi = int(rng.choice([1, -1]))
    kwargs = {"filename": path, "instrument": str(rng.choice(
        [inst, inst.upper()])), "hemisphere": hemi, "boundary_lat": round(
            float(rng.uniform(55, 85)), int(rng.integers(0, 7))),
        "stime": stime, "etime": etime, "rfunc": rfunc, "rfunc_kwargs": rkw}
    case.show(cls=cls, rows=rows, kwargs=kwargs)
    obj = case.call(getattr(ocbpy, cls), **copy.deepcopy(kwargs))
    case.same(obj.records, high - low, "records")
    obj.rec_ind = int(rng.integers(-1, obj.records + 1))
    text = case.call(repr, obj)
    case.show(repr=text)
    case.check(cls in text, "class in representation", text)
    new = case.call(eval, text, space())
    case.check(type(new) is type(obj), "class of the rebuilt object")
    case.check(state(new) == state(obj), "rebuilt object differs",
               state(new), state(obj))
    case.same(case.call(repr, new), text, "representation of the rebuilt")
    judge_text(case, case.call(str, obj), obj, cls)
    case.seen(text)


@suite.group(30)
def empty(case):
    """Objects without data have representations."""
    import ocbpy

    rng = case.rng
    cls = str(rng.choice(["OCBoundary", "EABoundary"]))
    kwargs = {"filename": None, "instrument": str(rng.choice(gen.INSTS)),
              "hemisphere": int(rng.choice([1, -1])),
              "boundary_lat": round(float(rng.uniform(55, 85)), 3)}
    bad = int(rng.integers(3))
    if bad == 1:
        kwargs["filename"] = case.tmp + "/missing"
    elif bad == 2:
        rows, recs = gen.records(rng, 3, kwargs["instrument"])
        kwargs["filename"] = gen.write_file(case, kwargs["instrument"], rows)
        kwargs["stime"] = recs[-1].dtime + datetime.timedelta(days=1)
    case.show(cls=cls, kwargs=kwargs)
    obj = case.call(getattr(ocbpy, cls), **kwargs)
    case.same(obj.records, 0, "records")
    text = case.call(repr, obj)
    if bad == 2:
        judge_text(case, case.call(str, obj), obj, cls)
    else:
        case.check("No {:s} file specified".format(cls) in case.call(
            str, obj), "text without a file")
        new = case.call(eval, text, space())
        case.check(type(new) is type(obj), "class of the rebuilt object")
        for kk in ("filename", "instrument", "hemisphere", "boundary_lat",
                   "records"):
            case.same(getattr(new, kk), getattr(obj, kk), kk)
    case.seen(bad, text)


@suite.group(60)
def dual(case):
    """Paired boundaries are rebuilt from their representation."""
    import ocbpy

    rng = case.rng
    obj, orecs, erecs, meta = p05.make_dual(case)
    delta = [60, 1, 600, 12][int(rng.integers(4))]
    obj = case.call(ocbpy.DualBoundary, ocb=obj.ocb, eab=obj.eab,
                    hemisphere=meta["hemi"], max_delta=delta)
    text = case.call(repr, obj)
    case.show(repr=text, delta=delta)
    new = case.call(eval, text, space())
    case.check(type(new) is type(obj), "class of the rebuilt object")
    case.same(new.max_delta, obj.max_delta, "max_delta")
    case.check(state(new) == state(obj), "rebuilt pairs differ")
    case.same(case.call(repr, new), text, "representation of the rebuilt")
    text = case.call(str, obj)
    case.check("{:d} good boundary pairs from {:} to {:}".format(
        obj.records, obj.dtime[0], obj.dtime[-1]) in text, "pairs", text)
    case.check("{:.1f} s".format(delta) in text, "time difference", text)
    half = text.index("OCBoundary file:")
    one = text.index("EABoundary file:")
    case.check(one < half, "order of the boundaries", text)
    judge_text(case, text[one:half], obj.eab, "EABoundary")
    judge_text(case, text[half:], obj.ocb, "OCBoundary")
    case.seen(text)


ATTR = ("dat_ind", "ocb_ind", "lat", "lt", "height", "ocb_lat", "ocb_mlt",
        "r_corr", "vect_n", "vect_e", "vect_z", "vect_mag")


def numbers(text):
    """Read the numbers of a line."""
    return [float(vv) for vv in re.findall(
        r"(?<![\w.])-?(?:nan|\d+\.?\d*(?:e[+-]?\d+)?)", text)]


@suite.group(120)
def vectors(case):
    """Vectors are rebuilt from their representation, and listed once."""
    import ocbpy

    rng = case.rng
    obj, recs, meta = gen.make_boundary(case, "OCB", num=int(
        rng.integers(2, 5)), max_cent=4.0, rad=(9.0, 20.0))
    num, hemi = len(recs), meta["hemi"]
    kind = str(rng.choice(["scalar", "array", "bounds", "both"]))
    size = int(rng.integers(1, 6))
    if rng.random() < 0.06:
        size = int(rng.integers(1000, 1300))
    lat = np.round(hemi * rng.uniform(55, 89, size), 4)
    lt = np.round(rng.uniform(0, 24, size), 4)
    vec = [np.round(rng.uniform(-200, 200, size), 3) for _ in range(3)]
    if rng.random() < 0.3:
        # Vectors without a length
        none = rng.random(size) < 0.5
        vec = [np.where(none, 0.0, vv) for vv in vec]
    height = round(float(rng.uniform(100, 800)), 1)
    dind, oind = np.arange(size) + int(rng.integers(5)), int(rng.integers(num))
    if kind in ("bounds", "both"):
        oind = rng.integers(0, num, size)
    if kind in ("scalar", "bounds"):
        dind, lat, lt = int(dind[0]), float(lat[0]), float(lt[0])
        vec = [float(vv[0]) for vv in vec]
    kwargs = {"height": height, "dat_name": [
        None, "Name", "array of 'values'", "nan array"][int(rng.integers(4))],
        "dat_units": [None, "nT", "m s$^{-1}$"][int(rng.integers(3))],
        "scale_func": [None, ocbpy.ocb_scaling.normal_evar,
                       ocbpy.ocb_scaling.normal_curl_evar][int(
                           rng.integers(3))]}
    kwargs.update(zip(("vect_n", "vect_e", "vect_z"), vec))
    case.show(kind=kind, dind=dind, oind=oind, lat=lat, lt=lt, kwargs=kwargs)
    vdat = case.call(ocbpy.ocb_scaling.VectorData, dind, oind, lat, lt,
                     **kwargs)
    done = bool(rng.random() < 0.6)
    if done:
        case.call(vdat.set_ocb, obj)
    text = case.call(repr, vdat)
    case.show(repr=text, done=done)
    new = case.call(eval, text, space())
    case.check(type(new) is type(vdat), "class of the rebuilt object")
    for kk in ATTR:
        case.close_to(getattr(new, kk), getattr(vdat, kk), 1e-7, kk,
                      rtol=1e-7)
    for kk in ("loc_coord", "vect_coord", "dat_name", "dat_units",
               "scale_func"):
        case.same(getattr(new, kk), getattr(vdat, kk), kk)
    case.same(case.call(repr, new), text, "representation of the rebuilt")

    # Every vector is listed once
    text = case.call(str, vdat)
    case.show(text=text)
    head, place, vals, last = re.split(r"\n-{20,}\n", text)
    for kk in ("dat_name", "dat_units"):
        if kwargs[kk] is not None:
            case.check(kwargs[kk] in head, kk, head)
    case.check("No magnitude scaling function" in last if kwargs[
        "scale_func"] is None else "Scaling function: {:s}".format(
            kwargs["scale_func"].__name__) in last, "scaling function", last)
    plines = [ll for ll in place.split("\n")[1:] if ll.strip() != ""]
    vlines = [ll for ll in vals.split("\n")[1:] if ll.strip() != ""]
    dats = [np.atleast_1d(vv) for vv in (lat, lt, dind)]
    vecs = [np.atleast_1d(vv) for vv in vec]
    for lines, what in ((plines, "locations"), (vlines, "vectors")):
        mag = [ll for ll in lines if ll.strip().startswith("magnetic")]
        ocb = [ll for ll in lines if ll.strip().startswith("OCB")]
        case.same(len(mag) + len(ocb), len(lines), "unknown lines")
        case.same(len(mag), len(dats[0]), "number of listed " + what)
        nocb = max(len(dats[0]), np.atleast_1d(oind).size)
        if what == "vectors":
            nocb = int(np.sum(~np.isnan(vdat.ocb_mag)))
        case.same(len(ocb), nocb, "number of scaled " + what)
        for ii, ll in enumerate(mag):
            got = numbers(ll.split(":", 1)[1])
            if what == "locations":
                want = [round(float(dats[0][ii]), 3), round(float(
                    dats[1][ii]), 3), height]
                case.close_to(got[:3], want, 2e-3, "location " + ll)
            else:
                want = [vv[ii] for vv in vecs]
                case.close_to(got[1:4], want, 1e-3, "vector " + ll,
                              rtol=0.006)
            if kind != "scalar":
                case.same(int(got[-1]), int(dats[2][ii]), "index " + ll)
        good = np.atleast_1d(vdat.ocb_mag)
        good = [ii for ii in range(good.size) if not np.isnan(good[ii])]
        for jj, ll in enumerate(ocb):
            got = numbers(ll.split(":", 1)[1].replace("N/A", ""))
            if what == "locations":
                want = [np.atleast_1d(vv)[jj] if np.size(vv) > 1 or jj == 0
                        else np.ravel(vv)[0] for vv in (vdat.ocb_lat,
                                                        vdat.ocb_mlt)]
                case.close_to(got[:2], want, 2e-3, "location " + ll)
            else:
                ii = good[jj]
                want = [np.atleast_1d(getattr(vdat, kk))[ii] for kk in (
                    "ocb_mag", "ocb_n", "ocb_e", "ocb_z")]
                case.close_to(got[:4], want, 1e-3, "vector " + ll, rtol=0.006)
            if kind != "scalar" and (what == "locations" or len(good) == len(
                    ocb)):
                case.same(int(got[-1]), int(np.atleast_1d(oind)[
                    jj if np.size(oind) > 1 else 0]), "boundary " + ll)
    case.seen(text)
