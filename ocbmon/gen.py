"""Generators of boundary files, boundary objects, and data."""

import datetime as dt
import itertools
import math
import os

import numpy as np

from ocbmon import refs

INSTS = ("image", "ampere", "dmsp-ssj")
FOM_OK = {"image": (-math.inf, 5.0), "ampere": (0.15, math.inf),
          "dmsp-ssj": (3.0, math.inf)}
COUNT = itertools.count()


# Limit of large numbers
LARGE = 10000


def count(rng, low, high, big, prob=0.02):
    """Draw a number of records or data, sometimes a large one."""
    if rng.random() < prob:
        return min(LARGE, int(np.exp(rng.uniform(np.log(high + 1),
                                                 np.log(big)))))
    return int(rng.integers(low, high))


def start_time(rng, sec=True):
    """Draw a start time, often next to a year, month, or day boundary."""
    year = int(rng.integers(1998, 2020))
    kind = int(rng.integers(5))
    if kind == 0:
        base = dt.datetime(year, 12, 31, 23, 50)
    elif kind == 1:
        base = dt.datetime(year, 2, 28, 23, 55)
    elif kind == 2:
        base = dt.datetime(year, 1, 1)
    else:
        base = dt.datetime(year, 1, 1) + dt.timedelta(
            minutes=int(rng.integers(365 * 1440)))
    if sec:
        base += dt.timedelta(seconds=int(rng.integers(60)))
    return base


def times(rng, num, inst, start=None, gap=None):
    """Draw sorted record times at the resolution of a format."""
    start = start_time(rng) if start is None else start
    if gap is None:
        gap = [(1, 20), (60, 180), (30, 900), (600, 7000)][int(
            rng.integers(4))]
    out = list()
    now = start
    for _ in range(num):
        tt = now
        if inst == "ampere":
            tt = tt.replace(second=0)
        out.append(tt)
        now += dt.timedelta(seconds=int(rng.integers(gap[0], gap[1] + 1)))
    return out


def draw_fom(rng, inst):
    """Draw a figure of merit around the limit of an instrument."""
    lim = FOM_OK[inst][1] if inst == "image" else FOM_OK[inst][0]
    kind = int(rng.integers(6))
    if kind == 0:
        return lim
    if kind == 1:
        return round(lim * float(rng.uniform(0.5, 1.5)), 3)
    if kind == 2:
        return round(lim + (0.001 if rng.random() < 0.5 else -0.001), 3)
    if kind == 3 and rng.random() < 0.1:
        return math.nan
    return round(lim * float(rng.uniform(0.2, 4.0)), 3)


def good_fom(rng, inst):
    """Draw an acceptable figure of merit."""
    if inst == "image":
        return round(float(rng.uniform(0.1, 4.9)), 3)
    if inst == "ampere":
        return round(float(rng.uniform(0.16, 1.0)), 3)
    return round(float(rng.uniform(3.1, 5.0)), 3)


def records(rng, num, inst, start=None, gap=None, fom="mix", rad=(9.0, 25.0),
            max_cent=8.0, dtimes=None):
    """Draw boundary records in the units of the file format.

    Returns
    -------
    rows : list
        Text of each row
    recs : list
        refs.Rec objects, as a reader of the text would understand them

    """
    dtimes = times(rng, num, inst, start, gap) if dtimes is None else dtimes
    rows, recs = list(), list()
    for tt in dtimes:
        ff = draw_fom(rng, inst) if fom == "mix" else good_fom(rng, inst)
        rr = round(float(rng.uniform(*rad)), 3)
        cen = float(rng.uniform(0.0, max_cent))
        if rng.random() < 0.08:
            cen = 0.0
        phi = float(rng.uniform(0.0, 360.0))
        if rng.random() < 0.15:
            phi = float(rng.choice([0.0, 90.0, 180.0, 270.0, 359.999]))
        extra = dict()
        if inst == "image":
            phi, cen = round(phi, 3), round(cen, 4)
            soy = int((tt - dt.datetime(tt.year, 1, 1)).total_seconds())
            nsec = int(rng.integers(1, 24))
            aa = round(float(rng.uniform(-1, 1)), 3)
            rerr = round(float(rng.uniform(0, 3)), 3)
            text = "{:d} {:d} {:d} {:.3f} {:.4f} {:.3f} {:.3f} {:.3f} {:}"
            rows.append(text.format(tt.year, soy, nsec, phi, cen, rr, aa, rerr,
                                    repr(ff)))
            extra = {"year": tt.year, "soy": float(soy), "num_sectors": nsec,
                     "a": aa, "r_err": rerr}
        else:
            xx = round(cen * math.sin(math.radians(phi)), 4)
            yy = round(-cen * math.cos(math.radians(phi)), 4)
            cen = math.hypot(xx, yy)
            phi = refs.wrap(math.degrees(math.atan2(yy, xx)) + 90.0, 0.0,
                            360.0)
            extra = {"x": xx, "y": yy}
            if inst == "ampere":
                rows.append("{:s} {:.3f} {:.4f} {:.4f} {:}".format(
                    tt.strftime("%Y%m%d %H:%M"), rr, xx, yy, repr(ff)))
            else:
                sc = int(rng.integers(16, 19))
                pts = [round(float(vv), 2) for vv in rng.uniform(-20, 20, 4)]
                rows.append("{:d} {:s} {:.3f} {:.4f} {:.4f} {:} {:s}".format(
                    sc, tt.strftime("%Y-%m-%d %H:%M:%S"), rr, xx, yy, repr(ff),
                    " ".join("{:.2f}".format(pp) for pp in pts)))
                extra.update({"sc": float(sc), "x_1": pts[0], "y_1": pts[1],
                              "x_2": pts[2], "y_2": pts[3]})
        rec = refs.Rec(tt, phi, cen, rr, ff)
        rec.extra = extra
        recs.append(rec)
    return rows, recs


def write_file(case, inst, rows, name=None):
    """Write a boundary file."""
    if name is None:
        name = "bound_{:d}.{:s}".format(next(COUNT), "ocb")
    path = os.path.join(case.tmp, name)
    with open(path, "w") as fout:
        if inst == "dmsp-ssj":
            fout.write("#sc date time r x y fom x_1 y_1 x_2 y_2\n")
        for row in rows:
            fout.write(row + "\n")
    return path


def shift(mlt, amp=1.0, phase=0.0, r_add=0.0):
    """User-supplied boundary correction that depends on MLT."""
    return amp * np.cos(np.asarray(mlt) * np.pi / 12.0 - phase) + r_add


def shift_ref(mlt, amp=1.0, phase=0.0, r_add=0.0):
    """Scalar form of the user-supplied correction."""
    return amp * math.cos(mlt * math.pi / 12.0 - phase) + r_add


def corrections(rng, num, kind=None):
    """Draw boundary corrections.

    Returns
    -------
    rfunc, rfunc_kwargs : any
        Input for the boundary class
    per_rec : list or NoneType
        Reference function and keyword arguments of each record, where None
        is the instrument default

    """
    import ocbpy.ocb_correction as ocbcor

    pairs = {"circular": (ocbcor.circular, refs.circular),
             "elliptical": (ocbcor.elliptical, refs.elliptical),
             "harmonic": (ocbcor.harmonic, refs.harmonic),
             "shift": (shift, shift_ref)}

    def draw_kw(name):
        if name == "circular":
            return {"r_add": round(float(rng.uniform(-3, 3)), 3)}
        if name == "elliptical":
            return {"method": str(rng.choice(["median", "gaussian"]))}
        if name == "harmonic":
            inst = str(rng.choice(["ampere", "si12", "si13", "wic"]))
            meth = ["median", "gaussian"] if inst == "ampere" else ["ocb",
                                                                    "eab"]
            return {"instrument": inst, "method": str(rng.choice(meth))}
        return {"amp": round(float(rng.uniform(0, 2.5)), 3),
                "phase": round(float(rng.uniform(-7, 7)), 3),
                "r_add": round(float(rng.uniform(-1, 1)), 3)}

    kind = str(rng.choice(["default", "one", "one-kw", "array", "array-kw",
                           "one-arraykw"])) if kind is None else kind
    names = list(pairs.keys())
    if kind == "default":
        return None, None, None
    if kind == "one":
        nn = str(rng.choice(names))
        return pairs[nn][0], None, [(pairs[nn][1], {})] * num
    if kind == "one-kw":
        nn = str(rng.choice(names))
        kw = draw_kw(nn)
        return pairs[nn][0], kw, [(pairs[nn][1], kw)] * num
    if kind == "one-arraykw":
        nn = str(rng.choice(names))
        kws = [draw_kw(nn) for _ in range(num)]
        arr = np.empty(num, dtype=object)
        arr[:] = kws
        return pairs[nn][0], arr, [(pairs[nn][1], kw) for kw in kws]
    picks = [str(rng.choice(names)) for _ in range(num)]
    funcs = np.empty(num, dtype=object)
    funcs[:] = [pairs[nn][0] for nn in picks]
    if kind == "array":
        return funcs, None, [(pairs[nn][1], {}) for nn in picks]
    kws = [draw_kw(nn) for nn in picks]
    arr = np.empty(num, dtype=object)
    arr[:] = kws
    return funcs, arr, [(pairs[nn][1], kw) for nn, kw in zip(picks, kws)]


def make_boundary(case, cls="OCB", num=None, inst=None, hemi=None, ref=None,
                  corr=None, fom="good", start=None, gap=None, dtimes=None,
                  rad=None, max_cent=6.0):
    """Create a boundary object through a file.

    Returns
    -------
    obj : ocbpy.OCBoundary or ocbpy.EABoundary
        Loaded object
    recs : list
        Model of the records, with their corrections
    meta : dict
        Reference latitude (positive), hemisphere, instrument, filename

    """
    import ocbpy

    rng = case.rng
    num = int(rng.integers(1, 7)) if num is None else num
    inst = str(rng.choice(INSTS)) if inst is None else inst
    hemi = int(rng.choice([1, -1])) if hemi is None else hemi
    if rad is None:
        rad = (9.0, 22.0) if cls == "OCB" else (22.0, 32.0)
    rows, recs = records(rng, num, inst, fom=fom, start=start, gap=gap,
                         dtimes=dtimes, rad=rad, max_cent=max_cent)
    path = write_file(case, inst, rows)

    rfunc, rkw, per = corrections(rng, num, corr)
    default_kw = corr is None and per is None and rng.random() < 0.4
    if default_kw:
        # Keywords for the correction that the instrument provides
        if cls == "OCB" and inst == "ampere":
            rkw = [{"method": str(rng.choice(["median", "gaussian"]))}
                   for _ in range(num)]
        else:
            rkw = [{"r_add": round(float(rng.uniform(-3, 3)), 3)}
                   for _ in range(num)]
        if rng.random() < 0.5:
            rkw = rkw[0]
        else:
            arr = np.empty(num, dtype=object)
            arr[:] = rkw
            rkw = arr
    for ii, rec in enumerate(recs):
        if per is None:
            rec.corr, rec.kw = (refs.elliptical, {}) if (
                cls == "OCB" and inst == "ampere") else (refs.circular, {})
            if default_kw:
                rec.kw = rkw[ii] if isinstance(rkw, np.ndarray) else rkw
        else:
            rec.corr, rec.kw = per[ii]

    default = 74.0 if cls == "OCB" else 64.0
    kwargs = {}
    if ref is None:
        pick = int(rng.integers(4))
        if pick == 0:
            ref = default
        elif pick == 1:
            ref = default
            kwargs["boundary_lat"] = None if cls == "OCB" else default
        else:
            ref = round(float(rng.uniform(55, 82)), 2)
            kwargs["boundary_lat"] = ref * (1 if rng.random() < 0.5 else -1)
    else:
        kwargs["boundary_lat"] = ref

    obj = case.call(getattr(ocbpy, "OCBoundary" if cls == "OCB" else
                            "EABoundary"), filename=path, instrument=inst,
                    hemisphere=hemi, rfunc=rfunc, rfunc_kwargs=rkw, **kwargs)
    case.check(obj.records == num, "records of a boundary file",
               obj.records, num, rows)
    obj.rec_ind = 0
    case.show(cls=cls, inst=inst, hemi=hemi, ref=ref, kwargs=kwargs, rows=rows,
              corr=[(rec.corr.__name__, rec.kw) for rec in recs])
    return obj, recs, {"hemi": hemi, "ref": abs(ref), "inst": inst,
                       "path": path, "rows": rows}


def mlts(rng, num, wide=True):
    """Draw magnetic local times, also outside of a single day."""
    out = rng.uniform(0, 24, num)
    if wide:
        kind = rng.random(num)
        out = np.where(kind < 0.1, out - 24.0, out)
        out = np.where((kind > 0.1) & (kind < 0.2), out + 24.0, out)
        out = np.where((kind > 0.2) & (kind < 0.23), out + 72.0, out)
        special = rng.choice([0.0, 6.0, 12.0, 18.0, 24.0], num)
        out = np.where((kind > 0.23) & (kind < 0.33), special, out)
    return out


def lats(rng, num, hemi, low=45.0, high=89.9, wrong=0.0, nan=0.0):
    """Draw latitudes of a hemisphere."""
    out = hemi * rng.uniform(low, high, num)
    kind = rng.random(num)
    out = np.where(kind < wrong, -out, out)
    out = np.where((kind > wrong) & (kind < wrong + nan), np.nan, out)
    return out


def as_form(rng, lat, lt, forms=("array", "list", "scalar", "2d", "mixed")):
    """Provide the same data in one of several input forms.

    Returns
    -------
    form : str
        Name of the form
    lat_in, lt_in : any
        Input values
    lat_ref, lt_ref : numpy.ndarray
        Values that every element of the output corresponds to

    """
    form = str(rng.choice(forms))
    if form == "list":
        return form, list(map(float, lat)), list(map(float, lt)), lat, lt
    if form == "tuple":
        return form, tuple(map(float, lat)), tuple(map(float, lt)), lat, lt
    if form == "scalar":
        return form, float(lat[0]), float(lt[0]), lat[0], lt[0]
    if form == "2d" and len(lat) >= 4:
        num = len(lat) // 2 * 2
        return form, lat[:num].reshape(2, -1), lt[:num].reshape(
            2, -1), lat[:num].reshape(2, -1), lt[:num].reshape(2, -1)
    if form == "mixed" and len(lat) > 1:
        if rng.random() < 0.5:
            return form, float(lat[0]), lt, np.full(lt.shape, lat[0]), lt
        return form, lat, float(lt[0]), lat, np.full(lat.shape, lt[0])
    if form == "int":
        lat, lt = np.round(lat).astype(int), np.round(lt).astype(int)
        return form, lat, lt, lat.astype(float), lt.astype(float)
    return "array", np.array(lat), np.array(lt), lat, lt
