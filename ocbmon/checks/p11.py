"""P11: angles, hours, and longitudes convert consistently and in range."""

import datetime as dt
import math

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.core import Suite

suite = Suite("P11", "random angles and hours across many cycles, exactly on "
              "and next to range limits, NaN, and tiny values, as Python and "
              "numpy scalars, lists, integers, and arrays of several "
              "dimensions, with random ranges; non-trivial by function, form, "
              "and values", ["values up to 1e6 cycles"])


def draw(rng, num, period, marks):
    """Draw cyclic values."""
    out = list()
    for _ in range(num):
        kind = int(rng.integers(9))
        mark = float(rng.choice(marks))
        if kind == 0:
            val = mark
        elif kind == 1:
            val = float(np.nextafter(mark, -np.inf))
        elif kind == 2:
            val = float(np.nextafter(mark, np.inf))
        elif kind == 3:
            val = mark + period * int(rng.integers(-4, 5))
        elif kind == 4:
            val = -float(10.0**rng.uniform(-18, -3))
        elif kind == 5:
            val = float(rng.uniform(-1, 1)) * period * 10.0**int(
                rng.integers(2, 7))
        elif kind == 6:
            val = float(np.nextafter(mark + period * int(
                rng.integers(-4, 5)), rng.choice([-1e9, 1e9])))
        else:
            val = mark + float(rng.uniform(-1, 1)) * period
        out.append(val)
    return out


def form_of(rng, vals, nan=True):
    """Provide values in a random form.

    Returns
    -------
    form : str
        Name of the form
    data : any
        Input
    ref : numpy.ndarray
        Values as floats, in the shape of the output

    """
    form = str(rng.choice(["float", "np", "0d", "list", "array", "2d", "int",
                           "intarray", "nan", "empty"]))
    if form == "float":
        return form, vals[0], np.array(vals[0])
    if form == "np":
        return form, np.float64(vals[0]), np.array(vals[0])
    if form == "0d":
        return form, np.array(vals[0]), np.array(vals[0])
    if form == "list":
        return form, list(vals), np.array(vals)
    if form == "2d" and len(vals) > 1:
        arr = np.array(vals[:len(vals) // 2 * 2]).reshape(2, -1)
        return form, arr, arr.copy()
    if form == "int":
        val = int(round(vals[0]))
        return form, val, np.array(float(val))
    if form == "intarray":
        arr = np.round(vals).astype(int)
        return form, arr, arr.astype(float)
    if form == "nan":
        arr = np.array(vals)
        arr[0] = np.nan
        return form, arr, arr.copy()
    if form == "empty":
        return form, np.array([]), np.array([])
    return "array", np.array(vals), np.array(vals)


def judge(case, name, out, want, low, high, period, mag):
    """Values agree on the circle and lie in [low, high)."""
    got = np.asarray(out, dtype=float)
    want = np.asarray(want, dtype=float)
    case.check(got.shape == want.shape, name + " output shape", got.shape,
               want.shape)
    tol = 1e-13 * (np.abs(mag) + 10.0 * period) + 1e-12
    for ii in np.ndindex(want.shape):
        if np.isnan(want[ii]):
            case.check(np.isnan(got[ii]), name + " does not keep NaN", got[ii])
            continue
        case.check(low <= got[ii] < high, name + " is out of range [{:}, "
                   "{:})".format(low, high), got[ii], want[ii])
        diff = float(refs.circ_diff(got[ii], want[ii], period))
        case.check(diff <= tol[ii], name + " differs (got, expected up to "
                   "cycles of {:})".format(period), got[ii], want[ii], diff)


@suite.group(400)
def ranges(case):
    """Cyclic values are moved into the range by whole cycles."""
    import ocbpy.ocb_time as ot

    rng = case.rng
    period = float(rng.choice([24.0, 360.0, 2.0 * math.pi, 1.0, 7.5]))
    low = float(rng.choice([0.0, -180.0, -12.0, -math.pi, 0.5, -1e-3]))
    if rng.random() < 0.3:
        low = round(float(rng.uniform(-400, 400)), 2)
    high = low + period
    kwargs = {}
    if rng.random() < 0.3:
        # The range may be wider than a cycle
        high = low + period * float(rng.choice([1.5, 2.0, 1.0]))
        kwargs = {"val_range": period}
    period = high - low if len(kwargs) == 0 else period
    if rng.random() < 0.2:
        low, period = 0, 24
        high, kwargs = 24, {}
    form, data, ref = form_of(rng, draw(rng, int(rng.integers(1, 9)), period,
                                        [low, high, 0.0]))
    case.show(values=data, form=form, low=low, high=high, kw=kwargs)
    keep = np.array(data, copy=True)
    out = case.call(ot.fix_range, data, low, high, **kwargs)
    judge(case, "fix_range", out, ref, low, high, period, np.abs(ref))
    case.check(np.array_equal(np.asarray(data), keep, equal_nan=True),
               "input is altered")
    got = np.asarray(out, dtype=float)
    ok = (ref >= low) & (ref < high)
    case.check(np.all(got[ok] == ref[ok]), "values in range are altered",
               got, ref)
    case.seen("fix_range", form, low, high, period, ref.tolist())


@suite.group(500)
def angles(case):
    """Degrees, radians, and hours convert into each other."""
    import ocbpy.ocb_time as ot

    rng = case.rng
    name = str(rng.choice(["deg2hr", "hr2deg", "hr2rad", "rad2hr"]))
    num = gen.count(rng, 1, 9, 2000)
    if name == "deg2hr":
        form, data, ref = form_of(rng, draw(rng, num, 360.0, [
            0.0, 15.0, 180.0, 345.0, 360.0, -180.0, -360.0]))
        low, high, period, want, kwargs = 0.0, 24.0, 24.0, ref / 15.0, {}
    elif name == "rad2hr":
        form, data, ref = form_of(rng, draw(rng, num, 2.0 * math.pi, [
            0.0, math.pi, 2.0 * math.pi, -math.pi]))
        low, high, period, want, kwargs = 0.0, 24.0, 24.0, ref * 12.0 \
            / math.pi, {}
    else:
        form, data, ref = form_of(rng, draw(rng, num, 24.0, [0.0, 6.0, 12.0,
                                                             24.0, -12.0]))
        if name == "hr2deg":
            kwargs = [{}, {"min_deg": 0.0}, {"min_deg": 0.0, "max_deg": 360.0},
                      {"max_deg": 180.0}, {"min_deg": -180.0,
                                           "max_deg": 180.0},
                      {"min_deg": -90.0, "max_deg": 90.0},
                      {"min_deg": float(rng.uniform(-360, 360))},
                      {"max_deg": float(rng.uniform(-180, 720))},
                      {"min_deg": float(rng.choice([0.0, -90.0, 90.0])),
                       "max_deg": float(rng.uniform(100, 540))}][int(
                          rng.integers(9))]
            low = kwargs.get("min_deg", -180.0)
            high = kwargs.get("max_deg", 360.0)
            if high - low < 360.0:
                low = high - 360.0
            period, want = 360.0, ref * 15.0
        else:
            kwargs = [{}, {"max_range": math.pi}, {"max_range": 2.0 * math.pi},
                      {"max_range": 1.0}, {"max_range": 3.0 * math.pi},
                      {"max_range": 0.0}, {"max_range": float(rng.uniform(
                          -10, 20))}][int(rng.integers(7))]
            high = kwargs.get("max_range", 2.0 * math.pi)
            low, period = high - 2.0 * math.pi, 2.0 * math.pi
            want = ref * math.pi / 12.0
    case.show(func=name, values=data, form=form, kw=kwargs)
    out = case.call(getattr(ot, name), data, **kwargs)
    judge(case, name, out, want, low, high, period, np.abs(want))
    case.seen(name, form, sorted(kwargs.items()), ref.tolist())

    # There and back
    back = {"deg2hr": ot.hr2deg, "hr2deg": ot.deg2hr, "hr2rad": ot.rad2hr,
            "rad2hr": ot.hr2rad}[name]
    period = {"deg2hr": 360.0, "hr2deg": 24.0, "hr2rad": 24.0,
              "rad2hr": 2.0 * math.pi}[name]
    low, high = {"deg2hr": (-180.0, 360.0), "hr2deg": (0.0, 24.0),
                 "hr2rad": (0.0, 24.0), "rad2hr": (0.0, 2.0 * math.pi)}[name]
    judge(case, name + " and back", case.call(back, out), ref, low, high,
          period, np.abs(ref))


@suite.group(400)
def local_time(case):
    """Solar local time and longitude are inverse, and follow UT."""
    import ocbpy.ocb_time as ot

    rng = case.rng
    tt = gen.start_time(rng)
    if rng.random() < 0.3:
        tt = tt.replace(hour=int(rng.choice([0, 12, 23])),
                        minute=int(rng.choice([0, 30, 59])))
    if rng.random() < 0.5:
        tt += dt.timedelta(microseconds=int(rng.integers(1000000)))
    uth = refs.ut_hours(tt)
    got = case.call(ot.datetime2hr, tt)
    case.check(abs(got - uth) < 1e-12, "hours of day", tt, got, uth)
    num = gen.count(rng, 1, 9, 1000)
    if rng.random() < 0.5:
        form, data, ref = form_of(rng, draw(rng, num, 24.0, [
            0.0, uth, uth - 12.0, uth + 12.0, 24.0]))
        case.show(slt=data, form=form, dtime=str(tt))
        out = case.call(ot.slt2glon, data, tt)
        judge(case, "slt2glon", out, (ref - uth) * 15.0, -180.0, 360.0, 360.0,
              np.abs(ref * 15.0))
        judge(case, "slt2glon and back", case.call(ot.glon2slt, out, tt), ref,
              0.0, 24.0, 24.0, np.abs(ref))
    else:
        form, data, ref = form_of(rng, draw(rng, num, 360.0, [
            0.0, 180.0, 360.0, -180.0, -15.0 * uth, 360.0 - 15.0 * uth]))
        case.show(glon=data, form=form, dtime=str(tt))
        out = case.call(ot.glon2slt, data, tt)
        judge(case, "glon2slt", out, ref / 15.0 + uth, 0.0, 24.0, 24.0,
              np.abs(ref))
        judge(case, "glon2slt and back", case.call(ot.slt2glon, out, tt), ref,
              -180.0, 360.0, 360.0, np.abs(ref))
    case.seen(form, str(tt), ref.tolist())
