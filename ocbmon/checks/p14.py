"""P14: scaling functions follow their laws."""

import math

import numpy as np

from ocbmon import gen
from ocbmon.core import Suite

suite = Suite("P14", "random values (any sign, many magnitudes, zero, NaN) and "
              "radii as scalars, arrays, and broadcast shapes for both scaling "
              "laws; random angles and haversines; non-trivial by function, "
              "form, and values",
              ["relative tolerance of 1e-12 for the scaling laws"])


def draw(rng, shape, nan=True):
    """Draw values of many magnitudes."""
    out = rng.normal(size=shape) * 10.0**rng.uniform(-8, 8, size=shape)
    out = np.where(rng.random(shape) < 0.1, 0.0, out)
    if nan:
        out = np.where(rng.random(shape) < 0.1, np.nan, out)
    return out


def ints(rng, val):
    """Replace floats by integers at times."""
    return np.round(val).astype(int) if rng.random() < 0.5 else val


@suite.group(300)
def scale(case):
    """Values scale with the (squared) ratio of the radii."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    name, power = [("normal_evar", 1), ("normal_curl_evar", 2)][int(
        rng.integers(2))]
    func = getattr(ocbscal, name)
    form = str(rng.choice(["scalar", "value", "unscaled", "all", "2d", "int"]))
    num = gen.count(rng, 1, 8, 2000)
    shapes = {"scalar": ((), (), ()), "value": ((num, ), (), ()),
              "unscaled": ((), (num, ), ()), "int": ((), (), ()),
              "all": ((num, ), (num, ), (num, )),
              "2d": ((2, num), (2, num), ())}[form]
    val = draw(rng, shapes[0], form != "int")
    one = rng.uniform(1.0, 40.0, shapes[1])
    two = rng.uniform(1.0, 40.0, shapes[2])
    if form == "int":
        val, one, two = [int(round(float(xx))) for xx in (val, one, two)]
    elif form == "scalar":
        val, one, two = float(val), float(one), float(two)
    elif np.ndim(two) == 0:
        two = float(two)
    if np.ndim(one) == 0 and not np.isscalar(one):
        one = float(one)
    case.show(func=name, value=val, unscaled=one, scaled=two)
    out = case.call(func, val, one, two)
    shape = np.broadcast(np.asarray(val), np.asarray(one),
                         np.asarray(two)).shape
    va, on, tw = [np.broadcast_to(np.asarray(xx, dtype=float), shape)
                  for xx in (val, one, two)]
    want = np.empty(shape)
    for ii in np.ndindex(shape):
        ratio = on[ii] / tw[ii]
        want[ii] = va[ii] * (ratio if power == 1 else ratio * ratio)
    case.close_to(out, want, 0.0, name, rtol=1e-12)
    # No change without a change of radius
    case.close_to(case.call(func, val, two, two), np.broadcast_to(
        np.asarray(val, dtype=float), np.broadcast(
            np.asarray(val), np.asarray(two)).shape), 0.0, name + " of equal "
        "radii", rtol=1e-12)
    # Two steps are one step, and a step back returns the value
    mid = float(rng.uniform(1.0, 40.0))
    case.close_to(case.call(func, case.call(func, val, one, mid), mid, two),
                  want, 0.0, name + " in two steps", rtol=1e-12)
    case.close_to(case.call(func, out, two, one), va, 0.0, name + " and back",
                  rtol=1e-12)
    case.seen(name, form, np.asarray(val).tolist(), np.asarray(one).tolist())


@suite.group(200)
def haversine(case):
    """The haversine and its inverse agree with trigonometry."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    num = gen.count(rng, 1, 9, 2000)
    ang = rng.uniform(-7.0, 7.0, num)
    kind = rng.random(num)
    ang = np.where(kind < 0.1, 0.0, ang)
    ang = np.where((kind > 0.1) & (kind < 0.2), np.pi, ang)
    ang = np.where((kind > 0.2) & (kind < 0.3), 10.0**rng.uniform(-6, -1, num),
                   ang)
    ang = np.where((kind > 0.3) & (kind < 0.4), np.nan, ang)
    form = str(rng.choice(["scalar", "list", "array", "2d"]))
    ref = {"scalar": ang[0], "list": ang, "array": ang,
           "2d": ang.reshape(1, -1)}[form]
    data = {"scalar": float(ang[0]), "list": ang.tolist(), "array": ang.copy(),
            "2d": ang.reshape(1, -1)}[form]
    case.show(angle=data, form=form)
    out = case.call(ocbscal.hav, data)
    want = 0.5 * (1.0 - np.cos(ref))
    case.close_to(out, want, 1e-15, "haversine", rtol=1e-9)
    back = case.call(ocbscal.archav, out)
    # The distance of the angle from the closest whole turn
    turn = np.abs(np.mod(ref + np.pi, 2.0 * np.pi) - np.pi)
    turn = np.where(turn < 1e-8, 0.0, turn)
    case.check(np.shape(back) == np.shape(ref), "shape of the inverse",
               np.shape(back), np.shape(ref))
    for ii in np.ndindex(np.shape(ref)):
        got = float(np.asarray(back)[ii])
        want = float(np.asarray(turn)[ii])
        case.check(math.isnan(got) == math.isnan(want), "undefined angle", got,
                   want)
        if not math.isnan(want):
            # The slope of the inverse is infinite at half a turn
            tol = 1e-12 + 1e-15 / max(math.cos(0.5 * want), 3e-8)
            if abs(want) < 1e-7:
                tol = 1e-7
            case.check(abs(got - want) <= tol, "inverse haversine", got, want)
    case.seen(form, np.asarray(data).tolist())


@suite.group(100)
def inverse(case):
    """Haversines out of range have no angle, rounding errors are zero."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    num = gen.count(rng, 1, 9, 1000)
    val, want = list(), list()
    for _ in range(num):
        kind = int(rng.integers(7))
        vv = [float(rng.uniform(0, 1)), -float(10.0**rng.uniform(-15, 1)),
              float(rng.choice([1.0, -1.0]) * 10.0**rng.uniform(-25, -16.01)),
              float("nan"), 0.0, 1.0,
              float(10.0**rng.uniform(-15.99, -2))][kind]
        val.append(vv)
        want.append(math.nan if kind in (1, 3) else 0.0 if kind == 2
                    else 2.0 * math.asin(math.sqrt(vv)))
    form = str(rng.choice(["scalar", "list", "array"]))
    data = {"scalar": val[0], "list": val, "array": np.array(val)}[form]
    case.show(haversine=data)
    out = case.call(ocbscal.archav, data)
    case.close_to(out, want[0] if form == "scalar" else want, 1e-6,
                  "inverse haversine")
    for got, ww, vv in zip(np.atleast_1d(out), want, val):
        # The angles of small haversines are not zero
        if 5e-16 < vv < 1e-3:
            case.check(abs(got - ww) <= 1e-8 * (1.0 + ww), "angle of a small "
                       "haversine", got, ww, vv)
    case.seen(form, val)
