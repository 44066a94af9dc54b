"""P24: boundary corrections follow their published forms."""

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.core import Suite

suite = Suite("P24", "random local times (scalars, lists, arrays, across "
              "several days, integers, NaN) for every correction, instrument, "
              "and method, in any letter case; unknown instruments and "
              "methods; non-trivial by correction and local times",
              ["published coefficients, restated by the monitor"])

HARM = list(refs.HARM.keys())


def any_case(rng, text):
    """Change the case of a name."""
    return [text, text.upper(), text.title()][int(rng.integers(3))]


@suite.group(400)
def values(case):
    """Every local time gets the published correction."""
    import ocbpy.ocb_correction as cor

    rng = case.rng
    name = str(rng.choice(["circular", "elliptical", "harmonic"]))
    num = gen.count(rng, 1, 10, 1000, 0.06)
    mlt = gen.mlts(rng, num)
    form = str(rng.choice(["scalar", "list", "array", "2d", "int", "nan",
                           "np"]))
    kwargs, rkw = {}, {}
    if name == "circular":
        if rng.random() < 0.8:
            kwargs = {"r_add": round(float(rng.uniform(-5, 5)), int(
                rng.choice([1, 12, 12])))}
            rkw = dict(kwargs)
    elif name == "elliptical":
        if rng.random() < 0.8:
            rkw = {"method": str(rng.choice(["median", "gaussian"]))}
            if rng.random() < 0.5:
                rkw["instrument"] = "ampere"
    elif rng.random() < 0.9:
        inst, meth = HARM[int(rng.integers(len(HARM)))]
        rkw = {"instrument": inst, "method": meth}
        if inst == "ampere" and rng.random() < 0.3:
            del rkw["instrument"]
    if name != "circular":
        kwargs = {kk: any_case(rng, vv) for kk, vv in rkw.items()}
    data, ref = {
        "scalar": lambda: (float(mlt[0]), np.array(mlt[0])),
        "np": lambda: (np.float64(mlt[0]), np.array(mlt[0])),
        "list": lambda: (mlt.tolist(), mlt),
        "array": lambda: (mlt.copy(), mlt),
        "2d": lambda: (mlt.reshape(-1, 1), mlt.reshape(-1, 1)),
        "int": lambda: (np.round(mlt).astype(int), np.round(mlt)),
        "nan": lambda: (np.append(mlt, np.nan), np.append(mlt, np.nan))}[
            form]()
    case.show(func=name, mlt=data, kwargs=kwargs)
    keep = np.array(data, copy=True)
    out = case.call(getattr(cor, name), data, **kwargs)
    want = np.empty(ref.shape)
    for ii in np.ndindex(ref.shape):
        want[ii] = np.nan if np.isnan(ref[ii]) and name != "circular" else \
            getattr(refs, name)(float(ref[ii]), **rkw)
    case.close_to(out, want, 1e-9, name)
    case.check(np.array_equal(keep, np.asarray(data), equal_nan=True),
               "input is altered", keep, data)
    # A day later, the correction is the same
    again = case.call(getattr(cor, name), np.asarray(data) + 24.0 * int(
        rng.integers(-3, 4)), **kwargs)
    case.close_to(again, want, 1e-9, name + " after whole days")
    case.seen(name, form, sorted(rkw.items()), ref.tolist())


@suite.group(60)
def unknown(case):
    """Unknown instruments and methods are rejected."""
    import ocbpy.ocb_correction as cor

    rng = case.rng
    mlt = float(rng.uniform(0, 24))
    bad = str(rng.choice(["", "image", "fake", "dmsp-ssj", "amper", "mean",
                          "wic ", "none"]))
    kind = int(rng.integers(4))
    if kind == 0:
        func, kwargs = cor.elliptical, {"instrument": bad}
    elif kind == 1:
        func, kwargs = cor.elliptical, {"method": str(rng.choice(
            [bad, "ocb", "eab"]))}
    elif kind == 2:
        func, kwargs = cor.harmonic, {"instrument": bad}
    else:
        inst = str(rng.choice(["ampere", "si12", "si13", "wic"]))
        func, kwargs = cor.harmonic, {"instrument": inst, "method": str(
            rng.choice([bad, "ocb"] if inst == "ampere"
                       else [bad, "median", "gaussian"]))}
    case.show(func=func.__name__, kwargs=kwargs)
    err = case.raises(ValueError, func, mlt, **kwargs)
    case.check(len(str(err)) > 0, "message")
    case.seen(func.__name__, sorted(kwargs.items()), round(mlt, 2))
