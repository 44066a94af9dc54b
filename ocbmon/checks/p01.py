"""P01: normalised coordinates place the boundary at the reference latitude."""

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P01", "random OCB/EAB boundary files (three formats, both "
              "hemispheres, every correction function per record), random "
              "record index, locations drawn as scalars, lists, integer and "
              "multi-dimensional arrays, with wrong-hemisphere and NaN "
              "elements; non-trivial if at least one location is normalised "
              "to a finite position, or a whole fill result is demanded",
              ["planar model: the position relative to the boundary centre is "
               "scaled by (90 - |reference latitude|) / (radius + "
               "correction)"])


def plane_positions(hemi, lat, mlt):
    """Planar positions of normalised coordinates."""
    colat = 90.0 - hemi * np.asarray(lat, dtype=float)
    ang = np.asarray(mlt, dtype=float) * np.pi / 12.0
    return colat * np.cos(ang), colat * np.sin(ang)


def judge(case, rec, hemi, ref, lat, mlt, out, msg=""):
    """Compare the output of a conversion with the planar model."""
    case.check(len(out) == 3, msg + "expects three outputs", out)
    olat, omlt, rcorr = [np.asarray(oo, dtype=float) for oo in out]
    lat, mlt = np.broadcast_arrays(np.asarray(lat, dtype=float),
                                   np.asarray(mlt, dtype=float))
    case.check(olat.shape == lat.shape, msg + "output latitude shape",
               olat.shape, lat.shape)
    case.check(omlt.shape == lat.shape, msg + "output MLT shape", omlt.shape,
               lat.shape)
    rcorr = np.broadcast_to(rcorr, lat.shape)
    num = 0
    for ii in np.ndindex(lat.shape):
        pos, corr = refs.normalise(rec, hemi, ref, float(lat[ii]),
                                   float(mlt[ii]))
        if pos is None:
            case.check(np.isnan(olat[ii]) and np.isnan(omlt[ii]), msg
                       + "location without boundary coordinates is not NaN",
                       lat[ii], mlt[ii], olat[ii], omlt[ii])
            continue
        num += 1
        case.check(np.isfinite(olat[ii]) and np.isfinite(omlt[ii]),
                   msg + "valid location is undefined", lat[ii], mlt[ii],
                   olat[ii], omlt[ii])
        case.check(0.0 <= omlt[ii] < 24.0, msg + "MLT range", omlt[ii])
        case.check(abs(rcorr[ii] - corr) < 1e-8, msg + "radius correction",
                   rcorr[ii], corr)
        gx, gy = plane_positions(hemi, olat[ii], omlt[ii])
        case.check(abs(complex(gx, gy) - pos) < 1e-7 * (1.0 + abs(pos)),
                   msg + "normalised position (lat, mlt, got lat, got mlt, "
                   "expected lat, expected mlt)", lat[ii], mlt[ii], olat[ii],
                   omlt[ii], refs.signed_lat(hemi, abs(pos)),
                   refs.unplane(pos)[1])
    return num


@suite.group(260)
def model(case):
    """Random locations agree with the planar model."""
    rng = case.rng
    cls = "OCB" if rng.random() < 0.6 else "EAB"
    obj, recs, meta = gen.make_boundary(case, cls)
    for _ in range(4):
        irec = int(rng.integers(len(recs)))
        obj.rec_ind = irec
        num = gen.count(rng, 1, 14, 1500)
        hemi = meta["hemi"]
        lat = gen.lats(rng, num, hemi, -10.0 if rng.random() < 0.1 else 40.0,
                       90.0, wrong=float(rng.choice([0.0, 0.3, 1.0])) if
                       rng.random() < 0.4 else 0.0,
                       nan=0.2 if rng.random() < 0.2 else 0.0)
        mlt = gen.mlts(rng, num)
        if rng.random() < 0.05:
            lat[0] = 0.0
        if rng.random() < 0.1:
            lat[0] = hemi * 90.0
        forms = ("array", "list", "scalar", "2d", "mixed", "tuple")
        if not np.isnan(lat).any() and rng.random() < 0.2:
            forms = ("int",)
        form, lat_in, mlt_in, lat_r, mlt_r = gen.as_form(rng, lat, mlt, forms)
        kwargs = {}
        if rng.random() < 0.3:
            kwargs["coords"] = str(rng.choice(["magnetic", "Magnetic", "mag",
                                               "MAGNETIC"]))
        case.show(irec=irec, lat=lat_in, mlt=mlt_in, form=form, kw=kwargs)
        out = case.call(obj.normal_coord, lat_in, mlt_in, **kwargs)
        good = judge(case, recs[irec], hemi, meta["ref"], lat_r, mlt_r, out)
        if good > 0:
            case.seen(cls, meta["inst"], hemi, irec, form,
                      recs[irec].corr.__name__, np.round(lat_r, 6).tolist())


@suite.group(160)
def ring(case):
    """Boundary locations lie at the reference latitude, others on its sides."""
    rng = case.rng
    cls = "OCB" if rng.random() < 0.5 else "EAB"
    obj, recs, meta = gen.make_boundary(case, cls)
    irec = int(rng.integers(len(recs)))
    obj.rec_ind = irec
    hemi, rec = meta["hemi"], recs[irec]
    mlt = rng.uniform(0, 24, 16)
    colat = np.array([refs.boundary_colat(rec, mm)[0] for mm in mlt])
    if not np.isfinite(colat).all():
        raise Skip()  # The boundary does not surround the pole
    sign = float(rng.choice([0.0, 1.0, -1.0]))
    if sign < 0.0 and np.any([rec.rad + rec.r_corr(mm) < rec.rcent + 0.01
                              for mm in mlt]):
        raise Skip()  # The pole lies outside, there are two crossings
    step = 0.0 if sign == 0.0 else float(rng.uniform(0.05, 3.0)) * sign
    if sign < 0.0:
        step = max(step, -0.9 * colat.min())
    case.show(irec=irec, mlt=mlt, step=step)
    out = case.call(obj.normal_coord, hemi * (90.0 - colat - step), mlt)
    olat = np.asarray(out[0])
    case.check(np.all(np.sign(olat) == hemi), "hemisphere of the output", olat)
    if sign == 0.0:
        case.close_to(olat, np.full(16, hemi * meta["ref"]), 1e-7,
                      "boundary location is not at the reference latitude")
    else:
        case.check(np.all((np.abs(olat) - meta["ref"]) * sign < 0.0),
                   "location on the wrong side of the boundary", step, olat,
                   meta["ref"])
    case.seen(cls, meta["inst"], hemi, meta["ref"], step, rec.rad)


@suite.group(80)
def fill(case):
    """An index outside of the records gives fill values."""
    import ocbpy

    rng = case.rng
    cls = "OCB" if rng.random() < 0.5 else "EAB"
    if rng.random() < 0.25:
        obj = getattr(ocbpy, "OCBoundary" if cls == "OCB" else "EABoundary")(
            filename=None)
        hemi = 1
        obj.rec_ind = int(rng.integers(-2, 3))
    else:
        obj, recs, meta = gen.make_boundary(case, cls)
        hemi = meta["hemi"]
        obj.rec_ind = int(rng.choice([-1, -2, len(recs), len(recs) + 1,
                                      len(recs) + 40]))
    num = int(rng.integers(1, 9))
    form, lat_in, mlt_in, lat_r, _ = gen.as_form(
        rng, gen.lats(rng, num, hemi), gen.mlts(rng, num))
    kwargs = {}
    if rng.random() < 0.5:
        kwargs["coords"] = str(rng.choice(["geodetic", "geocentric",
                                           "Geocentric", "magnetic"]))
        if rng.random() < 0.5:
            kwargs["height"] = float(rng.uniform(100.0, 900.0))
            if np.shape(lat_r) == () and rng.random() < 0.4:
                # One location at several heights
                kwargs["height"] = rng.uniform(100.0, 900.0,
                                               int(rng.integers(1, 5)))
                lat_r = np.full(len(kwargs["height"]), float(lat_r))
        if rng.random() < 0.3:
            kwargs["method"] = "TRACE"
    case.show(rec_ind=obj.rec_ind, lat=lat_in, mlt=mlt_in, kwargs=kwargs)
    index = obj.rec_ind
    out = case.call(obj.normal_coord, lat_in, mlt_in, **kwargs)
    case.check(len(out) == 3, "number of outputs", out)
    want = np.full(np.shape(lat_r), np.nan)
    for oo in out:
        case.close_to(np.asarray(oo, dtype=float), want, 0.0,
                      "fill values for a bad index")
    rev = case.call(obj.revert_coord, lat_in, mlt_in, **kwargs)
    case.check(len(rev) == 2, "number of reverted outputs", rev)
    for oo in rev:
        case.close_to(np.asarray(oo, dtype=float), want, 0.0,
                      "reverted fill values for a bad index")
    case.check(obj.rec_ind == index, "index is altered", obj.rec_ind, index)
    case.seen(cls, index, form, num)
