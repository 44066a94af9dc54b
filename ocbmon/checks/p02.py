"""P02: normalisation can be undone."""

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks.p01 import plane_positions
from ocbmon.core import Skip, Suite

suite = Suite("P02", "random OCB/EAB records and locations of the loaded "
              "hemisphere are normalised and reverted (and reverted and "
              "normalised); non-trivial if a finite position came back",
              ["locations and boundary locations of the loaded hemisphere",
               "radius plus correction is positive"])


def same_place(case, hemi, got, want, tol, msg):
    """Compare locations in the plane, where the pole is no special case."""
    glat, glt = [np.asarray(gg, dtype=float) for gg in got]
    wlat, wlt = [np.asarray(ww, dtype=float) for ww in want]
    case.check(glat.shape == wlat.shape and glt.shape == wlat.shape,
               msg + " shape", glat.shape, glt.shape, wlat.shape)
    gx, gy = plane_positions(hemi, glat, glt)
    wx, wy = plane_positions(hemi, wlat, wlt)
    case.close_to(gx, wx, tol, msg + " (x)")
    case.close_to(gy, wy, tol, msg + " (y)")
    ok = np.isfinite(wlat)
    case.check(np.all(((glt >= 0.0) & (glt < 24.0)) | ~ok), msg + " MLT range",
               glt)


@suite.group(300)
def there_and_back(case):
    """Reverting a normalised location returns the location."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(case,
                                        "OCB" if rng.random() < 0.6 else "EAB")
    hemi = meta["hemi"]
    for _ in range(3):
        obj.rec_ind = int(rng.integers(len(recs)))
        num = gen.count(rng, 1, 12, 1500)
        lat = gen.lats(rng, num, hemi, 35.0, 90.0)
        mlt = gen.mlts(rng, num)
        # Locations that stay in this hemisphere
        rec = recs[obj.rec_ind]
        for ii in range(num):
            pos, _ = refs.normalise(rec, hemi, meta["ref"], lat[ii], mlt[ii])
            if abs(pos) >= 89.0:
                lat[ii] = hemi * rng.uniform(80, 90)
        form, lat_in, mlt_in, lat_r, mlt_r = gen.as_form(
            rng, lat, mlt, ("array", "list", "scalar", "2d"))
        kwargs = {}
        if rng.random() < 0.3:
            kwargs["coords"] = str(rng.choice(["magnetic", "MAG"]))
        case.show(irec=obj.rec_ind, lat=lat_in, mlt=mlt_in, kw=kwargs)
        olat, omlt, rcorr = case.call(obj.normal_coord, lat_in, mlt_in,
                                      **kwargs)
        if not np.all(np.asarray(olat) * hemi > 0.0):
            continue
        back = case.call(obj.revert_coord, olat, omlt, rcorr, **kwargs)
        case.check(len(back) == 2, "two outputs", back)
        same_place(case, hemi, back, (lat_r, mlt_r), 1e-7,
                   "reverted location")
        case.seen("fwd", meta["inst"], hemi, form, np.round(lat_r, 6).tolist())


@suite.group(200)
def inverse_model(case):
    """Reverting follows the inverse planar model, normalising returns it."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(
        case, "OCB" if rng.random() < 0.6 else "EAB",
        corr=str(rng.choice(["default", "one-kw", "array-kw"])))
    hemi = meta["hemi"]
    irec = int(rng.integers(len(recs)))
    obj.rec_ind = irec
    rec = recs[irec]
    num = gen.count(rng, 1, 10, 1000)
    olat = gen.lats(rng, num, hemi, 50.0, 89.9)
    omlt = gen.mlts(rng, num)
    const = rec.corr is refs.circular
    if const:
        rcorr = rec.r_corr(0.0)
    else:
        rcorr = float(rng.uniform(-4, 4))
    if rng.random() < 0.3:
        # The correction provided here is used, also when it is large
        const = False
        rcorr = float(rng.uniform(-0.95, 0.6)) * rec.rad
    given = rcorr
    if rng.random() < 0.4 and num > 1:
        given = np.full(num, rcorr)
        if not const:
            given = rng.uniform(-4, 4, num)
    kwargs = {"r_corr": given}
    if const and rcorr == 0.0 and rng.random() < 0.5:
        kwargs = {}
    if np.ndim(given) == 1:
        form, o_in, m_in, o_r, m_r = gen.as_form(rng, olat, omlt,
                                                 ("array", "list"))
    else:
        form, o_in, m_in, o_r, m_r = gen.as_form(
            rng, olat, omlt, ("array", "list", "scalar", "2d", "mixed"))
    case.show(irec=irec, olat=o_in, omlt=m_in, kwargs=kwargs)
    back = case.call(obj.revert_coord, o_in, m_in, **kwargs)
    want_lat, want_lt = np.full(np.shape(o_r), np.nan), np.full(np.shape(o_r),
                                                                np.nan)
    gg = np.broadcast_to(given, np.shape(o_r))
    for ii in np.ndindex(np.shape(o_r)):
        ol = float(np.asarray(o_r)[ii])
        om = float(np.asarray(m_r)[ii])
        scale = (rec.rad + gg[ii]) / (90.0 - meta["ref"])
        pos = refs.plane(90.0 - abs(ol), om) * scale + rec.centre
        colat, mm = refs.unplane(pos)
        want_lat[ii], want_lt[ii] = hemi * (90.0 - colat), mm
    same_place(case, hemi, back, (want_lat, want_lt), 1e-7,
               "location reverted with a correction")
    case.seen("rev", meta["inst"], hemi, form, np.round(o_r, 6).tolist())
    if const and np.all(want_lat * hemi > 1.0):
        again = case.call(obj.normal_coord, back[0], back[1])
        same_place(case, hemi, again[:2], (o_r, m_r), 1e-7,
                   "normalised reverted location")
        case.seen("again", rec.rad, form)


def special(rng, recs, num):
    """Draw a centred or aligned circle, and times next to the period ends.

    Returns
    -------
    irec : int
        Index of the record
    mlt : array
        Local times

    """
    good = [ii for ii, rec in enumerate(recs)
            if abs(rec.centre) < 1e-12 or abs(rec.phi % 90.0) < 1e-9]
    irec = int(rng.choice(good)) if len(good) > 0 else 0
    base = rng.choice([0.0, 6.0, 12.0, 18.0, 24.0, 48.0, -24.0], num)
    step = rng.choice([0.0, 0.0, 1.0e-15, -1.0e-15, -1.0e-17, 5.0e-15,
                       -5.0e-15, -1.0e-13], num)
    return irec, np.where(rng.random(num) < 0.1, rng.uniform(0, 24, num),
                          base + step)


@suite.group(150)
def edges(case):
    """Local times next to the ends of the day stay within the day."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(
        case, "OCB" if rng.random() < 0.6 else "EAB", corr="default")
    hemi = meta["hemi"]
    num = int(rng.integers(1, 30))
    obj.rec_ind, mlt = special(rng, recs, num)
    rec = recs[obj.rec_ind]
    lat = hemi * np.round(rng.uniform(60, 90, num), int(rng.integers(5)))
    if rng.random() < 0.3:
        # The local time of the centre itself
        lat = np.where(rng.random(num) < 0.3, hemi * (90.0 - rec.rcent), lat)
    case.show(irec=obj.rec_ind, lat=lat, mlt=mlt)
    olat, omlt, rcorr = case.call(obj.normal_coord, lat, mlt)
    case.check(np.all((omlt >= 0.0) & (omlt < 24.0)), "normalised MLT range",
               omlt)
    if np.all(np.asarray(olat) * hemi > 0.0):
        back = case.call(obj.revert_coord, olat, omlt, rcorr)
        same_place(case, hemi, back, (lat, mlt), 1e-7, "reverted location")
    rback = case.call(obj.revert_coord, lat, mlt)
    case.check(np.all((rback[1] >= 0.0) & (rback[1] < 24.0)),
               "reverted MLT range", rback)
    wlat, wlt = np.empty(num), np.empty(num)
    for ii in range(num):
        pos = refs.plane(90.0 - abs(lat[ii]), mlt[ii]) * (
            rec.rad + rec.r_corr(mlt[ii])) / (90.0 - meta["ref"]) + rec.centre
        colat, wlt[ii] = refs.unplane(pos)
        wlat[ii] = hemi * (90.0 - colat)
    if rec.corr is refs.circular:
        same_place(case, hemi, rback, (wlat, wlt), 1e-7, "edge location")
    case.seen("edge", meta["inst"], hemi, mlt.tolist())


@suite.group(60)
def undefined(case):
    """Undefined boundary coordinates stay undefined, the rest do not."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(case, "OCB")
    hemi = meta["hemi"]
    obj.rec_ind = int(rng.integers(len(recs)))
    num = int(rng.integers(3, 10))
    lat = gen.lats(rng, num, hemi, 60.0, 89.0)
    mlt = rng.uniform(0, 24, num)
    bad = rng.random(num) < 0.4
    bad[0] = False
    lat[bad] = np.where(rng.random(bad.sum()) < 0.5, np.nan, -lat[bad])
    case.show(lat=lat, mlt=mlt)
    olat, omlt, rcorr = case.call(obj.normal_coord, lat, mlt)
    case.check(np.array_equal(np.isnan(olat), bad), "undefined locations",
               olat, bad)
    if not np.all(bad | (olat * hemi > 0.0)):
        raise Skip()  # Distances are stretched across the equator
    back_lat, back_lt = case.call(obj.revert_coord, olat, omlt, rcorr)
    case.check(np.array_equal(np.isnan(back_lat), bad),
               "undefined reverted latitudes", back_lat, bad)
    case.check(np.array_equal(np.isnan(back_lt), bad),
               "undefined reverted MLT", back_lt, bad)
    case.close_to(back_lat[~bad], lat[~bad], 1e-7, "reverted latitude")
    case.seen("nan", bad.tolist(), num)
    wrong = case.call(obj.revert_coord, -np.abs(lat[~bad]) * hemi, mlt[~bad])
    case.check(np.isnan(wrong[0]).all() and np.isnan(wrong[1]).all(),
               "boundary locations of the other hemisphere", wrong)
