"""P03: geographic positions agree with the magnetic positions they imply."""

import datetime as dt

import aacgmv2
import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks.p01 import judge
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P03", "random boundaries and geodetic/geocentric locations, "
              "heights (single and per location), tracing methods, and input "
              "forms; converted element by element with aacgmv2 by the "
              "monitor; non-trivial if a finite position was compared",
              ["aacgmv2 coordinate conversions are trusted",
               "solar local time is longitude / 15 + UT"])


def lon_of(slt, dtime):
    """Longitude at a solar local time."""
    return (slt - refs.ut_hours(dtime)) * 15.0


def method_code(method, coords, *add):
    """Method flags for aacgmv2."""
    code = [method]
    if coords.lower() == "geocentric":
        code.append("GEOCENTRIC")
    return "|".join(code + list(add))


def to_mag(lat, slt, height, dtime, coords, method="ALLOWTRACE"):
    """Magnetic location of every element."""
    lat, slt, height = np.broadcast_arrays(
        np.asarray(lat, dtype=float), np.asarray(slt, dtype=float),
        np.asarray(height, dtype=float))
    mlat, mlt = np.full(lat.shape, np.nan), np.full(lat.shape, np.nan)
    for ii in np.ndindex(lat.shape):
        lon = refs.wrap(lon_of(float(slt[ii]), dtime), -180.0, 360.0)
        mlat[ii], _, mlt[ii] = aacgmv2.get_aacgm_coord(
            float(lat[ii]), lon, float(height[ii]), dtime,
            method_code(method, coords))
    return mlat, mlt


def to_geo(mlat, mlt, height, dtime, coords, method="ALLOWTRACE"):
    """Geographic location of every element."""
    mlat, mlt, height = np.broadcast_arrays(
        np.asarray(mlat, dtype=float), np.asarray(mlt, dtype=float),
        np.asarray(height, dtype=float))
    lat, slt = np.full(mlat.shape, np.nan), np.full(mlat.shape, np.nan)
    for ii in np.ndindex(mlat.shape):
        if np.isnan(mlat[ii]) or np.isnan(mlt[ii]):
            continue
        mlon = float(np.ravel(aacgmv2.convert_mlt(float(mlt[ii]), dtime,
                                                  m2a=True))[0])
        out = aacgmv2.convert_latlon(float(mlat[ii]), mlon, float(height[ii]),
                                     dtime, method_code(method, coords, "A2G"))
        lat[ii] = out[0]
        slt[ii] = refs.wrap(out[1] / 15.0 + refs.ut_hours(dtime), 0.0, 24.0)
    return lat, slt


def no_trace(mlat, method):
    """Identify locations where aacgmv2 itself may not end."""
    mlat = np.abs(np.asarray(mlat, dtype=float))
    return bool(np.any(mlat < 45.0) or (method == "TRACE"
                                        and np.any(mlat > 89.0)))


def draw(rng, hemi):
    """Draw geographic input and its options."""
    num = int(rng.integers(1, 7))
    lat = gen.lats(rng, num, hemi, 55.0, 89.0,
                   wrong=0.25 if rng.random() < 0.2 else 0.0)
    slt = gen.mlts(rng, num, rng.random() < 0.3)
    form, lat_in, slt_in, lat_r, slt_r = gen.as_form(
        rng, lat, slt, ("array", "list", "scalar", "mixed", "array"))
    coords = str(rng.choice(["geodetic", "geocentric", "Geodetic",
                             "GEOCENTRIC"]))
    kwargs = {"coords": coords}
    height = 350.0
    kind = int(rng.integers(4))
    if kind == 1:
        height = float(rng.choice([0.0, 110.0, 500.0, 845.0, 0.6, 99.7,
                                   1333.3, 1900.0]))
        kwargs["height"] = height
    elif kind == 2 and np.ndim(lat_r) == 1:
        height = rng.uniform(0.0, rng.choice([900.0, 1900.0]), len(lat_r))
        kwargs["height"] = height if rng.random() < 0.6 else list(
            map(float, height))
    elif kind == 2 and form == "scalar" and rng.random() < 0.4:
        # One location at several heights
        height = rng.uniform(0.0, rng.choice([900.0, 1900.0]), int(
            rng.integers(1, 5)))
        kwargs["height"] = height
        lat_r, slt_r = [np.full(len(height), float(xx))
                        for xx in (lat_r, slt_r)]
    elif kind == 3:
        height = int(rng.integers(80, 900))
        kwargs["height"] = height
    method = "ALLOWTRACE"
    if rng.random() < 0.35:
        method = "TRACE"
        kwargs["method"] = method
    elif rng.random() < 0.2:
        kwargs["method"] = method
    return form, lat_in, slt_in, lat_r, slt_r, kwargs, coords, height, method


@suite.group(100, 1500)
def normalise(case):
    """Geographic locations normalise as their magnetic locations."""
    rng = case.rng
    cls = "OCB" if rng.random() < 0.6 else "EAB"
    obj, recs, meta = gen.make_boundary(case, cls)
    hemi = meta["hemi"]
    irec = int(rng.integers(len(recs)))
    obj.rec_ind = irec
    rec = recs[irec]
    (form, lat_in, slt_in, lat_r, slt_r, kwargs, coords, height,
     method) = draw(rng, hemi)
    case.show(irec=irec, lat=lat_in, slt=slt_in, kwargs=kwargs)
    mlat, mlt = to_mag(lat_r, slt_r, height, rec.dtime, coords, method)
    out = case.call(obj.normal_coord, lat_in, slt_in, **kwargs)
    good = judge(case, rec, hemi, meta["ref"], mlat, mlt, [
        np.asarray(oo, dtype=float).reshape(mlat.shape) if
        np.size(oo) == mlat.size else oo for oo in out])
    if good > 0:
        case.seen(cls, coords, method, form, np.round(lat_r, 5).tolist())


@suite.group(100, 1500)
def revert(case):
    """Boundary coordinates revert to the location of the magnetic result."""
    rng = case.rng
    cls = "OCB" if rng.random() < 0.6 else "EAB"
    ref = round(float(rng.uniform(58.0, 72.0)), 2)
    obj, recs, meta = gen.make_boundary(case, cls, ref=ref)
    hemi = meta["hemi"]
    irec = int(rng.integers(len(recs)))
    obj.rec_ind = irec
    rec = recs[irec]
    num = int(rng.integers(1, 7))
    olat = gen.lats(rng, num, hemi, 60.0, 89.0)
    omlt = rng.uniform(0, 24, num)
    (form, _, _, _, _, kwargs, coords, height, method) = draw(rng, hemi)
    form, o_in, m_in, o_r, m_r = gen.as_form(rng, olat, omlt,
                                             ("array", "list", "scalar"))
    if np.ndim(height) == 1 or "height" in kwargs and isinstance(
            kwargs["height"], list):
        height = rng.uniform(0.0, rng.choice([900.0, 1900.0]), num)
        kwargs["height"] = height
        form, o_in, m_in, o_r, m_r = "array", olat, omlt, olat, omlt
        if rng.random() < 0.2:
            # One location at several heights
            form, o_in, m_in = "heights", float(olat[0]), float(omlt[0])
    case.show(irec=irec, olat=o_in, omlt=m_in, kwargs=kwargs)
    mlat, mlt = case.call(obj.revert_coord, o_in, m_in)
    if no_trace(mlat, method):
        raise Skip()
    lat, slt = case.call(obj.revert_coord, o_in, m_in, **kwargs)
    want_lat, want_slt = to_geo(mlat, mlt, height, rec.dtime, coords, method)
    case.check(np.size(lat) == want_lat.size
               and np.size(slt) == want_slt.size, "size of the output", lat,
               slt)
    case.close_to(np.ravel(lat), np.ravel(want_lat), 1e-6,
                  "geographic latitude")
    slt, want_slt = np.ravel(slt), np.ravel(want_slt)
    ok = np.isfinite(want_slt)
    case.check(np.all(refs.circ_diff(slt[ok], want_slt[ok], 24.0) < 1e-6),
               "solar local time", slt, want_slt)
    case.check(np.all((slt[ok] >= 0.0) & (slt[ok] < 24.0)),
               "solar local time range", slt)
    if ok.any():
        case.seen("rev", cls, coords, method, form, np.round(o_r, 5).tolist())


@suite.group(60, 800)
def dual(case):
    """Dual-boundary conversions also agree with the magnetic locations."""
    import ocbpy

    rng = case.rng
    hemi = int(rng.choice([1, -1]))
    num = int(rng.integers(1, 4))
    dtimes = gen.times(rng, num, "dmsp-ssj", gap=(200, 900))
    ocb, orecs, _ = gen.make_boundary(
        case, "OCB", num, "dmsp-ssj", hemi, dtimes=dtimes, ref=74.0,
        corr="default", max_cent=3.0, rad=(10.0, 16.0))
    eab, _, _ = gen.make_boundary(
        case, "EAB", num, "dmsp-ssj", hemi, dtimes=[
            tt + dt.timedelta(seconds=int(rng.integers(-59, 60)))
            for tt in dtimes], ref=64.0,
        corr="default", max_cent=3.0, rad=(22.0, 28.0))
    obj = case.call(ocbpy.DualBoundary, ocb=ocb, eab=eab, hemisphere=hemi)
    irec = int(rng.integers(num))
    obj.rec_ind = irec
    dtime = orecs[irec].dtime
    (form, lat_in, slt_in, lat_r, slt_r, kwargs, coords, height,
     method) = draw(rng, hemi)
    case.show(irec=irec, lat=lat_in, slt=slt_in, kwargs=kwargs)
    mlat, mlt = to_mag(lat_r, slt_r, height, dtime, coords, method)
    got = case.call(obj.normal_coord, lat_in, slt_in, **kwargs)
    want = case.call(obj.normal_coord, mlat, mlt)
    case.check(len(got) == 4 and len(want) == 4, "four outputs", got)
    for ii, name in enumerate(["dual latitude", "MLT", "OCB latitude"]):
        gg = np.ravel(np.asarray(got[ii], dtype=float))
        ww = np.ravel(np.asarray(want[ii], dtype=float))
        if ii == 1:
            ok = np.isfinite(ww)
            case.check(np.array_equal(ok, np.isfinite(gg)) and np.all(
                refs.circ_diff(gg[ok], ww[ok], 24.0) < 1e-6), "dual MLT", gg,
                ww)
        else:
            case.close_to(gg, ww, 1e-6, name)
    if np.isfinite(np.ravel(want[0])).any():
        case.seen("dual", coords, method, form, np.round(lat_r, 5).tolist())

    # And back again
    ok = np.isfinite(np.ravel(want[0]))
    if ok.all() and np.all(np.ravel(mlat) * hemi > 0) and not no_trace(
            np.append(np.ravel(mlat), case.call(
                obj.ocb.revert_coord, np.ravel(want[0]), np.ravel(want[1]),
                np.ravel(want[3]))[0]), method):
        mlat, mlt = np.ravel(mlat), np.ravel(mlt)
        hh = np.broadcast_to(height, mlat.shape)
        kw = dict(kwargs)
        if "height" in kw:
            kw["height"] = np.array(hh)
        lat, slt = case.call(
            obj.revert_coord, np.ravel(want[0]), np.ravel(want[1]),
            np.ravel(want[3]), is_ocb=False, aacgm_mlt=mlt, **kw)
        wlat, wslt = to_geo(mlat, mlt, hh, dtime, coords, method)
        # Tracing has steps that depend on the last digits of the location
        tol = 1e-2 if method == "TRACE" else 1e-5
        case.close_to(np.ravel(lat), wlat, tol,
                      "reverted geographic latitude")
        fin = np.isfinite(wslt)
        case.check(np.all(refs.circ_diff(np.ravel(slt)[fin], wslt[fin], 24.0)
                          * np.cos(np.radians(wlat[fin])) < tol), "reverted solar local time", slt, wslt)
        case.seen("dual-rev", coords, method, form)
