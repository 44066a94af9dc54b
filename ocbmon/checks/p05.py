"""P05: dual-boundary coordinates join three regions."""

import datetime as dt
import math

import aacgmv2
import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P05", "random dual-boundary objects (both hemispheres, every "
              "correction, several pairs), locations in all three regions, "
              "round trips, radii, and histories of stored boundary "
              "locations; non-trivial if a location of a region was compared, "
              "by region",
              ["at the MLT of a location, the open-closed boundary lies at "
               "least 0.2 degrees poleward of the equatorward boundary and "
               "encloses the pole", "one-dimensional or scalar input"])


def make_dual(case, num=None, hemi=None, corr=None, refs_lat=None, inst=None,
              max_cent=4.0, orad=(9.0, 15.0), erad=(23.0, 29.0), alone=True,
              shift=False):
    """Create a dual-boundary object with its models."""
    import ocbpy

    rng = case.rng
    hemi = int(rng.choice([1, -1])) if hemi is None else hemi
    num = int(rng.integers(1, 6)) if num is None else num
    dtimes = gen.times(rng, num, "dmsp-ssj", gap=(130, 900))
    insts = ["image", "dmsp-ssj"] if inst is None else [inst]
    if refs_lat is None:
        oref = round(float(rng.uniform(70, 80)), 2)
        eref = round(float(rng.uniform(56, 68)), 2)
        if rng.random() < 0.3:
            oref, eref = 74.0, 64.0
    else:
        oref, eref = refs_lat
    # Some of the boundaries are not part of a pair, so that the indices of
    # pairs and records differ
    otimes, etimes = list(dtimes), list(dtimes)
    if alone and rng.random() < 0.6:
        spots = [dtimes[0] - dt.timedelta(seconds=100)] + [
            tt + (nn - tt) / 2 for tt, nn in zip(dtimes[:-1], dtimes[1:])
            if nn - tt > dt.timedelta(seconds=125)] + [
                dtimes[-1] + dt.timedelta(seconds=100)]
        for spot in spots:
            pick = int(rng.integers(4))
            if pick < 2:
                [otimes, etimes][pick].append(spot.replace(microsecond=0))
        otimes, etimes = sorted(otimes), sorted(etimes)
    pair_times = dtimes
    if shift is None:
        shift = len(otimes) == len(etimes) == num and rng.random() < 0.5
    if shift:
        # The times of a pair may differ, those of the open-closed boundary
        # are the times of the pair
        etimes = pair_times = [tt + dt.timedelta(seconds=int(
            rng.integers(-55, 56))) for tt in dtimes]
    ocb, orecs, ometa = gen.make_boundary(
        case, "OCB", len(otimes), str(rng.choice(insts)), hemi, dtimes=otimes,
        ref=oref * (1 if rng.random() < 0.7 else -1), max_cent=max_cent,
        rad=orad, corr=corr)
    eab, erecs, emeta = gen.make_boundary(
        case, "EAB", len(etimes), str(rng.choice(insts)), hemi, dtimes=etimes,
        ref=eref * (1 if rng.random() < 0.7 else -1), max_cent=max_cent,
        rad=erad, corr=corr)
    every = orecs
    orecs = [rec for rec in orecs if rec.dtime in dtimes]
    erecs = [rec for rec in erecs if rec.dtime in pair_times]
    obj = case.call(ocbpy.DualBoundary, ocb=ocb, eab=eab, hemisphere=hemi)
    case.check(obj.records == num, "number of pairs", obj.records, num)
    return obj, orecs, erecs, {"hemi": hemi, "oref": oref, "eref": eref,
                               "num": num, "dtimes": dtimes,
                               "every": every,
                               "insts": (ometa["inst"], emeta["inst"])}


def bounds(orec, erec, mlt):
    """Co-latitudes of both boundaries, None outside of the domain."""
    ocl, _ = refs.boundary_colat(orec, mlt)
    ecl, _ = refs.boundary_colat(erec, mlt)
    if math.isnan(ocl) or math.isnan(ecl) or ocl + 0.2 > ecl or ocl < 0.5:
        return None
    if orec.rad + orec.r_corr(mlt) <= orec.rcent + 0.1:
        return None
    return ocl, ecl


def model(orec, erec, meta, lat, mlt):
    """Dual-boundary coordinates of one location.

    Returns
    -------
    region : str
        'ocb', 'mid', 'out', 'nan', or 'skip' for locations out of domain
    dual_lat, pos, r_corr, unscaled : float
        Expected values

    """
    hemi = meta["hemi"]
    pos, r_corr = refs.normalise(orec, hemi, hemi * meta["oref"], lat, mlt)
    if pos is None:
        return "nan", math.nan, None, math.nan, math.nan
    both = bounds(orec, erec, mlt)
    if both is None:
        return "skip", None, None, None, None
    ocl, ecl = both
    colat = 90.0 - abs(lat)
    if abs(colat - ocl) < 1e-7 or abs(colat - ecl) < 1e-7:
        return "skip", None, None, None, None
    if colat < ocl:
        return ("ocb", hemi * (90.0 - abs(pos)), pos, r_corr,
                orec.rad + r_corr)
    if colat < ecl:
        frac = (colat - ocl) / (ecl - ocl)
        return ("mid", hemi * (meta["oref"] - frac * (
            meta["oref"] - meta["eref"])), pos, r_corr, ecl - ocl)
    return ("out", hemi * (abs(lat) * meta["eref"] / (90.0 - ecl)), pos,
            r_corr, 90.0 - ecl)


def draw_points(case, orec, erec, meta, num, wrong=0.0):
    """Draw locations of all regions, away from the edges of the domain."""
    rng = case.rng
    lat, mlt, exp = list(), list(), list()
    for _ in range(20 * num):
        mm = float(gen.mlts(rng, 1)[0])
        kind = int(rng.integers(5))
        both = bounds(orec, erec, refs.wrap(mm, 0.0, 24.0))
        if both is None:
            continue
        ocl, ecl = both
        if kind == 0:
            colat = float(rng.uniform(0.0, ocl))
        elif kind == 1:
            colat = float(rng.uniform(ocl, ecl))
        elif kind == 2:
            colat = float(rng.uniform(ecl, 55.0))
        elif kind == 3:
            colat = ocl + float(rng.choice([-1e-4, 1e-4]))
        else:
            colat = ecl + float(rng.choice([-1e-4, 1e-4]))
        ll = meta["hemi"] * (90.0 - colat)
        if rng.random() < wrong:
            ll = -ll if rng.random() < 0.7 else math.nan
        out = model(orec, erec, meta, ll, mm)
        if out[0] == "skip":
            continue
        lat.append(ll)
        mlt.append(mm)
        exp.append(out)
        if len(lat) == num:
            break
    if len(lat) == 0:
        raise Skip()
    return np.array(lat), np.array(mlt), exp


def fold(rng, *arrays):
    """Sometimes arrange locations in several dimensions."""
    num = len(arrays[0])
    shapes = [(num, 1), (1, num)]
    if num % 2 == 0:
        shapes += [(2, num // 2), (num // 2, 2), (2, 1, num // 2)] * 2
    if rng.random() < 0.75:
        return arrays
    shape = shapes[int(rng.integers(len(shapes)))]
    return [np.reshape(arr, shape) for arr in arrays]


def compare(case, meta, exp, lat, mlt, out):
    """Compare one dual-boundary conversion with the model."""
    case.check(len(out) == 4, "four outputs", out)
    shape = np.shape(lat)
    dlat, dmlt, olat, rcor = [np.asarray(oo, dtype=float) for oo in out]
    for arr, name in ((dlat, "latitude"), (dmlt, "MLT"), (olat, "OCB lat")):
        case.check(arr.shape == shape, "shape of the " + name, arr.shape,
                   shape)
    dlat, dmlt, olat = np.ravel(dlat), np.ravel(dmlt), np.ravel(olat)
    rcor = np.ravel(np.broadcast_to(rcor, shape))
    for ii, (region, want, pos, rc, _) in enumerate(exp):
        info = (np.ravel(lat)[ii], np.ravel(mlt)[ii], region)
        if region == "nan":
            case.check(np.isnan(dlat[ii]) and np.isnan(olat[ii]),
                       "location of the other hemisphere", dlat[ii], *info)
            continue
        case.check(abs(dlat[ii] - want) < 1e-6, "dual-boundary latitude",
                   dlat[ii], want, *info)
        colat, pmlt = refs.unplane(pos)
        case.check(abs(olat[ii] - meta["hemi"] * (90.0 - colat)) < 1e-6,
                   "OCB latitude", olat[ii], *info)
        case.check(0.0 <= dmlt[ii] < 24.0, "MLT range", dmlt[ii], *info)
        case.check(refs.circ_diff(dmlt[ii], pmlt, 24.0) * max(colat, 1e-9)
                   < 1e-5, "dual-boundary MLT", dmlt[ii], pmlt, *info)
        case.check(abs(rcor[ii] - rc) < 1e-7, "radius correction", rcor[ii],
                   rc, *info)
        case.seen(region, meta["hemi"], round(float(np.ravel(lat)[ii]), 4),
                  round(float(np.ravel(mlt)[ii]), 4))


@suite.group(140)
def regions(case):
    """Locations follow the piecewise model of their region."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, shift=None)
    for _ in range(3):
        irec = int(rng.integers(meta["num"]))
        obj.rec_ind = irec
        lat, mlt, exp = draw_points(
            case, orecs[irec], erecs[irec], meta, int(rng.integers(1, 12)),
            wrong=0.3 if rng.random() < 0.25 else 0.0)
        form = str(rng.choice(["array", "list", "scalar", "array"]))
        kwargs = {}
        if rng.random() < 0.3:
            kwargs["overwrite"] = bool(rng.random() < 0.5)
        if form == "scalar":
            lat, mlt, exp = float(lat[0]), float(mlt[0]), exp[:1]
            lat_in, mlt_in = lat, mlt
        elif form == "list":
            lat_in, mlt_in = lat.tolist(), mlt.tolist()
        else:
            lat, mlt = fold(rng, lat, mlt)
            lat_in, mlt_in = lat, mlt
            if rng.random() < 0.2:
                kwargs["height"] = rng.uniform(100, 800, lat.shape)
        case.show(irec=irec, lat=lat_in, mlt=mlt_in, kwargs=kwargs)
        out = case.call(obj.normal_coord, lat_in, mlt_in, **kwargs)
        compare(case, meta, exp, lat, mlt, out)


@suite.group(110)
def round_trip(case):
    """Dual-boundary coordinates revert to the magnetic location."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, shift=None)
    irec = int(rng.integers(meta["num"]))
    obj.rec_ind = irec
    lat, mlt, exp = draw_points(case, orecs[irec], erecs[irec], meta,
                                int(rng.integers(1, 12)))
    scalar = rng.random() < 0.3
    if scalar:
        lat, mlt, exp = float(lat[0]), float(mlt[0]), exp[:1]
    else:
        lat, mlt = fold(rng, lat, mlt)
    case.show(irec=irec, lat=lat, mlt=mlt)
    dlat, dmlt, olat, rcor = case.call(obj.normal_coord, lat, mlt)
    is_list = not scalar and rng.random() < 0.3
    args = [np.asarray(aa).tolist() if is_list else aa
            for aa in (dlat, dmlt)]
    back = case.call(obj.revert_coord, *args, r_corr=rcor, is_ocb=False,
                     aacgm_mlt=mlt)
    case.check(len(back) == 2, "two outputs", back)
    case.close_to(back[0], np.asarray(lat), 1e-6, "reverted dual latitude")
    case.check(np.shape(back[1]) == np.shape(lat), "MLT shape", back[1])
    colat = np.maximum(90.0 - np.abs(lat), 1e-6)
    case.check(np.all(refs.circ_diff(back[1], mlt, 24.0) * colat < 1e-5),
               "reverted dual MLT", back[1], mlt)
    # The OCB latitudes also revert
    if np.all(np.abs(olat) > 0.0) and np.all(np.sign(olat) == meta["hemi"]):
        again = case.call(obj.revert_coord, olat, dmlt, r_corr=rcor)
        case.close_to(again[0], np.asarray(lat), 1e-6, "reverted OCB latitude")
        case.check(np.all(refs.circ_diff(again[1], mlt, 24.0) * colat < 1e-5),
                   "reverted OCB MLT", again[1], mlt)
    case.seen("trip", [ee[0] for ee in exp], scalar,
              np.round(lat, 4).tolist())


@suite.group(60)
def other_side(case):
    """Locations that are undefined or of the other hemisphere do not revert."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, shift=None)
    irec = int(rng.integers(meta["num"]))
    obj.rec_ind = irec
    lat, mlt, _ = draw_points(case, orecs[irec], erecs[irec], meta,
                              int(rng.integers(1, 12)))
    dlat, dmlt, _, rcor = case.call(obj.normal_coord, lat, mlt)
    bad = rng.random(len(lat)) < 0.5
    if rng.random() < 0.2:
        bad[:] = True
    dlat = np.where(bad, -dlat if rng.random() < 0.8 else np.nan, dlat)
    want = np.where(bad, np.nan, lat)
    amlt = mlt.copy()
    if rng.random() < 0.2:
        dlat, dmlt, rcor, want, amlt = [float(xx[0]) for xx in (
            dlat, dmlt, rcor, want, amlt)]
    else:
        dlat, dmlt, rcor, want, amlt = fold(rng, dlat, dmlt, rcor, want, amlt)
    case.show(irec=irec, lat=lat, mlt=mlt, dual=dlat, bad=bad)
    back = case.call(obj.revert_coord, dlat, dmlt, r_corr=rcor, is_ocb=False,
                     aacgm_mlt=amlt)
    case.close_to(back[0], want, 1e-6, "reverted latitude")
    case.check(np.array_equal(np.isnan(back[1]), np.isnan(want)),
               "undefined local times", back[1], want)
    case.seen("other", bad.tolist(), np.shape(dlat), np.round(lat, 4).tolist())


@suite.group(80)
def radii(case):
    """The scaled and unscaled radii belong to the region of the location."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, shift=None)
    irec = int(rng.integers(meta["num"]))
    obj.rec_ind = irec
    lat, mlt, exp = draw_points(case, orecs[irec], erecs[irec], meta,
                                int(rng.integers(1, 12)))
    if rng.random() < 0.3:
        lat, mlt, exp = float(lat[0]), float(mlt[0]), exp[:1]
    else:
        lat, mlt = fold(rng, lat, mlt)
    dlat, dmlt, _, rcor = case.call(obj.normal_coord, lat, mlt)
    ok = [abs(ee[1]) for ee in exp]
    if any(abs(oo - meta[kk]) < 1e-8 for oo in ok for kk in ("oref", "eref")):
        raise Skip()
    case.show(irec=irec, lat=lat, mlt=mlt)
    scaled, unscaled = case.call(obj.calc_r, dlat, dmlt, mlt, rcor)
    want_s = {"ocb": 90.0 - meta["oref"], "mid": meta["oref"] - meta["eref"],
              "out": meta["eref"]}
    shape = np.shape(lat)
    case.close_to(scaled, np.reshape([want_s[ee[0]] for ee in exp], shape),
                  1e-9, "scaled radius")
    case.close_to(unscaled, np.reshape([ee[4] for ee in exp], shape), 1e-7,
                  "unscaled radius")
    case.seen("radii", [ee[0] for ee in exp], np.round(lat, 4).tolist())


@suite.group(60)
def edges(case):
    """Dual-boundary latitudes on a boundary revert to the boundary."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, shift=None)
    irec = int(rng.integers(meta["num"]))
    obj.rec_ind = irec
    num, lat, bmlt, mlt, want, near = int(rng.integers(1, 9)), [], [], [], [], 0
    kinds = list()
    while len(lat) < num and near < 20 * num:
        near += 1
        mm = float(rng.uniform(0.0, 24.0))
        both = bounds(orecs[irec], erecs[irec], mm)
        if both is None:
            continue
        kind = int(rng.integers(4))
        # Exactly on a boundary, or within a rounding error of it
        ref = meta["eref"] if kind < 3 else meta["oref"]
        if kind == 1:
            ref = float(np.nextafter(ref, 0.0))
        elif kind == 2:
            ref = float(np.nextafter(ref, 90.0))
        colat = both[1] if kind < 3 else both[0]
        pos, _ = refs.normalise(orecs[irec], meta["hemi"],
                                meta["hemi"] * meta["oref"],
                                meta["hemi"] * (90.0 - colat), mm)
        lat.append(meta["hemi"] * ref)
        bmlt.append(refs.unplane(pos)[1])
        mlt.append(mm)
        want.append(meta["hemi"] * (90.0 - colat))
        kinds.append(kind)
    if len(lat) == 0:
        raise Skip()
    lat, bmlt, mlt, want = [np.array(xx) for xx in (lat, bmlt, mlt, want)]
    rcor = np.array([orecs[irec].r_corr(mm) for mm in mlt])
    if rng.random() < 0.3:
        lat, bmlt, mlt, want, rcor = [float(xx[0]) for xx in (lat, bmlt, mlt,
                                                              want, rcor)]
    case.show(irec=irec, lat=lat, mlt=mlt, bound_mlt=bmlt)
    back = case.call(obj.revert_coord, lat, bmlt, r_corr=rcor, is_ocb=False,
                     aacgm_mlt=mlt)
    case.close_to(back[0], want, 1e-6, "reverted boundary latitude")
    case.check(np.all(refs.circ_diff(back[1], mlt, 24.0) < 1e-5),
               "reverted boundary MLT", back[1], mlt)
    case.seen("edge", meta["hemi"], kinds, np.round(want, 4).tolist())


@suite.group(60)
def on_boundary(case):
    """Locations on a boundary normalise to its reference latitude."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(
        case, max_cent=0.0 if rng.random() < 0.2 else 4.0, shift=None,
        corr="default" if rng.random() < 0.3 else None)
    irec = int(rng.integers(meta["num"]))
    grid = gen.mlts(rng, int(rng.integers(1, 12)))
    grid = np.array([mm for mm in grid if bounds(
        orecs[irec], erecs[irec], refs.wrap(mm, 0.0, 24.0)) is not None])
    if len(grid) == 0:
        raise Skip()
    obj.rec_ind = irec
    case.call(obj.get_aacgm_boundary_lats, grid, rec_ind=irec)
    scalar = rng.random() < 0.3
    for name, ref in (("ocb", meta["oref"]), ("eab", meta["eref"])):
        bound = getattr(obj, name)
        lat = np.array(bound.aacgm_boundary_lat[bound.rec_ind])
        mlt = np.array(grid)
        if scalar:
            lat, mlt = float(lat[0]), float(mlt[0])
        case.show(irec=irec, boundary=name, lat=lat, mlt=mlt)
        out = case.call(obj.normal_coord, lat, mlt)
        case.close_to(out[0], np.full(np.shape(lat), meta["hemi"] * ref),
                      1e-6, "dual-boundary latitude of the boundary " + name)
        back = case.call(obj.revert_coord, out[0], out[1], r_corr=out[3],
                         is_ocb=False, aacgm_mlt=mlt)
        case.close_to(back[0], np.asarray(lat), 1e-6,
                      "reverted latitude of the boundary " + name)
    case.seen("on", meta["hemi"], scalar, np.round(grid, 5).tolist())


def judge_replaced(case, obj, orec, erec, meta, mlt):
    """Boundary locations that may be replaced are those of the request."""
    for bound, rec in [(obj.ocb, orec), (obj.eab, erec)]:
        got = bound.aacgm_boundary_mlt[bound.rec_ind]
        case.check(np.shape(got) == np.shape(mlt), "replaced MLT shape",
                   np.shape(got), np.shape(mlt))
        case.check(np.all(refs.circ_diff(np.asarray(got), mlt, 24.0) < 1e-9),
                   "replaced boundary MLT", got, mlt)
        lat = np.asarray(bound.aacgm_boundary_lat[bound.rec_ind])
        for ii, mm in enumerate(mlt):
            colat, safe = refs.boundary_colat(rec, float(mm))
            if safe > 1e-6:
                case.check(abs(90.0 - abs(lat[ii]) - colat) < 1e-6,
                           "replaced boundary latitude", lat[ii], mm, colat)
    case.seen("replaced", meta["hemi"], np.round(mlt, 5).tolist())


def judge_lon(case, obj):
    """Stored longitudes are those of the stored local times."""
    for bound in (obj.ocb, obj.eab):
        lons = getattr(bound, "aacgm_boundary_lon", [])
        for irec, lon in enumerate(lons):
            if lon is None:
                continue
            mlt = np.asarray(bound.aacgm_boundary_mlt[irec], dtype=float)
            case.same(np.shape(lon), mlt.shape, "shape of the longitudes")
            want = np.asarray(aacgmv2.convert_mlt(mlt, bound.dtime[irec],
                                                  m2a=True))
            case.check(np.all(refs.circ_diff(np.asarray(lon), want, 360.0)
                              < 1e-6), "longitudes of the stored local times",
                       lon, want, irec)


@suite.group(70)
def stored(case):
    """Stored boundary locations survive conversions without permission."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, num=int(rng.integers(1, 4)),
                                        shift=None)
    grid = gen.mlts(rng, int(rng.integers(1, 9)))
    kind = int(rng.integers(3))
    log = list()
    if kind == 0:
        case.call(obj.get_aacgm_boundary_lats, grid)
        log.append("both boundaries, all records")
    elif kind == 1:
        case.call(obj.ocb.get_aacgm_boundary_lat, grid)
        log.append("ocb only")
    else:
        case.call(obj.eab.get_aacgm_boundary_lat, grid)
        log.append("eab only")

    def snap():
        out = dict()
        for name in ("ocb", "eab"):
            for attr in ("lat", "mlt", "lon"):
                vals = getattr(getattr(obj, name), "aacgm_boundary_" + attr,
                               None)
                if vals is not None:
                    out[name, attr] = [None if vv is None else np.array(vv)
                                       for vv in vals]
        return out

    before = snap()
    for _ in range(int(rng.integers(1, 5))):
        irec = int(rng.integers(meta["num"]))
        obj.rec_ind = irec
        lat, mlt, exp = draw_points(case, orecs[irec], erecs[irec], meta,
                                    int(rng.integers(1, 8)))
        over = {"overwrite": True} if rng.random() < 0.3 else {}
        log.append("rec_ind={:d} normal_coord {:} {:} {:}".format(
            irec, lat.tolist(), mlt.tolist(), over))
        case.show(history=log, grid=grid)
        replaced = len(over) > 0
        if replaced and rng.random() < 0.7:
            # Another function has permission
            over = {}
        out = case.call(obj.normal_coord, lat, mlt, **over)
        compare(case, meta, exp, lat, mlt, out)
        if rng.random() < 0.6:
            log.append("revert_coord")
            # Boundary locations are only needed outside of the OCB
            allow = {"overwrite": True} if replaced and (
                len(over) == 0 and rng.random() < 0.5) and np.any(
                    np.abs(out[0]) < meta["oref"] - 1e-6) else {}
            over.update(allow)
            back = case.call(obj.revert_coord, out[0], out[1], r_corr=out[3],
                             is_ocb=False, aacgm_mlt=mlt, **allow)
            case.close_to(back[0], lat, 1e-6, "reverted latitude")
        if rng.random() < 0.6:
            log.append("calc_r")
            allow = {"overwrite": True} if replaced and len(over) == 0 else {}
            over.update(allow)
            case.call(obj.calc_r, out[0], out[1], mlt, out[3], **allow)
        if len(over) > 0:
            log.append("permission was used")
            judge_replaced(case, obj, orecs[irec], erecs[irec], meta, mlt)
            fresh = snap()
            for key, vals in before.items():
                ind = obj.ocb_ind[irec] if key[0] == "ocb" else \
                    obj.eab_ind[irec]
                vals[ind] = fresh[key][ind]
        judge_lon(case, obj)
        after = snap()
        for key, vals in before.items():
            for ii, (old, new) in enumerate(zip(vals, after[key])):
                if old is not None:
                    case.check(new is not None and np.array_equal(
                        old, new, equal_nan=True),
                        "stored boundary was overwritten", key, ii, old, new)
    case.seen("stored", kind, len(log), np.round(grid, 4).tolist())


@suite.group(40)
def fill(case):
    """A pair index outside of the records gives fill values."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, shift=None)
    obj.rec_ind = int(rng.choice([-1, -3, meta["num"], meta["num"] + 4]))
    num = int(rng.integers(1, 6))
    lat = gen.lats(rng, num, meta["hemi"], 50.0)
    mlt = rng.uniform(0, 24, num)
    if rng.random() < 0.4:
        lat, mlt = float(lat[0]), float(mlt[0])
    kwargs = {}
    if rng.random() < 0.5:
        kwargs["coords"] = str(rng.choice(["geodetic", "geocentric",
                                           "Geocentric", "magnetic"]))
        kwargs["height"] = float(rng.uniform(100.0, 900.0))
        if rng.random() < 0.3:
            kwargs["overwrite"] = True
    case.show(rec_ind=obj.rec_ind, lat=lat, mlt=mlt, kwargs=kwargs)
    want = np.full(np.shape(lat), np.nan)
    for oo in case.call(obj.normal_coord, lat, mlt, **kwargs):
        case.close_to(oo, want, 0.0, "fill value of a bad pair index")
    for oo in case.call(obj.revert_coord, lat, mlt,
                        is_ocb=bool(rng.random() < 0.3), aacgm_mlt=mlt,
                        **kwargs):
        case.close_to(oo, want, 0.0, "reverted fill value")
    scaled, unscaled = case.call(obj.calc_r, lat, mlt, mlt, np.zeros(
        np.shape(lat)))
    case.check(np.isnan(unscaled).all(), "unscaled radius fill value",
               unscaled)
    case.seen("fill", obj.rec_ind, num, np.shape(lat))
