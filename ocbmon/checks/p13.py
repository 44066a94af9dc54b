"""P13: vector data are located, re-oriented, and scaled consistently."""

import aacgmv2
import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks import p03
from ocbmon.checks.p05 import make_dual
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P13", "random OCB, EAB, and paired boundaries, with one or many "
              "data and boundary indices, magnetic, geodetic, and geocentric "
              "locations and components, heights, scaling functions, and "
              "histories of index changes; non-trivial by the scaled vectors",
              ["three-dimensional rotation of the local axes",
               "aacgmv2 coordinate conversions are trusted",
               "the location of the southern boundary pole follows its own "
               "convention, see the listed finding"])


def evar(val, unscaled, scaled):
    """Scaling of a variable proportional to the electric field."""
    return val * unscaled / scaled


def curl(val, unscaled, scaled):
    """Scaling of a variable proportional to the curl of the field."""
    return val * (unscaled / scaled)**2


def user_scale(val, unscaled_r, scaled_r):
    """User-supplied scaling."""
    return val * (scaled_r - 0.5 * unscaled_r)


class Model(object):
    """Boundary model for the location and the scaling of vectors."""

    def __init__(self, case, kind=None, hemi=None, num=None, corr=None,
                 **kwargs):
        rng = case.rng
        kind = str(rng.choice(["OCB", "EAB", "Dual"])) if kind is None else kind
        self.kind = kind
        if kind == "Dual":
            self.obj, self.orecs, self.erecs, meta = make_dual(
                case, num=num, hemi=hemi, corr=corr, shift=None, **kwargs)
            self.hemi, self.ref = meta["hemi"], meta["oref"]
        else:
            self.obj, self.orecs, meta = gen.make_boundary(
                case, kind, hemi=hemi, num=num, corr=corr, **kwargs)
            self.hemi, self.ref = meta["hemi"], meta["ref"]
        self.meta = meta
        self.num = len(self.orecs)

    def coords(self, case, irec, lat, mlt):
        """Boundary coordinates of one magnetic location."""
        if self.kind == "Dual":
            keep = self.obj.rec_ind
            self.obj.rec_ind = int(irec)
            out = case.call(self.obj.normal_coord, float(lat), float(mlt))
            self.obj.rec_ind = keep
            return float(out[0]), float(out[1]), float(out[3])
        pos, corr = refs.normalise(self.orecs[irec], self.hemi, self.ref,
                                   float(lat), float(mlt))
        if pos is None:
            return np.nan, np.nan, np.nan
        colat, omlt = refs.unplane(pos)
        return refs.signed_lat(self.hemi, colat), omlt, corr


def safe(rec, mlt):
    """Determine if data are not exactly aligned with the boundary pole."""
    return rec.rcent > 0.05 and float(refs.circ_diff(
        mlt, rec.phi / 15.0, 12.0)) > 1e-5


def expect_vector(case, model, irec, lat, mlt, vec, r_corr, func, got,
                  places=0.0):
    """Judge the components of one re-oriented and scaled vector."""
    rec = model.orecs[irec]
    plat, plt = 90.0 - rec.rcent, rec.phi / 15.0
    unscaled, scaled = rec.rad + r_corr, 90.0 - model.ref
    vals = list()
    for sign in [model.hemi] if model.hemi > 0 else [-1, 1]:
        dn, de, margin = refs.rotate_vector(lat, mlt, vec[0], vec[1],
                                            sign * plat, plt)
        want = np.array([dn, de, vec[2]])
        if func is not None:
            want = np.array([func(ww, unscaled, scaled) for ww in want])
        fac = 1.0 if func is None else abs(func(1.0, unscaled, scaled))
        size = max(np.hypot(vec[0], vec[1]), 1e-12) * fac
        tol = size * (2e-7 + 6e-8 / margin**1.5) + 1e-9 * abs(want[2]) + places
        vals.append((np.all(np.abs(got - want) <= tol), want, tol))
    if vals[0][0]:
        return
    if len(vals) > 1 and vals[1][0]:
        case.known("south-pole-side", "southern boundary pole at the northern "
                   "latitude")
        return
    case.fail("components (got, expected, tolerance, lat, mlt, vector, "
              "record): {:}".format([got.tolist(), vals[0][1].tolist(),
                                     float(vals[0][2]), lat, mlt, list(vec),
                                     irec]))


def judge(case, model, vdata, dind, oind, lat, mlt, vec, func, given=None,
          ctol=1e-7):
    """Judge all of the attributes.

    Parameters
    ----------
    dind, oind : int or list
        Data and boundary indices
    lat, mlt : numpy.ndarray
        Magnetic locations of each output element
    vec : numpy.ndarray
        Magnetic vectors of each output element, shape (N, 3)
    func : function
        Reference scaling
    given : tuple
        Boundary coordinates that were part of the input

    """
    num = len(lat)
    orec = np.broadcast_to(np.asarray(oind), (num, ))
    shape = np.broadcast(np.asarray(dind), np.asarray(oind)).shape
    out = {}
    for key in ("ocb_lat", "ocb_mlt", "r_corr", "ocb_n", "ocb_e", "ocb_z",
                "ocb_mag", "pole_angle", "unscaled_r", "scaled_r"):
        val = np.asarray(getattr(vdata, key), dtype=float)
        case.check(val.size == num and (shape == () or val.shape == shape),
                   "shape of " + key, val.shape, shape)
        out[key] = val.reshape(num)
    good = 0
    for ii in range(num):
        if given is None:
            blat, bmlt, corr = model.coords(case, int(orec[ii]), lat[ii],
                                            mlt[ii])
        else:
            blat, bmlt, corr = [gg[ii] for gg in given]
        if np.isnan(blat) and lat[ii] * model.hemi <= 0.0:
            for key in ("ocb_lat", "ocb_mlt"):
                case.check(np.isnan(out[key][ii]), key + " in the other "
                           "hemisphere", out[key][ii])
            for key in ("ocb_n", "ocb_e", "ocb_z", "ocb_mag"):
                case.check(np.isnan(out[key][ii]), key + " in the other "
                           "hemisphere", out[key][ii])
            continue
        if np.isnan(blat):
            case.check(np.isnan(out["ocb_lat"][ii]), "undefined location",
                       out["ocb_lat"][ii])
            for key in ("ocb_n", "ocb_e", "ocb_z", "ocb_mag"):
                case.check(np.isnan(out[key][ii]), key + " without a "
                           "location", out[key][ii])
            continue
        colat = 90.0 - abs(blat)
        case.check(abs(out["ocb_lat"][ii] - blat) < ctol * 10,
                   "boundary latitude (got, expected)", out["ocb_lat"][ii],
                   blat, lat[ii], mlt[ii])
        if colat > 1e-3:
            case.check(float(refs.circ_diff(out["ocb_mlt"][ii], bmlt, 24.0))
                       < ctol * 10 / min(colat, 1.0), "boundary MLT (got, "
                       "expected)", out["ocb_mlt"][ii], bmlt, lat[ii], mlt[ii])
        case.check(abs(out["r_corr"][ii] - corr) < ctol * 10,
                   "radius correction", out["r_corr"][ii], corr)
        for key, want in [("unscaled_r", model.orecs[int(orec[ii])].rad
                           + corr), ("scaled_r", 90.0 - abs(model.ref))]:
            case.check(abs(out[key][ii] - want) < ctol * 10, key + " (got, "
                       "expected)", out[key][ii], want)
        got = np.array([out[kk][ii] for kk in ("ocb_n", "ocb_e", "ocb_z")])
        if safe(model.orecs[int(orec[ii])], mlt[ii]):
            expect_vector(case, model, int(orec[ii]), lat[ii], mlt[ii],
                          vec[ii], corr, func, got)
        mag = float(np.sqrt(np.sum(got**2)))
        case.check(abs(out["ocb_mag"][ii] - mag) <= 1e-12 * mag + 1e-300,
                   "magnitude of the components", out["ocb_mag"][ii], mag)
        good += 1
    return good


def draw_func(rng, how=None):
    """Draw a scaling function and its reference."""
    import ocbpy.ocb_scaling as ocbscal

    return [(None, None), (ocbscal.normal_evar, evar),
            (ocbscal.normal_curl_evar, curl), (user_scale, user_scale)][
                int(rng.integers(4)) if how is None else how]


def draw_vec(rng, num):
    """Draw vectors, also along the axes and without horizontal part."""
    vec = rng.normal(size=(num, 3)) * 10.0**rng.integers(-4, 7)
    for ii in range(num):
        kind = int(rng.integers(10))
        if kind < 3:
            vec[ii, kind] = 0.0
        elif kind == 3:
            vec[ii, :2] = 0.0
    return vec


def draw_layout(rng, nrec):
    """Draw data and boundary indices."""
    lay = str(rng.choice(["one", "data", "bound", "both"]))
    num = 1 if lay == "one" else gen.count(rng, 2, 7, 150)
    dind = int(rng.integers(100)) if lay in ("one", "bound") else np.sort(
        rng.integers(0, 300, num))
    oind = int(rng.integers(nrec)) if lay in ("one", "data") else \
        rng.integers(0, nrec, num)
    return lay, num, dind, oind


def as_list(rng, val):
    """Provide arrays as lists at times."""
    if np.ndim(val) > 0 and rng.random() < 0.3:
        return [vv.item() for vv in val]
    return val


@suite.group(220)
def magnetic(case):
    """Magnetic locations and components."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    model = Model(case)
    lay, num, dind, oind = draw_layout(rng, model.num)
    shared = lay in ("one", "bound")
    low = 58.0 if model.kind == "Dual" else float(rng.choice(
        [50.0, 50.0, 50.0, 0.02]))
    lat = gen.lats(rng, 1 if shared else num, model.hemi, low, 89.5,
                   wrong=0.3 if lay in ("data", "both") and
                   rng.random() < 0.3 else 0.0)
    if np.all(lat * model.hemi < 0.0):
        lat[0] *= -1.0
    if num > 1 and not shared and rng.random() < 0.15:
        lat[1] = np.nan
    mlt = rng.uniform(0, 24, 1 if shared else num)
    vec = draw_vec(rng, 1 if shared else num)
    func, ref = draw_func(rng)
    kwargs = {"dat_name": "Test", "dat_units": "m"}
    for ii, key in enumerate(["vect_n", "vect_e", "vect_z"]):
        if not shared and rng.random() < 0.1:
            # One value for all of the data
            vec[:, ii] = vec[0, ii]
            kwargs[key] = float(vec[0, ii])
        else:
            kwargs[key] = float(vec[0, ii]) if shared else as_list(
                rng, vec[:, ii].copy())
    if rng.random() < 0.3:
        mag = np.sqrt(np.sum(vec**2, axis=1))
        kwargs["vect_mag"] = float(mag[0]) if shared or np.all(
            mag == mag[0]) else mag
    lat_in = float(lat[0]) if shared else as_list(rng, lat.copy())
    mlt_in = float(mlt[0]) if shared else as_list(rng, mlt.copy())
    if not shared and rng.random() < 0.15:
        # One latitude, local time, or location for all of the data
        which = int(rng.integers(3))
        if which != 1 and lat[0] * model.hemi > 0.0:
            lat[:] = lat[0]
            lat_in = float(lat[0])
        if which > 0:
            mlt[:] = mlt[0]
            mlt_in = float(mlt[0])
    if not shared and rng.random() < 0.1:
        kwargs["height"] = float(rng.uniform(100, 800))
    late = bool(rng.random() < 0.5)
    if func is not None and not late:
        kwargs["scale_func"] = func
    all_lat = np.full(num, lat[0]) if shared else lat
    all_mlt = np.full(num, mlt[0]) if shared else mlt
    all_vec = np.tile(vec, (num, 1)) if shared else vec
    given = None
    if rng.random() < 0.15 and lay != "bound" and np.all(
            all_lat * model.hemi > 0.0):
        # The boundary location is already known
        given = (all_lat * 0.99, rng.uniform(0, 24, num),
                 rng.uniform(-1, 1, num))
        if num > 2 and rng.random() < 0.4:
            # Some of the locations are known to be undefined
            for gg in given:
                gg[1] = np.nan
        keys = ["ocb_lat", "ocb_mlt", "r_corr"]
        part = rng.permutation(3)[:int(rng.integers(1, 3))] if (
            rng.random() < 0.4) else range(3)
        if len(part) < 3 and np.isfinite(given).all() and rng.random() < 0.5:
            # Whole numbers, which do not restrict the calculated location
            given = [np.rint(gg).astype(int) for gg in given]
        for ipart in part:
            kwargs[keys[ipart]] = given[ipart][0].item() if (
                lay == "one") else given[ipart].copy()
        if len(part) < 3:
            # The location is calculated if any part of it is missing
            given = None
    case.show(kind=model.kind, layout=lay, dind=dind, oind=oind, lat=lat_in,
              mlt=mlt_in, kwargs=kwargs, late=late)
    vdata = case.call(ocbscal.VectorData, as_list(rng, dind),
                      as_list(rng, oind), lat_in, mlt_in, **kwargs)
    case.close_to(np.asarray(vdata.vect_mag), np.sqrt(np.sum(
        vec**2, axis=1)) if lay in ("data", "both") else np.sqrt(np.sum(
            vec[0]**2)), 1e-9, "input magnitude", rtol=1e-12)
    case.call(vdata.set_ocb, model.obj, **({"scale_func": func} if late
                                           and func is not None else {}))
    case.same((vdata.loc_coord, vdata.vect_coord), ("magnetic", "magnetic"),
              "coordinate systems")
    good = judge(case, model, vdata, dind, oind, all_lat, all_mlt, all_vec,
                 ref, given)
    # The input is still there
    case.close_to(np.asarray(vdata.lat).reshape(-1), lat, 0.0, "latitudes")
    case.close_to(np.asarray(vdata.lt).reshape(-1), mlt, 0.0, "local times")
    for ii, key in enumerate(["vect_n", "vect_e", "vect_z"]):
        case.close_to(np.asarray(getattr(vdata, key)).reshape(-1), vec[:, ii],
                      0.0, key)
    case.check(len(repr(vdata)) > 0 and len(str(vdata)) > 0, "text forms")
    if good > 0:
        case.seen(model.kind, model.hemi, lay, str(func), np.round(
            np.asarray(vdata.ocb_n, dtype=float), 6).tolist())


@suite.group(60)
def reindex(case):
    """New indices give the same result as a new object."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    model = Model(case, kind=str(rng.choice(["OCB", "EAB", "Dual"])),
                  num=int(rng.integers(2, 5)))
    many = bool(rng.random() < 0.5)
    num = int(rng.integers(2, 5)) if many else 1
    lat = gen.lats(rng, num, model.hemi, 60.0, 89.0)
    mlt = rng.uniform(0, 24, num)
    vec = draw_vec(rng, num)
    func, ref = draw_func(rng)
    args = [xx.copy() if many else float(xx[0]) for xx in (lat, mlt)]
    kwargs = {kk: (vec[:, ii].copy() if many else float(vec[0, ii]))
              for ii, kk in enumerate(["vect_n", "vect_e", "vect_z"])}
    dind = np.arange(num) if many else 0
    oind = int(rng.integers(model.num))
    vdata = case.call(ocbscal.VectorData, dind, oind, *args, scale_func=func,
                      **kwargs)
    case.show(kind=model.kind, lat=args[0], mlt=args[1], first=oind)
    case.call(vdata.set_ocb, model.obj)
    judge(case, model, vdata, dind, oind, lat, mlt, vec, ref)
    log = list()
    for _ in range(int(rng.integers(1, 4))):
        new = int(rng.integers(model.num))
        if rng.random() < 0.3:
            now = rng.integers(0, model.num, num if many else
                               gen.count(rng, 2, 5, 60))
        else:
            now = new
        log.append(now)
        case.show(indices=log)
        vdata.ocb_ind = now
        nout = num if many or np.ndim(now) == 0 else len(now)
        for key in ("ocb_n", "ocb_lat", "ocb_mag", "r_corr"):
            case.check(np.all(np.isnan(np.asarray(getattr(vdata, key),
                                                  dtype=float))),
                       key + " of the prior index is kept")
        case.call(vdata.set_ocb, model.obj)
        judge(case, model, vdata, dind, now,
              np.full(nout, lat[0]) if not many else lat,
              np.full(nout, mlt[0]) if not many else mlt,
              np.tile(vec, (nout, 1)) if not many else vec, ref)
        if np.ndim(now) > 0 and not many:
            break  # The object has become one with several indices
        if rng.random() < 0.5:
            # Other data at the same location
            vec = draw_vec(rng, num)
            for ii, key in enumerate(["vect_n", "vect_e", "vect_z"]):
                setattr(vdata, key, vec[:, ii].copy() if many
                        else float(vec[0, ii]))
            dind = dind + int(rng.integers(1, 9))
            log.append("data {:} {:}".format(dind, vec.tolist()))
            case.show(indices=log)
            vdata.dat_ind = dind
            for key in ("ocb_n", "ocb_e", "ocb_z", "ocb_mag", "pole_angle",
                        "unscaled_r", "scaled_r", "ocb_aacgm_lat",
                        "ocb_aacgm_mlt"):
                val = np.asarray(getattr(vdata, key), dtype=float)
                case.check(np.all(np.isnan(val)), key + " of the prior data "
                           "is kept")
            for key in ("ocb_quad", "vec_quad"):
                case.check(np.all(np.asarray(getattr(vdata, key)) == 0), key
                           + " of the prior data is kept")
            case.close_to(np.asarray(vdata.vect_mag).reshape(-1), np.sqrt(
                np.sum(vec**2, axis=1)), 1e-9, "magnitude of the new data",
                rtol=1e-12)
            case.call(vdata.set_ocb, model.obj)
            judge(case, model, vdata, dind, now, lat, mlt, vec, ref)
    case.seen(model.kind, many, [str(xx) for xx in log])


def geo_pole(hemi, height, dtime, coords):
    """Geographic location of the magnetic pole."""
    out = aacgmv2.convert_latlon(hemi * 90.0, 0.0, float(height), dtime,
                                 p03.method_code("ALLOWTRACE", coords, "A2G"))
    return out[0], out[1] / 15.0 + refs.ut_hours(dtime)


@suite.group(90, 1500)
def geographic(case):
    """Geographic locations and components."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    model = Model(case, kind=str(rng.choice(["OCB", "EAB"])))
    hemi = model.hemi
    lay, num, dind, oind = draw_layout(rng, model.num)
    shared = lay in ("one", "bound")
    base = str(rng.choice(["geodetic", "geocentric"]))
    loc, vco = [(base, base), (base, "magnetic"), ("magnetic", base)][
        int(rng.integers(3))]
    method = "TRACE" if rng.random() < 0.25 else "ALLOWTRACE"
    lat = gen.lats(rng, 1 if shared else num, hemi, 60.0, 84.0)
    lt = rng.uniform(0, 24, 1 if shared else num)
    height = float(rng.choice([350.0, 110.0, 0.0, 800.0, 100.75, 0.9]))
    heights = np.full(1 if shared else num, height)
    hkw = {} if height == 350.0 else {"height": height}
    if not shared and rng.random() < 0.4:
        heights = rng.uniform(90, 800, num)
        hkw = {"height": heights.copy()}
    vec = draw_vec(rng, 1 if shared else num)
    func, ref = draw_func(rng)
    all_lat, all_lt, all_h, all_vec = lat, lt, heights, vec
    if shared:
        all_lat, all_lt, all_h = [np.full(num, xx[0]) for xx in (lat, lt,
                                                                 heights)]
        all_vec = np.tile(vec, (num, 1))
    orec = np.broadcast_to(np.asarray(oind), (num, ))
    kwargs = {kk: (float(vec[0, ii]) if shared else vec[:, ii].copy())
              for ii, kk in enumerate(["vect_n", "vect_e", "vect_z"])}
    kwargs.update(hkw)
    lat_in, lt_in = [float(xx[0]) if shared else xx.copy() for xx in (lat, lt)]
    case.show(kind=model.kind, layout=lay, loc=loc, vect=vco, dind=dind,
              oind=oind, lat=lat_in, lt=lt_in, kwargs=kwargs, method=method)

    # Magnetic locations and vectors by the model
    mlat, mlt = np.empty(num), np.empty(num)
    mvec, margins = all_vec.copy(), np.ones(num)
    for ii in range(num):
        dtime = model.orecs[int(orec[ii])].dtime
        if loc == "magnetic":
            mlat[ii], mlt[ii] = all_lat[ii], all_lt[ii]
            if abs(all_lat[ii]) < 46.0:
                raise Skip()
            if p03.no_trace(all_lat[ii], method):
                raise Skip()
            glat, glt = [float(xx) for xx in p03.to_geo(
                all_lat[ii], all_lt[ii], all_h[ii], dtime, base, method)]
        else:
            glat, glt = all_lat[ii], all_lt[ii]
            one, two = p03.to_mag(glat, glt, all_h[ii], dtime, base, method)
            mlat[ii], mlt[ii] = float(one), float(two)
        if np.isnan([mlat[ii], mlt[ii], glat, glt]).any() \
                or abs(mlat[ii]) < 48.0:
            raise Skip()
        if vco != "magnetic":
            plat, plt = geo_pole(hemi, all_h[ii], dtime, base)
            dn, de, margin = refs.rotate_vector(glat, glt, all_vec[ii, 0],
                                                all_vec[ii, 1], plat, plt)
            if margin < 0.01:
                raise Skip()
            mvec[ii, :2] = dn, de
            margins[ii] = margin
    vdata = case.call(ocbscal.VectorData, dind, oind, lat_in, lt_in,
                      loc_coord=loc if rng.random() < 0.7 else loc.upper(),
                      vect_coord=vco if rng.random() < 0.7 else vco.title(),
                      scale_func=func, **kwargs)
    case.call(vdata.set_ocb, model.obj, **(
        {} if method == "ALLOWTRACE" and rng.random() < 0.5
        else {"trace_method": method}))
    case.same((vdata.loc_coord, vdata.vect_coord), ("magnetic", "magnetic"),
              "coordinate systems")
    # Intermediate magnetic values; traced locations of aacgmv2 vary slightly
    # with the conversions that were done before
    rtol = (5e-4 if method == "TRACE" else 3e-5) + 6e-8 / margins**1.5
    got = np.broadcast_to(np.asarray(vdata.lat, dtype=float).reshape(-1),
                          (num, ))
    case.close_to(got, mlat, 1e-5, "magnetic latitudes")
    mlat = got
    got = np.broadcast_to(np.asarray(vdata.lt, dtype=float).reshape(-1),
                          (num, ))
    case.check(np.all(refs.circ_diff(got, mlt, 24.0) < 1e-5),
               "magnetic local times", got, mlt)
    mlt = got
    for ii, key in enumerate(["vect_n", "vect_e", "vect_z"]):
        got = np.broadcast_to(np.asarray(getattr(vdata, key),
                                         dtype=float).reshape(-1), (num, ))
        size = np.sqrt(np.sum(mvec**2, axis=1)) * rtol + 1e-12
        case.check(np.all(np.abs(got - mvec[:, ii]) < size), "magnetic "
                   "component {:s} (got, expected)".format(key), got,
                   mvec[:, ii])
        mvec[:, ii] = got
    good = judge(case, model, vdata, dind, oind, mlat, mlt, mvec, ref,
                 ctol=1e-6)
    if good > 0:
        case.seen(model.kind, hemi, lay, loc, vco, method, np.round(
            np.asarray(vdata.ocb_n, dtype=float), 6).tolist())


@suite.group(40, 600)
def locations(case):
    """Locations convert between coordinate systems and back."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    base = str(rng.choice(["geodetic", "geocentric"]))
    hemi = int(rng.choice([1, -1]))
    many = bool(rng.random() < 0.6)
    num = int(rng.integers(2, 6)) if many else 1
    lat, lt = gen.lats(rng, num, hemi, 60.0, 85.0), rng.uniform(0, 24, num)
    height = float(rng.choice([350.0, 110.0, 700.0]))
    start = str(rng.choice([base, "magnetic"]))
    times = [gen.start_time(rng) for _ in range(num)]
    single = bool(rng.random() < 0.5) or not many
    tin = times[0] if single else times
    vdata = case.call(ocbscal.VectorData, np.arange(num) if many else 0, 0,
                      lat.copy() if many else float(lat[0]),
                      lt.copy() if many else float(lt[0]), height=height,
                      loc_coord=start, vect_coord=start)
    case.show(lat=lat, lt=lt, start=start, base=base, times=tin, height=height)
    want_lat, want_lt = np.empty(num), np.empty(num)
    dest = "magnetic" if start == base else base
    if start == base and rng.random() < 0.3:
        # From one geographic system to the other one
        dest = "geocentric" if base == "geodetic" else "geodetic"
    for ii in range(num):
        when = times[0 if single else ii]
        if start == "magnetic":
            one, two = p03.to_geo(lat[ii], lt[ii], height, when, base)
        else:
            one, two = p03.to_mag(lat[ii], lt[ii], height, when, base)
            if np.isnan(one) or abs(one) < 48.0:
                raise Skip()
            if dest != "magnetic":
                one, two = p03.to_geo(one, two, height, when, dest)
        want_lat[ii], want_lt[ii] = float(one), float(two)
        if np.isnan(want_lat[ii]):
            raise Skip()
    name = [dest, dest.upper(), dest.capitalize()][int(rng.integers(3))]
    case.call(vdata.update_loc_coords, tin, coord=name)
    # Both conversions have a numerical inversion, and the local time of
    # aacgmv2 depends on whether the prior conversion was within thirty days
    tol = 1e-7 if "magnetic" in (start, dest) else 2e-3
    if not single:
        tol = 0.02
    case.same(vdata.loc_coord, dest, "coordinate system")
    case.close_to(np.asarray(vdata.lat).reshape(-1), want_lat, tol,
                  "converted latitude")
    case.check(np.all(refs.circ_diff(np.asarray(vdata.lt).reshape(-1),
                                     want_lt, 24.0) * np.cos(np.radians(
                                         want_lat)) < tol),
               "converted local time", vdata.lt, want_lt)
    case.call(vdata.update_loc_coords, tin, coord=start)
    case.check(np.all(np.abs(np.asarray(vdata.lat).reshape(-1) - lat) < 0.6),
               "latitude there and back", vdata.lat, lat)
    # Without a change, nothing is converted
    keep = np.array(vdata.lat), np.array(vdata.lt)
    case.call(vdata.update_loc_coords, tin, coord=start)
    case.check(np.array_equal(keep[0], vdata.lat) and np.array_equal(
        keep[1], vdata.lt), "locations are altered without need")
    case.seen(start, base, many, single, np.round(lat, 5).tolist())
