"""P04: the stored boundary latitudes lie on the boundary."""

import warnings

import aacgmv2
import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks import p05
from ocbmon.core import Suite

suite = Suite("P04", "random boundaries, MLT inputs (scalar, integer, list, "
              "array, beyond a day), record selections, overwrite and "
              "longitude options, in random sequences of calls on one object; "
              "non-trivial if a stored boundary location was compared",
              ["centre offsets up to 1.4 radii, so that MLT without a "
               "boundary occur; locations within 1e-6 of the tangent are not "
               "judged", "convert_mlt of aacgmv2 is trusted"])


def judge_record(case, obj, rec, irec, hemi, ref, mlt_ref, lon):
    """Compare the stored values of one record with the model."""
    blat = np.asarray(obj.aacgm_boundary_lat[irec], dtype=float)
    bmlt = np.asarray(obj.aacgm_boundary_mlt[irec], dtype=float)
    case.check(blat.shape == mlt_ref.shape, "boundary latitude shape",
               blat.shape, mlt_ref.shape)
    case.check(bmlt.shape == mlt_ref.shape, "boundary MLT shape", bmlt.shape,
               mlt_ref.shape)
    num = 0
    for ii in np.ndindex(mlt_ref.shape):
        mm = refs.wrap(float(mlt_ref[ii]), 0.0, 24.0)
        case.check(0.0 <= bmlt[ii] < 24.0 and refs.circ_diff(
            bmlt[ii], mm, 24.0) < 1e-9, "stored MLT", bmlt[ii], mlt_ref[ii])
        colat, margin = refs.boundary_colat(rec, mm)
        if abs(margin) < 1e-6:
            continue
        if np.isnan(colat):
            case.check(np.isnan(blat[ii]), "latitude without a boundary",
                       blat[ii], mm, rec.rcent, rec.rad)
            num += 1
            continue
        case.check(abs(blat[ii] - hemi * (90.0 - colat)) < 1e-7,
                   "boundary latitude", blat[ii], hemi * (90.0 - colat), mm)
        num += 1
        # The observable meaning: it normalises onto the reference latitude
        if colat < 89.0:
            old = obj.rec_ind
            obj.rec_ind = irec
            out = case.call(obj.normal_coord, blat[ii], bmlt[ii])
            obj.rec_ind = old
            case.check(abs(out[0] - hemi * ref) < 1e-6,
                       "boundary location does not normalise to the reference "
                       "latitude", out[0], hemi * ref)
    if lon is None:
        # Longitudes of other local times are not kept
        case.check(not hasattr(obj, "aacgm_boundary_lon")
                   or obj.aacgm_boundary_lon[irec] is None,
                   "longitude without a request")
    else:
        got = np.asarray(obj.aacgm_boundary_lon[irec], dtype=float)
        case.check(got.size == mlt_ref.size, "longitude size", got.shape,
                   mlt_ref.shape)
        want = np.asarray(aacgmv2.convert_mlt(
            np.asarray([refs.wrap(float(mm), 0.0, 24.0) for mm in
                        mlt_ref.ravel()]), rec.dtime, m2a=True))
        case.check(np.all(refs.circ_diff(got.ravel(), want, 360.0) < 1e-6),
                   "boundary longitude", got, want)
    return num


def draw_mlt(rng):
    """Draw an MLT input and its element values."""
    num = gen.count(rng, 1, 12, 800)
    mlt = gen.mlts(rng, num)
    kind = int(rng.integers(6))
    if kind == 0:
        return float(mlt[0]), np.asarray(mlt[0])
    if kind == 1:
        val = int(rng.integers(-30, 60))
        return val, np.asarray(float(val))
    if kind == 2:
        return list(map(float, mlt)), mlt
    if kind == 3:
        val = rng.integers(-30, 60, num)
        return val, val.astype(float)
    return np.array(mlt), mlt


def run_history(case, obj, recs, hemi, ref, calls):
    """Apply a random sequence of calls and track what must be stored."""
    rng = case.rng
    num = len(recs)
    stored = [None] * num
    lons = [None] * num
    log = list()
    for _ in range(calls):
        mlt_in, mlt_ref = draw_mlt(rng)
        kwargs = {}
        kind = int(rng.integers(5))
        if kind == 0:
            sel = list(range(num))
            if rng.random() < 0.5:
                kwargs["rec_ind"] = None
        elif kind == 1:
            sel = [int(rng.integers(num))]
            kwargs["rec_ind"] = sel[0]
        elif kind == 2:
            sel = [int(rng.integers(num))]
            kwargs["rec_ind"] = np.int64(sel[0])
        else:
            sel = sorted(rng.choice(num, int(rng.integers(1, num + 1)),
                                    replace=False).tolist())
            kwargs["rec_ind"] = sel if kind == 3 else np.array(sel)
        over = bool(rng.random() < 0.4)
        if over or rng.random() < 0.5:
            kwargs["overwrite"] = over
        set_lon = bool(rng.random() < 0.7)
        if not set_lon or rng.random() < 0.3:
            kwargs["set_lon"] = set_lon
        log.append("mlt={:} {:}".format(mlt_in, kwargs))
        case.show(history=list(log))
        case.call(obj.get_aacgm_boundary_lat, mlt_in, **kwargs)
        for ii in sel:
            if stored[ii] is None or over:
                stored[ii] = mlt_ref
                if set_lon:
                    lons[ii] = mlt_ref
                else:
                    lons[ii] = None
        count = 0
        for ii in range(num):
            if stored[ii] is None:
                case.check(obj.aacgm_boundary_lat[ii] is None
                           and obj.aacgm_boundary_mlt[ii] is None,
                           "record without a request is not None", ii,
                           obj.aacgm_boundary_lat[ii])
            else:
                count += judge_record(case, obj, recs[ii], ii, hemi, ref,
                                      stored[ii], lons[ii])
        case.check(len(obj.aacgm_boundary_lat) == num, "one entry per record")
        if count > 0:
            case.seen(hemi, ref, over, sel, np.round(mlt_ref, 5).tolist())


@suite.group(150)
def history(case):
    """Stored boundaries follow the requests of a random history."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(
        case, "OCB" if rng.random() < 0.5 else "EAB",
        max_cent=float(rng.choice([4.0, 9.0, 14.0])))
    obj.rec_ind = int(rng.integers(len(recs)))
    index = obj.rec_ind
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run_history(case, obj, recs, meta["hemi"], meta["ref"],
                    int(rng.integers(1, 5)))
    case.check(obj.rec_ind == index, "index is altered", obj.rec_ind, index)


@suite.group(60)
def dual(case):
    """A dual-boundary object stores both boundaries of the paired records."""
    rng = case.rng
    obj, orecs, erecs, meta = p05.make_dual(case, num=int(rng.integers(2, 6)),
                                           shift=None)
    num, hemi = meta["num"], meta["hemi"]
    stored = [None] * num
    lons = [None] * num
    obj.rec_ind = index = int(rng.integers(num))
    log = list()
    other = bool(rng.random() < 0.3)
    if other:
        # One of the boundaries was requested before
        case.call(obj.ocb.get_aacgm_boundary_lat, 3.0)
    for _ in range(int(rng.integers(1, 4))):
        mlt_in, mlt_ref = draw_mlt(rng)
        kind = int(rng.integers(4))
        kwargs = {}
        sel = list(range(num))
        if kind == 1:
            sel = [int(rng.integers(num))]
            kwargs["rec_ind"] = sel[0]
        elif kind > 1:
            sel = sorted(rng.choice(num, int(rng.integers(1, num + 1)),
                                    replace=False).tolist())
            kwargs["rec_ind"] = sel if kind == 2 else np.array(sel)
        over = bool(rng.random() < 0.4) or other
        if over or rng.random() < 0.5:
            kwargs["overwrite"] = over
        set_lon = bool(rng.random() < 0.7)
        if not set_lon or rng.random() < 0.3:
            kwargs["set_lon"] = set_lon
        log.append("mlt={:} {:}".format(mlt_in, kwargs))
        case.show(history=list(log))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.call(obj.get_aacgm_boundary_lats, mlt_in, **kwargs)
        for ii in sel:
            if stored[ii] is None or over:
                stored[ii] = mlt_ref
                lons[ii] = mlt_ref if set_lon else None
        for bound, inds, recs, ref in (
                (obj.ocb, obj.ocb_ind, orecs, meta["oref"]),
                (obj.eab, obj.eab_ind, erecs, meta["eref"])):
            asked = dict()
            for ii in range(num):
                if stored[ii] is None:
                    case.check(bound.aacgm_boundary_lat[inds[ii]] is None
                               or (other and bound is obj.ocb),
                               "record without a request", ii)
                else:
                    judge_record(case, bound, recs[ii], int(inds[ii]), hemi,
                                 ref, stored[ii], lons[ii])
                asked[int(inds[ii])] = True
            if all("rec_ind" in ll for ll in log) and not other:
                for ii in range(int(bound.records)):
                    case.check(ii in asked
                               or bound.aacgm_boundary_lat[ii] is None,
                               "record without a pair", ii)
        case.same(int(obj.rec_ind), index, "index of the pair")
        case.seen("dual", sel, over, set_lon, np.round(mlt_ref, 5).tolist())
