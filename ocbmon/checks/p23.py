"""P23: every element of an array is answered like that element alone."""

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks import p05
from ocbmon.checks import p12
from ocbmon.checks import p13
from ocbmon.checks import p25
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P23", "random batches of locations, vectors, angles, and values "
              "handed over whole, permuted, repeated, in parts, strided, "
              "read-only, as lists, series, or whole numbers, in two "
              "dimensions and in either memory order, and one by one, to every elementwise function and "
              "method; non-trivial by function, form, and results",
              ["the answer for an element in one batch is the oracle for that "
               "element in any other batch; the other suites judge the values",
               "paired boundaries take one dimension only",
               "two-sided tolerance of the trigonometry next to a pole"])

FORMS = ("permute", "subset", "repeat", "scalar", "strided", "backward",
         "frozen", "list", "series")
MANY = FORMS + ("2d", "fortran", "column", "3d")


def regroup(rng, form, num):
    """Draw which elements to hand over, and the shape."""
    if form == "subset":
        idx = np.flatnonzero(rng.random(num) < 0.5)
        if idx.size == 0:
            idx = np.array([int(rng.integers(num))])
    elif form == "scalar":
        idx = np.array(int(rng.integers(num)))
    elif form == "repeat":
        idx = rng.integers(0, num, int(rng.integers(1, 2 * num + 1)))
    elif form == "backward":
        idx = np.arange(num)[::-1]
    else:
        idx = rng.permutation(num)
    if form in ("2d", "fortran"):
        size = num // 2 * 2
        idx = idx[:size].reshape((2, -1) if rng.random() < 0.5 else (-1, 2))
    elif form == "column":
        idx = idx.reshape((-1, 1) if rng.random() < 0.5 else (1, -1))
    elif form == "3d":
        idx = idx[:num // 2 * 2].reshape(2, 1, -1)
    return idx


def dress(form, val, idx):
    """Hand over the selected elements in one form."""
    out = val[idx]
    if form == "scalar":
        return out.item()
    if form == "strided":
        big = np.full(2 * out.size + 1, 37.0).astype(val.dtype)
        big[1::2] = out
        return big[1::2]
    if form == "backward":
        return val[::-1]
    if form == "fortran":
        return np.asfortranarray(out)
    if form == "frozen":
        out = out.copy()
        out.setflags(write=False)
        return out
    if form == "list":
        return out.tolist()
    if form == "series":
        import pandas as pd
        return pd.Series(out, index=1 + 2 * np.arange(out.size)[::-1])
    return out


def spread(val, num):
    """Provide one value for each element."""
    val = np.asarray(val, dtype=float)
    return np.full(num, val.item()) if val.size == 1 else val.reshape(num)


def agree(case, name, func, data, tols, forms=MANY, count=3, scalar=(),
          aside=None, finding=None):
    """Compare batches of the same elements.

    Parameters
    ----------
    func : function
        Takes one array or value for each of data, returns a list of results
    data : list
        Arrays with one value for each element
    tols : list
        For each result, the period (or None) and the tolerances of elements
    scalar : list-like
        Shapes that the result of a single element may have as well
    aside : list-like
        Results that are not compared where the first result is undefined
    finding : tuple
        Elements with a listed finding, and its mechanism

    """
    rng = case.rng
    num = len(data[0])
    whole = [np.asarray(oo) for oo in func(*[dd.copy() for dd in data])]
    case.same(len(whole), len(tols), "results of " + name)
    for oo in whole:
        case.same(oo.shape, (num, ), "shape of a result of " + name)
    for form in rng.choice(forms, count, replace=False):
        form = str(form)
        if num < 2 and form in ("2d", "fortran", "3d"):
            continue
        idx = regroup(rng, form, num)
        case.show(form=form, elements=idx.tolist())
        part = func(*[dress(form, dd, idx) for dd in data])
        for ii, (got, want, (period, tol)) in enumerate(zip(part, whole,
                                                            tols)):
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)[idx]
            ok = got.shape == want.shape or (form == "scalar"
                                             and got.shape in scalar)
            case.check(ok, "shape of result {:d} of {:s} of {:s} data".format(
                ii, name, form), got.shape, want.shape)
            got, want = got.ravel(), want.ravel()
            tol = np.broadcast_to(np.asarray(tol, dtype=float), (num, ))[
                idx].ravel()
            undef = np.isnan(got) != np.isnan(want)
            diff = np.where(got == want, 0.0, np.abs(got - want) if period is
                            None else refs.circ_diff(got, want, period))
            bad = undef | (~np.isnan(want) & ~(diff <= tol))
            if aside is not None and ii in aside:
                bad &= ~np.isnan(np.asarray(part[0], dtype=float).ravel())
            if finding is not None:
                listed = finding[0][idx].ravel()
                if (bad & listed).any() and listed.all():
                    # Every element of this batch is of the other hemisphere
                    case.known(finding[1], "reverted coordinates of the other "
                               "hemisphere depend on the other elements")
                    bad &= ~listed
            if bad.any():
                jj = int(np.flatnonzero(bad)[0])
                ee = int(np.ravel(idx)[jj])
                case.fail("result {:d} of {:s} of {:s} data is {!r}, but {!r} "
                          "in the whole batch (element {:d}: {:})".format(
                              ii, name, form, float(got[jj]), float(want[jj]),
                              ee, [dd[ee].item() for dd in data]))
        case.seen(name, form, np.round(np.asarray(part[0], dtype=float),
                                       7).tolist())
    if rng.random() < 0.4:
        integers(case, name, func, data, tols, "list" in forms)
    return whole


# Functions of vectors that are undefined on a pole
POLAR = ("adjust_vector", "calc_vec_pole_angle", "VectorData",
         "calc_vec_pole_angle and adjust_vector")


def integers(case, name, func, data, tols, lists):
    """Compare whole numbers of an integer and of a floating point type."""
    rng = case.rng
    data = [np.asarray(dd) for dd in data]
    pick = [ii for ii, dd in enumerate(data) if dd.dtype.kind == "f"
            and rng.random() < 0.6]
    if len(pick) == 0:
        return
    keep = np.all([np.isfinite(data[ii]) & (np.abs(data[ii]) < 1e6)
                   for ii in pick], axis=0)
    if not keep.any():
        return
    data = [dd[keep] for dd in data]
    tols = [(period, np.broadcast_to(np.asarray(tol, dtype=float), keep.shape)[
        keep]) for period, tol in tols]
    for ii in pick:
        # Not zero, where the results may be special
        data[ii] = np.rint(data[ii]) + 0.0
        data[ii][data[ii] == 0.0] = 1.0
        if name in POLAR:
            # Nor on the pole
            data[ii] = np.where(np.abs(data[ii]) == 90.0, 89.0, data[ii])
    form = str(rng.choice(["array", "scalar"] + ["list"] * lists))
    if form == "scalar":
        data = [dd[0] for dd in data]
    case.show(form="integer " + form, integers=pick, elements=data)
    want = func(*[dd.copy() if form == "array" else dd.tolist()
                  for dd in data])
    got = func(*[dd.astype(int) if ii in pick and form == "array" else
                 dd.astype(int).tolist() if ii in pick else
                 dd.copy() if form == "array" else dd.tolist()
                 for ii, dd in enumerate(data)])
    for ii, (gg, ww, (period, tol)) in enumerate(zip(got, want, tols)):
        gg, ww = np.asarray(gg, dtype=float), np.asarray(ww, dtype=float)
        case.same(gg.shape, ww.shape, "shape of result {:d} of {:s} of "
                  "integers".format(ii, name))
        tol = tol[0] if form == "scalar" else tol
        if period is not None:
            gg = ww + (gg - ww + period / 2.0) % period - period / 2.0
        case.close_to(gg, ww, tol, "result {:d} of {:s} of integers".format(
            ii, name))
    case.seen(name, "integer " + form, np.round(np.asarray(
        got[0], dtype=float), 7).tolist())


# ---------------------------------------------------------------------------
# Boundaries

@suite.group(240)
def boundary(case):
    """Magnetic coordinates of one boundary."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(case, str(rng.choice(["OCB", "EAB"])))
    obj.rec_ind = int(rng.integers(len(recs)))
    num = gen.count(rng, 2, 16, 800)
    lat = gen.lats(rng, num, meta["hemi"], low=10.0, wrong=0.15, nan=0.1)
    mlt = gen.mlts(rng, num)
    case.show(lat=lat, mlt=mlt, rec_ind=obj.rec_ind)
    tols = [(None, 1e-9), (24.0, 1e-7), (None, 1e-9)]
    out = agree(case, "normal_coord", lambda *aa: case.call(
        obj.normal_coord, *aa), [lat, mlt], tols, aside=[2])
    case.show(normal=out)
    pos = out[0]
    if rng.random() < 0.2:
        # Beyond the equator
        pos = np.where(rng.random(num) < 0.5, -out[0], lat)
    agree(case, "revert_coord", lambda *aa: case.call(
        obj.revert_coord, *aa), [pos, mlt, np.nan_to_num(out[2])], tols[:2],
        finding=(~(pos * meta["hemi"] > 0.0), "revert-other-hemisphere"))


@suite.group(20)
def beyond(case):
    """Boundary latitudes beyond the equator, with others and alone."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(case, str(rng.choice(["OCB", "EAB"])))
    obj.rec_ind = int(rng.integers(len(recs)))
    num = int(rng.integers(2, 8))
    lat = meta["hemi"] * rng.uniform(10, 89, num)
    lat[1:] *= rng.choice([1.0, -1.0], num - 1)
    lat[-1] = -abs(lat[-1]) * meta["hemi"]
    mlt = gen.mlts(rng, num)
    case.show(lat=lat, mlt=mlt, rec_ind=obj.rec_ind)
    agree(case, "revert_coord", lambda *aa: case.call(
        obj.revert_coord, *aa), [lat, mlt], [(None, 1e-9), (24.0, 1e-7)],
        count=6, finding=(lat * meta["hemi"] <= 0.0,
                          "revert-other-hemisphere"))


@suite.group(80)
def stored(case):
    """Boundary latitudes at many or single local times."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(case, str(rng.choice(["OCB", "EAB"])),
                                        max_cent=12.0)
    num = gen.count(rng, 2, 12, 500)
    mlt = gen.mlts(rng, num)
    sel = int(rng.integers(len(recs)))
    case.show(mlt=mlt, rec_ind=sel)

    def bound(val):
        case.call(obj.get_aacgm_boundary_lat, val, overwrite=True,
                  **({} if every else {"rec_ind": sel}))
        return [obj.aacgm_boundary_lat[sel], obj.aacgm_boundary_mlt[sel]]

    every = bool(rng.random() < 0.5)
    agree(case, "get_aacgm_boundary_lat", bound, [mlt],
          [(None, 1e-8), (24.0, 1e-9)], MANY, scalar=[(1, )])


# Boundaries that cross or do not enclose the pole
WILD = {"max_cent": 12.0, "orad": (6.0, 16.0), "erad": (14.0, 26.0)}


@suite.group(80)
def dual(case):
    """Coordinates of paired boundaries."""
    rng = case.rng
    wild = WILD if rng.random() < 0.5 else {}
    obj, orecs, _, meta = p05.make_dual(case, **wild)
    obj.rec_ind = int(rng.integers(len(orecs)))
    num = gen.count(rng, 2, 16, 500)
    lat = gen.lats(rng, num, meta["hemi"], low=60.0 if wild else 30.0,
                   wrong=0.1, nan=0.1)
    mlt = gen.mlts(rng, num)
    case.show(lat=lat, mlt=mlt, rec_ind=obj.rec_ind)
    out = agree(case, "normal_coord", lambda *aa: case.call(
        obj.normal_coord, *aa), [lat, mlt],
        [(None, 1e-8), (24.0, 1e-7), (None, 1e-8), (None, 1e-8)], MANY,
        aside=[3])
    case.show(normal=out)
    amlt = mlt if rng.random() < 0.5 else gen.mlts(rng, num)
    pos = [out[0], out[1], np.nan_to_num(out[3]), amlt]
    is_ocb = bool(rng.random() < 0.7)
    if is_ocb:
        pos[0] = out[2]
    agree(case, "revert_coord", lambda aa, bb, cc, dd: case.call(
        obj.revert_coord, aa, bb, r_corr=cc, is_ocb=is_ocb, aacgm_mlt=dd),
        pos, [(None, 1e-8), (24.0, 1e-7)], MANY,
        finding=(~(pos[0] * meta["hemi"] > 0.0), "revert-other-hemisphere"))


@suite.group(50, 800)
def geographic(case):
    """Geographic coordinates with one height for each location."""
    rng = case.rng
    kind = str(rng.choice(["OCB", "EAB", "Dual"]))
    if kind == "Dual":
        obj, recs, _, meta = p05.make_dual(case)
    else:
        obj, recs, meta = gen.make_boundary(case, kind)
    obj.rec_ind = int(rng.integers(len(recs)))
    num = int(rng.integers(2, 8))
    lat = gen.lats(rng, num, meta["hemi"], low=55.0, high=87.0, wrong=0.1,
                   nan=0.1)
    slt = rng.uniform(0, 24, num)
    height = rng.uniform(100, 800, num)
    coords = str(rng.choice(["geodetic", "geocentric"]))
    case.show(lat=lat, slt=slt, height=height, coords=coords)
    forms = ("permute", "subset", "repeat", "scalar", "strided", "list",
             "series")
    near = np.where(np.abs(lat) > 85.0, 1e-3, 1e-5)
    tols = [(None, 1e-5), (24.0, near)] + [(None, 1e-5)] * (kind == "Dual")
    tols.append((None, 1e-4))
    single = bool(rng.random() < 0.4)
    out = agree(case, "normal_coord", lambda aa, bb, cc: case.call(
        obj.normal_coord, aa, bb, coords=coords,
        height=300.0 if single else cc), [lat, slt, height], tols, forms, 2,
        scalar=[(1, )], aside=[len(tols) - 1])
    case.show(normal=out)
    # Conversions into geographic coordinates invert numerically
    pos = [np.where(np.isnan(out[0]), np.nan, meta["hemi"]
                    * np.clip(np.abs(out[0]), 60.0, 86.0)), out[1],
           np.nan_to_num(out[-1]), height, gen.mlts(rng, num)]

    def revert(aa, bb, cc, dd, ee):
        kwargs = {"aacgm_mlt": ee} if kind == "Dual" else {}
        return case.call(obj.revert_coord, aa, bb, r_corr=cc, coords=coords,
                         height=300.0 if single else dd, **kwargs)

    whole = revert(*[pp.copy() for pp in pos])
    if np.any(np.abs(np.asarray(whole[0])) > 86.0):
        raise Skip()
    agree(case, "revert_coord", revert, pos, [(None, 3e-4), (24.0, 3e-3)],
          forms, 2, scalar=[(1, )])


# ---------------------------------------------------------------------------
# Vectors

@suite.group(240)
def vectors(case):
    """Angles, quadrants, and components of vectors."""
    import ocbpy.vectors as vec

    rng = case.rng
    hemi = int(rng.choice([1, -1]))
    num = gen.count(rng, 2, 14, 500)
    lt, lat, plt, plat, vn, ve, vz = p12.draw(rng, num, hemi)
    zero = (vn == 0.0) & (ve == 0.0)
    vn = np.where(zero, 1.0, vn)
    case.show(lt=lt, lat=lat, plt=plt, plat=plat, vn=vn, ve=ve, vz=vz)
    margin = np.array([refs.pole_angle(lat[ii], lt[ii], plat[ii], plt[ii])[1]
                       for ii in range(num)])
    atol = 6e-6 + 6e-7 / margin**1.5
    ang = agree(case, "calc_vec_pole_angle", lambda *aa: [case.call(
        vec.calc_vec_pole_angle, *aa)], [lt, lat, plt, plat],
        [(None, atol)], count=2)[0]
    agree(case, "get_pole_loc", lambda *aa: case.call(
        vec.get_pole_loc, *aa), [plt * 15.0, 90.0 - np.abs(plat)],
        [(24.0, 1e-9), (None, 1e-9)], count=1)
    clear = (np.abs(np.sin(np.radians(ang * 2.0))) > 1e-4)
    if clear.sum() > 1:
        data = [xx[clear] for xx in (lt, plt, ang)]
        agree(case, "define_pole_quadrants", lambda *aa: [case.call(
            vec.define_pole_quadrants, *aa)], data, [(None, 0.0)], count=2)
    agree(case, "define_vect_quadrants", lambda *aa: [case.call(
        vec.define_vect_quadrants, *aa)], [vn, ve], [(None, 0.0)], count=2)
    pquad = vec.define_pole_quadrants(lt, plt, ang)
    vquad = vec.define_vect_quadrants(vn, ve)
    naz = np.degrees(np.arccos(np.clip(vn / np.hypot(vn, ve), -1.0, 1.0)))
    agree(case, "calc_dest_polar_angle", lambda *aa: [case.call(
        vec.calc_dest_polar_angle, *aa)], [pquad, vquad, naz, ang],
        [(None, 1e-9)], count=2, scalar=[(1, )])

    def sign(*aa):
        out = case.call(vec.calc_dest_vec_sign, *aa, north=True, east=True)
        return [out["north"], out["east"]]

    agree(case, "calc_dest_vec_sign", sign, [pquad, vquad, naz, ang],
          [(None, 0.0)] * 2, count=2, scalar=[(1, )])
    given = bool(rng.random() < 0.5)
    size = np.hypot(vn, ve) * (2e-7 + 6e-8 / margin**1.5) + 1e-300
    forms = MANY
    if rng.random() < 0.4:
        # The angle belongs to the same step
        agree(case, "calc_vec_pole_angle and adjust_vector",
              lambda aa, bb, cc, dd, ee, ff, gg: case.call(
                  vec.adjust_vector, aa, bb, cc, dd, ee, 0, ff, gg, case.call(
                      vec.calc_vec_pole_angle, aa, bb, ff, gg), 0),
              [lt, lat, vn, ve, vz, plt, plat],
              [(None, size), (None, size), (None, 0.0)], forms, 2)
    else:
        agree(case, "adjust_vector",
              lambda aa, bb, cc, dd, ee, ff, gg, hh, ii, jj: case.call(
                  vec.adjust_vector, aa, bb, cc, dd, ee,
                  ff if given else 0, gg, hh, ii, jj if given else 0),
              [lt, lat, vn, ve, vz, vquad, plt, plat, ang, pquad],
              [(None, size), (None, size), (None, 0.0)], forms, 2)


@suite.group(90, 1500)
def objects(case):
    """Vector objects with many data against objects with one."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    model = p13.Model(case, "Dual", **WILD) if rng.random() < 0.15 \
        else p13.Model(case)
    num = gen.count(rng, 2, 10, 200)
    lat = gen.lats(rng, num, model.hemi, 60.0, 89.0, wrong=0.15)
    if np.all(lat * model.hemi < 0.0):
        lat[0] *= -1.0
    mlt = rng.uniform(0, 24, num)
    vec = p13.draw_vec(rng, num)
    oind = rng.integers(0, model.num, num)
    # One boundary may serve all data, these may have several dimensions
    one = bool(rng.random() < 0.35)
    if one:
        oind[:] = oind[0]
    func, _ = p13.draw_func(rng)
    geo = model.kind != "Dual" and rng.random() < 0.25
    base = str(rng.choice(["geodetic", "geocentric"])) if geo else "magnetic"
    height = rng.uniform(100, 800, num)
    if geo:
        lat = np.sign(lat) * np.clip(np.abs(lat), 62.0, 84.0)
    if rng.random() < 0.3:
        # Undefined locations do not influence the others
        lat = np.where(rng.random(num) < 0.3, np.nan, lat)
        if not np.any(lat * model.hemi > 0.0):
            raise Skip()
    lkw = {"loc_coord": base, "vect_coord": base if rng.random() < 0.5
           else "magnetic"}
    case.show(lat=lat, mlt=mlt, vec=vec, oind=oind, func=str(func), **lkw)
    margin = np.ones(num)
    for ii in range(num):
        if np.isnan(lat[ii]):
            continue
        rec = model.orecs[int(oind[ii])]
        margin[ii] = refs.rotate_vector(
            lat[ii], mlt[ii], 1.0, 0.0, (90.0 - rec.rcent) * np.sign(lat[ii]),
            rec.phi / 15.0)[2]
        if not p13.safe(rec, mlt[ii]) or geo and margin[ii] < 0.02:
            raise Skip()
    fac = 1.0
    if func is not None:
        fac = max([abs(func(1.0, rec.rad + add, 90.0 - model.ref))
                   for rec in model.orecs for add in (-5.0, 0.0, 5.0)] + [1.0])
    size = np.sqrt(np.sum(vec**2, axis=1))
    tol = fac * size * ((2e-7 + 6e-8 / margin**1.5) if not geo else
                        np.full(num, 1e-3)) + 1e-12
    ltol = 1e-5 if geo else 1e-8
    keys = ("ocb_lat", "ocb_mlt", "r_corr", "ocb_n", "ocb_e", "ocb_z",
            "ocb_mag", "unscaled_r", "scaled_r")

    def build(aa, bb, cc, dd, ee, ff, gg):
        single = np.ndim(aa) == 0
        vdata = case.call(ocbscal.VectorData, 0 if single
                          else np.arange(np.size(aa)).reshape(np.shape(aa)),
                          int(oind[0]) if one else ff, aa, bb, vect_n=cc,
                          vect_e=dd, vect_z=ee, height=gg,
                          scale_func=func, **lkw)
        case.call(vdata.set_ocb, model.obj)
        out = [np.asarray(getattr(vdata, kk), dtype=float) for kk in keys]
        return [np.full(np.shape(out[0]), oo.item()) if oo.size == 1
                else oo for oo in out]

    def safe_build(*args):
        if not np.any(np.asarray(args[0]) * model.hemi > 0.0):
            raise Skip()
        return build(*args)

    tols = [(None, ltol), (24.0, max(ltol, 1e-6)), (None, ltol)] + [
        (None, tol)] * 4 + [(None, 1e-4 if geo else 1e-8)] * 2
    agree(case, "VectorData", safe_build,
          [lat, mlt, vec[:, 0].copy(), vec[:, 1].copy(), vec[:, 2].copy(),
           oind, height], tols,
          ("permute", "subset", "repeat", "scalar", "strided", "list",
           "series") + (MANY[len(FORMS):] if one and not geo else ()), 2,
          scalar=[(1, )])


# ---------------------------------------------------------------------------
# Other elementwise functions

@suite.group(300)
def values(case):
    """Angles, local times, corrections, and scaling functions."""
    import ocbpy.ocb_correction as ocbcor
    import ocbpy.ocb_scaling as ocbscal
    import ocbpy.ocb_time as ocbtime

    rng = case.rng
    num = gen.count(rng, 2, 20, 1000)
    val = rng.uniform(-3, 4, num) * 360.0
    val = np.where(rng.random(num) < 0.2, rng.choice(
        [0.0, 180.0, 360.0, -180.0, 24.0, 12.0], num), val)
    hours = val / 15.0
    when = gen.start_time(rng)
    nan = np.where(rng.random(num) < 0.15, np.nan, val)
    low = float(rng.choice([-180.0, 0.0, 10.0]))
    name = str(rng.choice(["deg2hr", "hr2deg", "hr2rad", "rad2hr", "slt2glon",
                           "glon2slt", "fix_range", "circular", "elliptical",
                           "harmonic", "normal_evar", "normal_curl_evar",
                           "hav", "archav"]))
    cyc = {"deg2hr": (ocbtime.deg2hr, nan, 24.0, ()),
           "hr2deg": (ocbtime.hr2deg, nan / 15.0, 360.0, ()),
           "hr2rad": (ocbtime.hr2rad, nan / 15.0, 2.0 * np.pi, ()),
           "rad2hr": (ocbtime.rad2hr, np.radians(nan), 24.0, ()),
           "slt2glon": (ocbtime.slt2glon, hours, 360.0, (when, )),
           "glon2slt": (ocbtime.glon2slt, val, 24.0, (when, )),
           "fix_range": (ocbtime.fix_range, nan, 360.0, (low, low + 360.0))}
    if name in cyc:
        func, data, period, args = cyc[name]
        case.show(func=name, values=data, args=args)
        agree(case, name, lambda aa: [case.call(func, aa, *args)], [data],
              [(period, 1e-9)], count=5)
        return
    if name in ("circular", "elliptical", "harmonic"):
        kwargs = {"circular": {"r_add": round(float(rng.normal()), 3)},
                  "elliptical": {"method": str(rng.choice(
                      ["median", "gaussian"]))}, "harmonic": {}}[name]
        if name == "harmonic":
            keys = list(refs.HARM)
            kwargs["instrument"], kwargs["method"] = keys[int(
                rng.integers(len(keys)))]
        case.show(func=name, values=hours, kwargs=kwargs)
        agree(case, name, lambda aa: [case.call(
            getattr(ocbcor, name), aa, **kwargs)], [hours], [(None, 1e-9)],
            count=5)
        return
    if name in ("hav", "archav"):
        data = np.radians(nan) if name == "hav" else np.where(
            rng.random(num) < 0.2, rng.choice([-1e-17, 0.0, 1.0, -0.5, 1.5],
                                              num), rng.uniform(0, 1, num))
        case.show(func=name, values=data)
        agree(case, name, lambda aa: [case.call(getattr(ocbscal, name), aa)],
              [data], [(None, 1e-12)], count=5)
        return
    data = [rng.normal(size=num) * 10.0**rng.uniform(-6, 6, num),
            rng.uniform(1, 40, num), rng.uniform(1, 40, num)]
    case.show(func=name, values=data)
    agree(case, name, lambda *aa: [case.call(getattr(ocbscal, name), *aa)],
          data, [(None, 1e-12 * np.abs(data[0]) * 1600.0)],
          [ff for ff in MANY if ff != "list"], 5)


@suite.group(100)
def track(case):
    """Locations next to a satellite track."""
    import ocbpy

    rng = case.rng
    kind, x1, y1, x2, y2 = p25.draw_track(rng)
    hemi = int(rng.choice([1, -1]))
    num = gen.count(rng, 2, 30, 1000)
    along = rng.uniform(-0.3, 1.3, num)
    xx = x1 + along * (x2 - x1) + rng.normal(size=num) * 1.5
    yy = y1 + along * (y2 - y1) + rng.normal(size=num) * 1.5
    lat = hemi * (90.0 - np.hypot(xx, yy))
    lat = np.where(rng.random(num) < 0.1, -lat, lat)
    lat = np.where(rng.random(num) < 0.1, np.nan, lat)
    mlt = (np.degrees(np.arctan2(yy, xx)) + 90.0) / 15.0 % 24.0
    case.show(track=(kind, x1, y1, x2, y2), lat=lat, mlt=mlt, hemi=hemi)
    agree(case, "satellite_track", lambda aa, bb: [case.call(
        ocbpy.cycle_boundary.satellite_track, aa, bb, x1, y1, x2, y2, hemi)],
        [lat, mlt], [(None, 0.0)], MANY, 4)
