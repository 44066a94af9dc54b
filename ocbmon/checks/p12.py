"""P12: re-oriented vectors are the same vectors, seen from another pole."""

import math

import numpy as np

from ocbmon import gen, refs
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P12", "random data and pole locations of both hemispheres, with "
              "vectors along and between the axes, without a horizontal part, "
              "and NaN, as scalars, arrays, and mixtures; non-trivial by "
              "locations, quadrants, and form",
              ["three-dimensional rotation of the local axes, where north is "
               "away from a southern destination pole",
               "data exactly on the meridian of the destination pole follow "
               "their own convention, see the listed finding"])


def draw(rng, num, hemi):
    """Draw locations, poles, and vectors away from exact alignment."""
    lt = rng.uniform(0, 24, num)
    lat = hemi * rng.uniform(20, 89.8, num)
    plt = rng.uniform(0, 24, num)
    plat = hemi * rng.uniform(60, 89.9, num)
    for ii in range(num):
        kind = int(rng.integers(8))
        if kind == 0:
            # Close to the destination pole
            lat[ii] = plat[ii] + hemi * float(rng.uniform(-2, 2))
            lat[ii] = hemi * min(abs(lat[ii]), 89.7)
            lt[ii] = plt[ii] + float(rng.uniform(-1, 1))
        elif kind == 1:
            # Nearly aligned
            lt[ii] = plt[ii] + float(rng.choice([-1, 1])) * 10.0**float(
                rng.uniform(-4, -1)) + float(rng.choice([0.0, 12.0]))
        elif kind == 2:
            # Other cycles
            lt[ii] += float(rng.choice([-24.0, 24.0, 48.0]))
        elif kind == 3:
            lt[ii] = float(rng.integers(24))
            plt[ii] = float(rng.integers(24))
            plat[ii] = hemi * float(rng.integers(61, 90))
            lat[ii] = hemi * float(rng.integers(45, 90))
    gap = refs.circ_diff(lt, plt, 12.0)
    lt = np.where(gap < 1e-5, lt + 0.01, lt)
    vn = rng.normal(size=num) * 100
    ve = rng.normal(size=num) * 100
    axis = rng.random(num)
    vn = np.where(axis < 0.08, 0.0, vn)
    ve = np.where((axis > 0.08) & (axis < 0.16), 0.0, ve)
    vn = np.where((axis > 0.16) & (axis < 0.2), 0.0, vn)
    ve = np.where((axis > 0.16) & (axis < 0.2), 0.0, ve)
    scale = 10.0**rng.integers(-6, 5, num)
    vz = rng.normal(size=num)
    return lt, lat, plt, plat, vn * scale, ve * scale, vz


def truth(lt, lat, plt, plat, vn, ve):
    """Rotate one vector in three dimensions."""
    return refs.rotate_vector(lat, lt, vn, ve, plat, plt)


def close_comp(case, got, want, size, margin, msg, *vals):
    """Components agree within the precision of the trigonometry."""
    tol = size * (1e-7 + 3e-8 / margin**1.5) + 1e-12 * size + 1e-300
    case.check(abs(float(got) - want) <= tol, msg, float(got), want, tol,
               *vals)


@suite.group(300)
def rotation(case):
    """Scalars and arrays agree with a rotation in three dimensions."""
    import ocbpy.vectors as vectors

    rng = case.rng
    hemi = 1 if rng.random() < 0.6 else -1
    form = str(rng.choice(["scalar", "array", "2d", "one pole", "one vector",
                           "one place", "one z", "one n", "one e"]))
    num = 1 if form == "scalar" else 2 * gen.count(rng, 1, 6, 400)
    lt, lat, plt, plat, vn, ve, vz = draw(rng, num, hemi)
    if rng.random() < 0.25:
        # Both hemispheres at once, also away from their poles
        plat *= rng.choice([-1.0, 1.0], num)
        lat = np.where(rng.random(num) < 0.7, np.abs(lat) * np.sign(plat),
                       -lat)
    if form == "one pole":
        plt, plat = np.full(num, plt[0]), np.full(num, plat[0])
        lt = np.where(refs.circ_diff(lt, plt, 12.0) < 1e-5, lt + 0.01, lt)
    elif form == "one place":
        lt, lat = np.full(num, lt[0]), np.full(num, lat[0])
        plt = np.where(refs.circ_diff(lt, plt, 12.0) < 1e-5, plt + 0.01, plt)
    elif form == "one vector":
        vn, ve, vz = [np.full(num, xx[0]) for xx in (vn, ve, vz)]
    elif form == "one z":
        vz = np.full(num, vz[0])
    elif form == "one n":
        vn = np.full(num, vn[0])
    elif form == "one e":
        ve = np.full(num, ve[0])
    # Undefined elements next to at least one defined one
    undef = np.zeros(num, dtype=bool)
    names = {"array": "lt lat plt plat vn ve", "2d": "lt lat plt plat vn ve",
             "one pole": "lt lat vn ve", "one place": "plt plat vn ve",
             "one z": "lt lat plt plat vn ve"}.get(form, "")
    if len(names) > 0 and rng.random() < 0.3 and (vn[0] != 0.0
                                                  or ve[0] != 0.0):
        name = str(rng.choice(names.split()))
        arr = {"lt": lt, "lat": lat, "plt": plt, "plat": plat, "vn": vn,
               "ve": ve}[name]
        for ii in range(1, num):
            # Without a horizontal part there is nothing to rotate
            if rng.random() < 0.4 and (vn[ii] != 0.0 or ve[ii] != 0.0):
                arr[ii] = np.nan
                undef[ii] = True
    dat = {"lt": lt, "lat": lat, "plt": plt, "plat": plat, "vn": vn, "ve": ve,
           "vz": vz}
    single = {"scalar": list(dat), "one pole": ["plt", "plat"],
              "one place": ["lt", "lat"], "one vector": ["vn", "ve", "vz"],
              "one z": ["vz"], "one n": ["vn"], "one e": ["ve"]}.get(form, [])
    inp = {kk: (float(vv[0]) if kk in single else vv.copy())
           for kk, vv in dat.items()}
    if form == "2d":
        inp = {kk: vv.reshape(2, -1) for kk, vv in inp.items()}
    shape = () if form == "scalar" else ((2, num // 2) if form == "2d"
                                         else (num, ))
    case.show(form=form, **inp)

    angle = case.call(vectors.calc_vec_pole_angle, inp["lt"], inp["lat"],
                      inp["plt"], inp["plat"])
    ang = np.asarray(angle, dtype=float)
    want_shape = np.broadcast(*[np.asarray(inp[kk]) for kk in (
        "lt", "lat", "plt", "plat")]).shape
    case.same(ang.shape, want_shape, "shape of the pole angles")
    ang = np.broadcast_to(ang, shape).ravel()
    size = np.hypot(vn, ve)
    margins = np.ones(num)
    for ii in range(num):
        if np.isnan([lt[ii], lat[ii], plt[ii], plat[ii]]).any():
            case.check(np.isnan(ang[ii]), "pole angle of undefined input",
                       ang[ii])
            continue
        want, margins[ii] = refs.pole_angle(lat[ii], lt[ii],
                                            plat[ii], plt[ii])
        case.check(abs(ang[ii] - want) < 3e-6 + 3e-7 / margins[ii]**1.5,
                   "pole angle (got, expected)", ang[ii], want, lt[ii],
                   lat[ii], plt[ii], plat[ii])

    # With undefined, or with the previously calculated quadrants
    pquad = vquad = 0
    if rng.random() < 0.5:
        pquad = case.call(vectors.define_pole_quadrants, inp["lt"],
                          inp["plt"], angle)
    if rng.random() < 0.5:
        vquad = case.call(vectors.define_vect_quadrants, inp["vn"], inp["ve"])
    out = case.call(vectors.adjust_vector, inp["lt"], inp["lat"], inp["vn"],
                    inp["ve"], inp["vz"], vquad, inp["plt"], inp["plat"],
                    angle, pquad)
    case.same(len(out), 3, "number of components")
    out = [np.asarray(oo, dtype=float) for oo in out]
    for oo in out:
        case.same(oo.shape, shape, "shape of the components")
    out = [oo.ravel() for oo in out]
    good = 0
    for ii in range(num):
        if undef[ii]:
            case.check(all(np.isnan(oo[ii]) for oo in out),
                       "components of undefined input are not NaN",
                       [oo[ii] for oo in out])
            continue
        dn, de, margin = truth(lt[ii], lat[ii], plt[ii], plat[ii], vn[ii],
                               ve[ii])
        vals = [lt[ii], lat[ii], plt[ii], plat[ii], vn[ii], ve[ii]]
        close_comp(case, out[0][ii], dn, size[ii], margin, "north component "
                   "(got, expected, tolerance, inputs)", *vals)
        close_comp(case, out[1][ii], de, size[ii], margin, "east component "
                   "(got, expected, tolerance, inputs)", *vals)
        case.check(out[2][ii] == vz[ii], "vertical component is altered",
                   out[2][ii], vz[ii])
        case.check(abs(np.hypot(out[0][ii], out[1][ii]) - size[ii])
                   <= 1e-9 * size[ii], "horizontal magnitude is altered",
                   out[0][ii], out[1][ii], size[ii])
        good += 1
    if good > 0:
        case.seen(form, hemi, np.round(lt, 6).tolist(),
                  np.round(plt, 6).tolist())


@suite.group(200)
def steps(case):
    """Pole locations, quadrants, azimuths, and signs agree with geometry."""
    import ocbpy.vectors as vectors

    rng = case.rng
    num = gen.count(rng, 1, 8, 1000)
    phi = rng.uniform(-360, 720, num)
    cen = rng.uniform(0, 30, num)
    form = str(rng.choice(["scalar", "array", "mixed"]))
    pin, cin = phi, cen
    if form == "scalar":
        pin, cin = float(phi[0]), float(cen[0])
    elif form == "mixed":
        cin = float(cen[0])
        cen = np.full(num, cin)
    case.show(phi=pin, r_cent=cin)
    ptlt, ptlat = case.call(vectors.get_pole_loc, pin, cin)
    if form == "scalar":
        case.check(isinstance(ptlt, float) and isinstance(ptlat, float),
                   "pole location of scalar input", ptlt, ptlat)
    else:
        case.same(np.shape(ptlt), np.shape(pin), "shape of the pole local "
                  "times")
        case.same(np.shape(ptlat), np.shape(cin), "shape of the pole "
                  "latitudes")
    for ii, (lo, la) in enumerate(zip(np.atleast_1d(ptlt), np.broadcast_to(
            ptlat, np.shape(np.atleast_1d(ptlt))))):
        case.check(0.0 <= lo < 24.0 and refs.circ_diff(
            lo, phi[ii] / 15.0, 24.0) < 1e-9, "local time of the pole", lo,
            phi[ii])
        case.check(abs(la - (90.0 - cen[ii])) < 1e-12, "latitude of the pole",
                   la, cen[ii])

    lt, lat, plt, plat, vn, ve, _ = draw(rng, num, 1)
    case.show(lt=lt, lat=lat, plt=plt, plat=plat, vn=vn, ve=ve)
    ang = case.call(vectors.calc_vec_pole_angle, lt, lat, plt, plat)
    pquad = case.call(vectors.define_pole_quadrants, lt, plt, ang)
    vquad = case.call(vectors.define_vect_quadrants, vn, ve)
    keep = (vn != 0.0) | (ve != 0.0)
    for ii in range(num):
        dn, de, _ = refs.rotate_vector(lat[ii], lt[ii], 1.0, 0.0, plat[ii],
                                       plt[ii])
        # Components of the pole direction along the base axes
        pole_n, pole_e = dn, -de
        if abs(pole_n) > 1e-6 and abs(pole_e) > 1e-6:
            want = (1 if pole_e > 0 else 2) if pole_n > 0 else (
                3 if pole_e < 0 else 4)
            case.check(int(pquad[ii]) == want, "pole quadrant (got, expected, "
                       "inputs)", pquad[ii], want, lt[ii], lat[ii], plt[ii],
                       plat[ii])
            one = case.call(vectors.define_pole_quadrants, lt[ii], plt[ii],
                            ang[ii])
            case.same(int(one), want, "pole quadrant of a scalar")
        want = (1 if ve[ii] >= 0 else 2) if vn[ii] >= 0 else (
            3 if ve[ii] < 0 else 4)
        case.same(int(vquad[ii]), want, "vector quadrant")
        case.same(int(case.call(vectors.define_vect_quadrants, vn[ii],
                                ve[ii])), want, "vector quadrant of a scalar")
    if not keep.any():
        raise Skip()
    vmag = np.hypot(vn, ve)
    naz = np.degrees(np.arccos(np.clip(vn[keep] / vmag[keep], -1.0, 1.0)))
    as_scalar = rng.random() < 0.3
    idx = np.flatnonzero(keep)
    args = [pquad[keep], vquad[keep], naz, ang[keep]]
    if as_scalar:
        idx = idx[:1]
        args = [xx[0] for xx in args]
    dnaz = np.atleast_1d(case.call(vectors.calc_dest_polar_angle, *args))
    sign = case.call(vectors.calc_dest_vec_sign, *args, north=True, east=True)
    for jj, ii in enumerate(idx):
        dn, de, margin = refs.rotate_vector(lat[ii], lt[ii], vn[ii], ve[ii],
                                            plat[ii], plt[ii])
        want = math.degrees(math.atan2(abs(de), dn))
        case.check(abs(dnaz[jj] - want) < 1e-5 + 3e-6 / margin**1.5,
                   "azimuth from the destination pole", dnaz[jj], want)
        if abs(dn) > 1e-5 * vmag[ii] / margin:
            case.same(float(np.atleast_1d(sign["north"])[jj]),
                      float(np.sign(dn)), "sign of the north component")
        if abs(de) > 1e-5 * vmag[ii] / margin:
            case.same(float(np.atleast_1d(sign["east"])[jj]),
                      float(np.sign(de)), "sign of the east component")
    case.seen(form, as_scalar, pquad.tolist(), vquad.tolist(),
              np.round(naz, 4).tolist())


@suite.group(150)
def azimuths(case):
    """Azimuths and signs of any mixture of scalars and arrays."""
    import ocbpy.vectors as vectors

    rng = case.rng
    num = int(rng.integers(2, 8))
    pquad, vquad = rng.integers(1, 5, num), rng.integers(1, 5, num)
    single = [bool(rng.random() < 0.4) for _ in range(4)]
    pquad = np.full(num, pquad[0]) if single[0] else pquad
    vquad = np.full(num, vquad[0]) if single[1] else vquad
    # Angles to one direction are shared by the quadrants of one half
    if single[3]:
        pquad = np.where((pquad < 3) == (pquad[0] < 3), pquad, pquad[0])
    if single[2]:
        vquad = np.where((vquad < 3) == (vquad[0] < 3), vquad, vquad[0])
    pang = rng.uniform(0.01, 89.99, num)
    naz = rng.uniform(0.01, 89.99, num)
    if rng.random() < 0.4:
        pang = np.round(pang / 7.5) * 7.5 + 1.0
        naz = np.clip(np.round(naz / 7.5) * 7.5 + 2.5, 0.0, 89.5)
        pang = np.clip(pang, 0.0, 89.0)
    pang = np.where(pquad > 2, pang + 90.0, pang)
    naz = np.where(vquad > 2, naz + 90.0, naz)
    undef = np.zeros(num, dtype=bool)
    if single[3]:
        pang = np.full(num, pang[0])
    elif rng.random() < 0.3:
        undef[1:] |= rng.random(num - 1) < 0.3
        pang[undef] = np.nan
    if single[2]:
        naz = np.full(num, naz[0])
    elif rng.random() < 0.3:
        mask = rng.random(num) < 0.3
        mask[0] = False
        naz[mask] = np.nan
        undef |= mask
    args = [xx[0] if ss else xx for xx, ss in zip((pquad, vquad, naz, pang),
                                                  single)]
    shape = () if all(single) else (num, )
    if rng.random() < 0.2 and num % 2 == 0:
        args = [aa if ss else aa.reshape(2, -1) for aa, ss in zip(args,
                                                                  single)]
        shape = () if all(single) else (2, num // 2)
    case.show(pole_quad=args[0], vect_quad=args[1], base_naz=args[2],
              pole_angle=args[3])
    got = case.call(vectors.calc_dest_polar_angle, *args)
    case.same(np.shape(got), shape, "shape of the azimuths")
    sign = case.call(vectors.calc_dest_vec_sign, *args, north=True, east=True)
    got = np.broadcast_to(got, shape).ravel()
    for key in ("north", "east"):
        case.same(np.shape(sign[key]), shape, "shape of the signs")
        sign[key] = np.broadcast_to(sign[key], shape).ravel()
    for ii in range(num if len(shape) > 0 else 1):
        if undef[ii]:
            case.check(np.isnan(got[ii]), "azimuth of undefined input",
                       got[ii])
            continue
        # East of the base direction is positive
        diff = (naz[ii] if vquad[ii] in (1, 4) else -naz[ii]) - (
            pang[ii] if pquad[ii] in (1, 4) else -pang[ii])
        diff = (diff + 180.0) % 360.0 - 180.0
        case.check(abs(got[ii] - abs(diff)) < 1e-9, "azimuth (got, expected, "
                   "quadrants, angles)", got[ii], abs(diff), pquad[ii],
                   vquad[ii], naz[ii], pang[ii])
        for key, val in (("north", math.cos(math.radians(diff))),
                         ("east", math.sin(math.radians(diff)))):
            if abs(val) > 1e-9:
                case.check(sign[key][ii] == np.sign(val), "sign of the " + key
                           + " component", sign[key][ii], val, pquad[ii],
                           vquad[ii], naz[ii], pang[ii])
    case.seen(single, shape, pquad.tolist(), vquad.tolist(), undef.tolist())


@suite.group(60)
def aligned(case):
    """Vectors on the meridian of the destination pole."""
    import ocbpy.vectors as vectors

    rng = case.rng
    plt = float(rng.integers(24))
    plat = float(rng.integers(65, 89))
    beyond = rng.random() < 0.3
    kind = int(rng.integers(3))
    lt = plt if kind != 2 else (plt + 12.0) % 24.0
    lat = float(rng.uniform(45, plat - 0.5))
    if kind == 1:
        lat = float(rng.uniform(plat + 0.2, 89.9))
    elif kind == 2 and beyond:
        lat = float(rng.uniform(plat + 0.2, 89.9))
    hemi = 1.0 if rng.random() < 0.6 else -1.0
    plat, lat = hemi * plat, hemi * lat
    vn, ve, vz = [float(xx) for xx in rng.normal(size=3)]
    case.show(lt=lt, lat=lat, plt=plt, plat=plat, vn=vn, ve=ve)
    form = bool(rng.random() < 0.5)
    args = [np.array([xx]) if form else xx for xx in (lt, lat, plt, plat)]
    ang = case.call(vectors.calc_vec_pole_angle, *args)
    if kind != 2:
        # Towards the base pole, or away from it
        case.same(float(np.asarray(ang).ravel()[0]),
                  180.0 if kind == 1 else 0.0, "angle on the meridian")
    for sign in (1.0, -1.0):
        # The other side of the equator may have a pole as well
        alt = [lt, lat, plt, sign * plat]
        one = case.call(vectors.calc_vec_pole_angle, *alt)
        many = case.call(vectors.calc_vec_pole_angle,
                         *[np.array([xx, xx]) for xx in alt])
        case.same([float(one)] * 2, [float(xx) for xx in many],
                  "angle on the meridian of a scalar and an array")
        quad = case.call(vectors.define_pole_quadrants, lt, plt, one)
        case.check(int(quad) in (1, 2, 3, 4), "quadrant on the meridian",
                   quad)
        case.same([int(quad)] * 2, [int(xx) for xx in case.call(
            vectors.define_pole_quadrants, np.array([lt, lt]),
            np.array([plt, plt]), many)],
            "quadrant on the meridian of a scalar and an array")
    vec = [np.array([xx]) if form else xx for xx in (vn, ve, vz)]
    out = case.call(vectors.adjust_vector, args[0], args[1], *vec, 0, args[2],
                    args[3], ang, 0)
    got = [float(np.asarray(oo).ravel()[0]) for oo in out]
    want = [-vn, -ve, vz] if kind == 1 else [vn, ve, vz]
    if kind == 1 and max(abs(got[0] - vn), abs(got[1] - ve),
                         abs(got[2] - vz)) < 1e-12:
        case.known("aligned-poleward", "vector poleward of the destination "
                   "pole, on its meridian, is not turned around")
    else:
        case.close_to(got, want, 1e-9, "vector on the meridian of the pole")
    case.seen(kind, beyond, form, hemi, lt, lat, plat)
