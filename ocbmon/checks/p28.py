"""P28: input that cannot be used is refused, usable input is not."""

import copy
import os
import types

import numpy as np

from ocbmon import gen
from ocbmon.checks import p05
from ocbmon.core import Suite

suite = Suite("P28", "random valid calls, each of which is also made with one "
              "part of its input spoilt; the valid call has to be accepted, "
              "and the spoilt one has to be refused with the documented "
              "exception, without any output; non-trivial by kind of defect "
              "and input",
              ["only defects that the documentation names are used"])


def draw_shape(rng, num):
    """Draw an array shape that differs from one dimension."""
    return [(num + 1, ), (num, 1), (num, 2), (num + 5, )][int(
        rng.integers(4))]


@suite.group(150)
def boundary(case):
    """Settings of boundary objects."""
    import ocbpy

    rng = case.rng
    name = str(rng.choice(["OCBoundary", "EABoundary"]))
    cls = getattr(ocbpy, name)
    num = int(rng.integers(1, 6))
    inst = str(rng.choice(gen.INSTS))
    rows, _ = gen.records(rng, num, inst)
    rfunc, rkw, _ = gen.corrections(rng, num)
    kwargs = {"filename": gen.write_file(case, inst, rows),
              "instrument": inst, "hemisphere": int(rng.choice([1, -1])),
              "rfunc": rfunc, "rfunc_kwargs": rkw}
    case.show(cls=name, rows=rows, kwargs=dict(kwargs))
    obj = case.call(cls, **copy.deepcopy(kwargs))
    case.same(obj.records, num, "records of valid input")
    bad = str(rng.choice(["hemisphere", "rfunc shape", "rfunc type",
                          "kwargs shape", "kwargs type", "instrument"]))
    if bad == "hemisphere":
        kwargs["hemisphere"] = [0, 2, -2, 0.5, 10, "north", None, 1.5, -90][
            int(rng.integers(9))]
        if rng.random() < 0.5:
            kwargs["filename"] = None
    elif bad == "rfunc shape":
        arr = np.empty(draw_shape(rng, num), dtype=object)
        arr[...] = ocbpy.ocb_correction.circular
        kwargs["rfunc"], kwargs["rfunc_kwargs"] = arr, None
    elif bad == "rfunc type":
        kwargs["rfunc"] = ["circular", 1.0, [ocbpy.ocb_correction.circular]
                           * num, {}][int(rng.integers(4))]
        kwargs["rfunc_kwargs"] = None
    elif bad == "kwargs shape":
        arr = np.empty(draw_shape(rng, num), dtype=object)
        arr[...] = [{} for _ in range(arr.size)][0]
        kwargs["rfunc_kwargs"] = arr
    elif bad == "kwargs type":
        kwargs["rfunc_kwargs"] = ["r_add", 1.0, [{}] * num][int(
            rng.integers(3))]
    else:
        rows, _ = gen.records(rng, num, "image")
        kwargs.update({"filename": gen.write_file(case, "image", rows),
                       "instrument": str(rng.choice(["imag", "unknown",
                                                     "dmsp", "superdarn"])),
                       "rfunc": None, "rfunc_kwargs": None})
    case.show(bad=bad, spoilt=kwargs)
    case.raises(ValueError, cls, **kwargs)
    case.seen(name, bad, repr(kwargs["hemisphere"]), kwargs["instrument"],
              rows)


@suite.group(100)
def pairs(case):
    """Settings and queries of paired boundaries."""
    import ocbpy

    rng = case.rng
    obj, _, _, meta = p05.make_dual(case)
    hemi, num = meta["hemi"], int(rng.integers(2, 6))
    lat, mlt = gen.lats(rng, num, hemi), gen.mlts(rng, num)
    bad = str(rng.choice(["lat", "delta", "hemisphere", "normal", "revert",
                          "mlt"]))
    case.show(bad=bad, hemi=hemi, lat=lat, mlt=mlt)
    if bad == "lat":
        two = sorted(np.round(rng.uniform(55, 85, 2), 2))
        if rng.random() < 0.3:
            two[0] = two[1]
        sig = rng.choice([1, -1], 2)
        kwargs = {"eab_filename": None, "ocb_filename": None}
        if two[0] < two[1]:
            case.call(ocbpy.DualBoundary, eab_lat=sig[0] * two[0],
                      ocb_lat=sig[1] * two[1], **kwargs)
        case.show(lats=two, sig=sig)
        case.raises(ValueError, ocbpy.DualBoundary, eab_lat=sig[0] * two[1],
                    ocb_lat=sig[1] * two[0], **kwargs)
    elif bad == "delta":
        delta = -float(rng.choice([0.0, 1e-6, 1.0, 60.0]))
        case.show(delta=delta)
        case.raises(ValueError, ocbpy.DualBoundary, ocb=obj.ocb, eab=obj.eab,
                    hemisphere=hemi, max_delta=delta)
    elif bad == "hemisphere":
        other, _, _, _ = p05.make_dual(case, hemi=-hemi)
        case.call(ocbpy.DualBoundary, ocb=obj.ocb, eab=obj.eab)
        if rng.random() < 0.5:
            case.raises(ValueError, ocbpy.DualBoundary, ocb=other.ocb,
                        eab=obj.eab, hemisphere=hemi)
        else:
            case.raises(ValueError, ocbpy.DualBoundary, ocb=obj.ocb,
                        eab=other.eab, hemisphere=hemi)
    elif bad in ("normal", "revert"):
        func = getattr(obj, bad + "_coord")
        good = [lat, mlt, np.full(num, 300.0)]
        case.call(func, good[0], good[1], height=good[2])
        pick = int(rng.integers(3))
        spoilt = list(good)
        spoilt[pick] = np.resize(good[pick], int(rng.choice(
            [vv for vv in range(1, 8) if vv != num])))
        case.show(pick=pick, spoilt=spoilt)
        case.raises(ValueError, func, spoilt[0], spoilt[1], height=spoilt[2])
    else:
        lat[int(rng.integers(num))] = hemi * round(float(rng.uniform(
            30, meta["oref"] - 0.1)), 2)
        case.call(obj.revert_coord, lat, mlt, is_ocb=False, aacgm_mlt=mlt)
        case.call(obj.revert_coord, lat, mlt, is_ocb=True)
        case.raises(ValueError, obj.revert_coord, lat, mlt, is_ocb=False)
    case.seen(bad, lat.tolist())


@suite.group(150)
def vectors(case):
    """Locations, components, and coordinate systems of vectors."""
    import ocbpy
    from ocbpy.ocb_scaling import VectorData

    rng = case.rng
    num = int(rng.integers(2, 6))
    systems = ["magnetic", "geodetic", "geocentric"]
    kind = str(rng.choice(["scalar", "array", "bounds", "both"]))

    def draw(shape):
        return np.round(rng.uniform(-50, 50, shape), 2)

    dshape = () if kind in ("scalar", "bounds") else (num, )
    oshape = () if kind in ("scalar", "array") else (num, )
    args = [np.arange(num) if dshape else 0, np.arange(num) if oshape else 0,
            np.round(rng.uniform(60, 88, dshape), 2),
            np.round(rng.uniform(0, 24, dshape), 2)]
    one = str(rng.choice(systems))
    two = one if rng.random() < 0.5 else (
        "magnetic" if one != "magnetic" else str(rng.choice(systems)))
    kwargs = {"vect_n": draw(dshape), "vect_e": draw(dshape),
              "vect_z": draw(dshape), "loc_coord": one, "vect_coord": two}
    for key in ("loc_coord", "vect_coord"):
        if rng.random() < 0.2:
            kwargs[key] = kwargs[key].upper()
    if rng.random() < 0.5:
        kwargs.update({"ocb_lat": np.round(rng.uniform(60, 88, oshape), 2),
                       "ocb_mlt": np.round(rng.uniform(0, 24, oshape), 2),
                       "r_corr": np.zeros(oshape)})
    case.show(kind=kind, args=list(args), kwargs=dict(kwargs))
    vdat = case.call(VectorData, *copy.deepcopy(args), **copy.deepcopy(kwargs))
    bads = ["loc", "vect", "mixed"]
    if dshape:
        bads.extend(["shape", "index"])
    if oshape and "ocb_lat" in kwargs:
        bads.append("bound")
    if kind == "both":
        bads.append("pair")
    bads.extend(["quadrants", "angle", "scale"])
    bad = str(rng.choice(bads))
    case.show(bad=bad)
    odd = [(num + 1, ), (num + 4, ), (num - 1, )][int(rng.integers(3))]
    if bad in ("loc", "vect"):
        kwargs[bad + "_coord"] = str(rng.choice(["mag", "geo", "", "gsm",
                                                 "magnetics", "geographic"]))
    elif bad == "mixed":
        kwargs["loc_coord"], kwargs["vect_coord"] = [str(vv) for vv in
                                                     rng.permutation(
                                                         systems[1:])]
    elif bad == "shape":
        # Two arrays of different lengths
        pick = int(rng.integers(5))
        if pick < 2:
            args[2 + pick] = np.resize(args[2 + pick], odd)
        else:
            kwargs["vect_" + "nez"[pick - 2]] = draw(odd)
    elif bad == "index":
        args[0] = 0
    elif bad == "bound":
        pick = str(rng.choice(["ocb_lat", "ocb_mlt", "r_corr"]))
        kwargs[pick] = np.resize(kwargs[pick], odd)
    elif bad == "pair":
        args[1] = np.resize(args[1], odd)
        for kk in ("ocb_lat", "ocb_mlt", "r_corr"):
            if kk in kwargs:
                kwargs[kk] = np.resize(kwargs[kk], odd)
    if bad in ("quadrants", "angle", "scale"):
        for kk in ("loc_coord", "vect_coord"):
            kwargs[kk] = "magnetic"
        vdat = case.call(VectorData, *args, **kwargs)
        if kind != "scalar":
            vdat = case.call(VectorData, 0, 0, 75.0, 12.0, vect_n=10.0,
                             vect_e=20.0)
        vdat.ocb_aacgm_lat = round(float(rng.uniform(80, 89)), 2)
        vdat.ocb_aacgm_mlt = round(float(rng.uniform(0, 24)), 2)
        vdat.unscaled_r, vdat.scaled_r = np.float64(15), np.float64(16)
        case.call(vdat.calc_vec_pole_angle)
        case.call(vdat.define_quadrants)
        case.call(vdat.scale_vector)
        opts = {"quadrants": ["loc_coord", "vect_coord", "ocb_aacgm_mlt",
                              "lt", "pole_angle"],
                "angle": ["loc_coord", "lt", "lat", "ocb_aacgm_mlt",
                          "ocb_aacgm_lat"],
                "scale": ["lat", "lt", "ocb_aacgm_mlt", "pole_angle"]}[bad]
        pick = str(rng.choice(opts))
        case.show(pick=pick)
        setattr(vdat, pick, "geodetic" if pick.endswith("coord") else np.nan)
        case.raises(ValueError, {"quadrants": vdat.define_quadrants,
                                 "angle": vdat.calc_vec_pole_angle,
                                 "scale": vdat.scale_vector}[bad])
        case.seen(kind, bad, pick, float(np.ravel(vdat.vect_n)[0]))
        return
    case.show(spoilt=(args, kwargs))
    case.raises(ValueError, VectorData, *args, **kwargs)
    case.seen(kind, bad, repr(args), repr(kwargs["loc_coord"]))


@suite.group(120)
def functions(case):
    """Arguments of functions."""
    import ocbpy
    from ocbpy import ocb_correction
    from ocbpy import ocb_time
    from ocbpy import vectors as vec

    rng = case.rng
    bad = str(rng.choice(["range", "width", "yyddd", "date", "elliptical",
                          "harmonic", "quad", "match", "times"]))
    case.show(bad=bad)
    if bad in ("range", "width"):
        low, high = sorted(np.round(rng.uniform(-200, 400, 2), 3))
        vals = rng.uniform(-400, 800, int(rng.integers(1, 5)))
        case.show(vals=vals, low=low, high=high)
        case.call(ocb_time.fix_range, vals, low, high + 0.1)
        if bad == "range":
            if rng.random() < 0.3:
                low = high
            case.raises(ValueError, ocb_time.fix_range, vals, high, low)
        else:
            width = -float(rng.choice([0.0, 1.0, 360.0]))
            case.raises(ValueError, ocb_time.fix_range, vals, low, high + 0.1,
                        val_range=width)
        case.seen(bad, low, high)
    elif bad == "yyddd":
        year, day = int(rng.integers(0, 120)), int(rng.integers(1, 366))
        text = "{:02d}{:03d}".format(year, day)
        got = case.call(ocb_time.yyddd_to_date, text)
        case.same(got.year, 1900 + year, "year")
        spoilt = [int(text), float(text), None, [text]][int(rng.integers(4))]
        case.show(spoilt=spoilt)
        case.raises(ValueError, ocb_time.yyddd_to_date, spoilt)
        if not isinstance(spoilt, (list, type(None))):
            case.raises(ValueError, ocb_time.convert_time, yyddd=spoilt,
                        sod=0.0)
        case.seen(bad, repr(spoilt))
    elif bad == "date":
        when = gen.start_time(rng)
        case.same(case.call(ocb_time.convert_time,
                            date=when.strftime("%Y-%m-%d"),
                            tod=when.strftime("%H:%M:%S")), when, "time")
        spoilt = when.strftime(["%Y/%m/%d", "%d-%m-%Y", "%b %d", "", "2013-%m",
                                "%Y-13-%d", "%Y-%m-32"][int(rng.integers(7))])
        case.show(spoilt=spoilt)
        case.raises(ValueError, ocb_time.convert_time, date=spoilt,
                    tod=when.strftime("%H:%M:%S"))
        case.seen(bad, spoilt)
    elif bad in ("elliptical", "harmonic"):
        func = getattr(ocb_correction, bad)
        mlt = gen.mlts(rng, int(rng.integers(1, 4)))
        good = {"instrument": "ampere", "method": str(rng.choice(
            ["median", "gaussian"]))}
        case.call(func, mlt, **good)
        pick = str(rng.choice(["instrument", "method"]))
        good[pick] = str(rng.choice(["", "mean", "image", "dmsp-ssj", "iridium",
                                     "med", "gauss"]))
        case.show(spoilt=good)
        case.raises(ValueError, func, mlt, **good)
        case.seen(bad, str(good), mlt.tolist())
    elif bad == "quad":
        num = int(rng.integers(1, 5))
        args = [rng.integers(1, 5, num).astype(float),
                rng.integers(1, 5, num).astype(float),
                rng.uniform(0, 90, num), rng.uniform(0, 90, num)]
        func = [vec.calc_dest_polar_angle, vec.calc_dest_vec_sign][int(
            rng.integers(2))]
        opts = {}
        if func is vec.calc_dest_vec_sign:
            opts = {"north": True, "east": True}
        case.call(func, *copy.deepcopy(args), **opts)
        pick = int(rng.integers(2))
        args[pick] = np.full(num, float(rng.choice([0, 5, -1, np.nan, 9])))
        case.show(args=args)
        case.raises(ValueError, func, *args, **opts)
        case.seen(bad, pick, repr(args))
    elif bad == "match":
        when = [gen.start_time(rng)]
        spoilt = types.SimpleNamespace(records=int(rng.integers(1, 5)),
                                       rec_ind=int(rng.integers(-1, 1)),
                                       dtime=np.array(when * 5))
        case.raises(ValueError, ocbpy.cycle_boundary.match_data_ocb, spoilt,
                    when)
        case.seen(bad, when)
    else:
        num = int(rng.integers(2, 6))
        vdat = case.call(ocbpy.ocb_scaling.VectorData, np.arange(num), 0,
                         rng.uniform(60, 80, num), rng.uniform(0, 24, num),
                         loc_coord="geodetic", vect_coord="geodetic")
        whens = [gen.start_time(rng) for _ in range(num + int(rng.choice(
            [-1, 1, 3])))]
        case.show(num=num, whens=whens)
        case.raises(ValueError, vdat.update_loc_coords, whens)
        case.same(vdat.loc_coord, "geodetic", "coordinates after the error")
        case.seen(bad, num, whens)


@suite.group(40, 400)
def files(case):
    """Files that are processed."""
    from ocbpy.instruments import supermag
    from ocbpy.instruments import vort

    rng = case.rng
    obj, _, _ = gen.make_boundary(case, "OCB")
    func = [supermag.supermag2ascii_ocb, vort.vort2ascii_ocb][int(
        rng.integers(2))]
    out = os.path.join(case.tmp, "out.txt")
    bad = str(rng.choice(["missing", "empty", "directory", "name"]))
    path = os.path.join(case.tmp, "data.txt")
    if bad == "empty":
        open(path, "w").close()
    elif bad == "directory":
        os.mkdir(path)
    elif bad == "name":
        with open(path, "w") as fout:
            fout.write("# header\n2001 1 1 0.5\n0\n")
        out = [None, 1, 2.0, ["out.txt"]][int(rng.integers(4))]
    case.show(bad=bad, func=func.__name__, out=out)
    before = sorted(os.listdir(case.tmp))
    case.raises(IOError, func, path, out, ocb=obj, hemisphere=obj.hemisphere)
    case.same(sorted(os.listdir(case.tmp)), before, "files after the error")
    case.seen(bad, func.__name__, repr(out), obj.dtime[0])
