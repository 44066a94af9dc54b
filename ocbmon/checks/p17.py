"""P17: boundary coordinates and scaled data are added to pysat data."""

import copy
import datetime as dt
import warnings

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks import p03
from ocbmon.checks import p13
from ocbmon.checks import p15
from ocbmon.checks.p08 import table
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P17", "random time series and grids of pysat data (pandas and "
              "xarray) with locations as variables or coordinates, heights, "
              "scaled quantities and vectors of one to three components, "
              "fill values, both hemispheres, OCB, EAB, and paired boundaries "
              "from files or objects, tolerances, criteria, magnetic and "
              "geographic locations; every element of every added variable is "
              "judged; non-trivial by the layout and added values",
              ["aacgmv2 coordinate conversions are trusted",
               "data and boundaries are sorted by time",
               "each coordinate of a grid is a dimension",
               "the location of the southern boundary pole follows its own "
               "convention, see the listed finding"])


def make_inst(case, pandas, times, cols, coords=None):
    """Create a pysat Instrument with data and metadata.

    Parameters
    ----------
    cols : dict
        Values, or tuples with dimensions and values
    coords : dict
        Values of the dimensions, other than time

    """
    import pandas as pd
    import pysat
    import xarray as xr

    pysat.logger.setLevel("CRITICAL")
    inst = pysat.Instrument()
    inst.pandas_format = pandas
    index = pd.DatetimeIndex(times, name="time")
    if pandas:
        inst.data = pd.DataFrame(cols, index=index)
    else:
        cval = {"time": index}
        cval.update({} if coords is None else coords)
        inst.data = xr.Dataset({kk: (vv[0], vv[1]) for kk, vv in cols.items()},
                               coords=cval)
    inst.meta = pysat.Meta()
    names = list(cols.keys()) + ([] if coords is None else list(coords.keys()))
    for ii, name in enumerate(names):
        inst.meta[name] = {"units": "u{:d}".format(ii), "long_name": name,
                           "desc": "About " + name, "value_min": -1.0e3 - ii,
                           "value_max": 2.0e3 + ii, "fill": -1.0}
    return inst, names


def magnetic_loc(lat, lt, height, dtime, coords):
    """Magnetic location of one observation."""
    if coords == "magnetic":
        return float(lat), float(lt)
    mlat, mlt = p03.to_mag(lat, lt, height, dtime, coords)
    return float(mlat), float(mlt)


# Names of vectors and scalars, which may contain the names of boundaries
VECTORS = [("vel", "drift"), ("vel", "drift"), ("v", "v_ocb"),
           ("ocbvel", "vel eab"), ("v_ocb_x", "v_eab_n"), ("dualb", "eab")]
SCALARS = [["ion_v", "b", "curl e"], ["ion_v", "b", "curl e"],
           ["x_ocb", "x_eab_y", "x_dualb"], ["ocb", "b_eab", "e"]]


class Plan(object):
    """What is added, and how it is named."""

    def __init__(self, case, model, names, many):
        rng = case.rng
        self.bname = {"OCB": "ocb", "EAB": "eab", "Dual": "dualb"}[model.kind]
        self.evars = [nn for nn in names if rng.random() < 0.3]
        self.curls = [nn for nn in names if nn not in self.evars
                      and rng.random() < 0.3]
        self.vectors = {}
        self.vrefs = {}
        self.evec, self.cvec = list(), list()
        labels = VECTORS[int(rng.integers(len(VECTORS)))]
        for ii in range(int(rng.integers(0, 3)) if many else 0):
            name = labels[ii]
            num = int(rng.integers(1, min(3, len(names)) + 1))
            part = [str(vv) for vv in rng.choice(names, num, replace=False)]
            comp = [str(vv) for vv in rng.choice(["vect_n", "vect_e",
                                                  "vect_z"], num,
                                                 replace=False)]
            vec = dict(zip(comp, part))
            if rng.random() < 0.5:
                vec["dat_name"] = "Thing {:d}".format(ii)
                vec["dat_units"] = "m/s"
            kind = int(rng.integers(3))
            if kind == 0:
                self.evec.append(name)
                ref = p13.evar
            elif kind == 1:
                self.cvec.append(name)
                ref = p13.curl
            else:
                func, ref = p13.draw_func(rng)
                vec["scale_func"] = func
            self.vectors[name] = vec
            self.vrefs[name] = ref

    def options(self, rng):
        """Provide keyword arguments."""
        out = {}
        if len(self.evars + self.evec) > 0 or rng.random() < 0.2:
            out["evar_names"] = self.evars + self.evec
        if len(self.curls + self.cvec) > 0 or rng.random() < 0.2:
            out["curl_evar_names"] = self.curls + self.cvec
        if len(self.vectors) > 0:
            out["vector_names"] = self.vectors
        return out

    def needed(self):
        """Names of the variables that are needed."""
        out = list(self.evars + self.curls)
        for vec in self.vectors.values():
            out.extend(vec[kk] for kk in ("vect_n", "vect_e", "vect_z")
                       if kk in vec)
        return sorted(set(out))

    def outputs(self, lat_name, lt_name):
        """Names of the scalar variables that are added."""
        return ["{:s}_{:s}".format(nn, self.bname) for nn in [
            lat_name, lt_name, "r_corr"] + self.evars + self.curls]

    def vector_out(self, name):
        """Names of the vector components, and radii, that are added."""
        return ["{:s}_{:s}_{:s}".format(name, self.bname, kk)
                for kk in ("n", "e", "z", "mag", "unscaled_r", "scaled_r")]


def judge_one(case, model, plan, irec, loc, got, vals, info, tol=1e-8):
    """Judge all of the values of one observation.

    Parameters
    ----------
    irec : int or NoneType
        Boundary that belongs to the observation
    loc : tuple
        Magnetic location
    got : dict
        Added values
    vals : dict
        Original values

    Returns
    -------
    bool
        True if there are values

    """
    if irec is None:
        for name, val in got.items():
            case.check(np.isnan(val), "value without a boundary or in the "
                       "other hemisphere", name, val, info)
        return False
    blat, bmlt, corr = model.coords(case, irec, *loc)
    lat_n, lt_n, cor_n = [kk for kk in got.keys()][:3]
    if np.isnan(blat):
        case.check(np.isnan(got[lat_n]), "undefined location", got[lat_n],
                   info)
        return False
    colat = 90.0 - abs(blat)
    case.check(abs(got[lat_n] - blat) < tol, "boundary latitude (got, "
               "expected, data)", got[lat_n], blat, info)
    if colat > 1e-3:
        case.check(float(refs.circ_diff(got[lt_n], bmlt, 24.0)) < tol / min(
            colat, 1.0), "boundary local time (got, expected, data)",
            got[lt_n], bmlt, info)
    case.check(abs(got[cor_n] - corr) < tol, "radius correction", got[cor_n],
               corr, info)
    unscaled, scaled = model.orecs[irec].rad + corr, 90.0 - model.ref
    for names, func in [(plan.evars, p13.evar), (plan.curls, p13.curl)]:
        for name in names:
            want = func(vals[name], unscaled, scaled)
            val = got["{:s}_{:s}".format(name, plan.bname)]
            if np.isnan(want):
                case.check(np.isnan(val), "scaled fill value", name, val, info)
            else:
                case.check(abs(val - want) <= 1e-6 * tol / 1e-8 * abs(want)
                           + 1e-12, "scaled value (name, got, expected, data)",
                           name, val, want, info)
    for name, vec in plan.vectors.items():
        out = np.array([got[kk] for kk in plan.vector_out(name)])
        comp = [vals[vec[kk]] if kk in vec else 0.0
                for kk in ("vect_n", "vect_e", "vect_z")]
        if np.any(np.isnan(comp)):
            case.check(np.isnan(out[3]), "magnitude with a fill value", name,
                       out, info)
            if np.isnan(out[4]) and np.isnan(out[5]):
                continue
        case.check(abs(out[4] - unscaled) < tol and abs(out[5] - scaled) < tol,
                   "radii of the vector", name, out[4:], unscaled, scaled,
                   info)
        if np.any(np.isnan(comp)):
            continue
        case.check(abs(out[3] - np.sqrt(np.sum(out[:3]**2))) <= 1e-9 * out[3]
                   + 1e-300, "magnitude of the components", name, out, info)
        if p13.safe(model.orecs[irec], loc[1]) and 90.0 - abs(loc[0]) > 1e-4:
            p13.expect_vector(case, model, irec, loc[0], loc[1], comp, corr,
                              plan.vrefs[name], out[:3],
                              places=0.0 if tol < 1e-7 else 1e-6 * float(
                                  np.hypot(comp[0], comp[1])) * (
                                      1.0 if plan.vrefs[name] is None else abs(
                                          plan.vrefs[name](1.0, unscaled,
                                                           scaled))))
    return True


def judge_meta(case, inst, plan, names, lat_name, lt_name, keep):
    """Judge the metadata, where all of the names are new."""
    for name in names + ["time"]:
        if name in keep:
            case.same({kk: str(vv) for kk, vv in inst.meta[name].items()},
                      keep[name], "metadata of " + name)
    orig = {"{:s}_{:s}".format(nn, plan.bname): nn for nn in [
        lat_name, lt_name] + plan.evars + plan.curls}
    label = inst.meta.labels
    outs = {vv: vec for vec in plan.vectors for vv in plan.vector_out(vec)}
    desc = {"ocb": "Open Closed field-line Boundary",
            "eab": "Equatorward Auroral Boundary", "dualb": "Dual Boundary"}[
                plan.bname]
    for name in list(orig.keys()) + ["r_corr_" + plan.bname] + list(
            outs.keys()):
        case.check(name in inst.meta.data.index, "no metadata", name)
        meta = inst.meta[name]
        case.check(np.isnan(meta[label.fill_val]), "fill value of the "
                   "metadata", name, meta[label.fill_val])
        case.check("{:.2f}".format(model_ref(plan)) in meta[label.notes],
                   "notes of the metadata", name, meta[label.notes])
        case.check(meta[label.name].startswith(plan.bname.upper()) and
                   desc in meta[label.desc], "boundary in the metadata", name,
                   meta[label.name], meta[label.desc])
        if name in outs.keys():
            # The values are those of a component or chosen by the user; which
            # units the radii have is not specified
            vec = plan.vectors[outs[name]]
            part = [vec[kk] for kk in ("vect_n", "vect_e", "vect_z")
                    if kk in vec]
            if not name.endswith("_r"):
                case.check(meta[label.units] in [vec.get("dat_units")] + [
                    inst.meta[kk][label.units] for kk in part], "units of a "
                    "vector", name, meta[label.units])
            case.check(outs[name].replace("_", " ") in meta[label.name],
                       "name of a vector", name, meta[label.name])
        if name in orig.keys():
            old = inst.meta[orig[name]]
            for key in (label.units, label.min_val, label.max_val):
                case.check(meta[key] == old[key], "metadata that is copied",
                           name, meta[key], old[key])
            case.check(plan.bname.upper() in meta[label.name] and
                       old[label.name] in meta[label.name], "long name", name,
                       meta[label.name])
            case.check(old[label.desc] in meta[label.desc], "description",
                       name, meta[label.desc])


def model_ref(plan):
    """Signed reference latitude, as it is noted."""
    return plan.blat


def forget(rng, obj):
    """Let a boundary not know its file and instrument at times."""
    if rng.random() < 0.15:
        obj.filename = None
        if rng.random() < 0.3:
            obj.instrument = None


def draw_source(case, model, opts, cand):
    """Add the boundary to the options, as an object or as a file.

    Limits the pairs of the model to those that will be found.

    Returns
    -------
    by_file : bool
        True if the boundary will be loaded

    """
    import ocbpy

    rng = case.rng
    if model.kind == "Dual":
        objs = [model.obj.ocb, model.obj.eab]
        default = all(rec.corr is refs.circular and len(rec.kw) == 0
                      for obj in objs for rec in model.orecs + model.erecs)
        if rng.random() < 0.7 and default and "r" not in opts:
            opts["ocbfile"] = str(rng.choice(["dual", "DUAL"]))
            for key, obj in zip(["ocb", "eab"], objs):
                opts[key + "_filename"] = obj.filename
                opts[key + "_lat"] = obj.boundary_lat
                opts[key + "_instrument"] = obj.instrument
            pick = int(rng.integers(4))
            if pick == 0:
                # The instrument of each boundary has precedence
                opts["instrument"] = str(rng.choice(["image", "ampere"]))
            elif pick < 3:
                # The instrument applies to a boundary without its own
                opts["instrument"] = opts.pop(
                    ["ocb_instrument", "eab_instrument"][pick - 1])
                other = ["eab_instrument", "ocb_instrument"][pick - 1]
                if opts[other] == opts["instrument"] and rng.random() < 0.5:
                    del opts[other]
            if rng.random() < 0.5:
                # Pairs may be limited to boundaries with a small difference
                # in time
                diff = [abs((orec.dtime - erec.dtime).total_seconds())
                        for orec, erec in zip(model.orecs, model.erecs)]
                lim = [dd for dd in (1, 5, 15, 30, 45, 60) if any(
                    dd >= val for val in diff)]
                opts["max_delta"] = model.delta = int(rng.choice(lim))
                good = [ii for ii, val in enumerate(diff)
                        if val <= model.delta]
                model.orecs = [model.orecs[ii] for ii in good]
                model.erecs = [model.erecs[ii] for ii in good]
                cand[:] = [(ii, rec.dtime) for ii, rec in enumerate(
                    model.orecs)]
            return True
        model.obj.rec_ind = -1
        opts["ocb"] = model.obj
        for obj in objs:
            forget(rng, obj)
        return False
    default = all(rec.corr in (refs.circular, refs.elliptical) and len(rec.kw)
                  == 0 for rec in model.orecs) and len(set(
                      rec.corr for rec in model.orecs)) == 1
    ampere = model.meta["inst"] == "ampere" and model.kind == "OCB"
    default &= (model.orecs[0].corr is refs.elliptical) == ampere
    if default and model.ref == (74.0 if model.kind == "OCB" else 64.0) \
            and rng.random() < 0.8:
        name = ["north.ocb", "ocb", "my_ocb_file", "data_north_ocb.txt"]
        name = name[int(rng.integers(4))]
        if name == "ocb":
            name = "ocb_north"
        if model.kind == "EAB":
            name = name.replace("ocb", "eab")
        if rng.random() < 0.2:
            name = name.upper()
        path = gen.write_file(case, model.meta["inst"], model.meta["rows"],
                              name)
        opts["ocbfile"] = path
        opts["instrument"] = model.meta["inst"]
        return True
    model.obj.rec_ind = -1
    opts["ocb"] = model.obj
    forget(rng, model.obj)
    return False


def blat_of(model):
    """Signed boundary latitude."""
    obj = model.obj.ocb if model.kind == "Dual" else model.obj
    return float(obj.boundary_lat)


def finish(case, model, plan, inst, times, locs, good, opts, cand, tol,
           by_file, judge):
    """Run the function, and match the good observations by brute force."""
    from ocbpy.instruments import pysat_instruments as pins

    use, wide = None, False
    if by_file:
        first, last = [np.datetime64(tt) for tt in (times[0], times[-1])]

        def loads(sec):
            """Test for boundaries near the data."""
            lim = np.timedelta64(sec, "s")
            return any(first - lim <= np.datetime64(rec.dtime) <= last + lim
                       for rec in model.orecs)

        if not loads(tol + 1):
            use = {}
            # Boundaries needed to find the pairs may be beyond the tolerance
            wide = model.kind == "Dual" and loads(tol + 1 + int(opts.get(
                "max_delta", 60)))
    before = inst.data.copy()
    keep = {kk: {ll: str(vv) for ll, vv in inst.meta[kk].items()}
            for kk in inst.meta.keys()}
    given = {kk: copy.deepcopy(vv) for kk, vv in opts.items() if kk != "ocb"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        case.call(pins.add_ocb_to_data, inst, **opts)
    for key, val in given.items():
        case.check(np.array_equal(opts[key], val) if isinstance(
            val, np.ndarray) else opts[key] == val, "options are altered", key,
            opts[key], val)
    if use is not None and not (wide and list(inst.data) != list(before)):
        case.check(list(inst.data) == list(before), "data without boundaries",
                   list(inst.data))
        case.seen("no boundaries")
        return None, before, keep
    gtime = sorted(set(good))
    best = table(gtime, cand, tol)
    return {gtime[ii]: irec for ii, irec in best.items()}, before, keep


def draw_setup(case, coords="magnetic"):
    """Draw a boundary, the times of data, and selection criteria."""
    rng = case.rng
    kind = None if coords == "magnetic" else str(rng.choice(["OCB", "EAB"]))
    model, kwargs, cand = p15.setup(case, kind, filed=rng.random() < 0.4)
    tol = int(rng.choice([0, 30, 60, 60, 600]))
    times = p15.draw_times(rng, [rec.dtime for rec in model.orecs], tol, 12)
    opts = dict(kwargs)
    if tol != 60 or rng.random() < 0.5:
        # Whole seconds may be given as another type of number
        opts["max_sdiff"] = [tol, tol, tol, float(tol), np.float64(tol),
                             np.int64(tol)][int(rng.integers(6))]
    return model, opts, cand, tol, times


def settle(case, model, opts):
    """Select the pairs again, as the processing does."""
    import ocbpy

    if model.kind == "Dual":
        model.obj = ocbpy.DualBoundary(ocb=model.obj.ocb, eab=model.obj.eab,
                                       hemisphere=model.hemi,
                                       max_delta=getattr(model, "delta", 60))
        case.same(model.obj.records, len(model.orecs), "pairs")


@suite.group(150, 2200)
def series(case):
    """Every value of a time series is judged."""
    rng = case.rng
    geo = bool(rng.random() < 0.2)
    coords = str(rng.choice(["geodetic", "geocentric"])) if geo else "magnetic"
    model, opts, cand, tol, times = draw_setup(case, coords)
    hemi = model.hemi
    if rng.random() < 0.02 and not geo:
        # The series may be long
        more = rng.integers(-2 * tol - 60, 2 * tol + 61, 400)
        pick = rng.integers(0, len(model.orecs), 400)
        times = sorted(set(times + [model.orecs[ii].dtime + dt.timedelta(
            seconds=int(sec)) for ii, sec in zip(pick, more)]))
    if rng.random() < 0.3 and len(times) > 1:
        # Times may be repeated
        times = sorted(times + [times[int(rng.integers(len(times)))]])
    num = len(times)
    wrong = 0.3 if rng.random() < 0.5 else 0.0
    lat = gen.lats(rng, num, hemi, 64.0 if geo else 52.0, 84.0 if geo else
                   89.5, wrong=wrong, nan=0.1 if wrong > 0 else 0.0)
    lt = rng.uniform(0, 24, num)
    lat_name, lt_name = [("mlat", "mlt"), ("latitude", "slt")][int(
        rng.integers(2))]
    cols = {lat_name: lat, lt_name: lt}
    names = SCALARS[int(rng.integers(len(SCALARS)))][:int(rng.integers(1, 4))]
    fill = 0.15 if rng.random() < 0.4 else 0.0
    for name in names:
        cols[name] = np.where(rng.random(num) < fill, np.nan,
                              rng.normal(size=num) * 100.0)
    height = np.full(num, 350.0)
    if rng.random() < 0.6 or geo:
        kind = int(rng.integers(3))
        if kind == 0:
            height = np.round(rng.uniform(100, 800, num), 1)
            cols["alt"] = height
            opts["height_name"] = "alt"
            if rng.random() < 0.3:
                # The variable has precedence
                opts["height"] = rng.uniform(100, 800, num) \
                    if rng.random() < 0.5 else 120.5
        elif kind == 1:
            opts["height"] = round(float(rng.uniform(100, 800)), 2)
            height = np.full(num, opts["height"])
        else:
            height = np.round(rng.uniform(100, 800, num), 1)
            opts["height"] = height.copy() if rng.random() < 0.7 else list(
                map(float, height))
    order = [list(cols.keys())[ii] for ii in rng.permutation(len(cols))]
    cols = {kk: cols[kk] for kk in order}
    pandas = bool(rng.random() < 0.6)
    inst, allnames = make_inst(case, pandas, times, cols if pandas else {
        kk: (("time", ), vv) for kk, vv in cols.items()})
    plan = Plan(case, model, names, True)
    plan.blat = blat_of(model)
    opts.update(plan.options(rng))
    opts.update({"mlat_name": lat_name, "mlt_name": lt_name})
    vcoord = "magnetic"
    if geo:
        opts["loc_coord"] = coords
        if rng.random() < 0.5:
            opts["vect_coord"] = vcoord = coords
    by_file = draw_source(case, model, opts, cand)
    if wrong > 0.0 or rng.random() < 0.4:
        opts["hemisphere"] = hemi
        if not by_file and rng.random() < 0.3:
            del opts["hemisphere"]
    case.show(kind=model.kind, pandas=pandas, coords=coords, by_file=by_file,
              options={kk: str(vv)[:80] for kk, vv in opts.items()},
              times=[str(tt) for tt in times], cols=cols,
              good=[str(cc) for cc in cand])
    is_good = lat * hemi > 0.0
    if not is_good.any() and by_file and "hemisphere" not in opts:
        raise Skip()
    good = [times[ii] for ii in range(num) if is_good[ii]]
    opts_in = {kk: vv for kk, vv in opts.items()}
    use, before, keep = finish(case, model, plan, inst, times, None, good,
                               opts_in, cand, tol, by_file, None)
    if use is None:
        return
    settle(case, model, opts)
    outs = plan.outputs(lat_name, lt_name) + [
        nn for vec in plan.vectors for nn in plan.vector_out(vec)]
    arr = {}
    for name in outs:
        case.check(name in inst.variables, "variable is missing", name,
                   list(inst.variables))
        arr[name] = np.asarray(inst[name], dtype=float)
        case.same(arr[name].shape, (num, ), "shape of " + name)
    for name in cols.keys():
        case.check(np.array_equal(np.asarray(inst[name]), np.asarray(
            before[name]), equal_nan=True), "data are altered", name)
    case.check(np.array_equal(np.asarray(inst.index, dtype="datetime64[ns]"),
                              np.asarray(times, dtype="datetime64[ns]")),
               "times are altered")
    count = 0
    for ii in range(num):
        irec = use.get(times[ii]) if is_good[ii] else None
        loc = (lat[ii], lt[ii])
        vals = {kk: float(cols[kk][ii]) for kk in names}
        tol1 = 1e-8
        if irec is not None and geo:
            dtime = model.orecs[irec].dtime
            loc = magnetic_loc(lat[ii], lt[ii], height[ii], dtime, coords)
            tol1 = 1e-5
            if np.isnan(loc[0]) or abs(loc[0]) < 48.0:
                continue
        if vcoord != "magnetic" and irec is not None and len(
                plan.vectors) > 0:
            # Judge the location and the scaled values, and the vector with
            # its magnetic components
            judge_geo(case, model, plan, irec, loc, (lat[ii], lt[ii],
                                                     height[ii]),
                      {kk: arr[kk][ii] for kk in outs}, vals, coords)
            count += 1
            continue
        count += judge_one(case, model, plan, irec, loc,
                           {kk: arr[kk][ii] for kk in outs}, vals,
                           (ii, str(times[ii]), lat[ii], lt[ii]), tol1)
    judge_meta(case, inst, plan, allnames, lat_name, lt_name, keep)
    if count > 0:
        case.seen(model.kind, hemi, pandas, coords, by_file, outs, np.round(
            arr[outs[0]], 6).tolist())


def judge_geo(case, model, plan, irec, loc, geo, got, vals, coords):
    """Judge one observation with geographic vector components."""
    sub = Plan.__new__(Plan)
    sub.__dict__.update(plan.__dict__)
    dtime = model.orecs[irec].dtime
    plat, plt = p13.geo_pole(model.hemi, geo[2], dtime, coords)
    new, vectors, vrefs = dict(vals), {}, {}
    for name, vec in plan.vectors.items():
        comp = [vals[vec[kk]] if kk in vec else 0.0
                for kk in ("vect_n", "vect_e", "vect_z")]
        if np.any(np.isnan(comp)):
            continue
        dn, de, margin = refs.rotate_vector(geo[0], geo[1], comp[0], comp[1],
                                            plat, plt)
        if margin < 0.01:
            continue
        mag = {"vect_n": name + " n", "vect_e": name + " e",
               "vect_z": name + " z"}
        new.update({mag["vect_n"]: dn, mag["vect_e"]: de,
                    mag["vect_z"]: comp[2]})
        vectors[name] = mag
        vrefs[name] = plan.vrefs[name]
    sub.vectors, sub.vrefs = vectors, vrefs
    judge_one(case, model, sub, irec, loc, got, new, (str(dtime), geo), 1e-5)


LAYOUTS = ["point", "profile", "grid", "cube", "height var", "mixed", "swath"]


@suite.group(90, 1400)
def grid(case):
    """Every value of data with several dimensions is judged."""
    rng = case.rng
    layout = str(rng.choice(LAYOUTS))
    geo = bool(rng.random() < 0.15)
    coords = str(rng.choice(["geodetic", "geocentric"])) if geo else "magnetic"
    model, opts, cand, tol, times = draw_setup(case, coords)
    hemi = model.hemi
    times = times[:6]
    nt = len(times)
    sizes = {"time": nt, "glat": int(rng.integers(2, 5)),
             "glon": int(rng.integers(2, 5)), "alt": int(rng.integers(2, 4))}
    if rng.random() < 0.2:
        # Dimensions of the same size
        sizes = {kk: 3 if kk != "time" else nt for kk in sizes}
    wrong = 0.3 if rng.random() < 0.4 else 0.0

    def draw(dims, kind="data"):
        shape = tuple(sizes[dd] for dd in dims)
        size = int(np.prod(shape))
        if kind == "lat":
            return gen.lats(rng, size, hemi, 64.0 if geo else 52.0, 84.0 if geo
                            else 89.0, wrong=wrong).reshape(shape)
        if kind == "lt":
            return rng.uniform(0, 24, size).reshape(shape)
        if kind == "height":
            return np.round(rng.uniform(100, 800, size), 1).reshape(shape)
        out = rng.normal(size=size) * 100.0
        if fill > 0:
            out[rng.random(size) < fill] = np.nan
        return out.reshape(shape)

    fill = 0.15 if rng.random() < 0.3 else 0.0
    var, cvals, lat_name, lt_name = {}, {}, "mlat", "mlt"
    if layout in ("point", "profile", "mixed"):
        var["mlat"] = (("time", ), draw(["time"], "lat"))
        var["mlt"] = (("time", ), draw(["time"], "lt"))
        if layout == "profile":
            cvals["alt"] = np.sort(draw(["alt"], "height"))
    elif layout == "swath":
        sizes["x"] = int(rng.integers(2, 6))
        cvals["x"] = np.arange(sizes["x"])
        var["mlat"] = (("time", "x"), draw(["time", "x"], "lat"))
        var["mlt"] = (("time", "x"), draw(["time", "x"], "lt"))
    elif layout in ("grid", "cube", "height var"):
        lat_name = "glat"
        cvals["glat"] = np.sort(gen.lats(rng, sizes["glat"], hemi, 64.0 if geo
                                         else 52.0, 84.0 if geo else 89.0,
                                         wrong=wrong))
        cvals["glon"] = np.sort(rng.uniform(0, 360, sizes["glon"]))
        var["mlt"] = (("time", "glon"), draw(["time", "glon"], "lt"))
        if layout == "cube":
            cvals["alt"] = np.sort(draw(["alt"], "height"))
    pools = {"point": [("time", )], "profile": [("time", ), ("time", "alt")],
             "grid": [("time", "glat", "glon"), ("time", "glon"),
                      ("time", "glat", "glon")],
             "cube": [("time", "glat", "glon"),
                      ("time", "glat", "glon", "alt"), ("time", "glon")],
             "height var": [("time", "glat", "glon")],
             "swath": [("time", ), ("time", "x"), ("time", "x")],
             "mixed": [("time", ), ("time", "z")]}[layout]
    if layout == "mixed":
        sizes["z"] = int(rng.integers(2, 5))
        cvals["z"] = np.arange(sizes["z"])
    names = ["va", "vb", "vc"][:int(rng.integers(1, 4))]
    for name in names:
        dims = pools[int(rng.integers(len(pools)))]
        var[name] = (dims, draw(dims))
    hdims, height = None, 350.0
    if layout in ("profile", "cube") and rng.random() < 0.7:
        opts["height_name"] = "alt"
        hdims, height = ("alt", ), cvals["alt"]
    elif layout == "swath" and rng.random() < 0.5:
        hdims = [("time", "x"), ("time", ), ("x", )][int(rng.integers(3))]
        height = draw(hdims, "height")
        var["hgt"] = (hdims, height)
        opts["height_name"] = "hgt"
    elif layout == "height var":
        hdims = [("time", "glat", "glon"), ("time", ), ("glat", ),
                 ("time", "glon")][int(rng.integers(4))]
        height = draw(hdims, "height")
        var["hgt"] = (hdims, height)
        opts["height_name"] = "hgt"
    elif rng.random() < 0.5:
        height = opts["height"] = round(float(rng.uniform(100, 800)), 2)
        shape = np.shape(var["mlt"][1])
        if rng.random() < 0.5 and np.prod(shape) > 1 and set(
                vdims for vdims, val in list(var.values()) + [
                    ((kk, ), val) for kk, val in cvals.items()]
                if np.shape(val) == shape) == set([var["mlt"][0]]):
            # Values without a name have the shape of a variable
            hdims = var["mlt"][0]
            height = opts["height"] = draw(hdims, "height")
    inst, allnames = make_inst(case, False, times, var, cvals)
    plan = Plan(case, model, names, rng.random() < 0.6)
    if len(plan.vectors) > 0:
        # All of the parts of a vector have the same dimensions
        for vec in plan.vectors.values():
            part = [vec[kk] for kk in ("vect_n", "vect_e", "vect_z")
                    if kk in vec]
            if len(set(var[kk][0] for kk in part)) > 1:
                raise Skip()
    plan.blat = blat_of(model)
    opts.update(plan.options(rng))
    opts.update({"mlat_name": lat_name, "mlt_name": lt_name})
    if geo:
        opts["loc_coord"] = coords
    by_file = draw_source(case, model, opts, cand)
    if wrong > 0.0 or rng.random() < 0.4:
        opts["hemisphere"] = hemi
    case.show(kind=model.kind, layout=layout, coords=coords, by_file=by_file,
              options={kk: str(vv)[:80] for kk, vv in opts.items()},
              times=[str(tt) for tt in times], sizes=sizes,
              dims={kk: vv[0] for kk, vv in var.items()}, hdims=hdims,
              lat=cvals.get("glat", var.get("mlat")), var=var,
              good=[str(cc) for cc in cand])
    lat = cvals["glat"] if lat_name == "glat" else var["mlat"][1]
    if not (lat * hemi > 0.0).any():
        raise Skip()
    ldims = ("glat", ) if lat_name == "glat" else var["mlat"][0]
    if lat_name == "mlat":
        good = [tt for ii, tt in enumerate(times) if np.any(
            lat[ii] * hemi > 0)]
    else:
        good = times
    use, before, keep = finish(case, model, plan, inst, times, None, good,
                               dict(opts), cand, tol, by_file, None)
    if use is None:
        return
    settle(case, model, opts)
    outs = plan.outputs(lat_name, lt_name) + [
        nn for vec in plan.vectors for nn in plan.vector_out(vec)]
    want_dims = set(ldims) | set(var["mlt"][0]) | set(
        [] if hdims is None else hdims)
    for name in plan.needed():
        want_dims |= set(var[name][0])
    for name in outs:
        case.check(name in inst.variables, "variable is missing", name,
                   list(inst.variables))
    dims = inst[outs[0]].dims
    case.same(set(dims), want_dims, "dimensions of " + outs[0])
    for name in list(before.variables):
        case.check(before[name].equals(inst.data[name].reset_coords(
            drop=True)) or before[name].variable.equals(
                inst.data[name].variable), "data are altered", name)
    arr = {}
    for name in outs:
        case.same(inst[name].dims, dims, "dimensions of " + name)
        arr[name] = np.asarray(inst[name].values, dtype=float)

    def at(vdims, val, ind):
        if np.ndim(val) == 0:
            return float(val)
        return float(val[tuple(ind[dims.index(dd)] for dd in vdims)])

    count = 0
    for ind in np.ndindex(arr[outs[0]].shape):
        itime = ind[dims.index("time")]
        la, tt = at(ldims, lat, ind), at(var["mlt"][0], var["mlt"][1], ind)
        irec = use.get(times[itime]) if la * hemi > 0.0 else None
        loc, tol1 = (la, tt), 1e-8
        if irec is not None and geo:
            loc = magnetic_loc(la, tt, at(hdims, height, ind),
                               model.orecs[irec].dtime, coords)
            tol1 = 1e-5
            if np.isnan(loc[0]) or abs(loc[0]) < 48.0:
                continue
        count += judge_one(case, model, plan, irec, loc, {
            kk: arr[kk][ind] for kk in outs}, {
                kk: at(var[kk][0], var[kk][1], ind) for kk in names
                if set(var[kk][0]) <= set(dims)},
                           (ind, dims, str(times[itime]), la, tt), tol1)
    judge_meta(case, inst, plan, allnames, lat_name, lt_name, keep)
    if count > 0:
        case.seen(model.kind, hemi, layout, coords, by_file, sorted(opts), str(
            np.round(arr[outs[0]].ravel()[:20], 6).tolist()))


@suite.group(40, 500)
def metadata(case):
    """Metadata are added once, unless they are to be overwritten."""
    from ocbpy.instruments import pysat_instruments as pins

    rng = case.rng
    times = gen.times(rng, 3, "image")
    cols = {"mlat": np.full(3, 70.0), "val": np.arange(3.0)}
    inst, names = make_inst(case, True, times, cols)
    bname = str(rng.choice(["ocb", "eab", "dualb"]))
    base = str(rng.choice(["val", "mlat", "unknown", "val", "a_ocb", "b_eab_c",
                           "dualb_d"]))
    cols.update({"a_ocb": np.arange(3.0), "b_eab_c": np.arange(3.0)})
    inst, names = make_inst(case, True, times, cols)
    new = "{:s}_{:s}".format(base, bname)
    vector = bool(rng.random() < 0.3)
    if vector:
        new += "_n"
    note = "note {:d}".format(int(rng.integers(1000)))
    label = inst.meta.labels
    log = list()
    case.show(new=new, base=base, vector=vector, log=log)
    for ii in range(int(rng.integers(1, 4))):
        over = bool(rng.random() < 0.5)
        text = "{:s} {:d}".format(note, ii)
        log.append(over)
        keep = {nn: {kk: str(vv) for kk, vv in inst.meta[nn].items()}
                for nn in names}
        case.call(pins.add_ocb_to_metadata, inst, new, base, overwrite=over,
                  notes=text, isvector=vector)
        if ii == 0 or over:
            want = text
        meta = inst.meta[new]
        case.same(meta[label.notes], want, "notes of the metadata")
        case.check(np.isnan(meta[label.fill_val]), "fill value", meta)
        desc = {"ocb": "Open Closed field-line Boundary",
                "eab": "Equatorward Auroral Boundary",
                "dualb": "Dual Boundary"}[bname]
        case.check(desc in meta[label.desc], "description", meta[label.desc])
        case.check(meta[label.name].startswith(bname.upper()), "long name",
                   meta[label.name])
        if base in names:
            old = inst.meta[base]
            for key in (label.units, label.min_val, label.max_val):
                case.same(meta[key], old[key], "metadata that is copied")
        else:
            case.same((meta[label.min_val], meta[label.max_val]),
                      (-np.inf, np.inf), "limits")
        for nn in names:
            case.same({kk: str(vv) for kk, vv in inst.meta[nn].items()},
                      keep[nn], "metadata of " + nn)
    case.seen(new, vector, log, note)


@suite.group(40, 300)
def refused(case):
    """Unusable input is refused and leaves the data alone."""
    import ocbpy.ocb_scaling as ocbscal
    from ocbpy.instruments import pysat_instruments as pins

    rng = case.rng
    kind = str(rng.choice(["OCB", "EAB", "Dual"]))
    model = p13.Model(case, kind)
    hemi = model.hemi
    times = [rec.dtime for rec in model.orecs]
    num = len(times)
    cols = {"mlat": hemi * rng.uniform(60, 85, num),
            "mlt": rng.uniform(0, 24, num), "val": rng.normal(size=num)}
    pandas = bool(rng.random() < 0.5)
    inst, names = make_inst(case, pandas, times, cols if pandas else {
        kk: (("time", ), vv) for kk, vv in cols.items()})
    model.obj.rec_ind = -1
    opts = {"mlat_name": "mlat", "mlt_name": "mlt", "ocb": model.obj}
    bad = int(rng.integers(11))
    if bad == 0:
        opts["mlat_name"] = str(rng.choice(["", "bad", "MLAT"]))
    elif bad == 1:
        opts["mlt_name"] = str(rng.choice(["", "bad", "MLT"]))
    elif bad == 2:
        opts["evar_names"] = ["val", "bad"]
    elif bad == 3:
        opts["curl_evar_names"] = ["bad"]
    elif bad == 4:
        opts["vector_names"] = {"vel": {"vect_n": "val"}}
    elif bad == 5:
        opts["vector_names"] = {"vel": {
            "vect_n": "val", "vect_e": "bad",
            "scale_func": ocbscal.normal_evar}}
    elif bad == 6:
        opts["height"] = np.full(num + 1, 300.0)
    elif bad == 7:
        opts["height"] = np.full((num, 2), 300.0)
    elif bad == 8:
        # Both hemispheres and no choice
        del opts["ocb"]
        inst, names = make_inst(case, True, times + [times[-1]], {
            "mlat": np.append(cols["mlat"], -hemi * 70.0),
            "mlt": np.append(cols["mlt"], 12.0),
            "val": np.append(cols["val"], 1.0)})
        opts.update({"ocbfile": "north.ocb", "instrument": "image"})
    elif bad == 9:
        del opts["ocb"]
        opts["ocbfile"] = [None, "some_file.txt", "ocb_and_eab", "eab.ocb",
                           "OCB.eab"][int(rng.integers(5))]
        opts["hemisphere"] = hemi
    else:
        obj = [None, inst.data, "inst"][int(rng.integers(3))]
        case.show(bad=bad)
        case.raises(ValueError, pins.add_ocb_to_data, obj, **opts)
        case.raises(ValueError, pins.add_ocb_to_metadata, obj, "val_ocb",
                    "val")
        case.seen(bad, kind, str(type(obj)))
        return
    case.show(kind=kind, bad=bad, options={kk: str(vv) for kk, vv in
                                           opts.items()})
    before = inst.data.copy()
    case.raises(ValueError, pins.add_ocb_to_data, inst, **opts)
    case.check(before.equals(inst.data), "refused data are altered")
    case.check(set(inst.meta.keys()) == set(names), "metadata of refused data",
               list(inst.meta.keys()))
    case.seen(bad, kind, pandas, np.round(cols["mlat"], 6).tolist())


@suite.group(24, 300)
def default(case):
    """The default file of each type of boundary is used."""
    import ocbpy
    from ocbmon.checks import p19
    from ocbpy.instruments import pysat_instruments as pins

    rng = case.rng
    hemi = int(rng.choice([1, -1]))
    name = str(rng.choice(["ocb", "eab", "OCB", "EAB", "dual", None]))
    name = None if name == "None" else name
    kind = "OCB" if name is None else {"ocb": "OCB", "eab": "EAB",
                                       "dual": "Dual"}[name.lower()]
    side = "north" if hemi > 0 else "south"
    inst_name = str(rng.choice(["image", "ampere"])) if kind == "OCB" \
        else "image"
    short = {"image": "image", "ampere": "amp"}[inst_name]
    year = {"image": 2001, "ampere": 2015}[inst_name]
    start = gen.start_time(rng).replace(year=year, day=3, month=6)
    num = int(rng.integers(1, 6))
    with p19.Directory(case) as direct:
        recs = {}
        for typ in ("ocb", "eab"):
            rows, recs[typ] = gen.records(
                rng, num, inst_name, fom="good", start=start, gap=(130, 900),
                rad=(9.0, 15.0) if typ == "ocb" else (23.0, 29.0),
                max_cent=4.0, dtimes=None if typ == "ocb" else [
                    rec.dtime for rec in recs["ocb"]])
            for rec in recs[typ]:
                rec.corr = refs.elliptical if inst_name == "ampere" and \
                    typ == "ocb" else refs.circular
                rec.kw = {}
            if inst_name == "ampere" and typ == "eab":
                continue
            with open("{:s}/{:s}_{:s}_circle.{:s}".format(
                    direct, short, side, typ), "w") as fout:
                fout.write("\n".join(rows) + "\n")
        times = [rec.dtime for rec in recs["ocb"]]
        cols = {"mlat": hemi * rng.uniform(60, 85, num),
                "mlt": rng.uniform(0, 24, num), "val": rng.normal(size=num)}
        inst, names = make_inst(case, True, times, cols)
        opts = {"mlat_name": "mlat", "mlt_name": "mlt",
                "evar_names": ["val"]}
        if name is not None:
            opts["ocbfile"] = name
        if rng.random() < 0.5:
            opts["instrument"] = inst_name
        if rng.random() < 0.5:
            opts["hemisphere"] = hemi
        case.show(name=name, inst=inst_name, hemi=hemi, cols=cols,
                  options=opts, times=[str(tt) for tt in times])
        case.call(pins.add_ocb_to_data, inst, **opts)
        model = p13.Model.__new__(p13.Model)
        model.kind, model.hemi, model.num = kind, hemi, num
        model.orecs = recs["eab" if kind == "EAB" else "ocb"]
        model.ref = 64.0 if kind == "EAB" else 74.0
        if kind == "Dual":
            model.obj = ocbpy.DualBoundary(ocb_instrument="image",
                                           eab_instrument="image",
                                           hemisphere=hemi, stime=times[0],
                                           etime=times[-1])
            case.same(model.obj.records, num, "pairs")
    bname = {"OCB": "ocb", "EAB": "eab", "Dual": "dualb"}[kind]
    for ii in range(num):
        blat, bmlt, corr = model.coords(case, ii, cols["mlat"][ii],
                                        cols["mlt"][ii])
        got = [float(np.asarray(inst[nn + "_" + bname])[ii])
               for nn in ("mlat", "mlt", "r_corr", "val")]
        case.check(abs(got[0] - blat) < 1e-8 and abs(got[2] - corr) < 1e-8,
                   "boundary latitude and correction", got, blat, corr, ii)
        case.check(float(refs.circ_diff(got[1], bmlt, 24.0)) < 1e-6,
                   "boundary local time", got, bmlt, ii)
        want = p13.evar(cols["val"][ii], model.orecs[ii].rad + corr,
                        90.0 - model.ref)
        case.check(abs(got[3] - want) < 1e-9 * abs(want) + 1e-12,
                   "scaled value", got, want, ii)
    case.seen(kind, name, inst_name, hemi, np.round(cols["mlat"], 6).tolist())


@suite.group(40, 600)
def flatten(case):
    """Masked data keep the order of the mask."""
    import xarray as xr
    from ocbpy.instruments import pysat_instruments as pins

    rng = case.rng
    dims = [str(dd) for dd in rng.permutation(["a", "b", "c"])][:int(
        rng.integers(1, 4))]
    sizes = {dd: int(rng.integers(1, 5)) for dd in dims}
    if rng.random() < 0.3:
        sizes = {dd: 3 for dd in dims}
    shape = tuple(sizes[dd] for dd in dims)
    mask = rng.random(shape) < rng.choice([0.3, 0.7, 1.0])
    part = dims[:int(rng.integers(1, len(dims) + 1))]
    order = [str(dd) for dd in rng.permutation(part)]
    data = rng.normal(size=tuple(sizes[dd] for dd in order))
    case.show(dims=dims, order=order, data=data, mask=mask)
    got = case.call(pins.reshape_pad_mask_flatten, xr.DataArray(
        data.copy(), dims=order), xr.DataArray(mask.copy(), dims=dims))
    want = [data[tuple(ind[dims.index(dd)] for dd in order)]
            for ind in np.ndindex(shape) if mask[ind]]
    case.close_to(got, np.array(want, dtype=float), 0.0, "flattened data")
    if len(dims) > 1:
        # Data without the first dimensions are refused, or padded where they
        # belong
        part = dims[int(rng.integers(1, len(dims))):]
        if len(dims) == 3 and rng.random() < 0.3:
            part = [dims[0], dims[2]]
        data = rng.normal(size=tuple(sizes[dd] for dd in part))
        case.show(dims=dims, part=part, data=data, mask=mask)
        try:
            got = case.call(pins.reshape_pad_mask_flatten, xr.DataArray(
                data.copy(), dims=part), xr.DataArray(mask.copy(), dims=dims))
        except ValueError:
            got = None
        if got is not None:
            want = [data[tuple(ind[dims.index(dd)] for dd in part)]
                    for ind in np.ndindex(shape) if mask[ind]]
            case.close_to(got, np.array(want, dtype=float), 0.0,
                          "padded data")
    bad = dict(sizes)
    bad[dims[0]] += 1
    case.raises(ValueError, pins.reshape_pad_mask_flatten, xr.DataArray(
        np.ones(tuple(bad[dd] for dd in dims)), dims=dims),
        xr.DataArray(mask, dims=dims))
    case.seen(dims, order, shape, mask.tolist())
