"""P29: results depend on the input and the data, not on earlier calls."""

import contextlib
import copy
import functools
import logging
import os
import sys
import zlib

import numpy as np

from ocbmon import gen
from ocbmon import workload
from ocbmon.checks import p05
from ocbmon.checks import p13
from ocbmon.checks.p22 import records as rec_token
from ocbmon.checks.p22 import snap
from ocbmon.core import Suite

suite = Suite("P29", "random histories of calls on several boundary objects "
              "of the same files, compared with objects that were never used; "
              "vector objects that are changed and used again; calls of the "
              "workloads of the other suites, repeated in random order; "
              "non-trivial by history and results",
              ["aacgmv2 tracing depends on its own history, so geographic "
               "coordinates are not compared"])

PURE = ("get_pole_loc", "calc_vec_pole_angle", "define_pole_quadrants",
        "define_vect_quadrants", "calc_dest_polar_angle",
        "calc_dest_vec_sign", "adjust_vector", "get_datetime_fmt_len",
        "year_soy_to_datetime", "yyddd_to_date", "convert_time", "deg2hr",
        "hr2deg", "hr2rad", "rad2hr", "datetime2hr", "slt2glon", "glon2slt",
        "fix_range", "circular", "elliptical", "harmonic", "normal_evar",
        "normal_curl_evar", "hav", "archav", "satellite_track",
        "load_ascii_data", "load_supermag_ascii_data",
        "load_vorticity_ascii_data", "reshape_pad_mask_flatten", "test_file")
QUERY = ("normal_coord", "revert_coord")


# ---------------------------------------------------------------------------
# Repetition of the calls of other suites

def token(func, args, kwargs):
    """Provide the outcome of a call."""
    try:
        return ("returned", snap(func(*args, **kwargs)))
    except Exception as err:
        return ("raised", type(err).__name__)


def state(own):
    """Provide the settings and data that a query depends on."""
    if own is None:
        return None
    if hasattr(own, "ocb"):
        return (rec_token(own.ocb), rec_token(own.eab), snap(own.dtime),
                snap(own.ocb_ind), snap(own.eab_ind))
    return rec_token(own)


def content(args):
    """Provide the content of input files."""
    out = list()
    for aa in args:
        if isinstance(aa, str) and os.path.isfile(aa):
            with open(aa, "rb") as fin:
                out.append(zlib.crc32(fin.read()))
    return out


def monitor(load, func, args, kwargs):
    """Keep calls that can be repeated."""
    name = getattr(func, "__name__", "")
    own = getattr(func, "__self__", None)
    ok = (name in QUERY and own is not None) or (name in PURE and own is None)
    log = load.state.setdefault("log", list())
    if not ok or len(log) > 40 or any("geo" in aa for aa in list(args) + list(
            kwargs.values()) if isinstance(aa, str)):
        return load.plain(func, *args, **kwargs)
    try:
        keep = copy.deepcopy((args, kwargs))
    except Exception:
        return load.plain(func, *args, **kwargs)
    entry = {"func": func, "keep": keep, "own": own, "name": name,
             "ind": getattr(own, "rec_ind", None), "state": state(own),
             "files": content(args)}
    try:
        out = load.plain(func, *args, **kwargs)
    except Exception as err:
        entry["out"] = ("raised", type(err).__name__)
        raise
    else:
        entry["out"] = ("returned", snap(out))
        return out
    finally:
        if "out" in entry and state(own) == entry["state"]:
            log.append(entry)


def repeat(load):
    """Repeat the calls in random order."""
    log = load.state.get("log", list())
    for ii in load.rng.permutation(len(log)):
        entry = log[int(ii)]
        own, (args, kwargs) = entry["own"], copy.deepcopy(entry["keep"])
        if state(own) != entry["state"] or content(args) != entry["files"]:
            continue
        if own is not None:
            last = own.rec_ind
            own.rec_ind = entry["ind"]
        with poisoned(int(load.rng.integers(100))):
            got = load.plain(token, entry["func"], args, kwargs)
        if own is not None:
            own.rec_ind = last
        load.run.n_asserts += 1
        if got != entry["out"]:
            raise workload.Alarm("the result of {:s} changed when the call "
                                 "was repeated: {:.300s} was {:.300s}".format(
                                     entry["name"], repr(got),
                                     repr(entry["out"])))
        load.note(entry["name"], zlib.crc32(repr(got).encode()))


# ---------------------------------------------------------------------------
# Histories

def draw_query(rng, num, hemi, dual):
    """Draw a call that does not depend on earlier ones."""
    kind = str(rng.choice(["normal", "revert", "bound"]
                          + (["calc_r", "ocb", "eab"] if dual else [])))
    size = int(rng.integers(1, 8))
    lat = gen.lats(rng, size, hemi, wrong=0.1 if dual else 0.2)
    mlt = gen.mlts(rng, size)
    if not dual and rng.random() < 0.3:
        lat, mlt = float(lat[0]), float(mlt[0])
    ind = int(rng.integers(-1, num + 1))
    if kind == "normal":
        return kind, ind, (lat, mlt), {}
    if kind == "revert":
        rcor = np.round(rng.uniform(-2, 2, size), 2)
        args = (np.abs(lat) * hemi, mlt,
                float(rcor[0]) if np.ndim(lat) == 0 else rcor)
        return kind, ind, args, {"aacgm_mlt": gen.mlts(rng, size), "is_ocb":
                                 bool(rng.random() < 0.3)} if dual else {}
    if kind == "calc_r":
        return kind, int(rng.integers(num)), (
            np.abs(np.nan_to_num(lat, nan=70.0)) * hemi, mlt,
            gen.mlts(rng, size), np.round(rng.uniform(-2, 2, size), 2)), {}
    return kind, int(rng.integers(num)), (mlt,), {}


def ask(case, obj, query, dual):
    """Ask a boundary object."""
    kind, ind, args, kwargs = copy.deepcopy(query)
    obj.rec_ind = ind
    if kind == "normal":
        return snap(case.call(obj.normal_coord, *args, **kwargs))
    if kind == "revert":
        return snap(case.call(obj.revert_coord, *args, **kwargs))
    if kind == "calc_r":
        return snap(case.call(obj.calc_r, *args, **kwargs))
    if kind in ("ocb", "eab"):
        # The locations of one boundary of the pair
        one = getattr(obj, kind)
        case.call(one.get_aacgm_boundary_lat, *args, rec_ind=one.rec_ind,
                  overwrite=True)
        return snap([one.aacgm_boundary_lat[one.rec_ind],
                     one.aacgm_boundary_mlt[one.rec_ind],
                     one.aacgm_boundary_lon[one.rec_ind]])
    if dual:
        case.call(obj.get_aacgm_boundary_lats, *args, rec_ind=ind,
                  overwrite=True)
        return snap([[bb.aacgm_boundary_lat[bb.rec_ind],
                      bb.aacgm_boundary_mlt[bb.rec_ind],
                      bb.aacgm_boundary_lon[bb.rec_ind]]
                     for bb in (obj.ocb, obj.eab)])
    case.call(obj.get_aacgm_boundary_lat, *args, rec_ind=ind, overwrite=True)
    return snap([obj.aacgm_boundary_lat[ind], obj.aacgm_boundary_mlt[ind],
                 obj.aacgm_boundary_lon[ind]])


def stored(obj, ind):
    """Obtain the boundary locations that are stored for one record."""
    return snap([None if getattr(obj, kk, None) is None else getattr(obj, kk)[
        ind] for kk in ("aacgm_boundary_lat", "aacgm_boundary_mlt",
                        "aacgm_boundary_lon")])


@suite.group(120)
def boundary(case):
    """Used boundary objects answer as new ones do."""
    import ocbpy

    rng = case.rng
    cls = str(rng.choice(["OCB", "EAB"]))
    func = getattr(ocbpy, "OCBoundary" if cls == "OCB" else "EABoundary")
    num = int(rng.integers(1, 5))
    inst = str(rng.choice(gen.INSTS))
    rows, recs = gen.records(rng, num, inst, fom="good", max_cent=5.0,
                             rad=(9.0, 22.0))
    path = gen.write_file(case, inst, rows)
    sets = list()
    for _ in range(int(rng.integers(2, 4))):
        rfunc, rkw, _ = gen.corrections(rng, num)
        sets.append({"filename": path, "instrument": inst,
                     "hemisphere": int(rng.choice([1, -1])),
                     "boundary_lat": round(float(rng.uniform(60, 80)), 2),
                     "rfunc": rfunc, "rfunc_kwargs": rkw})
    case.show(cls=cls, rows=rows, sets=sets)
    objs = [case.call(func, **copy.deepcopy(kw)) for kw in sets]
    log, outs = list(), list()
    case.show(log=log)
    for _ in range(int(rng.integers(4, 12))):
        ii = int(rng.integers(len(objs)))
        query = draw_query(rng, num, sets[ii]["hemisphere"], False)
        log.append((ii,) + query)
        if rng.random() < 0.3:
            # Cycle and match in between
            case.call(ocbpy.cycle_boundary.retrieve_all_good_indices,
                      objs[ii])
        others = [(oo, stored(objs[oo], jj), oo, jj) for oo in range(
            len(objs)) for jj in range(num)]
        got = ask(case, objs[ii], query, False)
        outs.append((ii, query, got))
        new = case.call(func, **copy.deepcopy(sets[ii]))
        want = ask(case, new, query, False)
        case.check(got == want, "a used object answers differently than a "
                   "new one", query, got, want)
        for oo, old, _, jj in others:
            if query[0] == "bound" and oo == ii and jj == query[1]:
                continue
            case.check(stored(objs[oo], jj) == old, "stored boundary of "
                       "another object or record changed", oo, jj)
    for jj in rng.permutation(len(outs)):
        ii, query, old = outs[int(jj)]
        case.check(ask(case, objs[ii], query, False) == old,
                   "the answer changed at the end", query)
    case.seen(cls, [oo[2] for oo in outs])


@suite.group(100)
def dual(case):
    """Used objects of paired boundaries answer as new ones do."""
    import ocbpy

    rng = case.rng
    obj, orecs, erecs, meta = p05.make_dual(case)
    num, hemi = meta["num"], meta["hemi"]
    fresh = [copy.deepcopy(obj.ocb), copy.deepcopy(obj.eab)]
    outs, log = list(), list()
    case.show(log=log)
    for _ in range(int(rng.integers(3, 10))):
        query = draw_query(rng, num, hemi, True)
        log.append(query)
        kind, ind = query[:2]
        olds = [[stored(bb, jj) for jj in range(bb.records)]
                for bb in (obj.ocb, obj.eab)]
        empty = [not hasattr(bb, "aacgm_boundary_lat") for bb in (obj.ocb,
                                                                  obj.eab)]
        got = ask(case, obj, query, True)
        ocb, eab = copy.deepcopy(fresh)
        new = case.call(ocbpy.DualBoundary, ocb=ocb, eab=eab, hemisphere=hemi)
        want = ask(case, new, query, True)
        case.check(got == want, "a used object answers differently than a "
                   "new one", query, got, want)
        outs.append((query, got))
        if 0 <= ind < num:
            case.same((obj.ocb.rec_ind, obj.eab.rec_ind), (
                int(obj.ocb_ind[ind]), int(obj.eab_ind[ind])), "records")
        # Stored locations are only replaced on request
        for bb, old, none, name in zip((obj.ocb, obj.eab), olds, empty,
                                       ("ocb", "eab")):
            for jj in range(bb.records):
                if 0 <= ind < num and jj == bb.rec_ind and (
                        kind in ("bound", name) or none or old[jj] == snap(
                            [None, None, None])):
                    continue
                case.check(none or stored(bb, jj) == old[jj], "a stored "
                           "boundary location changed", kind, jj, ind)
    for jj in rng.permutation(len(outs)):
        query, old = outs[int(jj)]
        case.check(ask(case, obj, query, True) == old,
                   "the answer changed at the end", query)
    case.seen([oo[1] for oo in outs])


@suite.group(80)
def isolated(case):
    """Objects of the same file and settings share nothing that changes."""
    import ocbpy

    rng = case.rng
    cls = str(rng.choice(["OCBoundary", "EABoundary", "DualBoundary"]))
    num = int(rng.integers(1, 5))
    inst = str(rng.choice(gen.INSTS))
    rows, _ = gen.records(rng, num, inst, fom="good", max_cent=4.0,
                          rad=(9.0, 15.0))
    path = gen.write_file(case, inst, rows)
    hemi = int(rng.choice([1, -1]))
    if cls == "DualBoundary":
        kwargs = {"ocb_filename": path, "eab_filename": path,
                  "ocb_instrument": inst, "eab_instrument": inst,
                  "hemisphere": hemi}
    else:
        kwargs = {"filename": path, "instrument": inst, "hemisphere": hemi}
    func = getattr(ocbpy, cls)
    one, two = [case.call(func, **kwargs) for _ in range(2)]
    case.show(cls=cls, kwargs=kwargs, rows=rows)
    dual_obj = cls == "DualBoundary"
    two.rec_ind = 0
    before = state(two)
    query = draw_query(rng, max(1, num), hemi, dual_obj)
    new = ask(case, case.call(func, **kwargs), query, dual_obj) if (
        two.records > query[1]) else None
    # Everything about the first object is changed
    for bb in ([one.ocb, one.eab] if dual_obj else [one]):
        for name in ("r", "r_cent", "phi_cent", "fom"):
            getattr(bb, name)[...] = 1.0
        for ii in range(num):
            bb.rfunc[ii] = gen.shift
            bb.rfunc_kwargs[ii]["amp"] = 2.0
        bb.dtime[0] = bb.dtime[-1]
        bb.boundary_lat = 60.0 * hemi
        bb.rec_ind = num
    case.check(state(two) == before, "an object changed with another one")
    third = case.call(func, **kwargs)
    third.rec_ind = 0
    case.check(state(third) == before, "a new object differs")
    if new is not None:
        case.check(ask(case, two, query, dual_obj) == new, "answer of the "
                   "second object", query)
        case.check(ask(case, third, query, dual_obj) == new, "answer of the "
                   "third object", query)
        case.seen(cls, rows, query[0], new)


VECT = ("vect_n", "vect_e", "vect_z")
OUT = ("ocb_lat", "ocb_mlt", "r_corr", "pole_angle", "ocb_n", "ocb_e",
       "ocb_z", "ocb_mag", "scaled_r", "unscaled_r", "ocb_quad", "vec_quad")


@suite.group(80)
def vectors(case):
    """Vector objects that are used again scale as new ones do."""
    import ocbpy

    rng = case.rng
    obj, recs, meta = gen.make_boundary(case, "OCB", num=int(
        rng.integers(2, 5)), max_cent=4.0, rad=(9.0, 20.0))
    num, size = len(recs), int(rng.integers(1, 6))
    lat = gen.lats(rng, size, meta["hemi"], low=55.0)
    mlt = gen.mlts(rng, size, wide=False)
    # The scaling function that is defined first is kept by design
    fscale = [None, ocbpy.ocb_scaling.normal_evar,
              ocbpy.ocb_scaling.normal_curl_evar][int(rng.integers(3))]

    def draw(same):
        vals = {kk: np.round(rng.uniform(-100, 100, size), 3) for kk in VECT}
        if same is not None:
            for kk in VECT:
                if rng.random() < 0.5:
                    vals[kk] = same[kk]
        return vals, int(rng.integers(num))

    def make(vals, ind):
        return case.call(ocbpy.ocb_scaling.VectorData,
                         np.arange(size), ind, lat.copy(), mlt.copy(),
                         dat_name="V", dat_units="nT",
                         **{kk: vals[kk].copy() for kk in vals})

    vals, ind = draw(None)
    used = make(vals, ind)
    log, sigs = list(), list()
    case.show(lat=lat, mlt=mlt, log=log, scale=str(fscale))
    for ii in range(int(rng.integers(2, 6))):
        if ii > 0:
            vals, ind = draw(vals)
            used.ocb_ind = ind
            for kk in VECT:
                setattr(used, kk, vals[kk].copy())
            if rng.random() < 0.5:
                used.clear_data()
        log.append((vals, ind))
        case.call(used.set_ocb, obj, scale_func=fscale)
        fresh = make(vals, ind)
        case.call(fresh.set_ocb, obj, scale_func=fscale)
        for kk in OUT:
            case.check(snap(getattr(used, kk, None)) == snap(getattr(
                fresh, kk, None)), "{:s} of a used vector object".format(kk),
                getattr(used, kk, None), getattr(fresh, kk, None))
        sigs.append(snap(used.ocb_n))
    case.seen(sigs)


# ---------------------------------------------------------------------------
# Memory that was used before

class Poison(object):
    """Stand in for numpy, with known content in memory that is not set.

    The elements that a function is told to leave out, and new arrays
    without a value, have the content that was left in memory by others.
    Here, they are filled with a value instead.
    """

    def __init__(self, val):
        self._val = val

    def __getattr__(self, name):
        func = getattr(np, name)
        if isinstance(func, np.ufunc):
            func = Unset(func, self._val)
        elif name in ("empty", "empty_like"):
            func = functools.partial(fill_empty, func, self._val)
        return func


class Unset(object):
    """Stand in for a function that works element by element."""

    def __init__(self, func, val):
        self._func, self._val = func, val

    def __getattr__(self, name):
        return getattr(self._func, name)

    def __call__(self, *args, **kwargs):
        func = self._func
        if func.nout != 1 or kwargs.get("where", True) is True or len(
                args) > func.nin or kwargs.get("out") is not None:
            return func(*args, **kwargs)
        where = np.asarray(kwargs["where"])
        plain = func(*args, **kwargs)
        out = np.array(plain)
        fill_value(out, ~np.broadcast_to(where, out.shape), self._val)
        return out if isinstance(plain, np.ndarray) else out[()]


def fill_value(out, mask, val):
    """Fill the selected elements of an array."""
    if out.dtype.kind == "b":
        out[mask] = bool(val % 2)
    elif out.dtype.kind in "iufc":
        out[mask] = val


def fill_empty(func, val, *args, **kwargs):
    """Create an array without values."""
    out = func(*args, **kwargs)
    fill_value(out, np.ones(out.shape, dtype=bool), val)
    return out


@contextlib.contextmanager
def poisoned(val):
    """Use known content for unset memory in all modules of the package."""
    import ocbpy

    mods = [mod for name, mod in list(sys.modules.items())
            if name.split(".")[0] == ocbpy.__name__ and name.find(
                "tests") < 0 and getattr(mod, "np", None) is np]
    stand = Poison(val)
    try:
        for mod in mods:
            mod.np = stand
        yield
    finally:
        for mod in mods:
            mod.np = np


class Messages(logging.Handler):
    """Keep the messages of the package."""

    def __init__(self):
        super().__init__()
        self.texts = list()

    def emit(self, record):
        """Keep a message."""
        self.texts.append((record.levelname, record.getMessage()))


def outcome(func, args, kwargs, val):
    """Provide the outcome and messages of a call with used memory."""
    import ocbpy

    args, kwargs = copy.deepcopy((args, kwargs))
    hand = Messages()
    level, off = ocbpy.logger.level, logging.root.manager.disable
    ocbpy.logger.addHandler(hand)
    ocbpy.logger.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        with poisoned(val):
            out = token(func, args, kwargs)
    finally:
        logging.disable(off)
        ocbpy.logger.setLevel(level)
        ocbpy.logger.removeHandler(hand)
    return out + (hand.texts,)


def patchy(rng, vals, share=0.3):
    """Leave some values undefined."""
    vals = np.array(vals, dtype=float)
    vals[rng.random(vals.shape) < share] = np.nan
    return vals


def vector_values(obj, scale, args, kwargs):
    """Provide all values of a vector object."""
    import ocbpy

    vdata = ocbpy.ocb_scaling.VectorData(*args, **kwargs)
    out = [vdata.vect_mag, str(vdata)]
    if obj is not None:
        vdata.set_ocb(obj, scale_func=scale)
        out.extend([getattr(vdata, kk, None) for kk in OUT])
        out.append(str(vdata))
    return out


@suite.group(150)
def memory(case):
    """Results and messages do not depend on the former content of memory."""
    import ocbpy
    from ocbpy import ocb_scaling
    from ocbpy import vectors as ov

    rng = case.rng
    size = int(rng.integers(1, 16))
    hemi = int(rng.choice([1, -1]))
    lat = patchy(rng, gen.lats(rng, size, hemi, low=55.0), 0.2)
    mlt = patchy(rng, gen.mlts(rng, size, wide=False), 0.2)
    vec = [patchy(rng, np.round(rng.uniform(-100, 100, size), 3), 0.2)
           for _ in range(3)]
    plat = patchy(rng, np.round(hemi * rng.uniform(80, 89.9, size), 2), 0.2)
    pmlt = patchy(rng, np.round(rng.uniform(0, 24, size), 2), 0.2)
    if rng.random() < 0.3:
        pmlt = np.where(rng.random(size) < 0.5, mlt, np.mod(mlt + 12.0, 24.0))
    angle = patchy(rng, np.round(rng.uniform(0, 180, size), 2), 0.3)
    pquad = rng.integers(0, 5, size)
    vquad = rng.integers(0, 5, size)
    naz = patchy(rng, np.round(rng.uniform(0, 180, size), 2), 0.3)
    quads = {oo: {vv: (pquad == oo) & (vquad == vv) for vv in range(1, 5)}
             for oo in range(1, 5)} if rng.random() < 0.5 else None
    kind = int(rng.integers(8))
    kwargs = {}
    if kind < 2:
        mag = np.sqrt(vec[0]**2 + vec[1]**2 + vec[2]**2)
        if rng.random() < 0.3:
            mag[int(rng.integers(size))] += float(rng.choice([1.0e-4, 0.5]))
        obj = None
        if kind == 1:
            obj, _, meta = gen.make_boundary(case, "OCB", num=1, hemi=hemi,
                                             max_cent=4.0, rad=(9.0, 20.0))
            obj.rec_ind = 0
        func = vector_values
        args = (obj, ocb_scaling.normal_evar,
                (np.arange(size), 0, lat, mlt),
                {"vect_n": vec[0], "vect_e": vec[1], "vect_z": vec[2],
                 "vect_mag": patchy(rng, mag)})
    elif kind == 2:
        func, args = ov.calc_vec_pole_angle, (mlt, lat, pmlt, plat)
    elif kind == 3:
        func, args = ov.define_pole_quadrants, (mlt, pmlt, angle)
    elif kind == 4:
        func, args = ov.define_vect_quadrants, (vec[0], vec[1])
    elif kind == 5:
        func, args = ov.calc_dest_vec_sign, (pquad, vquad, naz, angle)
        kwargs = {"north": bool(rng.random() < 0.7), "east": True}
        if quads is not None:
            kwargs["quads"] = quads
    elif kind == 6:
        func = ov.adjust_vector
        args = (mlt, lat, vec[0], vec[1], vec[2], vquad, pmlt, plat,
                np.where(rng.random(size) < 0.2, float(rng.choice([
                    0.0, 180.0])), angle), pquad)
    else:
        func = ocb_scaling.archav
        args = (patchy(rng, rng.uniform(-1.0e-15, 1.1, size)),)
    case.show(func=func.__name__, args=args, kwargs=kwargs)
    outs = [case.call(outcome, func, args, kwargs, val)
            for val in (0, 1, 64, 3)]
    for out in outs[1:]:
        case.check(out == outs[0], "the outcome depends on the content of "
                   "unused memory", out, outs[0])
    case.seen(func.__name__, outs[0])


workload.attach(suite, monitor, 0.15, finish=repeat,
                skip=("p03", "p06", "p07", "p08", "p09", "p15", "p16", "p17",
                      "p19", "p20"))
