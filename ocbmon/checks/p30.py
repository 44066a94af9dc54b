"""P30: problems are reported in the log, and only problems."""

import contextlib
import datetime as dt
import logging
import os

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks import p05
from ocbmon.checks import p13
from ocbmon.checks import p15
from ocbmon.checks import p17
from ocbmon.checks import p19
from ocbmon.checks import p20
from ocbmon.checks import p27
from ocbmon.checks.p04 import draw_mlt
from ocbmon.checks.p07 import accept
from ocbmon.checks.p08 import draw_data
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P30", "a handler on the logger of the package records all of "
              "the messages while files are loaded, records selected, "
              "boundaries stored, locations normalised and reverted, data "
              "matched, vectors made, ranges converted, boundary files "
              "listed, satellite files formatted, and data processed, each "
              "with and without a problem; the warnings and errors are "
              "compared with the problems of the input; non-trivial by the "
              "input and the messages",
              ["only the presence, level, number, and named subject of "
               "warnings and errors are judged, not their wording"])


class Keeper(logging.Handler):
    """Keep all of the messages."""

    def __init__(self):
        super().__init__()
        self.kept = list()

    def emit(self, record):
        """Keep a message."""
        self.kept.append((record.levelno, record.getMessage()))

    @property
    def bad(self):
        """Provide the warnings and errors."""
        return [text for level, text in self.kept if level >= logging.WARNING]


@contextlib.contextmanager
def listen():
    """Listen to the log of the package."""
    import ocbpy

    hand = Keeper()
    level, off = ocbpy.logger.level, logging.root.manager.disable
    ocbpy.logger.addHandler(hand)
    ocbpy.logger.setLevel(logging.DEBUG)
    logging.disable(logging.NOTSET)
    try:
        yield hand
    finally:
        logging.disable(off)
        ocbpy.logger.setLevel(level)
        ocbpy.logger.removeHandler(hand)


def judge(case, log, subjects, what, exact=True):
    """Compare the warnings and errors with the problems.

    Parameters
    ----------
    subjects : list
        The text that has to be part of the message, for each problem
    exact : bool
        Allow one message for each problem, or at least one for all

    """
    bad = log.bad
    case.show(log=log.kept[:20])
    if len(subjects) == 0:
        case.check(len(bad) == 0, "warning without a problem: " + what, bad)
        return
    case.check(len(bad) > 0, "no warning: " + what, subjects, log.kept[:5])
    if exact:
        case.check(len(bad) == len(subjects), "number of warnings: " + what,
                   bad, subjects)
    left = list(bad)
    for text in subjects:
        fit = [mm for mm in left if str(text) in mm]
        case.check(len(fit) > 0, "problem is not named: " + what, text, bad)
        if exact:
            left.remove(fit[0])


@suite.group(90)
def files(case):
    """Files that cannot be used are reported when they are loaded."""
    import ocbpy
    import ocbpy.instruments.general as general

    rng = case.rng
    kind = int(rng.integers(9))
    cls = getattr(ocbpy, str(rng.choice(["OCBoundary", "EABoundary"])))
    inst = str(rng.choice(gen.INSTS))
    rows, _ = gen.records(rng, int(rng.integers(1, 5)), inst)
    path = gen.write_file(case, inst, rows)
    kwargs = {"filename": path, "instrument": inst,
              "hemisphere": int(rng.choice([1, -1]))}
    subjects, exact, plain = [], True, False
    if kind == 1:
        kwargs["filename"] = [3, 2.5, ["a"], ("b", ), {"c": 1}][int(
            rng.integers(5))]
        subjects = [str(kwargs["filename"])]
    elif kind == 2:
        kwargs["filename"] = os.path.join(case.tmp, "missing.{:d}".format(
            int(rng.integers(1000))))
    elif kind == 3:
        kwargs["filename"] = case.tmp
    elif kind == 4:
        kwargs["filename"] = path + ".empty"
        with open(kwargs["filename"], "w"):
            pass
    elif kind == 5:
        kwargs["filename"] = path + ".large"
        with open(kwargs["filename"], "w") as fout:
            fout.truncate(2000000001 + int(rng.integers(10**9)))
    elif kind == 6:
        kwargs["instrument"] = [3, None, ["image"], 1.5][int(rng.integers(4))]
        subjects = [str(kwargs["instrument"])]
    elif kind == 7:
        kwargs["filename"] = None
    elif kind == 8:
        # A time range without records is not a problem of the file
        kwargs["stime"] = dt.datetime(1990, 1, 1)
        kwargs["etime"] = dt.datetime(1990, 1, 2)
    if kind in (2, 3, 4, 5):
        subjects, exact = [kwargs["filename"]], False
        plain = bool(rng.random() < 0.5)
    case.show(cls=cls.__name__, kwargs=kwargs, plain=plain)
    with listen() as log:
        if plain:
            subjects = [""] if kind != 4 else subjects
            case.check(not case.call(general.test_file, kwargs["filename"]),
                       "unusable file")
        elif kind == 0 and rng.random() < 0.3:
            case.check(case.call(general.test_file, path), "usable file")
        elif kind == 6:
            obj = case.call(cls, **kwargs)
            case.same(obj.records, 0, "records without an instrument")
        else:
            obj = case.call(cls, **kwargs)
            case.same(int(obj.records), len(rows) if kind == 0 else 0,
                      "records")
    judge(case, log, subjects, "file", exact)
    case.seen(kind, plain, cls.__name__, inst, str(kwargs["filename"]))


@suite.group(60)
def columns(case):
    """Columns without a time are reported."""
    import ocbpy

    rng = case.rng
    inst = "image"
    rows, recs = gen.records(rng, int(rng.integers(1, 5)), inst)
    path = gen.write_file(case, inst, rows)
    obj = case.call(ocbpy.OCBoundary, filename=None, instrument=inst)
    obj.filename = path
    kind = int(rng.integers(4))
    cols = ["year soy num_sectors phi_cent r_cent r a r_err fom",
            "year sod num_sectors phi_cent r_cent r a r_err fom",
            "yr soy num_sectors phi_cent r_cent r a r_err fom",
            "date soy num_sectors phi_cent r_cent r a r_err fom"][kind]
    case.show(cols=cols, rows=rows)
    with listen() as log:
        case.call(obj.load, ocb_cols=cols)
    judge(case, log, [] if kind == 0 else [cols], "time columns")
    case.same(int(obj.records), len(recs) if kind == 0 else 0, "records")
    case.seen(kind, rows[0])


@suite.group(40)
def headers(case):
    """ASCII files without any header are reported."""
    import ocbpy.instruments.general as general

    rng = case.rng
    path = os.path.join(case.tmp, "data{:d}.txt".format(
        int(rng.integers(1000))))
    num = int(rng.integers(1, 5))
    ncol = int(rng.integers(2, 5))
    names = ["v{:d}".format(ii) for ii in range(ncol)]
    hlines = int(rng.integers(0, 4))
    vals = rng.integers(-99, 99, (num, ncol))
    # Without lines, the header may be provided
    give = bool(hlines == 0 and rng.random() < 0.5)
    with open(path, "w") as fout:
        fout.writelines(["#lines\n"] * (hlines - 1))
        fout.writelines(["#" + " ".join(names) + "\n"] * min(hlines, 1))
        fout.writelines([" ".join(str(vv) for vv in row) + "\n"
                         for row in vals])
    kwargs = {"header": [" ".join(names)]} if give else {}
    case.show(hlines=hlines, header=kwargs, values=vals)
    with listen() as log:
        head, data = case.call(general.load_ascii_data, path, hlines, **kwargs)
    known = hlines > 0 or give
    judge(case, log, [] if known else [""], "header")
    case.same(sorted(data), names if known else [], "columns")
    case.seen(hlines, give, vals.tolist())


@suite.group(60)
def selection(case):
    """Unknown selection criteria are reported, each once."""
    rng = case.rng
    obj, recs, meta = gen.make_boundary(
        case, "OCB" if rng.random() < 0.5 else "EAB", fom="mix")
    kwargs, unknown = {}, list()
    for name in rng.permutation(["r", "r_cent", "phi_cent", "x", "wrong",
                                 "R", "other_one", "x 1"])[:int(
                                     rng.integers(0, 6))]:
        known = hasattr(obj, str(name))
        kwargs[str(name)] = ("max", 1.0e6)
        if not known:
            unknown.append(str(name))
    lims = {}
    if rng.random() < 0.3:
        lims["min_merit"] = 0.5
    if rng.random() < 0.3:
        lims["max_merit"] = 4.0
    obj.rec_ind = -1
    case.show(kwargs=kwargs, limits=lims, inst=meta["inst"])
    for _ in range(int(rng.integers(1, 4))):
        if obj.rec_ind >= obj.records:
            break
        with listen() as log:
            case.call(obj.get_next_good_ocb_ind, **lims, **kwargs)
        judge(case, log, ["attribute " + nn if "attribute " + nn in str(
            log.bad) else nn for nn in unknown], "selection criteria")
    case.seen(meta["inst"], sorted(kwargs), lims)


@suite.group(60)
def overwrite(case):
    """Stored boundaries that are not replaced are reported, each once."""
    rng = case.rng
    paired = bool(rng.random() < 0.4)
    if paired:
        obj, recs, erecs, _ = p05.make_dual(case, alone=False)
    else:
        obj, recs, _ = gen.make_boundary(
            case, "OCB" if rng.random() < 0.5 else "EAB")
    num = len(recs)
    stored, hist, some = set(), list(), 0
    for _ in range(int(rng.integers(2, 5))):
        mlt, _ = draw_mlt(rng)
        over = bool(rng.random() < 0.35)
        kwargs = {"overwrite": over} if over or rng.random() < 0.5 else {}
        sel = list(range(num))
        if rng.random() < 0.6:
            sel = [int(rng.integers(num))]
            kwargs["rec_ind"] = sel[0]
        hist.append((mlt, dict(kwargs)))
        case.show(paired=paired, history=hist)
        with listen() as log:
            case.call(obj.get_aacgm_boundary_lats if paired
                      else obj.get_aacgm_boundary_lat, mlt, **kwargs)
        blocked = [] if over else [ii for ii in sel if ii in stored]
        judge(case, log, [str(recs[ii].dtime) for ii in blocked] * (
            2 if paired else 1), "blocked overwriting")
        stored.update(sel)
        some += len(blocked)
    case.seen(paired, num, some, str(hist))


def defined(orec, erec, mlt):
    """Determine if both of the boundaries are well defined."""
    return p05.bounds(orec, erec, refs.wrap(float(mlt), 0.0, 24.0)) is not None


@suite.group(80)
def regions(case):
    """Locations without a region are reported, and only these."""
    rng = case.rng
    far = bool(rng.random() < 0.5)
    obj, orecs, erecs, meta = p05.make_dual(
        case, **({"max_cent": 9.0, "orad": (5.0, 12.0)} if far else {}))
    irec = int(rng.integers(meta["num"]))
    obj.rec_ind = irec
    num = int(rng.integers(1, 7))
    lat, mlt, exp = p05.draw_points(case, orecs[irec], erecs[irec], meta, num,
                                    wrong=0.0)
    form = "scalar" if len(lat) == 1 and rng.random() < 0.6 else "array"
    args = [lat, mlt]
    if form == "scalar":
        args = [float(lat[0]), float(mlt[0])]
    case.show(lat=args[0], mlt=args[1], record=irec)
    with listen() as log:
        out = case.call(obj.normal_coord, *args)
    if np.isnan(np.asarray(out[0], dtype=float)).any():
        raise Skip()
    judge(case, log, [], "locations in the regions")
    with listen() as log:
        case.call(obj.revert_coord, *out[:2], r_corr=out[3],
                  aacgm_mlt=args[1], is_ocb=False)
    judge(case, log, [], "reverting locations in the regions")
    # The neighbours may be undefined, or without a boundary
    lat2, mlt2 = np.append(lat, -lat[0]), np.append(mlt, mlt[0])
    what = int(rng.integers(3))
    if what == 0:
        lat2[-1] = np.nan
    elif what == 1 and far:
        # Without an open-closed boundary, and poleward of the other one
        spots = np.arange(0.0, 24.0, 0.25)
        cols = [refs.boundary_colat(orecs[irec], mm)[0] for mm in spots]
        spots = [mm for mm, cc in zip(spots, cols) if np.isnan(cc)]
        if len(spots) == 0:
            raise Skip()
        mlt2[-1] = spots[int(rng.integers(len(spots)))]
        ecl, _ = refs.boundary_colat(erecs[irec], mlt2[-1])
        lat2[-1] = meta["hemi"] * (90.0 - float(rng.uniform(0.7, 0.9) * ecl))
    case.show(lat=lat2, mlt=mlt2)
    with listen() as log:
        out = case.call(obj.normal_coord, lat2, mlt2)
    if np.isnan(out[0][:-1]).any() or not np.isnan(out[0][-1]):
        raise Skip()
    judge(case, log, [""], "location without a region")
    case.seen(form, far, what, np.round(lat2, 5).tolist(),
              np.round(mlt2, 5).tolist())


@suite.group(60)
def poor(case):
    """Poorly defined boundaries are reported when locations are reverted."""
    rng = case.rng
    poor = ["ocb", "eab", "both"][int(rng.integers(3))]
    small = (5.0, 9.0)
    obj, orecs, erecs, meta = p05.make_dual(
        case, max_cent=9.0, orad=(10.0, 14.0) if poor == "eab" else small,
        erad=(23.0, 29.0) if poor == "ocb" else small)
    irec = int(rng.integers(meta["num"]))
    obj.rec_ind = irec
    spots = np.arange(0.0, 24.0, 0.25) + float(rng.uniform(0.0, 0.25))
    good, bad = list(), list()
    for mlt in spots:
        cols = [refs.boundary_colat(recs[irec], mlt)
                for recs in (orecs, erecs)]
        near = [abs(vv) for cc in cols for vv in cc if not np.isnan(vv)]
        if len(near) == 0 or min(near) < 0.05:
            continue
        (bad if any(np.isnan(cc[0]) for cc in cols) else good).append(mlt)
    some = [bool(rng.random() < 0.5) and len(bad) > 0
            for _ in range(int(rng.integers(1, 6)))]
    if not any(some) and len(bad) > 0 and rng.random() < 0.4:
        some[int(rng.integers(len(some)))] = True
    if len(good) == 0 and not all(some):
        raise Skip()
    mlt = np.array([float(rng.choice(bad if ss else good)) for ss in some])
    # At least one of the locations is not poleward of the open-closed
    # reference latitude, only those need the boundaries
    lat = rng.uniform(meta["eref"] - 8.0, meta["oref"] + 5.0, len(mlt))
    lat[int(rng.integers(len(lat)))] = float(rng.uniform(
        meta["eref"] - 8.0, meta["oref"] - 0.1))
    lat *= meta["hemi"]
    pos = rng.uniform(0.0, 24.0, len(mlt))
    args = [lat, pos, mlt]
    if len(mlt) == 1 and rng.random() < 0.5:
        args = [float(vv[0]) for vv in args]
    case.show(poor=poor, args=args, undefined=some, record=irec)
    with listen() as log:
        case.call(obj.revert_coord, args[0], args[1], aacgm_mlt=args[2],
                  is_ocb=False)
    judge(case, log, [""] if any(some) else [],
          "reverting with poorly defined boundaries")
    case.seen(poor, some, np.round(lat, 5).tolist(), np.round(mlt, 5).tolist())


@suite.group(120)
def matching(case):
    """Missing records and data are reported, other gaps are not."""
    import ocbpy

    rng = case.rng
    paired = bool(rng.random() < 0.3)
    kwargs, tol = {}, int(rng.choice([1, 30, 60, 600]))
    if paired:
        obj, orecs, erecs, meta = p05.make_dual(case, corr="default")
        cand = list(meta["dtimes"])
        if rng.random() < 0.6:
            lim = float(rng.choice([11.0, 14.0, 40.0]))
            kwargs["r"] = ("min", lim)
            cand = [rec.dtime for rec, err in zip(orecs, erecs)
                    if rec.rad > lim and err.rad > lim]
    else:
        obj, recs, meta = gen.make_boundary(
            case, "OCB" if rng.random() < 0.6 else "EAB", fom="mix",
            corr="default", num=int(rng.integers(1, 6)))
        crit = {}
        if rng.random() < 0.6:
            crit["r"] = ("min", float(rng.choice([9.0, 14.0, 40.0])))
        kwargs.update(crit)
        cand = [rec.dtime for rec in recs
                if accept(rec, meta["inst"], None, None, crit)]
        meta["dtimes"] = [rec.dtime for rec in recs]
    dat = draw_data(rng, meta["dtimes"], tol)
    if rng.random() < 0.25:
        dat = [tt - dt.timedelta(days=30) for tt in dat]
    obj.rec_ind = -1
    case.show(paired=paired, data=[str(tt) for tt in dat], tol=tol,
              kwargs=kwargs, good=[str(tt) for tt in cand])
    lim = dt.timedelta(seconds=tol)
    none = len(cand) == 0
    early = not none and dat[-1] < cand[0] - lim
    if early and len(kwargs) > 0 and paired:
        raise Skip()  # The index of re-selected pairs is already set
    with listen() as log:
                idat = case.call(ocbpy.match_data_ocb, obj, dat, idat=0, max_tol=tol,
                         **kwargs)
    judge(case, log, [""] if none or early else [],
          "no record" if none else "no data before" if early else "matching",
          False)
    if none or early:
        case.check(max(level for level, _ in log.kept) >= logging.ERROR,
                   "level of the message", log.kept)
    if early:
        case.check(idat is None, "no data", idat)
    # The remaining data are not a problem
    count = 0
    while not none and idat is not None and idat < len(dat) \
            and 0 <= obj.rec_ind < obj.records and count <= len(dat):
        idat += 1
        count += 1
        with listen() as log:
            idat = case.call(ocbpy.match_data_ocb, obj, dat, idat=idat,
                             max_tol=tol, **({} if paired else kwargs))
        judge(case, log, [], "matching")
    case.seen(paired, tol, none, early, len(dat), [str(tt) for tt in cand])


@suite.group(90)
def vectors(case):
    """Magnitudes that contradict the components are reported."""
    import ocbpy.ocb_scaling as ocbscal

    rng = case.rng
    num = int(rng.choice([0, 1, 3, 6]))
    size = () if num == 0 else (num, )
    vec = rng.normal(size=(3, max(num, 1))) * 10.0**rng.integers(0, 4)
    mag = np.sqrt(np.sum(vec**2, axis=0))
    off = np.zeros(mag.shape)
    if rng.random() < 0.6:
        off[int(rng.integers(off.size))] = float(rng.choice(
            [-1.0, 1.0])) * float(rng.choice([9e-4, 1.1e-3, 0.5, 10.0]))
    give = mag + off
    if num > 1 and rng.random() < 0.3:
        give[int(rng.integers(num))] = np.nan
    wrong = bool(np.any(np.abs(off)[~np.isnan(give)] > 1e-3))
    vals = [vv.reshape(size) if num > 0 else float(vv[0])
            for vv in list(vec) + [give]]
    lat = np.full(size, 75.0) if num > 0 else 75.0
    lt = np.full(size, 5.0) if num > 0 else 5.0
    dind = np.arange(num) if num > 0 else 3
    kwargs = dict(zip(("vect_n", "vect_e", "vect_z", "vect_mag"), vals))
    late = bool(rng.random() < 0.4)
    if late or rng.random() < 0.15:
        del kwargs["vect_mag"]
        wrong = wrong and late
    case.show(kwargs=kwargs, late=late, magnitude=vals[3])
    with listen() as log:
        obj = case.call(ocbscal.VectorData, dind, 0, lat, lt, **kwargs)
    if late:
        judge(case, log, [], "vectors")
        with listen() as log:
            obj.vect_mag = vals[3]
    judge(case, log, [""] if wrong else [], "magnitude")
    # An index of the same shape is not a problem
    with listen() as log:
        obj.ocb_ind = int(rng.integers(5))
    judge(case, log, [], "new index")
    # One datum at several boundaries, which the new indices may not fit
    first, then = int(rng.integers(1, 5)), int(rng.integers(0, 5))
    bounds = {"ocb_lat": np.full(first, 74.0), "ocb_mlt": np.full(first, 6.0),
              "r_corr": np.zeros(first)}
    if rng.random() < 0.3:
        bounds = {}
    case.show(indices=[first, then], bounds=bounds)
    with listen() as log:
        obj = case.call(ocbscal.VectorData, 3, np.arange(first), 75.0, 5.0,
                        vect_n=1.0, vect_e=2.0, vect_z=3.0, **bounds)
    judge(case, log, [], "several boundaries")
    with listen() as log:
        obj.ocb_ind = np.arange(then) if then > 0 else np.asarray(2)
    if len(bounds) > 0:
        judge(case, log, [""] if then not in (0, first) else [],
              "new indices")
    case.seen(num, late, wrong, np.round(vec, 5).tolist())


@suite.group(40)
def ranges(case):
    """Ranges below one cycle are reported."""
    import ocbpy.ocb_time as octime

    rng = case.rng
    low = float(rng.choice([-180.0, 0.0, 20.0, -360.0]))
    high = low + float(rng.choice([360.0, 180.0, 350.0, 540.0, 359.0]))
    hours = rng.uniform(-30, 30, int(rng.integers(1, 5)))
    case.show(low=low, high=high, hours=hours)
    with listen() as log:
        case.call(octime.hr2deg, hours if rng.random() < 0.5
                  else float(hours[0]), min_deg=low, max_deg=high)
    judge(case, log, ["{:.1f}".format(high)] if high - low < 360.0 else [],
          "range")
    with listen() as log:
        case.call(octime.hr2deg, hours)
        case.call(octime.deg2hr, hours)
        case.call(octime.hr2rad, hours)
        case.call(octime.rad2hr, hours)
        case.call(octime.fix_range, hours, 0.0, 24.0)
    judge(case, log, [], "conversion")
    case.seen(low, high, np.round(hours, 6).tolist())


@suite.group(50)
def defaults(case):
    """Unknown boundary files are reported, each by its name."""
    import ocbpy.boundaries.files as bfiles

    rng = case.rng
    with p19.Directory(case) as place:
        entries, other = p19.populate(case, place)
        bound = str(rng.choice(["ocb", "eab"]))
        want = [ent.name for ent in entries
                if ent.bound == bound and not ent.dated]
        want += [name for name in other if name.endswith("." + bound)
                 and "README" not in name and os.path.isfile(os.path.join(
                     place, name))]
        case.show(files=sorted(os.listdir(place)), bound=bound)
        with listen() as log:
            case.call(bfiles.get_boundary_files, bound=bound)
        judge(case, log, want, "boundary files")
        names = sorted(os.listdir(place))
    case.seen(bound, names)


@suite.group(30, 400)
def satellites(case):
    """Satellite files that cannot be used are reported by their name."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    place = os.path.join(case.tmp, "ssj")
    os.mkdir(place)
    day = dt.datetime(2010, 3, 1) + dt.timedelta(days=int(rng.integers(900)))
    files, missing, broken = list(), list(), list()
    for sat in range(16, 16 + int(rng.integers(1, 4))):
        path = os.path.join(place, p20.csv_name(sat, day))
        p20.write_csv(rng, path, p20.draw_rows(rng, 1))
        files.append(path)
    if rng.random() < 0.4:
        missing.append(os.path.join(place, "missing.csv"))
    if rng.random() < 0.2:
        missing.append(place)
    if rng.random() < 0.4:
        path = os.path.join(place, p20.csv_name(20, day))
        with open(path, "w") as fout:
            fout.write("# nothing\nUTSec PO1,FOM,hemisphere\n")
            for _ in range(int(rng.integers(0, 3))):
                fout.write("1.0,2.0\n")
        broken.append(path)
    args = [str(ff) for ff in rng.permutation(files + missing + broken)]
    case.show(files=args)
    with listen() as log:
        case.call(ssj.format_ssj_boundary_files, args)
    judge(case, log, missing + broken, "satellite files")
    case.seen([os.path.basename(ff) for ff in args])


@suite.group(60, 900)
def processing(case):
    """Processing without boundaries or data is reported."""
    from ocbpy.instruments import supermag
    from ocbpy.instruments import vort

    rng = case.rng
    mag = bool(rng.random() < 0.5)
    model = p13.Model(case, "OCB", corr="default", ref=74.0)
    hemi = model.hemi
    obj, subjects = model.obj, []
    first = model.orecs[0].dtime.replace(second=0)
    times = [first, first + dt.timedelta(minutes=3)]
    out = os.path.join(case.tmp, "out_{:d}".format(next(gen.COUNT)))
    kind = int(rng.integers(5))
    if mag:
        blocks = p15.draw_blocks(rng, times, hemi)
        path = p15.write_blocks(case, blocks)
        func, opts = supermag.supermag2ascii_ocb, {}
    else:
        hours = [(tt.replace(hour=0, minute=0), repr(round((
            tt - tt.replace(hour=0, minute=0)).total_seconds() / 3600.0, 9)))
            for tt in times]
        blocks = p27.draw_vort(rng, hours, hemi, 0.0)
        if kind == 2:
            for _, _, ents in blocks:
                for ent in ents:
                    ent["CENTRE_MLAT"] *= -1
            subjects = [""]
        path = p27.write_vort(case, blocks)
        func, opts = vort.vort2ascii_ocb, {}
    obj.rec_ind = -1
    opts["ocb"] = obj
    if kind == 0:
        del opts["ocb"]
        opts.update({"ocbfile": os.path.join(case.tmp, "missing"),
                     "instrument": "image", "hemisphere": hemi})
        subjects = [""]
    elif kind == 1:
        opts["ocb"] = type(obj)(filename=None, hemisphere=hemi)
        subjects = [""]
    elif kind == 3 and mag:
        # Another kind of file
        path = os.path.join(case.tmp, "other_{:d}".format(next(gen.COUNT)))
        with open(path, "w") as fout:
            fout.write("2000 05 05 13 40 30 2\n" * int(rng.integers(1, 4)))
        with listen() as log:
            _, data = case.call(supermag.load_supermag_ascii_data, path)
        case.same(len(data), 0, "data of another file")
        judge(case, log, [path], "SuperMAG file")
        case.seen("other", path)
        return
    case.show(supermag=mag, kind=kind, times=[str(tt) for tt in times])
    with listen() as log:
        case.call(func, path, out, **opts)
    # The first record is not always acceptable
    if len(subjects) == 0 and len(log.bad) > 0:
        good = [rec for rec in model.orecs if accept(rec, model.meta["inst"],
                                                     None, None, {})]
        lim = dt.timedelta(seconds=600)
        if len(good) == 0 or times[-1] < good[0].dtime - lim:
            raise Skip()
    judge(case, log, subjects, "processing", False)
    case.check((kind < 2 or kind == 2 and not mag) != os.path.isfile(out),
               "output", kind)
    case.seen(mag, kind, [str(tt) for tt in times], hemi)


@suite.group(40, 600)
def metadata(case):
    """Metadata that are there already, and absent boundaries."""
    import ocbpy.instruments.pysat_instruments as pins

    rng = case.rng
    model = p13.Model(case, "OCB", num=2, fom="good")
    hemi = model.hemi
    times = [model.orecs[0].dtime + dt.timedelta(seconds=ii)
             for ii in range(3)]
    cols = {"mlat": hemi * rng.uniform(65, 85, 3),
            "mlt": rng.uniform(0, 24, 3), "val": rng.normal(size=3)}
    pandas = bool(rng.random() < 0.5)
    inst, _ = p17.make_inst(case, pandas, times, {
        kk: vv if pandas else ("time", vv) for kk, vv in cols.items()})
    empty = bool(rng.random() < 0.4)
    obj = model.obj
    if empty:
        obj = type(obj)(filename=None, hemisphere=hemi)
    case.show(pandas=pandas, empty=empty, cols=cols)
    with listen() as log:
        case.call(pins.add_ocb_to_data, inst, "mlat", "mlt",
                  evar_names=["val"], ocb=obj)
    judge(case, log, [""] if empty else [], "boundaries of pysat data")
    if not empty:
        name = [nn for nn in inst.variables if str(nn).startswith("val_")][0]
        for over in (False, True):
            with listen() as log:
                case.call(pins.add_ocb_to_metadata, inst, name, "val",
                          overwrite=over)
            judge(case, log, [] if over else [""], "metadata")
    case.seen(pandas, empty, np.round(cols["mlat"], 5).tolist())
