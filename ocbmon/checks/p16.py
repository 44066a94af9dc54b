"""P16: vorticity processing writes each matched observation once, correctly."""

import datetime as dt
import os

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks import p13
from ocbmon.checks import p15
from ocbmon.checks import p27
from ocbmon.core import Skip
from ocbmon.core import Suite

suite = Suite("P16", "random vorticity files (one to many entries in each "
              "block, both hemispheres, times around those of the boundaries) "
              "processed with OCB, EAB, and paired boundaries, files or "
              "loaded objects, tolerances, criteria, and scaling functions; "
              "every line of the output is accounted for; non-trivial by the "
              "processed lines",
              ["data and boundaries are sorted by time",
               "the radius of paired boundaries that lost a boundary follows "
               "its own convention, see the listed finding"])


def hour_text(tt):
    """Write a time as the hour of day."""
    return repr(round((tt - tt.replace(hour=0, minute=0, second=0)
                       ).total_seconds() / 3600.0, 9))


def draw_blocks(rng, times, hemi, wrong):
    """Draw vorticity blocks at whole seconds."""
    hours = list()
    use = list()
    for tt in times:
        uth = hour_text(tt)
        day = tt.replace(hour=0, minute=0, second=0)
        # Only times which are stated exactly
        got = p27.vort_time(day, uth)
        if abs((got - tt).total_seconds()) > 1.5:
            raise RuntimeError("inconsistent times")
        hours.append((day, uth))
        use.append(tt)
    return p27.draw_vort(rng, hours, hemi, wrong)


def exact_times(rng, dtimes, tol):
    """Draw block times that are exact in hours with few decimals."""
    out = set()
    for tt in p15.draw_times(rng, dtimes, tol):
        sec = tt.second - tt.second % 9  # 9 s are 0.0025 h
        out.add(tt.replace(second=sec, microsecond=0))
    return sorted(out)


def judge(case, model, out, want, func, save, vdata_keys):
    """Account for every line of the output."""
    with open(out) as fin:
        lines = fin.read().splitlines()
    head = lines[0].split()
    case.same(head[:2], ["#DATE", "TIME"], "header")
    case.same(head[-3:], ["OCB_LAT", "OCB_MLT", "NORM_VORT"], "header")
    if save:
        case.same(sorted(head[2:-3]), sorted(vdata_keys), "header")
    else:
        case.same(len(head), 5, "header")
    got = [line.split() for line in lines[1:]]
    case.same([gg[0] + " " + gg[1] for gg in got], [str(row[0]) for row, _ in
                                                    want],
              "times of the written observations")
    for gg, (row, irec) in zip(got, want):
        tt, uth, day, ent = row
        case.same(len(gg), len(head), "columns")
        if save:
            vals = dict(ent, YEAR=day.year, MONTH=day.month, DAY=day.day,
                        UTH=float(uth))
            for kk, text in zip(head[2:-3], gg[2:-3]):
                case.check(abs(float(text) - vals[kk]) <= 1e-12
                           * abs(vals[kk]), "saved " + kk, text, vals[kk])
        lat, mlt, vv = ent["CENTRE_MLAT"], ent["MLT"], ent["VORTICITY"]
        blat, bmlt, corr = model.coords(case, irec, lat, mlt)
        if np.isnan(blat):
            case.same(gg[-3], "nan", "latitude of an undefined location")
            continue
        p15.near(case, gg[-3], blat, "boundary latitude", str(tt), lat, mlt)
        case.check(float(refs.circ_diff(float(gg[-2]), bmlt, 24.0)) < 1e-6
                   + 1e-7 / max(90.0 - abs(blat), 1e-4), "boundary MLT",
                   gg[-2], bmlt, str(tt), lat, mlt)

        def scaled(rec):
            val = vv if func is None else func(vv, rec.rad + corr,
                                               90.0 - model.ref)
            return abs(float(gg[-1]) - val) <= 5.1e-7 + 1e-9 * abs(val), val

        good, val = scaled(model.orecs[irec])
        if not good and model.kind == "Dual" and scaled(
                model.all_recs[model.pair[irec]])[0]:
            case.known("dual-pair-radius", "the radius of another OCB scales "
                       "the vorticity")
            continue
        case.check(good, "scaled vorticity", gg[-1], val, str(tt), ent)


@suite.group(160, 2400)
def process(case):
    """Each matched observation is written once, in order, and correctly."""
    from ocbpy.instruments import vort

    rng = case.rng
    by_file = bool(rng.random() < 0.25)
    model, kwargs, cand = p15.setup(case, "OCB" if by_file else None,
                                    filed=by_file)
    hemi = model.hemi
    tol = p15.tolerance(rng)
    wrong = 0.3 if rng.random() < 0.4 else 0.0
    blocks = draw_blocks(rng, exact_times(rng, [rec.dtime for rec in
                                                model.orecs], tol), hemi,
                         wrong)
    path = p27.write_vort(case, blocks)
    out = os.path.join(case.tmp, "out_{:d}".format(next(gen.COUNT)))
    func, ref = [(None, p13.curl), (None, None), p13.draw_func(rng)][int(
        rng.integers(3))]
    opts = dict(kwargs)
    if ref is not p13.curl or func is not None:
        opts["scale_func"] = func
    if tol != 600 or rng.random() < 0.5:
        opts["max_sdiff"] = tol
    save = bool(rng.random() < 0.3)
    if save:
        opts["save_all"] = True
    if wrong > 0.0 or rng.random() < 0.4:
        opts["hemisphere"] = hemi
    if by_file:
        opts.update({"ocbfile": model.meta["path"],
                     "instrument": model.meta["inst"]})
    else:
        if wrong > 0.0 and rng.random() < 0.5:
            del opts["hemisphere"]
        model.obj.rec_ind = -1
        opts["ocb"] = model.obj
    rows = [(p27.vort_time(day, uth), uth, day, ent)
            for day, uth, ents in blocks for ent in ents]
    good = [row for row in rows if row[3]["CENTRE_MLAT"] * hemi > 0.0]
    case.show(kind=model.kind, options={kk: str(vv) for kk, vv in
                                        opts.items()},
              rows=[(str(rr[0]), rr[3]["CENTRE_MLAT"], rr[3]["MLT"],
                     rr[3]["VORTICITY"]) for rr in rows],
              good=[str(cc) for cc in cand])
    if by_file and "hemisphere" not in opts and len(set(
            np.sign(row[3]["CENTRE_MLAT"]) for row in rows)) > 1:
        case.raises(ValueError, vort.vort2ascii_ocb, path, out, **opts)
        return
    if by_file:
        first, last = rows[0][0], rows[-1][0]
        lim = dt.timedelta(seconds=tol + 1)
        if not any(first - lim <= rec.dtime <= last + lim
                   for rec in model.orecs):
            case.call(vort.vort2ascii_ocb, path, out, **opts)
            case.check(not os.path.isfile(out), "output without boundaries")
            case.seen("no boundaries")
            return
    case.call(vort.vort2ascii_ocb, path, out, **opts)
    if len(good) == 0:
        case.check(not os.path.isfile(out), "output of the other hemisphere")
        case.seen("no data")
        return
    want, _ = p15.expected_rows([(row[0], row, None) for row in good], cand,
                                tol)
    want = [(row[1], irec) for row, irec in want]
    if model.kind == "Dual":
        full(model, cand)
    keys = ["YEAR", "MONTH", "DAY", "UTH"] + [
        kk for line in p27.VKEYS for kk in line if kk not in ("GFLG", "MFLG")]
    judge(case, model, out, want, ref, save, keys)
    case.seen(model.kind, hemi, tol, by_file, [
        (str(row[0]), row[3]["MLT"], irec) for row, irec in want])


@suite.group(12, 120)
def lost(case):
    """Pairs whose number differs from the record number of the boundary."""
    from ocbpy.instruments import vort

    rng = case.rng
    model = p13.Model(case, "Dual", num=int(rng.integers(3, 6)))
    lim = model.orecs[0].rad
    cand = [(ii, rec.dtime) for ii, rec in enumerate(model.orecs)
            if rec.rad > lim and model.erecs[ii].rad > lim]
    if len(cand) == 0:
        raise Skip()
    blocks = draw_blocks(rng, exact_times(rng, [cc[1] for cc in cand], 60),
                         model.hemi, 0.0)
    path = p27.write_vort(case, blocks)
    out = os.path.join(case.tmp, "out_{:d}".format(next(gen.COUNT)))
    rows = [(p27.vort_time(day, uth), uth, day, ent)
            for day, uth, ents in blocks for ent in ents]
    case.show(limit=lim, rows=[(str(rr[0]), rr[3]["VORTICITY"])
                               for rr in rows])
    model.obj.rec_ind = -1
    case.call(vort.vort2ascii_ocb, path, out, ocb=model.obj, r=("min", lim))
    want, _ = p15.expected_rows([(rr[0], rr, None) for rr in rows], cand, 600)
    full(model, cand)
    judge(case, model, out, [(row[1], irec) for row, irec in want], p13.curl,
          False, None)
    if len(want) > 0:
        case.seen([cc[0] for cc in cand], [str(rr[0]) for rr in rows])


def full(model, cand):
    """Use all of the pairs to model the remaining ones."""
    import ocbpy

    model.all_recs = model.meta["every"]
    model.pair = {irec: ii for ii, (irec, _) in enumerate(cand)}
    model.obj = ocbpy.DualBoundary(ocb=model.obj.ocb, eab=model.obj.eab,
                                   hemisphere=model.hemi)
    if model.obj.records != len(model.orecs):
        raise RuntimeError("pairs were lost")


@suite.group(30, 300)
def other(case):
    """Data of both or of the other hemisphere."""
    from ocbpy.instruments import vort

    rng = case.rng
    inst = str(rng.choice(gen.INSTS))
    hemi = int(rng.choice([1, -1]))
    model = p13.Model(case, "OCB", hemi=hemi, inst=inst, corr="default",
                      ref=74.0)
    tol = 600
    times = exact_times(rng, [rec.dtime for rec in model.orecs], tol)
    times = sorted(set(times + [model.orecs[0].dtime.replace(second=0)]))
    blocks = draw_blocks(rng, times, hemi, 0.0)
    side = int(rng.integers(3))
    for _, _, ents in blocks:
        for ent in ents:
            if side == 0 or (side == 1 and rng.random() < 0.4):
                ent["CENTRE_MLAT"] *= -1
    if side == 1:
        blocks[0][2][0]["CENTRE_MLAT"] = -hemi * 70.0
        blocks[-1][2].append(dict(blocks[-1][2][0], CENTRE_MLAT=hemi * 71.0))
    path = p27.write_vort(case, blocks)
    out = os.path.join(case.tmp, "out_{:d}".format(next(gen.COUNT)))
    opts = {"ocbfile": model.meta["path"], "instrument": inst}
    rows = [(p27.vort_time(day, uth), uth, day, ent)
            for day, uth, ents in blocks for ent in ents]
    cand = [(ii, rec.dtime) for ii, rec in enumerate(model.orecs)]
    case.show(side=side, rows=[(str(rr[0]), rr[3]["CENTRE_MLAT"])
                               for rr in rows])
    if side == 0:
        case.call(vort.vort2ascii_ocb, path, out, hemisphere=hemi, **opts)
        case.check(not os.path.isfile(out), "output of the other hemisphere")
    else:
        if side == 1:
            case.raises(ValueError, vort.vort2ascii_ocb, path, out, **opts)
            opts["hemisphere"] = hemi
        case.call(vort.vort2ascii_ocb, path, out, **opts)
        want, _ = p15.expected_rows([(rr[0], rr, None) for rr in rows
                                     if rr[3]["CENTRE_MLAT"] * hemi > 0],
                                    cand, tol)
        judge(case, model, out, [(row[1], irec) for row, irec in want],
              p13.curl, False, None)
    case.seen(side, hemi, inst, [str(rr[0]) for rr in rows])
