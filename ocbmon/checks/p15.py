"""P15: SuperMAG processing writes each matched observation once, correctly."""

import datetime as dt
import os

import numpy as np

from ocbmon import gen
from ocbmon import refs
from ocbmon.checks import p13
from ocbmon.checks.p07 import accept
from ocbmon.checks.p08 import table
from ocbmon.core import Suite

suite = Suite("P15", "random SuperMAG files (headers, index lines, one to many "
              "stations, fill values, both hemispheres) processed with OCB, "
              "EAB, and paired boundaries, files or loaded objects, "
              "tolerances, criteria, and scaling functions; every line of the "
              "output is accounted for; non-trivial by the processed lines",
              ["data and boundaries are sorted by time, each block has a "
               "station", "output is rounded to two decimals",
               "the location of the southern boundary pole follows its own "
               "convention, see the listed finding"])
FILL = 999999


def any_num(rng, text):
    """Write a number the way SuperMAG does."""
    return "{:.1f}".format(text)


def draw_blocks(rng, times, hemi, wrong=0.0, fill=0.0, low=60.0):
    """Draw SuperMAG blocks."""
    blocks = list()
    for tt in times:
        stations = list()
        for ii in range(gen.count(rng, 1, 5, 150, 0.003)):
            lat = hemi * round(float(rng.uniform(low, 88.0)), 2)
            if rng.random() < wrong:
                lat = -lat
            size = 3 if rng.random() < 0.8 else int(rng.integers(1, 9))
            st = {"STID": "".join(rng.choice(list("ABCDEFGHIJKLMNOP")
                                             + list("b1") * (size != 3),
                                             size)),
                  "MLT": round(float(rng.uniform(0, 24)), 2), "MLAT": lat,
                  "DEC": round(float(rng.uniform(-90, 90)), 2),
                  "SZA": round(float(rng.uniform(0, 150)), 2)}
            for kk in ("BN", "BE", "BZ"):
                st[kk] = round(float(rng.normal() * 10**rng.uniform(0, 3)), 1)
                if rng.random() < 0.05:
                    st[kk] = 0.0
                elif rng.random() < 0.01:
                    st[kk] = float(rng.choice([FILL - 1, -FILL, FILL + 1,
                                               99999, FILL / 10]))
            for kk in ("BN", "BE", "BZ", "MLT", "SZA", "DEC"):
                if rng.random() < fill:
                    st[kk] = FILL
            stations.append(st)
        index = {}
        if rng.random() < 0.8:
            index["SML"] = int(-10**rng.uniform(0, 6))
        if rng.random() < 0.8:
            index["SMU"] = int(10**rng.uniform(-1, 5))
        blocks.append((tt, index, stations))
    return blocks


def write_blocks(case, blocks, sep=None):
    """Write a SuperMAG file."""
    rng = case.rng
    path = os.path.join(case.tmp, "smag_{:d}".format(next(gen.COUNT)))
    sep = ["\t", " ", "   "][int(rng.integers(3))] if sep is None else sep
    with open(path, "w") as fout:
        for ii in range(int(rng.integers(0, 6))):
            fout.write(["File is based on SuperMAG data file\n", " \n",
                        "2000 05 05 13 40 30 2\n", "\n"][int(
                            rng.integers(4))])
        fout.write("=" * 60 + "\n")
        for tt, index, stations in blocks:
            fout.write("{:s}\t{:d}\n".format(tt.strftime(
                "%Y\t%m\t%d\t%H\t%M\t%S"), len(stations)))
            for kk, vv in index.items():
                fout.write("{:s} {:d}\n".format(kk, vv))
            for st in stations:
                fout.write(sep.join([st["STID"]] + [
                    "{:}".format(st[kk]) for kk in (
                        "BN", "BE", "BZ", "MLT", "MLAT", "DEC", "SZA")])
                    + "\n")
    return path


def draw_times(rng, dtimes, tol, most=8):
    """Draw distinct block times around the boundary times."""
    out = set()
    for _ in range(int(rng.integers(1, most))):
        base = dtimes[int(rng.integers(len(dtimes)))]
        off = [0, tol, -tol, tol + 1, -tol - 1, int(rng.integers(
            -2 * tol - 2, 2 * tol + 3)), int(rng.integers(-60, 60)),
            4 * 86400][int(rng.integers(8))]
        out.add(base + dt.timedelta(seconds=off))
    return sorted(out)


def setup(case, kind=None, hemi=None, filed=False):
    """Draw a boundary and the options of a pipeline.

    Parameters
    ----------
    kind : str or NoneType
        Kind of boundary
    hemi : int or NoneType
        Hemisphere
    filed : bool
        Only draw what the pipeline is able to load from a file by itself

    Returns
    -------
    model : p13.Model
        Boundary with its model
    kwargs : dict
        Options that decide upon the matches
    cand : list
        Acceptable boundary indices and times

    """
    rng = case.rng
    kind = str(rng.choice(["OCB", "EAB", "Dual"])) if kind is None else kind
    gap = [(20, 90), (60, 600), (300, 3000)][int(rng.integers(3))]
    num = gen.count(rng, 1, 9, 120)
    kwargs, extra = {}, {}
    if filed:
        extra["corr"] = "default"
        if kind != "Dual":
            extra["ref"] = 74.0 if kind == "OCB" else 64.0
    if kind == "Dual":
        model = p13.Model(case, kind, hemi=hemi, num=num, **extra)
        cand = [(ii, rec.dtime) for ii, rec in enumerate(model.orecs)]
        if rng.random() < 0.3:
            lim = float(rng.uniform(9, 15))
            kwargs["r"] = ("min", lim)
            good = [ii for ii, rec in enumerate(model.orecs)
                    if rec.rad > lim and model.erecs[ii].rad > lim]
            cand = [(ii, model.orecs[ii].dtime) for ii in good]
        return model, kwargs, cand
    model = p13.Model(case, kind, hemi=hemi, num=num, gap=gap,
                      fom="mix" if rng.random() < 0.4 else "good", **extra)
    inst = model.meta["inst"]
    low = high = None
    crit = {}
    if rng.random() < 0.3:
        low = kwargs["min_merit"] = float(rng.uniform(0.1, 4.0))
    if rng.random() < 0.3:
        high = kwargs["max_merit"] = float(rng.uniform(0.5, 5.0))
    if rng.random() < 0.3:
        crit["r"] = ("mineq", float(rng.uniform(9, 15)))
        kwargs.update(crit)
    cand = [(ii, rec.dtime) for ii, rec in enumerate(model.orecs)
            if accept(rec, inst, low, high, crit)]
    return model, kwargs, cand


def tolerance(rng):
    """Draw a time tolerance."""
    return int(rng.choice([0, 30, 60, 600, 600, 1800, 7000]))


def expected_rows(good, cand, tol):
    """Match the good observations by brute force."""
    times = sorted(set(tt for tt, _, _ in good))
    best = table(times, cand, tol)
    use = {times[ii]: irec for ii, irec in best.items()}
    return [(row, use[row[0]]) for row in good if row[0] in use], use


def near(case, got, want, msg, *info):
    """Compare a value rounded to two decimals."""
    case.check(abs(float(got) - want) <= 0.0050001 + 1e-9 * abs(want), msg,
               got, want, *info)


@suite.group(160, 2400)
def process(case):
    """Each matched observation is written once, in order, and correctly."""
    import ocbpy
    from ocbpy.instruments import supermag

    rng = case.rng
    by_file = bool(rng.random() < 0.25)
    model, kwargs, cand = setup(case, "OCB" if by_file else None,
                                filed=by_file)
    hemi = model.hemi
    # Paired boundaries select their records once for all
    tol = tolerance(rng)
    wrong = 0.3 if rng.random() < 0.4 else 0.0
    blocks = draw_blocks(rng, draw_times(rng, [rec.dtime for rec in
                                               model.orecs], tol), hemi, wrong,
                         0.05 if rng.random() < 0.5 else 0.0)
    path = write_blocks(case, blocks)
    out = os.path.join(case.tmp, "out_{:d}".format(next(gen.COUNT)))
    func, ref = [(None, p13.curl), (None, None), p13.draw_func(rng)][int(
        rng.integers(3))]
    opts = dict(kwargs)
    if ref is not p13.curl or func is not None:
        opts["scale_func"] = func
    if tol != 600 or rng.random() < 0.5:
        opts["max_sdiff"] = tol
    if wrong > 0.0 or rng.random() < 0.4:
        opts["hemisphere"] = hemi
    if by_file:
        opts.update({"ocbfile": model.meta["path"],
                     "instrument": model.meta["inst"]})
    else:
        if wrong > 0.0 and rng.random() < 0.5:
            del opts["hemisphere"]
        model.obj.rec_ind = -1
        opts["ocb"] = model.obj
    case.show(kind=model.kind, options={kk: str(vv) for kk, vv in
                                        opts.items()},
              blocks=[(str(bb[0]), bb[1], bb[2]) for bb in blocks],
              good=[str(cc) for cc in cand])

    rows = [(tt, index, st) for tt, index, sts in blocks for st in sts]
    good = [row for row in rows if row[2]["MLAT"] * hemi > 0.0 and not any(
        row[2][kk] == FILL for kk in ("BN", "BE", "BZ", "MLT"))]
    if by_file and "hemisphere" not in opts and len(set(
            np.sign(row[2]["MLAT"]) for row in rows)) > 1:
        case.raises(ValueError, supermag.supermag2ascii_ocb, path, out, **opts)
        return
    if by_file:
        # The boundaries around the whole data set are loaded
        first, last = rows[0][0], rows[-1][0]
        lim = dt.timedelta(seconds=tol + 1)
        if not any(first - lim <= rec.dtime <= last + lim
                   for rec in model.orecs):
            case.call(supermag.supermag2ascii_ocb, path, out, **opts)
            case.check(not os.path.isfile(out), "output without boundaries")
            case.seen("no boundaries")
            return
    case.call(supermag.supermag2ascii_ocb, path, out, **opts)
    want, use = expected_rows(good, cand, tol)
    if model.kind == "Dual":
        # After the selection, the index refers to the remaining pairs
        obj = ocbpy.DualBoundary(ocb=model.obj.ocb, eab=model.obj.eab,
                                 hemisphere=hemi)
        case.same(obj.records, len(model.orecs), "pairs")
        model.obj = obj
    check_output(case, model, out, want, ref)
    case.seen(model.kind, hemi, tol, by_file, [
        (str(row[0]), row[2]["STID"], irec) for row, irec in want])


def check_output(case, model, out, want, func):
    """Account for every line of the output."""
    with open(out) as fin:
        lines = fin.read().splitlines()
    case.same(lines[0].split(), "#DATE TIME NST STID SML SMU SZA MLAT MLT BMAG "
              "BN BE BZ OCB_MLAT OCB_MLT OCB_BMAG OCB_BN OCB_BE OCB_BZ".split(),
              "header")
    got = [line.split() for line in lines[1:]]
    case.same([(gg[0] + " " + gg[1], gg[3]) for gg in got],
              [(str(row[0]), row[2]["STID"]) for row, _ in want],
              "written observations")
    for gg, (row, irec) in zip(got, want):
        tt, index, st = row
        case.check(len(gg) == 19, "columns", gg)
        case.same(int(gg[2]), sum(1 for rr, _ in want if rr[0] == tt),
                  "number of stations")
        case.same((int(gg[4]), int(gg[5])), (
            index.get("SML", FILL), index.get("SMU", FILL)), "indices")
        if st["SZA"] == FILL:
            case.same(gg[6].lower(), "nan", "undefined zenith angle")
        else:
            near(case, gg[6], st["SZA"], "zenith angle")
        vec = [st["BN"], st["BE"], st["BZ"]]
        for col, val, name in [(7, st["MLAT"], "MLAT"), (8, st["MLT"], "MLT"),
                               (9, float(np.sqrt(np.sum(np.square(vec)))),
                                "BMAG"), (10, vec[0], "BN"),
                               (11, vec[1], "BE"), (12, vec[2], "BZ")]:
            near(case, gg[col], val, name, str(tt), st)
        blat, bmlt, corr = model.coords(case, irec, st["MLAT"], st["MLT"])
        if np.isnan(blat):
            case.check(gg[13].lower() == "nan", "undefined location", gg)
            continue
        near(case, gg[13], blat, "boundary latitude", str(tt), st)
        case.check(float(refs.circ_diff(float(gg[14]), bmlt, 24.0)) < 0.00501
                   + 1e-6 / max(90.0 - abs(blat), 1e-3), "boundary MLT",
                   gg[14], bmlt, str(tt), st)
        comp = np.array([float(vv) for vv in gg[16:19]])
        mag = float(np.sqrt(np.sum(comp**2)))
        case.check(abs(float(gg[15]) - mag) <= 0.02, "magnitude", gg[15], mag)
        if p13.safe(model.orecs[irec], st["MLT"]):
            p13.expect_vector(case, model, irec, st["MLAT"], st["MLT"], vec,
                              corr, func, comp, places=0.0050001)


@suite.group(40, 400)
def both(case):
    """Data of both hemispheres need a choice, and none gives no lines."""
    from ocbpy.instruments import supermag

    rng = case.rng
    inst = str(rng.choice(gen.INSTS))
    hemi = int(rng.choice([1, -1]))
    model = p13.Model(case, "OCB", hemi=hemi, inst=inst, corr="default",
                      ref=74.0)
    tol = 600
    times = sorted(set([model.orecs[0].dtime] + draw_times(
        rng, [rec.dtime for rec in model.orecs], tol)))
    blocks = draw_blocks(rng, times, hemi, 0.0)
    side = int(rng.integers(3))
    for _, _, sts in blocks:
        for st in sts:
            if side == 0 or (side == 1 and rng.random() < 0.4):
                st["MLAT"] *= -1
    if side == 1:
        blocks[0][2][0]["MLAT"] = -hemi * 70.0
        blocks[-1][2].append(dict(blocks[-1][2][0], MLAT=hemi * 71.0))
    path = write_blocks(case, blocks)
    out = os.path.join(case.tmp, "out_{:d}".format(next(gen.COUNT)))
    opts = {"ocbfile": model.meta["path"], "instrument": inst}
    case.show(side=side, blocks=[(str(bb[0]), bb[1], bb[2]) for bb in blocks])
    rows = [(tt, index, st) for tt, index, sts in blocks for st in sts]
    cand = [(ii, rec.dtime) for ii, rec in enumerate(model.orecs)]
    if side == 1:
        case.raises(ValueError, supermag.supermag2ascii_ocb, path, out, **opts)
        case.call(supermag.supermag2ascii_ocb, path, out, hemisphere=hemi,
                  **opts)
        want, _ = expected_rows([rr for rr in rows
                                 if rr[2]["MLAT"] * hemi > 0], cand, tol)
        check_output(case, model, out, want, p13.curl)
    elif side == 0:
        case.call(supermag.supermag2ascii_ocb, path, out, hemisphere=hemi,
                  **opts)
        check_output(case, model, out, [], p13.curl)
    else:
        case.call(supermag.supermag2ascii_ocb, path, out, **opts)
        want, _ = expected_rows(rows, cand, tol)
        check_output(case, model, out, want, p13.curl)
    case.seen(side, hemi, inst, [str(rr[0]) for rr in rows])
