"""P06: boundaries are paired once, in order, and within tolerance."""

import datetime as dt
import os

import numpy as np

from ocbmon import gen
from ocbmon.checks.p07 import accept
from ocbmon.checks.p07 import draw_criteria
from ocbmon.core import Suite

suite = Suite("P06", "random OCB and EAB files with shifted, missing, "
              "duplicated, and poor records, random tolerances and selection "
              "criteria, followed by random index histories; non-trivial by "
              "the set of pairs", ["boundary files are sorted by time",
                                   "pairs are formed in the order of time"])


def greedy(good_o, good_e, tol):
    """Pair by brute force.

    Each pair takes the first remaining OCB that has a remaining EAB within
    the tolerance, and the closest (first of equally close) of these EAB.

    """
    out = list()
    io = ie = 0
    while True:
        for jo in range(io, len(good_o)):
            near = [(abs((good_e[je][1] - good_o[jo][1]).total_seconds()), je)
                    for je in range(ie, len(good_e))]
            near = [nn for nn in near if nn[0] <= tol]
            if len(near) > 0:
                break
        else:
            return out
        je = min(near)[1]
        out.append((good_o[jo][0], good_e[je][0]))
        io, ie = jo + 1, je + 1


def draw_pair_times(rng):
    """Draw the times of both boundaries."""
    num = gen.count(rng, 1, 16, 1500, 0.04)
    gap = [(1, 30), (60, 200), (100, 900)][int(rng.integers(3))]
    otimes = gen.times(rng, num, "dmsp-ssj", gap=gap)
    etimes = list()
    for tt in otimes:
        if rng.random() < 0.2:
            continue
        kind = int(rng.integers(5))
        off = [0, int(rng.integers(-70, 71)), int(rng.choice([-60, 60])),
               int(rng.choice([-61, 61])), int(rng.integers(-10, 11))][kind]
        etimes.append(tt + dt.timedelta(seconds=off))
        if rng.random() < 0.15:
            etimes.append(tt + dt.timedelta(seconds=int(rng.integers(-60,
                                                                     61))))
    if len(etimes) == 0 or rng.random() < 0.05:
        etimes = [otimes[0] + dt.timedelta(seconds=int(rng.integers(90)))]
    if rng.random() < 0.1:
        # Records with the same time
        otimes = otimes + [otimes[int(ii)] for ii in rng.integers(len(otimes),
                                                                  size=2)]
    if rng.random() < 0.2:
        otimes = sorted(otimes)[int(rng.integers(len(otimes))):]
    return sorted(otimes), sorted(etimes)


def check_pairs(case, obj, want, otimes, etimes, tol):
    """Judge the pairs of an object."""
    case.same(int(obj.records), len(want), "number of pairs")
    if len(want) == 0:
        return
    got = list(zip(np.asarray(obj.ocb_ind).tolist(),
                   np.asarray(obj.eab_ind).tolist()))
    for (aa, bb) in zip(got[:-1], got[1:]):
        case.check(aa[0] < bb[0] and aa[1] < bb[1],
                   "a boundary is used twice, or pairs are out of order", got)
    for oo, ee in got:
        diff = abs((otimes[oo] - etimes[ee]).total_seconds())
        case.check(diff <= tol, "pair outside of the tolerance", oo, ee, diff)
    case.same(got, want, "pairs (OCB, EAB)")
    case.same(list(obj.dtime), [otimes[oo] for oo, _ in want],
              "times of the pairs")


def check_sync(case, obj, want):
    """Follow a random index history."""
    rng = case.rng
    log = list()
    for _ in range(int(rng.integers(3, 12))):
        if rng.random() < 0.5:
            now = int(rng.integers(-2, len(want) + 3))
            obj.rec_ind = now
            log.append(now)
        else:
            now = obj.rec_ind
            case.call(obj.get_next_good_ind)
            log.append("next")
            if len(want) > 0 and now < len(want):
                now += 1
            case.same(int(obj.rec_ind), now, "next pair index")
        case.show(index_history=list(log))
        if 0 <= now < len(want):
            case.same((int(obj.ocb.rec_ind), int(obj.eab.rec_ind)), want[now],
                      "boundary indices of the pair")
        else:
            for name in ("ocb", "eab"):
                bound = getattr(obj, name)
                case.check((bound.rec_ind < 0) if now < 0 else
                           bound.rec_ind >= bound.records, "{:s} index of a "
                           "pair index out of range".format(name),
                           bound.rec_ind, now)


@suite.group(240)
def pairs(case):
    """Pairs of random boundary files, criteria, and index histories."""
    import ocbpy

    rng = case.rng
    hemi = int(rng.choice([1, -1]))
    otimes, etimes = draw_pair_times(rng)
    oinst, einst = [str(ii) for ii in rng.choice(["image", "dmsp-ssj"], 2)]
    orows, orecs = gen.records(rng, len(otimes), oinst, dtimes=otimes)
    erows, erecs = gen.records(rng, len(etimes), einst, dtimes=etimes,
                               rad=(22.0, 30.0))
    ofile = gen.write_file(case, oinst, orows)
    efile = gen.write_file(case, einst, erows)
    tol = int(rng.choice([60, 60, 1, 30, 200]))
    case.show(oinst=oinst, einst=einst, tol=tol,
              otimes=[str(tt) for tt in otimes],
              etimes=[str(tt) for tt in etimes],
              ofom=[rec.fom for rec in orecs],
              efom=[rec.fom for rec in erecs])
    kwargs = {} if tol == 60 and rng.random() < 0.5 else {"max_delta": tol}
    if rng.random() < 0.5:
        obj = case.call(ocbpy.DualBoundary, eab_filename=efile,
                        ocb_filename=ofile, eab_instrument=einst,
                        ocb_instrument=oinst, hemisphere=hemi, **kwargs)
    else:
        ocb = case.call(ocbpy.OCBoundary, filename=ofile, instrument=oinst,
                        hemisphere=hemi)
        eab = case.call(ocbpy.EABoundary, filename=efile, instrument=einst,
                        hemisphere=hemi)
        if rng.random() < 0.4:
            ocb.rec_ind = int(rng.integers(len(otimes)))
            eab.rec_ind = int(rng.integers(len(etimes)))
        obj = case.call(ocbpy.DualBoundary, ocb=ocb, eab=eab, **kwargs)
    case.same(obj.hemisphere, hemi, "hemisphere")
    good_o = [(ii, rec.dtime) for ii, rec in enumerate(orecs)
              if accept(rec, oinst, None, None, {})]
    good_e = [(ii, rec.dtime) for ii, rec in enumerate(erecs)
              if accept(rec, einst, None, None, {})]
    want = greedy(good_o, good_e, tol)
    check_pairs(case, obj, want, otimes, etimes, tol)
    check_sync(case, obj, want)
    case.seen(tol, len(otimes), len(etimes), want)

    # New criteria re-select the pairs
    if rng.random() < 0.6:
        omin, omax, ocrit = draw_criteria(rng, orecs, oinst)
        emin, emax, ecrit = draw_criteria(rng, erecs, einst)
        kwargs = {"ocb_min_merit": omin, "ocb_max_merit": omax,
                  "ocb_kwargs": ocrit, "eab_min_merit": emin,
                  "eab_max_merit": emax, "eab_kwargs": ecrit}
        kwargs = {kk: vv for kk, vv in kwargs.items() if not (
            vv is None or vv == {}) or rng.random() < 0.3}
        for kk in ("ocb_kwargs", "eab_kwargs"):
            if kk in kwargs and kwargs[kk] == {} and rng.random() < 0.5:
                kwargs[kk] = None
        case.show(criteria=kwargs)
        case.call(obj.set_good_ind, **kwargs)
        good_o = [(ii, rec.dtime) for ii, rec in enumerate(orecs)
                  if accept(rec, oinst, omin, omax, ocrit)]
        good_e = [(ii, rec.dtime) for ii, rec in enumerate(erecs)
                  if accept(rec, einst, emin, emax, ecrit)]
        want = greedy(good_o, good_e, tol)
        check_pairs(case, obj, want, otimes, etimes, tol)
        check_sync(case, obj, want)
        case.seen("criteria", sorted(kwargs.items(), key=str), want)


@suite.group(20)
def lonely(case):
    """Without one of the boundaries there are no pairs, and no error."""
    import ocbpy

    rng = case.rng
    hemi = int(rng.choice([1, -1]))
    kwargs = {}
    part = int(rng.integers(3))
    for ii, name in enumerate(("ocb", "eab")):
        inst = str(rng.choice(["image", "dmsp-ssj"]))
        path = None
        if part == ii:
            rows, _ = gen.records(rng, int(rng.integers(1, 8)), inst,
                                  rad=(8.0, 16.0) if ii == 0 else (22.0, 30.0))
            path = gen.write_file(case, inst, rows)
        elif rng.random() < 0.5:
            path = os.path.join(case.tmp, "missing.ocb")
        if rng.random() < 0.5:
            kwargs[name + "_filename"] = path
            kwargs[name + "_instrument"] = inst
        else:
            kwargs[name] = case.call(
                ocbpy.OCBoundary if ii == 0 else ocbpy.EABoundary,
                filename=path, instrument=inst, hemisphere=hemi)
    case.show(part=part, hemi=hemi, options=sorted(kwargs))
    obj = case.call(ocbpy.DualBoundary, hemisphere=hemi, **kwargs)
    for _ in range(int(rng.integers(1, 3))):
        case.same((int(obj.records), obj.hemisphere), (0, hemi),
                  "records without one of the boundaries")
        case.check(obj.dtime is None or len(obj.dtime) == 0,
                   "times without pairs", obj.dtime)
        case.call(obj.get_next_good_ind)
        lat = gen.lats(rng, 3, hemi)
        for out in case.call(obj.normal_coord, lat, gen.mlts(rng, 3)):
            case.check(np.isnan(out).all(), "location without pairs", out)
        case.same(case.call(ocbpy.match_data_ocb, obj, [
            dt.datetime(2001, 1, 1)], idat=0), 0, "match without pairs")
        case.call(obj.set_good_ind)
    case.seen(part, hemi, sorted(kwargs))
