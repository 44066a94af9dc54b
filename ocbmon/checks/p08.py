"""P08: data are matched to the closest good boundary in tolerance."""

import datetime as dt

import numpy as np

from ocbmon import gen
from ocbmon.checks.p05 import make_dual
from ocbmon.checks.p07 import accept
from ocbmon.checks.p07 import draw_criteria
from ocbmon.core import Suite

suite = Suite("P08", "random sorted data times around random boundary records "
              "(duplicated times, gaps, ties, edges of the tolerance, one "
              "second off), random quality criteria, OCB, EAB, and paired "
              "boundaries; the event log of the documented matching loop is "
              "compared with a brute-force table; non-trivial by the table of "
              "matches", ["data and boundaries are sorted by time",
                          "a match is a returned data index and a record index "
                          "that both lie in their range"])


def table(dat, cand, tol):
    """Match by brute force.

    Parameters
    ----------
    dat : list
        Data times
    cand : list
        Acceptable boundaries as (index, time)
    tol : int
        Tolerance in seconds

    Returns
    -------
    out : dict
        Boundary index of each data index with a match

    """
    out = dict()
    for ii, tt in enumerate(dat):
        best = None
        for irec, btime in cand:
            diff = abs((btime - tt).total_seconds())
            if diff <= tol and (best is None or diff < best[0]):
                best = (diff, irec)
        if best is not None:
            out[ii] = best[1]
    return out


def draw_data(rng, dtimes, tol):
    """Draw data times around boundary times."""
    out = list()
    for _ in range(gen.count(rng, 1, 30, 800)):
        base = dtimes[int(rng.integers(len(dtimes)))]
        kind = int(rng.integers(7))
        if kind == 0:
            off = 0
        elif kind == 1:
            off = int(rng.choice([-tol, tol]))
        elif kind == 2:
            off = int(rng.choice([-tol - 1, tol + 1]))
        elif kind == 3:
            off = int(rng.integers(-3 * tol - 2, 3 * tol + 3))
        elif kind == 4:
            nxt = dtimes[int(rng.integers(len(dtimes)))]
            off = (nxt - base).total_seconds() / 2.0
            if rng.random() < 0.5:
                # Slightly closer to one of the two
                off += float(rng.choice([-1, 1])) * 10.0 ** -int(
                    rng.integers(1, 6))
        elif kind == 5:
            off = float(np.round(rng.uniform(-tol, tol), 3))
        else:
            off = int(rng.integers(-40, 40))
        out.append(base + dt.timedelta(seconds=off))
    if rng.random() < 0.3:
        out.append(out[0])
    if rng.random() < 0.3:
        out.append(dtimes[0] - dt.timedelta(days=int(rng.choice([3, 500]))))
    if rng.random() < 0.3:
        out.append(dtimes[-1] + dt.timedelta(days=int(rng.choice([3, 500]))))
    return sorted(out)


def matched(idat, num_dat, obj):
    """Determine if a returned index reports a match."""
    return (idat is not None and idat < num_dat and 0 <= obj.rec_ind
            and obj.rec_ind < obj.records)


def loop(case, obj, dat, tol, kwargs, begin=0):
    """Run the documented matching loop and record its events."""
    import ocbpy

    events = list()
    idat = begin
    while idat is not None and idat < len(dat) and obj.rec_ind < obj.records:
        idat = case.call(ocbpy.match_data_ocb, obj, dat, idat=idat,
                         max_tol=tol, **kwargs)
        if matched(idat, len(dat), obj):
            events.append((int(idat), int(obj.rec_ind)))
            idat += 1
        elif idat is not None and idat < len(dat) and obj.rec_ind < 0:
            case.fail("no progress and no match signalled")
        if len(events) > len(dat):
            case.fail("more matches than data")
    return events


@suite.group(320)
def single(case):
    """OCB and EAB matching loops follow the brute-force table."""
    rng = case.rng
    gap = [(1, 5), (20, 90), (60, 600), (0, 40)][int(rng.integers(4))]
    obj, recs, meta = gen.make_boundary(
        case, "OCB" if rng.random() < 0.6 else "EAB",
        num=gen.count(rng, 1, 20, 600), fom="mix", corr="default", gap=gap)
    tol = int(rng.choice([1, 30, 60, 60, 600]))
    dat = draw_data(rng, [rec.dtime for rec in recs], tol)
    kwargs, min_merit, max_merit, crit = {}, None, None, {}
    if rng.random() < 0.5:
        min_merit, max_merit, crit = draw_criteria(rng, recs, meta["inst"],
                                                   False)
        kwargs = dict(crit)
        if min_merit is not None:
            kwargs["min_merit"] = min_merit
        if max_merit is not None:
            kwargs["max_merit"] = max_merit
    good = [(ii, rec.dtime) for ii, rec in enumerate(recs)
            if accept(rec, meta["inst"], min_merit, max_merit, crit)]
    begin = int(rng.integers(len(dat))) if rng.random() < 0.2 else 0
    # Start before the records, or from one of the good ones
    obj.rec_ind = -1
    if len(good) > 0 and rng.random() < 0.25:
        pick = int(rng.integers(len(good)))
        obj.rec_ind = good[pick][0]
        cand = good[pick:]
    else:
        cand = good
    as_array = rng.random() < 0.5
    case.show(data=[str(dd) for dd in dat], tol=tol, kwargs=kwargs,
              begin=begin, rec_ind=obj.rec_ind,
              times=[str(rec.dtime) for rec in recs],
              good=[gg[0] for gg in good])
    events = loop(case, obj, np.array(dat) if as_array else dat, tol, kwargs,
                  begin)
    want = sorted((ii, rr) for ii, rr in table(dat, cand, tol).items()
                  if ii >= begin)
    case.same(events, want, "matched (data, boundary) indices")
    case.seen(meta["inst"], tol, len(dat), len(good), want)


@suite.group(80)
def paired(case):
    """The matching loop of paired boundaries follows the table."""
    rng = case.rng
    obj, orecs, erecs, meta = make_dual(case, num=int(rng.integers(1, 10)),
                                        corr="default")
    tol = int(rng.choice([1, 60, 400]))
    dat = draw_data(rng, meta["dtimes"], tol)
    kwargs = {}
    cand = [(ii, tt) for ii, tt in enumerate(meta["dtimes"])]
    if rng.random() < 0.5:
        # The criteria apply to both boundaries of a pair, some of them only
        # reject boundaries of one kind
        crit, limits = {}, [None, None]
        for pick in rng.permutation(5)[:int(rng.choice([1, 1, 1, 2, 3]))]:
            if pick == 0:
                crit["r"] = ("min", float(rng.uniform(9, 15)))
            elif pick == 1:
                crit["r"] = ("max", float(rng.uniform(23, 29)))
            elif pick == 2:
                crit["phi_cent"] = (str(rng.choice(["min", "max"])),
                                    float(rng.uniform(-180, 360)))
            else:
                foms = [rec.fom for rec in orecs + erecs]
                limits[pick - 3] = float(rng.choice(foms)) + float(rng.choice(
                    [0.0, 0.001, -0.001]))
                kwargs[["min_merit", "max_merit"][pick - 3]] = limits[
                    pick - 3]
        kwargs.update(crit)
        keep = [ii for ii, rec in enumerate(orecs)
                if accept(rec, meta["insts"][0], *limits, crit)
                and accept(erecs[ii], meta["insts"][1], *limits, crit)]
        cand = [(jj, meta["dtimes"][ii]) for jj, ii in enumerate(keep)]
    obj.rec_ind = -1
    case.show(data=[str(dd) for dd in dat], tol=tol, kwargs=kwargs,
              times=[str(tt) for tt in meta["dtimes"]])
    events = loop(case, obj, dat, tol, kwargs)
    want = sorted(table(dat, cand, tol).items())
    case.same(events, want, "matched (data, pair) indices")
    for _, irec in events:
        obj.rec_ind = irec
        case.same(obj.ocb.dtime[obj.ocb.rec_ind], cand[irec][1],
                  "time of the matched OCB")
        case.same(obj.eab.dtime[obj.eab.rec_ind], cand[irec][1],
                  "time of the matched EAB")
    case.seen("dual", tol, len(dat), want)
