"""P07: exactly the records that pass the quality criteria are selected."""

import math
import operator

import numpy as np

from ocbmon import gen
from ocbmon.core import Suite

suite = Suite("P07", "random boundary files with figures of merit around the "
              "instrument limits (also undefined ones), random custom limits "
              "and selection criteria; the observed index sequence of each "
              "history is compared with a filter over the parsed records; "
              "non-trivial by (criteria, selected set)",
              ["limits: IMAGE at most 5, AMPERE at least 0.15, DMSP SSJ at "
               "least 3, inclusive"])

OPS = {"min": operator.gt, "mineq": operator.ge, "max": operator.lt,
       "maxeq": operator.le, "equal": operator.eq}


def rec_value(rec, key):
    """Value of a record attribute."""
    named = {"r": rec.rad, "fom": rec.fom, "phi_cent": rec.phi,
             "r_cent": rec.rcent, "dtime": rec.dtime}
    return named[key] if key in named else rec.extra[key]


def accept(rec, inst, min_merit, max_merit, crit):
    """Determine whether or not one record is acceptable."""
    low, high = gen.FOM_OK[inst]
    low = low if min_merit is None else min_merit
    high = high if max_merit is None else max_merit
    if not (rec.fom >= low and rec.fom <= high):
        return False
    for key, (op, val) in crit.items():
        if key.startswith("no_"):
            continue
        if not OPS[op](rec_value(rec, key), val):
            return False
    return True


def draw_criteria(rng, recs, inst, unknown=True):
    """Draw selection criteria."""
    min_merit = max_merit = None
    foms = [rec.fom for rec in recs if not math.isnan(rec.fom)] or [1.0]
    if rng.random() < 0.35:
        min_merit = float(rng.choice(foms)) + float(rng.choice([0, 0, 0.001,
                                                                -0.5]))
    if rng.random() < 0.35:
        max_merit = float(rng.choice(foms)) + float(rng.choice([0, 0, 0.001,
                                                                0.5]))
    if rng.random() < 0.05:
        # Zero is a limit like any other
        min_merit, max_merit = [(0.0, max_merit), (min_merit, 0.0)][int(
            rng.integers(2))]
    crit = {}
    keys = ["r", "fom", "dtime", "r_cent", "phi_cent"]
    keys += ["num_sectors", "a", "r_err", "soy"] if inst == "image" else ["x",
                                                                          "y"]
    for _ in range(int(rng.choice([0, 0, 1, 1, 2, 3]))):
        key = str(rng.choice(keys))
        ops = list(OPS.keys())
        if key in ("r_cent", "phi_cent") and inst != "image":
            ops = ["min", "max"]
        val = rec_value(recs[int(rng.integers(len(recs)))], key)
        if key in ("r_cent", "phi_cent") and inst != "image":
            val += 0.01
        if key == "fom" and rng.random() < 0.2:
            val = math.nan
        crit[key] = (str(rng.choice(ops)), val)
    if unknown and rng.random() < 0.15:
        crit["no_attribute"] = ("min", 3.0)
    return min_merit, max_merit, crit


@suite.group(300)
def cycle(case):
    """Cycling and collecting visit the acceptable records in order."""
    import ocbpy

    rng = case.rng
    obj, recs, meta = gen.make_boundary(
        case, "OCB" if rng.random() < 0.6 else "EAB",
        num=gen.count(rng, 1, 25, 2500), fom="mix", corr="default")
    min_merit, max_merit, crit = draw_criteria(rng, recs, meta["inst"])
    kwargs = dict(crit)
    if min_merit is not None or rng.random() < 0.3:
        kwargs["min_merit"] = min_merit
    if max_merit is not None or rng.random() < 0.3:
        kwargs["max_merit"] = max_merit
    want = [ii for ii, rec in enumerate(recs)
            if accept(rec, meta["inst"], min_merit, max_merit, crit)]
    begin = int(rng.integers(-1, len(recs) + 4))
    case.show(criteria=kwargs, begin=begin)

    obj.rec_ind = keep = begin if rng.random() < 0.8 else -int(
        rng.integers(2, 5))
    got = case.call(ocbpy.cycle_boundary.retrieve_all_good_indices, obj,
                    **kwargs)
    case.same(list(got), want, "all good indices")
    case.same(obj.rec_ind, keep, "index after collecting")
    obj.rec_ind = begin

    seq = list()
    for _ in range(len(recs) + 1):
        case.call(obj.get_next_good_ocb_ind, **kwargs)
        if obj.rec_ind >= obj.records:
            break
        seq.append(int(obj.rec_ind))
    else:
        case.fail("cycling does not pass the last record")
    case.same(seq, [ii for ii in want if ii > begin], "cycled indices")
    case.seen(meta["inst"], len(recs), sorted(crit.items(), key=str),
              min_merit, max_merit, begin, want)


@suite.group(80)
def history(case):
    """Criteria may change between steps without carrying over."""
    import ocbpy

    rng = case.rng
    obj, recs, meta = gen.make_boundary(case, "OCB", fom="mix",
                                        num=gen.count(rng, 4, 40, 1500),
                                        corr="default")
    obj.rec_ind = now = -1
    log = list()
    for _ in range(15):
        if rng.random() < 0.15:
            now = int(rng.integers(-1, len(recs) + 3))
            obj.rec_ind = now
            log.append("rec_ind={:d}".format(now))
        min_merit, max_merit, crit = draw_criteria(rng, recs, meta["inst"])
        kwargs = dict(crit)
        if min_merit is not None:
            kwargs["min_merit"] = min_merit
        if max_merit is not None:
            kwargs["max_merit"] = max_merit
        good = [ii for ii, rec in enumerate(recs)
                if accept(rec, meta["inst"], min_merit, max_merit, crit)]
        if rng.random() < 0.25:
            log.append("retrieve_all_good_indices({:})".format(kwargs))
            case.show(history=list(log))
            got = case.call(ocbpy.cycle_boundary.retrieve_all_good_indices,
                            obj, **kwargs)
            case.same(list(got), good, "all good indices")
            case.same(obj.rec_ind, now, "index after collecting")
            continue
        log.append("get_next_good_ocb_ind({:})".format(kwargs))
        case.show(history=list(log))
        case.call(obj.get_next_good_ocb_ind, **kwargs)
        later = [ii for ii in good if ii > now]
        if len(later) == 0:
            case.check(obj.rec_ind >= obj.records, "index after the last good "
                       "record", obj.rec_ind, obj.records)
            now = -1
            obj.rec_ind = -1
        else:
            case.same(int(obj.rec_ind), later[0], "next good index")
            now = later[0]
        case.seen("step", now, len(recs), sorted(crit.items(), key=str),
                  min_merit, max_merit)
