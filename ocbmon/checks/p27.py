"""P27: SuperMAG and vorticity files are loaded without loss."""

import datetime as dt
import fractions
import math
import os

import numpy as np

from ocbmon import gen
from ocbmon.checks import p15
from ocbmon.core import Suite

suite = Suite("P27", "random SuperMAG and vorticity files with one or many "
              "blocks, one to many entries, headers, optional index lines, "
              "fill values, and malformed blocks; non-trivial by the loaded "
              "records", ["each SuperMAG block has a station",
                          "vorticity times are whole seconds, rounded down"])

VKEYS = [["R1BM1", "R1BM2", "R2BM1", "R2BM2", "AREA", "VORTICITY", "MLT"],
         ["GFLG", "CENTRE_GLAT", "CENTRE_GLON", "C1_GLAT", "C1_GLON",
          "C2_GLAT", "C2_GLON", "C3_GLAT", "C3_GLON", "C4_GLAT", "C4_GLON"],
         ["MFLG", "CENTRE_MLAT", "CENTRE_MLON", "C1_MLAT", "C1_MLON",
          "C2_MLAT", "C2_MLON", "C3_MLAT", "C3_MLON", "C4_MLAT", "C4_MLON"]]


def draw_vort(rng, days_uth, hemi, wrong=0.0, most=5, low=60.0):
    """Draw vorticity blocks.

    Parameters
    ----------
    days_uth : list
        Day and text of the hour of each block

    """
    blocks = list()
    for day, uth in days_uth:
        entries = list()
        for _ in range(gen.count(rng, 1, most, 250, 0.004)):
            ent = {}
            for keys in VKEYS:
                for kk in keys:
                    ent[kk] = round(float(rng.uniform(-180, 180)), 3)
            for ii, kk in enumerate(VKEYS[0][:4]):
                ent[kk] = int(rng.integers(16))
            ent.update({"GFLG": 0, "MFLG": 1, "AREA": round(float(
                rng.uniform(1000, 9000)), 1), "VORTICITY": round(float(
                    rng.normal()) * 10.0**float(rng.uniform(-3, 3)), 7), "MLT": round(float(
                        rng.uniform(0, 24)), 4),
                "CENTRE_MLAT": hemi * round(float(rng.uniform(low, 88)), 3)})
            if rng.random() < wrong:
                ent["CENTRE_MLAT"] *= -1
            if rng.random() < 0.05:
                ent["VORTICITY"] = 0.0
            entries.append(ent)
        blocks.append((day, uth, entries))
    return blocks


def vort_time(day, uth):
    """Time of a block, rounded down to the second."""
    return day + dt.timedelta(seconds=math.floor(
        fractions.Fraction(uth) * 3600))


def write_vort(case, blocks):
    """Write a vorticity file."""
    rng = case.rng
    path = os.path.join(case.tmp, "vort_{:d}".format(next(gen.COUNT)))
    with open(path, "w") as fout:
        for ii in range(int(rng.choice([0, 0, 1, 4]))):
            fout.write("# header line {:d}\n".format(ii) if rng.random() < 0.8
                       else "#\n")
        for day, uth, entries in blocks:
            fout.write("{:d} {:d} {:d} {:s}\n{:d}\n".format(
                day.year, day.month, day.day, uth, len(entries)))
            for ent in entries:
                for keys in VKEYS:
                    fout.write("  ".join("{:}".format(ent[kk]) for kk in keys)
                               + "\n")
    return path


def draw_hours(rng, num):
    """Draw the days and hours of blocks, in order."""
    out = set()
    day = gen.start_time(rng).replace(hour=0, minute=0, second=0)
    for _ in range(num):
        now = day + dt.timedelta(days=int(rng.choice([0, 0, 0, 1, 2])))
        kind = int(rng.integers(5))
        if kind == 0:
            uth = "{:.3f}".format(float(rng.uniform(0, 23.999)))
        elif kind == 4:
            # Just before a whole second
            uth = "{:.7f}".format(int(rng.integers(1, 86400)) / 3600.0
                                  - float(rng.uniform(1e-6, 2e-5)))
        elif kind == 1:
            uth = "{:.4f}".format(int(rng.integers(1440)) / 60.0)
        elif kind == 2:
            uth = str(rng.choice(["0.000", "0.0", "12.000", "23.999", "6"]))
        else:
            uth = "{:.4f}".format(int(rng.integers(9600)) / 400.0)
        out.add((now, uth))
    return sorted(out, key=lambda xx: (xx[0], float(xx[1])))


@suite.group(150, 3000)
def vorticity(case):
    """Every vorticity entry is loaded, with the time of its block."""
    from ocbpy.instruments import vort

    rng = case.rng
    blocks = draw_vort(rng, draw_hours(rng, gen.count(rng, 1, 9, 400)),
                       int(rng.choice([1, -1])), 0.3)
    if rng.random() < 0.1:
        blocks.insert(int(rng.integers(len(blocks) + 1)),
                      (blocks[0][0], blocks[0][1], []))
        # A block without entries is followed by another block, or the end
    path = write_vort(case, blocks)
    save = bool(rng.random() < 0.5)
    case.show(blocks=[(str(bb[0]), bb[1], len(bb[2])) for bb in blocks],
              save_all=save)
    out = case.call(vort.load_vorticity_ascii_data, path, save_all=save)
    keys = ["VORTICITY", "MLT", "CENTRE_MLAT"]
    if save:
        keys = [kk for line in VKEYS for kk in line if kk not in ("GFLG",
                                                                  "MFLG")]
    case.same(sorted(out.keys()), sorted(keys + ["YEAR", "MONTH", "DAY", "UTH",
                                                 "DATETIME"]), "keys")
    rows = [(day, uth, ent) for day, uth, entries in blocks for ent in entries]
    for kk in keys:
        case.close_to(out[kk], [float(row[2][kk]) for row in rows], 0.0, kk,
                      rtol=1e-14)
    case.same(list(out["DATETIME"]), [vort_time(row[0], row[1])
                                      for row in rows], "times")
    for kk, want in (("YEAR", [row[0].year for row in rows]),
                     ("MONTH", [row[0].month for row in rows]),
                     ("DAY", [row[0].day for row in rows]),
                     ("UTH", [float(row[1]) for row in rows])):
        case.same(list(out[kk]), want, kk)
    case.seen(len(rows), save, [bb[1] for bb in blocks])


@suite.group(60, 600)
def broken(case):
    """A vorticity file with a malformed block is not loaded in part."""
    from ocbpy.instruments import vort

    rng = case.rng
    blocks = draw_vort(rng, draw_hours(rng, int(rng.integers(1, 5))), 1)
    path = write_vort(case, blocks)
    with open(path) as fin:
        lines = [ll for ll in fin.read().splitlines() if ll[0] != "#"]
    kind = int(rng.integers(3))
    pick = int(rng.integers(len(lines)))
    if kind == 0:
        # Lose a line
        del lines[pick]
        if len(lines) == 0:
            return
    elif kind == 1:
        # Lose or gain a column
        cols = lines[pick].split()
        cols = cols[:-1] if len(cols) > 1 and rng.random() < 0.5 else cols + [
            "3"]
        lines[pick] = " ".join(cols)
    else:
        # The file ends early
        lines = lines[:pick + 1]
        num = 0
        ends = list()
        for bb in blocks:
            num += 2 + 3 * len(bb[2])
            ends.append(num)
        if len(lines) in ends:
            return
    with open(path, "w") as fout:
        fout.write("\n".join(lines) + "\n")
    case.show(kind=kind, pick=pick, lines=lines)
    try:
        out = case.call(vort.load_vorticity_ascii_data, path)
    except IOError:
        case.seen(kind, pick, len(lines))
        return
    if kind == 2:
        # Complete blocks come before a date without entries
        num = 0
        for bb in blocks:
            if num + 2 >= len(lines):
                break
            num += 2 + 3 * len(bb[2])
        case.check(len(lines) - num in (1, 2), "file that ends early", len(
            lines), num)
        want = [bb for bb in blocks]
        count = 0
        good = list()
        for bb in want:
            count += 2 + 3 * len(bb[2])
            if count > len(lines):
                break
            good.extend(ent["VORTICITY"] for ent in bb[2])
        case.same([] if out is None else list(out["VORTICITY"]), good,
                  "entries of a file that ends early")
        return
    case.fail("malformed block was accepted")


@suite.group(150, 3000)
def supermag(case):
    """Every SuperMAG station is loaded, with the indices of its block."""
    from ocbpy.instruments import supermag

    rng = case.rng
    times = [tt for tt in gen.times(rng, gen.count(rng, 1, 9, 400),
                                         "image")]
    blocks = p15.draw_blocks(rng, times, int(rng.choice([1, -1])), 0.3,
                             0.1 if rng.random() < 0.6 else 0.0, low=40.0)
    for _, _, sts in blocks:
        for st in sts:
            if rng.random() < 0.05:
                st["MLAT"] = p15.FILL
    if len(blocks) > 1 and rng.random() < 0.25:
        # Times without any station
        for ii in rng.permutation(len(blocks))[1:]:
            if rng.random() < 0.4:
                del blocks[ii][2][:]
    path = p15.write_blocks(case, blocks)
    case.show(blocks=[(str(bb[0]), bb[1], bb[2]) for bb in blocks])
    header, out = case.call(supermag.load_supermag_ascii_data, path)
    with open(path) as fin:
        lines = fin.readlines()
    num = [ii for ii, ll in enumerate(lines) if ll.startswith("=====")][0]
    case.same(header, lines[:num + 1], "header")
    rows = [(tt, index, st, len(sts)) for tt, index, sts in blocks
            for st in sts]
    want = {"YEAR": [rr[0].year for rr in rows],
            "MONTH": [rr[0].month for rr in rows],
            "DAY": [rr[0].day for rr in rows],
            "HOUR": [rr[0].hour for rr in rows],
            "MIN": [rr[0].minute for rr in rows],
            "SEC": [rr[0].second for rr in rows],
            "DATETIME": [rr[0] for rr in rows],
            "NST": [rr[3] for rr in rows],
            "SML": [rr[1].get("SML", p15.FILL) for rr in rows],
            "SMU": [rr[1].get("SMU", p15.FILL) for rr in rows],
            "STID": [rr[2]["STID"] for rr in rows]}
    case.same(sorted(out.keys()), sorted(list(want.keys()) + [
        "BN", "BE", "BZ", "MLT", "MLAT", "DEC", "SZA"]), "keys")
    for kk, vals in want.items():
        case.same(list(out[kk]), vals, kk)
    for kk in ("BN", "BE", "BZ", "MLT", "MLAT", "DEC", "SZA"):
        case.close_to(out[kk], [np.nan if rr[2][kk] == p15.FILL else
                                rr[2][kk] for rr in rows], 0.0, kk)
    case.seen(len(rows), [rr[2]["STID"] for rr in rows])


@suite.group(30, 200)
def unusable(case):
    """Missing, empty, and foreign files give no data."""
    from ocbpy.instruments import supermag
    from ocbpy.instruments import vort

    rng = case.rng
    path = os.path.join(case.tmp, "file")
    kind = int(rng.integers(3))
    if kind == 1:
        open(path, "w").close()
    elif kind == 2:
        with open(path, "w") as fout:
            for ii in range(int(rng.integers(1, 9))):
                fout.write("some text {:d}\n".format(int(rng.integers(99))))
    case.show(kind=kind)
    header, out = case.call(supermag.load_supermag_ascii_data, path)
    case.same(out, dict(), "data of an unusable SuperMAG file")
    if kind < 2:
        case.same(header, [], "header of an unusable SuperMAG file")
        case.same(case.call(vort.load_vorticity_ascii_data, path), None,
                  "data of an unusable vorticity file")
    else:
        case.raises((IOError, ValueError), vort.load_vorticity_ascii_data,
                    path)
    case.seen(kind, rng.random())
