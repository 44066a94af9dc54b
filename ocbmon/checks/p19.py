"""P19: the default boundary file is the documented one."""

import contextlib
import datetime as dt
import os

import numpy as np

from ocbmon import gen
from ocbmon.core import Suite

suite = Suite("P19", "random directories with boundary files of known and "
              "unknown instruments, both boundaries and hemispheres, next to "
              "files which are no boundaries; every selection by time range "
              "(on, next to, and across the limits), hemisphere, instrument, "
              "and boundary; loaded directly and through the boundary "
              "classes; non-trivial by directory and selection",
              ["the directory of the package is replaced by a scratch one"])

KNOWN = {"amp": (dt.datetime(2010, 1, 1), dt.datetime(2022, 1, 1)),
         "si12": (dt.datetime(2000, 5, 4), dt.datetime(2002, 11, 1)),
         "si13": (dt.datetime(2000, 5, 3), dt.datetime(2002, 11, 1)),
         "wic": (dt.datetime(2000, 5, 4), dt.datetime(2002, 11, 1)),
         "image": (dt.datetime(2000, 5, 3), dt.datetime(2002, 11, 1)),
         "dmsp-ssj": (dt.datetime(2010, 1, 1), None)}
LONG = {"amp": "ampere", "si12": "image", "si13": "image", "wic": "image"}
RANK = ["image", "amp", "si13", "si12", "wic", "dmsp-ssj"]
GROUP = {"": RANK, "ampere": ["amp"], "image": ["image", "si12", "si13",
                                               "wic"]}


class Entry(object):
    """Model of one file."""

    def __init__(self, name, inst, hemi, bound, start=None, end=None,
                 dated=True):
        self.name = name
        self.inst = inst
        self.hemi = hemi
        self.bound = bound
        self.start = start
        self.end = end
        self.dated = dated  # Has a time range


def populate(case, place, most=14):
    """Create a directory of boundary files.

    Returns
    -------
    entries : list
        Models of the files that are boundary files
    other : list
        Names of the remaining files

    """
    rng = case.rng
    entries, other, taken = list(), list(), set()
    for _ in range(int(rng.integers(0, most))):
        hname, hemi = [("north", 1), ("south", -1)][int(rng.integers(2))]
        bound = str(rng.choice(["ocb", "eab"]))
        kind = rng.random()
        good = True
        if kind < 0.62:
            inst = str(rng.choice(list(KNOWN)))
            tail = {"amp": "radii", "dmsp-ssj": "20101231_20110101_v1.1.2"
                    }.get(inst, "circle")
            if rng.random() < 0.2:
                tail += "_{:d}".format(int(rng.integers(5)))
            name = "{:s}_{:s}_{:s}.{:s}".format(inst, hname, tail, bound)
            ent = Entry(name, inst, hemi, bound, *KNOWN[inst])
        elif kind < 0.8:
            inst = str(rng.choice(["new", "radar", "x-1", "x.2",
                                   "magnetometer-chain"]))
            start = dt.datetime(1999, 1, 1) + dt.timedelta(days=int(
                rng.integers(7000)))
            end = start + dt.timedelta(days=int(rng.choice([0, 1, 30, 2000])))
            name = "{:s}_{:s}_{:s}_{:s}{:s}.{:s}".format(
                inst, hname, start.strftime("%Y%m%d"), end.strftime("%Y%m%d"),
                str(rng.choice(["", "_v1", "_a_b"])), bound)
            ent = Entry(name, inst, hemi, bound, start, end)
        elif kind < 0.88:
            inst = str(rng.choice(["new", "radar"]))
            tail = str(rng.choice(["", "_out", "_20050101", "_20050101_x",
                                   "_2005_2006"]))
            name = "{:s}_{:s}{:s}.{:s}".format(inst, hname, tail, bound)
            ent = Entry(name, inst, hemi, bound, dated=False)
        else:
            good = False
            name = str(rng.choice([
                "README.md", "README_north_1.ocb", "notes.txt", "files.py",
                "image_north_circle.txt", "image_north_circle.ocb.bak",
                "image_east_circle." + bound, "bound." + bound,
                "sub_north_dir." + bound]))
            ent = None
        if good and rng.random() < 0.15:
            # The letters of the name may be of any size
            name = [name.upper(), name.capitalize(),
                    name[:-3] + name[-3:].upper()][int(rng.integers(3))]
            ent.name = name
        if name.lower() in taken:
            continue
        taken.add(name.lower())
        path = os.path.join(place, name)
        if not good:
            other.append(name)
            if name.startswith("sub"):
                os.mkdir(path)
                continue
            with open(path, "w") as fout:
                fout.write("nothing\n")
            continue
        with open(path, "w") as fout:
            fout.write("2001 1 1 1 1 1 1 1 1\n")
        entries.append(ent)
    return entries, other


class Directory(object):
    """Replace the boundary directory of the package."""

    def __init__(self, case):
        self.place = os.path.join(os.path.realpath(case.tmp), "d{:d}".format(
            next(gen.COUNT)), "ocbpy", "boundaries")
        os.makedirs(self.place)

    def __enter__(self):
        import ocbpy
        import ocbpy.boundaries.files as files

        self.pkg = ocbpy.boundaries
        self.files = files
        self.keep = (ocbpy.boundaries.__file__, files.get_boundary_directory)
        self.pkg.__file__ = os.path.join(self.place, "__init__.py")
        sentinel = os.path.join(self.place, "sentinel_north_20000101_20010101"
                                ".zzz")
        with open(sentinel, "w") as fout:
            fout.write("1\n")
        if os.path.basename(sentinel) not in files.get_boundary_files("zzz"):
            files.get_boundary_directory = lambda: self.place
        os.remove(sentinel)
        return self.place

    def __exit__(self, *args):
        self.pkg.__file__, self.files.get_boundary_directory = self.keep
        return False


def draw_range(rng, entries):
    """Draw a time range."""
    kind = int(rng.integers(6))
    if kind == 0:
        return None, None
    if len(entries) > 0 and rng.random() < 0.5:
        ent = entries[int(rng.integers(len(entries)))]
        start, end = ent.start, ent.end
    else:
        start, end = list(KNOWN.values())[int(rng.integers(6))]
    start = dt.datetime(2005, 1, 1) if start is None else start
    end = start + dt.timedelta(days=1500) if end is None else end
    off = dt.timedelta(seconds=int(rng.choice([0, 0, 1, -1, 86400, -86400,
                                               3000000, -3000000])))
    if kind == 1:
        out = start, end
    elif kind == 2:
        out = end + off, end + dt.timedelta(days=40)
    elif kind == 3:
        out = start - dt.timedelta(days=40), start + off
    elif kind == 4:
        mid = start + (end - start) / 2
        out = mid, mid + dt.timedelta(hours=int(rng.integers(0, 30)))
    else:
        # An open range, or a single time at the ends of that of a file
        out = [(start, None), (None, end), (start, start), (end, end),
               (start - dt.timedelta(seconds=1),) * 2,
               (end + dt.timedelta(seconds=1),) * 2][int(rng.integers(6))]
    return out


def select(entries, stime, etime, hemi, inst, bound):
    """Choose the files that may be used."""
    insts = GROUP.get(inst, [inst])
    good = list()
    for ent in entries:
        if ent.bound != bound or ent.hemi != hemi or ent.inst not in insts:
            continue
        if stime is not None and etime is not None:
            if not ent.dated or etime < ent.start or (
                    ent.end is not None and stime > ent.end):
                continue
        good.append(ent)
    if len(good) == 0:
        return good
    rank = [RANK.index(ent.inst) if ent.inst in RANK else len(RANK)
            for ent in good]
    return [ent for ent, rr in zip(good, rank) if rr == min(rank)]


@contextlib.contextmanager
def shuffled(rng):
    """List directories in another order."""
    real = os.listdir

    def listdir(*args, **kwargs):
        out = real(*args, **kwargs)
        rng.shuffle(out)
        return out

    os.listdir = listdir
    try:
        yield
    finally:
        os.listdir = real


@suite.group(220, 4000)
def choose(case):
    """The listed files and the one that is chosen."""
    import ocbpy.boundaries.files as files

    rng = case.rng
    spot = Directory(case)
    entries, other = populate(case, spot.place)
    case.show(files=[ent.name for ent in entries], other=other)
    with spot as place:
        case.check(os.path.realpath(case.call(files.get_boundary_directory))
                   == place, "boundary directory")
        for bound in ("ocb", "eab", "OCB", "Eab", "abc"):
            got = case.call(files.get_boundary_files, bound) \
                if bound != "ocb" or rng.random() < 0.5 \
                else case.call(files.get_boundary_files)
            want = {ent.name: ent for ent in entries
                    if ent.bound == bound.lower()}
            case.same(sorted(got), sorted(want), bound + " files")
            for name, ent in want.items():
                case.same((got[name]["instrument"], got[name]["hemisphere"]),
                          (ent.inst, ent.hemi), "information of " + name)
                if ent.dated:
                    case.same(got[name]["stime"], ent.start, "start of "
                              + name)
                    end = got[name]["etime"]
                    if ent.end is not None:
                        case.same(end, ent.end, "end of " + name)
                    else:
                        case.check(end > dt.datetime.today() and end
                                   - dt.datetime.today() <= dt.timedelta(
                                       days=1.1), "end of " + name, end)
        for _ in range(8):
            hemi = int(rng.choice([1, -1]))
            bound = str(rng.choice(["ocb", "eab"]))
            stime, etime = draw_range(rng, entries)
            inst = str(rng.choice(["", "", "", "image", "ampere", "amp",
                                   "si12", "si13", "wic", "dmsp-ssj", "new",
                                   "radar", "magnetometer-chain",
                                   "none"]))
            want = select(entries, stime, etime, hemi, inst, bound)
            kwargs = {}
            if inst != "" or rng.random() < 0.5:
                kwargs["instrument"] = inst
            if bound != "ocb" or rng.random() < 0.5:
                kwargs["bound"] = bound
            case.show(start=str(stime), end=str(etime), hemi=hemi, inst=inst,
                      bound=bound)
            got = case.call(files.get_default_file, stime, etime, hemi,
                            **kwargs)
            with shuffled(rng):
                again = case.call(files.get_default_file, stime, etime, hemi,
                                  **kwargs)
            case.same(again, got, "choice for another order of the directory")
            if len(want) == 0:
                case.check(got[0] is None, "file for an unavailable range",
                           got[0])
                case.same(got[1], inst, "instrument without a file")
            else:
                case.check(got[0] in [os.path.join(place, ent.name)
                                      for ent in want], "default file",
                           got[0], [ent.name for ent in want])
                name = want[0].inst
                case.same(got[1], LONG.get(name, name), "instrument")
            case.seen(sorted(ent.name for ent in entries), str(stime),
                      str(etime), hemi, inst, bound)


@suite.group(60, 900)
def load(case):
    """The boundary classes load the default file."""
    import ocbpy

    rng = case.rng
    spot = Directory(case)
    entries, recs = list(), dict()
    for inst in KNOWN:
        for hname, hemi in (("north", 1), ("south", -1)):
            for bound in ("ocb", "eab"):
                if rng.random() < 0.5:
                    continue
                name = "{:s}_{:s}_circle.{:s}".format(inst, hname, bound)
                ent = Entry(name, inst, hemi, bound, *KNOWN[inst])
                kind = LONG.get(inst, inst)
                num = int(rng.integers(1, 6))
                rows, recs[name] = gen.records(
                    rng, num, kind, start=ent.start + dt.timedelta(days=200),
                    gap=(60, 300), fom="good", rad=(9.0, 22.0))
                fname = gen.write_file(case, kind, rows, name)
                os.rename(fname, os.path.join(spot.place, name))
                entries.append(ent)
    case.show(files=[ent.name for ent in entries])
    with spot as place:
        for _ in range(4):
            hemi = int(rng.choice([1, -1]))
            stime, etime = draw_range(rng, entries)
            if stime is not None and etime is not None and stime > etime:
                stime, etime = etime, stime
            inst = {bb: str(rng.choice(["", "", "image", "ampere", "si12",
                                        "si13", "wic", "dmsp-ssj"]))
                    for bb in ("ocb", "eab")}
            if rng.random() < 0.2:
                inst = {bb: ii.upper() for bb, ii in inst.items()}
            cls = str(rng.choice(["ocb", "eab", "dual"]))
            opts = {"hemisphere": hemi}
            if hemi == 1 and rng.random() < 0.3:
                del opts["hemisphere"]
            if stime is not None or rng.random() < 0.3:
                opts["stime"] = stime
            if etime is not None or rng.random() < 0.3:
                opts["etime"] = etime
            case.show(cls=cls, inst=inst, opts=opts)
            fill = "default" if rng.random() < 0.5 else "DEFAULT"
            if cls == "dual":
                opts.update({"ocb_instrument": inst["ocb"],
                             "eab_instrument": inst["eab"]})
                if rng.random() < 0.5:
                    opts.update({"ocb_filename": fill, "eab_filename": fill})
                obj = case.call(ocbpy.DualBoundary, **opts)
                pairs = [("ocb", obj.ocb), ("eab", obj.eab)]
            else:
                opts["instrument"] = inst[cls]
                if rng.random() < 0.5:
                    opts["filename"] = fill
                obj = case.call(ocbpy.OCBoundary if cls == "ocb"
                                else ocbpy.EABoundary, **opts)
                pairs = [(cls, obj)]
            for bound, obj in pairs:
                want = select(entries, stime, etime, hemi, inst[bound].lower(),
                              bound)
                if len(want) == 0:
                    case.check(obj.filename is None, "file", obj.filename)
                    case.same(int(obj.records), 0, "records without a file")
                    case.seen(cls, hemi, inst, "no file", str(stime))
                    continue
                name = want[0].name
                case.same(obj.filename, os.path.join(place, name),
                          "default file")
                case.same(obj.instrument, LONG.get(want[0].inst,
                                                   want[0].inst), "instrument")
                keep = [rec for rec in recs[name]
                        if (stime is None or rec.dtime >= stime)
                        and (etime is None or rec.dtime <= etime)]
                case.same(int(obj.records), len(keep), "records")
                if len(keep) > 0:
                    case.same(list(obj.dtime), [rec.dtime for rec in keep],
                              "times of the default file")
                    case.close_to(obj.r, [rec.rad for rec in keep], 1e-9,
                                  "radii of the default file")
                case.seen(cls, hemi, inst, name, len(keep), str(stime))


@suite.group(12, 60)
def missing(case):
    """A directory that is missing or misnamed is refused."""
    import ocbpy
    import ocbpy.boundaries.files as files

    rng = case.rng
    keep = ocbpy.boundaries.__file__
    kind = int(rng.integers(3))
    name = [("ocbpy", "boundaries"), ("other", "boundaries"),
            ("ocbpy", "bound")][kind]
    path = os.path.join(os.path.realpath(case.tmp), "d{:d}".format(
        next(gen.COUNT)), *name)
    if kind > 0:
        os.makedirs(path)
    try:
        ocbpy.boundaries.__file__ = os.path.join(path, "__init__.py")
        case.show(path=path)
        case.raises(OSError, files.get_boundary_directory)
    finally:
        ocbpy.boundaries.__file__ = keep
    case.check(os.path.isdir(case.call(files.get_boundary_directory)),
               "directory of the package")
    case.seen(kind, path)
