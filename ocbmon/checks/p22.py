"""P22: calls do not alter the input of the caller or the process."""

import datetime as dt
import os
import sys
import zlib

import numpy as np

from ocbmon import workload
from ocbmon.core import Suite

suite = Suite("P22", "every call of the workloads of all other suites, below "
              "a monitor that compares the arguments, everything that was "
              "handed over earlier, the records of the boundary objects, the "
              "input files, and the state of the process before and after; "
              "non-trivial by function and argument values",
              ["the record index of a boundary that is handed to a function "
               "that cycles through records moves by design",
               "pysat data sets are extended by design"])

PLAIN = (bool, int, float, complex, str, bytes, type(None), dt.datetime,
         dt.date, dt.timedelta, np.generic)
# Methods that change the object they belong to
CHANGE = ("load", "__init__", "set_good_ind", "get_next_good_ind",
          "get_next_good_ocb_ind")
KEEP = ("records", "dtime", "phi_cent", "r_cent", "r", "fom", "x", "y", "sc",
        "x_1", "y_1", "x_2", "y_2", "year", "soy", "num_sectors", "a",
        "r_err", "hemisphere", "boundary_lat", "filename", "instrument",
        "min_fom", "max_fom", "rfunc", "rfunc_kwargs")


def snap(val, depth=0):
    """Provide a token that changes whenever the value does."""
    if depth > 8:
        return None
    if isinstance(val, np.ma.MaskedArray):
        return ("masked", snap(np.asarray(val.data)),
                snap(np.ma.getmaskarray(val)))
    if isinstance(val, np.ndarray):
        if val.dtype == object:
            return ("objects", val.shape, tuple(snap(vv, depth + 1) for vv in
                                                val.ravel()))
        return ("array", val.dtype.str, val.shape, val.tobytes())
    if isinstance(val, PLAIN):
        return (type(val).__name__, repr(val))
    if isinstance(val, (list, tuple)):
        return (type(val).__name__, tuple(snap(vv, depth + 1) for vv in val))
    if isinstance(val, dict):
        return ("dict", tuple((repr(kk), snap(vv, depth + 1)) for kk, vv in
                              val.items()))
    if isinstance(val, set):
        return ("set", tuple(sorted(map(repr, val))))
    name = type(val).__name__
    if name in ("OCBoundary", "EABoundary"):
        return records(val)
    if name == "DualBoundary":
        return (records(val.ocb), records(val.eab))
    if name in ("Series", "DataFrame", "DatetimeIndex", "Index"):
        return (name, snap(np.asarray(val)))
    if callable(val):
        return ("callable", id(val))
    return None


def records(obj):
    """Provide a token for the records and settings of a boundary object."""
    return tuple((kk, snap(getattr(obj, kk), 2)) for kk in KEEP
                 if hasattr(obj, kk))


def process():
    """Provide a token for the state of the process."""
    rand = np.random.get_state()
    return {"working directory": os.getcwd(),
            "environment": tuple(sorted(os.environ.items())),
            "numpy error handling": repr(np.geterr()),
            "numpy print options": repr(sorted(
                np.get_printoptions().items(), key=str)),
            "random state": (rand[1].tobytes(), rand[2]),
            "output streams": (id(sys.stdout), id(sys.stderr)),
            "file mode mask": mask()}


def mask():
    """Obtain the mask of the file modes."""
    old = os.umask(0o022)
    os.umask(old)
    return old


def files(func, args, kwargs):
    """Provide the content of the input files."""
    out, name = dict(), getattr(func, "__name__", "")
    if name.startswith("fetch"):
        return out
    vals = list(args[:1] if name.endswith("2ascii_ocb") else args)
    vals.extend(kwargs[kk] for kk in kwargs if kk not in ("outfile",
                                                          "out_dir"))
    for val in vals:
        for vv in val if isinstance(val, (list, tuple)) else [val]:
            if isinstance(vv, str) and os.path.isfile(vv) and os.path.getsize(
                    vv) < 1e7:
                with open(vv, "rb") as fin:
                    out[vv] = fin.read()
    return out


def monitor(load, func, args, kwargs):
    """Compare the caller's side before and after a call."""
    name = getattr(func, "__qualname__", str(func))
    last = getattr(func, "__name__", "")
    own = getattr(func, "__self__", None)
    held = load.state.setdefault("held", dict())
    given = [("argument {:d}".format(ii), aa) for ii, aa in enumerate(args)]
    given.extend(("argument " + kk, kwargs[kk]) for kk in kwargs)
    if own is not None and type(own).__name__ in (
            "OCBoundary", "EABoundary", "DualBoundary") and (
                last not in CHANGE):
        given.append(("object", own))
    for _, aa in given:
        if isinstance(aa, (np.ndarray, list, dict)) and len(held) < 200:
            held[id(aa)] = aa
    before = [snap(aa) for _, aa in given]
    earlier = {kk: snap(aa) for kk, aa in held.items()}
    ind = getattr(own, "rec_ind", None)
    user = args[0] if last == "retrieve_all_good_indices" and args else None
    uind = getattr(user, "rec_ind", None)
    content = files(func, args, kwargs)
    state = process()
    try:
        return load.plain(func, *args, **kwargs)
    finally:
        after = process()
        for key in state:
            if state[key] != after[key]:
                raise workload.Alarm("{:s} changed the {:s}".format(name, key))
        for (desc, aa), old in zip(given, before):
            if snap(aa) != old:
                raise workload.Alarm("{:s} changed its {:s}, which is now "
                                     "{:.300s}, and was {:.300s}".format(
                                         name, desc, repr(aa), repr(old)))
        for kk, old in earlier.items():
            if snap(held[kk]) != old:
                raise workload.Alarm("{:s} changed the input of an earlier "
                                     "call, which is now {:.300s}".format(
                                         name, repr(held[kk])))
        if given and given[-1][0] == "object" and ind is not None and (
                own.rec_ind != ind):
            raise workload.Alarm("{:s} changed the record index".format(name))
        if getattr(user, "rec_ind", None) != uind:
            raise workload.Alarm("{:s} changed the record index from {:} to "
                                 "{:}".format(name, uind, user.rec_ind))
        for path, old in content.items():
            with open(path, "rb") as fin:
                if fin.read() != old:
                    raise workload.Alarm("{:s} changed its input file".format(
                        name))
        load.run.n_asserts += len(given) + len(earlier) + len(content)
        if len(given) > 0:
            load.note(name, zlib.crc32(repr(before).encode()))


workload.attach(suite, monitor, 0.12)
