"""P21: fetching DMSP SSJ files delivers everything, or fails cleanly."""

import contextlib
import datetime as dt
import io
import os
import sys
import zipfile


from ocbmon import gen
from ocbmon.checks import p19
from ocbmon.checks import p20
from ocbmon.core import Suite

suite = Suite("P21", "random archives, requests (satellites, days, "
              "directories, temporary files kept or not), and earlier files, "
              "fetched through a stand-in of the download that succeeds, "
              "finds the archive in place, or fails at one of its steps "
              "(connection, abort, exit, checksum, message, archive missing, "
              "truncated, damaged, disk full, removal refused); non-trivial "
              "by request and fault",
              ["the download is replaced by a stand-in, because there is no "
               "network"], level="fault_enumeration")

# Each fault, with the exception that has to reach the caller
FAULTS = {"connection": (ConnectionError, OSError),
          "doi": (ValueError, ), "exit": (IOError, ),
          "checksum": (IOError, ), "silent": (IOError, ),
          "no link": (IOError, ), "no zip": (IOError, ),
          "link at end": (IOError, ),
          "missing": (IOError, ), "truncated": (Exception, ),
          "damaged": (Exception, ), "disk full": (OSError, ),
          "interrupt": (KeyboardInterrupt, )}


class Aborted(Exception):
    """The stand-in failed in an unforeseen way."""


class Zenodo(object):
    """Stand-in for the download of an archive."""

    def __init__(self, rng, content, fault, out_dir, kept):
        self.rng = rng
        self.content = content
        self.fault = fault
        self.out_dir = out_dir
        self.kept = kept
        self.args = list()
        self.name = str(rng.choice(["fom30.zip", "dmsp.zip", "v1.0.0.zip"]))
        self.link = "https://zenodo.org/records/3373812/files/" + self.name
        if rng.random() < 0.3:
            self.link = "https://zenodo.org/api/records/3373812/files/{:s}/" \
                "content".format(self.name)

    def archive(self, path):
        """Write the archive."""
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED if
                             self.rng.random() < 0.5
                             else zipfile.ZIP_STORED) as zref:
            for name, text in self.content.items():
                zref.writestr(name, text)
        if self.fault == "truncated":
            os.truncate(path, os.path.getsize(path) // 2)
        elif self.fault == "damaged":
            # Damage the data of every member
            with zipfile.ZipFile(path) as zref:
                spots = [(info.header_offset + 30 + len(info.filename),
                          info.compress_size) for info in zref.infolist()]
            with open(path, "r+b") as fout:
                for start, size in spots:
                    fout.seek(start)
                    data = fout.read(size)
                    fout.seek(start)
                    fout.write(bytes(bb ^ 0x55 for bb in data))

    def __call__(self, argv=None):
        self.args.append(list(argv))
        place = argv[argv.index("-o") + 1]

        def say(text):
            print(text, file=sys.stderr)

        say("Title: DMSP")
        if self.fault == "connection":
            say("Connection error.")
            raise ConnectionError("no network")
        if self.fault == "doi":
            raise ValueError("DOI", argv[0])
        if self.fault == "silent":
            return
        with open(os.path.join(place, "md5sums.txt"), "w") as fout:
            fout.write("0123  {:s}\n".format(self.name))
        if self.fault == "no zip":
            say("Link: https://zenodo.org/records/1/files/table.csv  size: 1")
        elif self.fault == "link at end":
            pass
        elif self.fault != "no link":
            say("\nLink: {:s}   size: 3.0 MB".format(self.link))
        if self.fault == "exit":
            if self.rng.random() < 0.5:
                say("Checksum is INCORRECT!(0123 got:4567)")
            raise SystemExit(1)
        if self.fault == "interrupt":
            raise KeyboardInterrupt()
        if self.fault == "checksum":
            say("Checksum is INCORRECT!(0123 got:4567)")
            return
        path = os.path.join(place, self.name)
        if self.fault != "missing":
            self.archive(path)
        if self.rng.random() < 0.5:
            say("{:s} is already downloaded correctly.".format(self.name))
        else:
            print("100% [....]")
            say("\nChecksum is correct. (0123)")
        say("All files have been downloaded.")
        if self.fault == "link at end":
            say("Link:")


@contextlib.contextmanager
def stand_in(ssj, zenodo):
    """Replace the download and watch the output streams."""
    keep = ssj.zenodo_get.zenodo_get
    streams = (sys.stdout, sys.stderr)
    mine = (io.StringIO(), io.StringIO())
    ssj.zenodo_get.zenodo_get = zenodo
    sys.stdout, sys.stderr = mine
    try:
        yield mine
    finally:
        zenodo.streams = (sys.stdout, sys.stderr) == mine
        sys.stdout, sys.stderr = streams
        ssj.zenodo_get.zenodo_get = keep


def draw_content(rng, format_ok=False):
    """Draw the files of an archive, by satellite and day."""
    base = dt.datetime(int(rng.integers(2010, 2015)), int(rng.integers(1, 13)),
                       int(rng.integers(1, 29)))
    out, rows = dict(), dict()
    many = rng.random() < (0.05 if format_ok else 0.02)
    for _ in range(int(rng.integers(200, 400) if many else
                       rng.integers(1, 9))):
        sat = int(rng.integers(16, 19))
        day = base + dt.timedelta(days=int(rng.integers(
            0, 100 if many else 5)))
        name = p20.csv_name(sat, day)
        rows[name] = (sat, day, p20.draw_rows(rng, int(rng.integers(1, 3)))
                      if format_ok else None)
        out[name] = "data {:d}\n".format(int(rng.integers(10**9))) * int(
            rng.integers(1, 400))
    return base, out, rows


def draw_request(rng, base, rows, sat_ok=True):
    """Draw a request and the names of the wanted files."""
    last = max((day for _, day, _ in rows.values()), default=base)
    start, end = [None if rng.random() < 0.3 else base + dt.timedelta(
        days=int(rng.integers(-1, max(7, (last - base).days + 3))))
        for _ in range(2)]
    if start is not None and end is not None and end < start:
        start, end = end, start
    sats = None
    if sat_ok and rng.random() < 0.5:
        sats = [int(ss) for ss in rng.permutation([16, 17, 18])[:int(
            rng.integers(0, 4))]]
    names = [name for name, (sat, day, _) in rows.items()
             if (sats is None or sat in sats)
             and (start is None or day >= start) and (end is None or day
                                                      < end)]
    return start, end, sats, names


def state(place):
    """Read all files below a directory."""
    out = dict()
    for root, _, names in os.walk(place):
        for name in names:
            path = os.path.join(root, name)
            with open(path, "rb") as fin:
                out[os.path.relpath(path, place)] = fin.read()
    return out


def prepare(case, content):
    """Create the directory, with files of others."""
    place = os.path.join(os.path.realpath(case.tmp), "d{:d}".format(next(
        gen.COUNT)), "ocbpy", "boundaries")
    os.makedirs(place)
    for name in ("mine.txt", "dmsp-ssj_north_out.ocb", "other.zip"):
        if case.rng.random() < 0.5:
            with open(os.path.join(place, name), "w") as fout:
                fout.write("keep {:d}\n".format(int(case.rng.integers(
                    10**9))))
    # An earlier version of a file, which is replaced
    old = [name for name in content if case.rng.random() < 0.2]
    for name in old:
        with open(os.path.join(place, name), "w") as fout:
            fout.write("old\n")
    return place, state(place), old


def ask(case, ssj, zenodo, place, func, args, opts, default):
    """Run a request within the stand-in."""
    err = out = None
    spot = contextlib.nullcontext()
    if default:
        spot = p19.Directory(case)
        spot.place = place
    with spot, stand_in(ssj, zenodo) as mine:
        try:
            out = case.call(func, *args, **opts)
        except (Exception, SystemExit, KeyboardInterrupt) as exc:
            err = exc
    case.check(zenodo.streams, "output streams are not restored")
    case.check(mine[0].getvalue() + mine[1].getvalue() == "",
               "messages of the download are printed", mine[0].getvalue()[:99])
    return out, err


@suite.group(120, 2000)
def fetch(case):
    """Every requested file arrives, with its content, and nothing else."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    base, content, rows = draw_content(rng)
    place, before, _ = prepare(case, content)
    start, end, sats, names = draw_request(rng, base, rows)
    zenodo = Zenodo(rng, content, None, place, None)
    default = rng.random() < 0.25
    opts = {"stime": start, "etime": end}
    if sats is not None:
        opts["sat_nums"] = sats
    if not default:
        opts["out_dir"] = place
    rm_temp = bool(rng.random() < 0.6)
    if not rm_temp or rng.random() < 0.3:
        opts["rm_temp"] = rm_temp
    if rng.random() < 0.2:
        opts["doi"] = "10.5281/zenodo.1234567"
    case.show(content=list(content), opts=opts, names=names)
    out, err = ask(case, ssj, zenodo, place, ssj.fetch_ssj_boundary_files, [],
                   opts, default)
    case.check(err is None, "unexpected " + repr(err))
    case.same(sorted(os.path.realpath(str(ff)) for ff in out), sorted(
        os.path.join(place, name) for name in names), "fetched files")
    case.same(len(zenodo.args), 1, "number of downloads")
    case.same(zenodo.args[0][0], opts.get("doi", "10.5281/zenodo.3373811"),
              "archive")
    after = state(place)
    want = dict(before)
    want.update({name: content[name].encode() for name in names})
    if not rm_temp:
        case.check(zenodo.name in after, "archive is kept")
        want[zenodo.name] = after[zenodo.name]
    case.same(sorted(after), sorted(want), "files after fetching")
    for name in want:
        case.check(after[name] == want[name], "content of " + name,
                   after[name][:60], want[name][:60])
    case.seen(str(start), str(end), sats, sorted(content), rm_temp)


@suite.group(len(FAULTS) * 8, len(FAULTS) * 120)
def fault(case):
    """A failed download raises the error and delivers nothing."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    name = list(FAULTS)[case.index % len(FAULTS)]
    base, content, rows = draw_content(rng)
    place, before, old = prepare(case, content)
    start, end, sats, names = draw_request(rng, base, rows)
    if len(names) == 0:
        start = end = sats = None
        names = list(content)
    zenodo = Zenodo(rng, content, name, place, None)
    both = rng.random() < 0.3 and sats is None
    opts = {"out_dir": place}
    if sats is not None:
        opts["sat_nums"] = sats
    if rng.random() < 0.5:
        opts["rm_temp"] = bool(rng.random() < 0.5)
    func = ssj.fetch_format_ssj_boundary_files if both \
        else ssj.fetch_ssj_boundary_files
    case.show(fault=name, content=list(content), start=str(start),
              end=str(end), opts=opts, func=func.__name__)
    keep = zipfile.ZipFile._extract_member
    if name == "disk full":
        # The disk fills up while one of the files is extracted
        left = [int(rng.integers(0, len(names)))]

        def extract(self, member, targetpath, pwd):
            if left[0] == 0:
                raise OSError(28, "No space left on device")
            left[0] -= 1
            return keep(self, member, targetpath, pwd)

        zipfile.ZipFile._extract_member = extract
    try:
        out, err = ask(case, ssj, zenodo, place, func, [start, end], opts,
                       False)
    finally:
        zipfile.ZipFile._extract_member = keep
    case.check(err is not None, "no error after the fault: " + name, out)
    case.check(isinstance(err, FAULTS[name]), "unexpected {:s} after the "
               "fault: {:s}".format(repr(err), name))
    case.check(isinstance(err, KeyboardInterrupt) or isinstance(
        err, Exception), "error ends the program", repr(err))
    # The files of others are not touched
    after = state(place)
    for ff, text in before.items():
        if ff in content and name in ("truncated", "damaged", "disk full"):
            continue
        case.check(after.get(ff) == text, "file after the fault: " + ff,
                   after.get(ff, b"")[:60])
    extra = [ff for ff in after if ff not in before and ff not in (
        "md5sums.txt", zenodo.name)]
    if name in ("truncated", "damaged", "disk full"):
        extra = [ff for ff in extra if ff not in content]
    case.same(extra, [], "files after the fault: " + name)
    # The next request is not affected
    zenodo.fault = None
    start, end, sats, names = draw_request(rng, base, rows, False)
    out, err = ask(case, ssj, zenodo, place, ssj.fetch_ssj_boundary_files,
                   [start, end], {"out_dir": place}, False)
    case.check(err is None, "unexpected " + repr(err))
    case.same(sorted(os.path.realpath(str(ff)) for ff in out), sorted(
        os.path.join(place, nn) for nn in names), "files after another fault")
    for nn in names:
        with open(os.path.join(place, nn)) as fin:
            case.check(fin.read() == content[nn], "content after a fault", nn)
    case.check("md5sums.txt" not in state(place), "checksum file remains")
    case.seen(name, str(start), sorted(content), both)


@suite.group(30, 500)
def both(case):
    """Files are fetched, formatted, and cleaned up."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    base, content, rows = draw_content(rng, True)
    for name, (sat, day, lines) in rows.items():
        path = os.path.join(case.tmp, name)
        p20.write_csv(rng, path, lines)
        with open(path) as fin:
            content[name] = fin.read()
    place, before, old = prepare(case, content)
    for name in old:
        del before[name]
    start, end, _, names = draw_request(rng, base, rows, False)
    zenodo = Zenodo(rng, content, None, place, None)
    default = rng.random() < 0.25
    method, alt = "GEOCENTRIC|ALLOWTRACE", 830.0
    opts = {} if default else {"out_dir": place}
    rm_temp = bool(rng.random() < 0.6)
    if not rm_temp or rng.random() < 0.3:
        opts["rm_temp"] = rm_temp
    if rng.random() < 0.3:
        alt = opts["ref_alt"] = float(rng.choice([110.0, 500.0]))
    if rng.random() < 0.3:
        method = opts["method"] = str(rng.choice(["GEOCENTRIC",
                                                  "ALLOWTRACE"]))
    case.show(content=list(content), opts=opts, start=str(start),
              end=str(end), names=names)
    out, err = ask(case, ssj, zenodo, place,
                   ssj.fetch_format_ssj_boundary_files, [start, end], opts,
                   default)
    after = state(place)
    if len(names) == 0:
        case.check(isinstance(err, ValueError), "no files in the range",
                   repr(err), out)
        case.check(not any(ff.endswith(("ocb", "eab")) and ff not in before
                           for ff in after), "output without files", list(
                               after))
        case.seen("none", str(start), str(end))
        return
    case.check(err is None, "unexpected " + repr(err))
    want = {(hh, bb): list() for hh in (1, -1) for bb in ("PO", "EQ")}
    for name in names:
        sat, day, lines = rows[name]
        for row in lines:
            for bb in ("PO", "EQ"):
                want[row["hemisphere"], bb].append(p20.model_line(
                    sat, day, row, bb, alt, method))
    p20.judge(case, [os.path.realpath(str(ff)) for ff in out], place,
              [rows[name][1] for name in names], want, 5.1e-4)
    files = set(before) | set(os.path.basename(str(ff)) for ff in out)
    files |= set(nn for nn in old if nn not in names)
    if not rm_temp:
        files |= set(names) | set([zenodo.name])
    case.same(sorted(after), sorted(files), "files after formatting")
    for ff, text in before.items():
        case.check(after[ff] == text, "file of another: " + ff)
    case.seen(str(start), str(end), sorted(content), rm_temp, alt, method)


@suite.group(20, 200)
def refused(case):
    """Unknown satellites and directories are refused before a download."""
    import ocbpy.boundaries.dmsp_ssj_files as ssj

    rng = case.rng
    base, content, rows = draw_content(rng)
    place, before, _ = prepare(case, content)
    zenodo = Zenodo(rng, content, None, place, None)
    opts = {"out_dir": place}
    kind = int(rng.integers(3))
    if kind == 0:
        sats = [int(ss) for ss in rng.choice([16, 17, 18], 2)]
        sats.insert(int(rng.integers(3)), int(rng.choice([-47, 0, 15, 19,
                                                          20])))
        opts["sat_nums"] = sats
    elif kind == 1:
        opts["out_dir"] = os.path.join(place, "missing")
    else:
        opts["out_dir"] = os.path.join(place, "file")
        with open(opts["out_dir"], "w") as fout:
            fout.write("1\n")
        before = state(place)
    func = ssj.fetch_ssj_boundary_files
    if kind > 0 and rng.random() < 0.5:
        func = ssj.fetch_format_ssj_boundary_files
    case.show(opts=opts, func=func.__name__)
    out, err = ask(case, ssj, zenodo, place, func, [None, base], opts, False)
    case.check(isinstance(err, ValueError), "request is not refused",
               repr(err), out)
    case.same(len(zenodo.args), 0, "downloads of a refused request")
    case.check(state(place) == before, "files of a refused request")
    case.seen(kind, opts, str(base))
