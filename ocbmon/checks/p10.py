"""P10: every supported time format gives the same calendar time."""

import calendar
import datetime as dt

import numpy as np

from ocbmon import refs
from ocbmon.core import Suite

suite = Suite("P10", "random instants from 1900 to 2099, weighted towards leap "
              "days and the ends of days, months, and years, written in each "
              "supported format; non-trivial by format and instant",
              ["seconds of day are resolved to microseconds, other formats to "
               "seconds"])


def draw_time(rng):
    """Draw a whole second."""
    year = int(rng.integers(1901, 2099))
    if rng.random() < 0.3:
        year = int(rng.choice([1900, 1904, 1999, 2000, 2001, 2004, 2016, 2020,
                               2099, 2100, 2104, 2110, 2399, 2400]))
    kind = int(rng.integers(5))
    if kind == 0:
        base = dt.datetime(year, 12, 31)
    elif kind == 1:
        base = dt.datetime(year, 1, 1)
    elif kind == 2:
        base = dt.datetime(year, 2, 28) + dt.timedelta(
            days=int(rng.integers(3)))
    else:
        base = dt.datetime(year, 1, 1) + dt.timedelta(
            days=int(rng.integers(365)))
    kind = int(rng.integers(5))
    sec = [0, 86399, 86340 + int(rng.integers(60)), int(rng.integers(86400)),
           int(rng.integers(24)) * 3600][kind]
    return base, sec


@suite.group(300)
def year_soy(case):
    """Year and seconds of year follow the calendar."""
    import ocbpy.ocb_time as ot

    rng = case.rng
    year = int(rng.integers(1900, 2110))
    num = 86400 * (366 if calendar.isleap(year) else 365)
    kind = int(rng.integers(6))
    soy = [int(rng.integers(num)), num - 1 - int(rng.integers(3)),
           86400 * int(rng.integers(num // 86400)),
           86400 * int(rng.integers(1, num // 86400)) - 1,
           3600 * int(rng.integers(num // 3600)) - int(rng.integers(2)),
           60 * int(rng.integers(num // 60))][kind]
    soy = max(soy, 0)
    frac = 0.0 if rng.random() < 0.5 else round(float(rng.uniform(
        -0.49, 0.49)), 3)
    if soy == 0:
        frac = abs(frac)
    elif rng.random() < 0.03:
        # The end of the year, within half a second
        soy, frac = num, -round(float(rng.uniform(0.001, 0.499)), 3)
    want = refs.from_year_seconds(year, soy)
    if frac == 0.0:
        form = str(rng.choice(["int", "float", "np.int", "np.float"]))
        val = {"int": int, "float": float, "np.int": np.int64,
               "np.float": np.float64}[form](soy)
    else:
        form, val = "fraction", soy + frac
    yin = np.int64(year) if rng.random() < 0.3 else year
    case.show(year=yin, soy=val)
    case.same(case.call(ot.year_soy_to_datetime, yin, val), want,
              "year and seconds of year")
    case.same(case.call(ot.convert_time, year=yin, soy=val), want,
              "converted year and seconds of year")
    extra = {"yyddd": "101001", "date": "1950-01-01", "tod": "01:00:00",
             "datetime_fmt": "YEAR SOY"}
    keys = [kk for kk in extra if rng.random() < 0.4]
    case.same(case.call(ot.convert_time, year=yin, soy=val,
                        **{kk: extra[kk] for kk in keys}), want,
              "year and seconds of year beside other input")
    case.seen(year, soy, frac, form)


@suite.group(300)
def yyddd(case):
    """Years since 1900 and day of year, with each time of day format."""
    import ocbpy.ocb_time as ot

    rng = case.rng
    base, sec = draw_time(rng)
    doy = base.toordinal() - dt.date(base.year, 1, 1).toordinal() + 1
    text = "{:d}{:03d}".format(base.year - 1900, doy)
    if base.year >= 1910 and rng.random() < 0.2:
        text += str(rng.choice([".0", ".25", ".", ".75", ".9999"]))
    case.show(yyddd=text, sec=sec)
    case.same(case.call(ot.yyddd_to_date, text), base, "year and day of year")

    full = base + dt.timedelta(seconds=sec)
    kind = int(rng.integers(4))
    if kind == 0:
        fmt = str(rng.choice(["%Y-%m-%d %H:%M:%S", "YYDDD SOD", "yyddd sod",
                              "%Y-%m-%d SOD", "YYDDD", "%Y-%m-%d"]))
        out = case.call(ot.convert_time, yyddd=text, datetime_fmt=fmt)
        case.same(out, base, "date only with format " + fmt)
    elif kind == 1:
        fmt = str(rng.choice(["%Y-%m-%d %H:%M:%S", "YYDDD SOD", "yyddd sod",
                              "%Y-%m-%d SOD", "YYDDD", "YyDdD SOD"]))
        val = sec
        if rng.random() < 0.6:
            val = sec + round(float(rng.uniform(0, 1)), int(rng.integers(1,
                                                                         7)))
        if rng.random() < 0.1:
            val = 86400 + int(rng.integers(100))
        case.show(sod=val, fmt=fmt)
        out = case.call(ot.convert_time, yyddd=text, sod=val, datetime_fmt=fmt)
        judge_sod(case, out, base, val)
        full = val
    else:
        tod_fmt, dec = [("%H:%M:%S", 1), ("%H %M %S", 1), ("%H%M%S", 1),
                        ("%H:%M", 60), ("%H-%M-%S", 1)][int(rng.integers(5))]
        full = base + dt.timedelta(seconds=sec - sec % dec)
        tod = full.strftime(tod_fmt)
        pre = str(rng.choice(["YYDDD ", "yyddd ", "%Y-%m-%d ", ""]))
        kwargs = {"datetime_fmt": pre + tod_fmt}
        if tod_fmt == "%H:%M:%S" and rng.random() < 0.3:
            kwargs = {}
            if rng.random() < 0.3:
                tod += ".{:d}".format(int(rng.integers(1000)))
        case.show(tod=tod, kwargs=kwargs)
        case.same(case.call(ot.convert_time, yyddd=text, tod=tod, **kwargs),
                  full, "year, day of year, and time of day")
    case.seen(kind, text, str(full))


def judge_sod(case, out, base, val):
    """The time is the requested one to the microsecond."""
    case.check(isinstance(out, dt.datetime), "type of time", out)
    whole = int(val)
    diff = out - (base + dt.timedelta(seconds=whole))
    got = diff.days * 86400 + diff.seconds + diff.microseconds * 1.0e-6
    case.check(abs(got - (val - whole)) <= 1.0e-6 + 2e-10 * (1 + (val > 1000)),
               "seconds of day (got, expected seconds past {:d})".format(
                   whole), got, val - whole)
    if whole == val:
        case.same(out, base + dt.timedelta(seconds=whole), "seconds of day")


@suite.group(300)
def date_tod(case):
    """Date and time of day strings, or date and seconds of day."""
    import ocbpy.ocb_time as ot

    rng = case.rng
    base, sec = draw_time(rng)
    dfmt = str(rng.choice(["%Y-%m-%d", "%Y%m%d", "%d/%m/%Y", "%Y/%m/%d",
                           "%Y-%j", "%d-%b-%Y", "%Y.%m.%d"]))
    date = base.strftime(dfmt)
    kind = int(rng.integers(4))
    case.show(date=date, dfmt=dfmt, sec=sec)
    if kind == 0:
        fmt = dfmt + str(rng.choice(["", " %H:%M:%S", " SOD", " sod"]))
        case.show(fmt=fmt)
        kwargs = {} if dfmt == "%Y-%m-%d" else {"datetime_fmt": fmt}
        case.same(case.call(ot.convert_time, date=date, **kwargs), base,
                  "date only")
    elif kind == 1:
        val = sec
        if rng.random() < 0.6:
            val = sec + round(float(rng.uniform(0, 1)), int(rng.integers(1,
                                                                         7)))
        fmt = dfmt + str(rng.choice(["", " SOD", " sod", " %H:%M:%S"]))
        if rng.random() < 0.2 and dfmt not in ("%Y.%m.%d", ):
            date += str(rng.choice([".0", ".", "T"]))
        # Only a complete year and seconds of year takes precedence
        kwargs = [{}, {}, {"year": 1950}, {"soy": 3600}][int(rng.integers(4))]
        case.show(sod=val, fmt=fmt, date=date, kwargs=kwargs)
        sod = np.float64(val) if rng.random() < 0.3 else val
        judge_sod(case, case.call(ot.convert_time, date=date, sod=sod,
                                  datetime_fmt=fmt, **kwargs), base, val)
    else:
        tod_fmt, dec = [("%H:%M:%S", 1), ("%H %M %S", 1), ("%H%M%S", 1),
                        ("%H:%M", 60), ("%I-%M-%S %p", 1)][int(
                            rng.integers(5))]
        full = base + dt.timedelta(seconds=sec - sec % dec)
        tod = full.strftime(tod_fmt)
        want = full
        if tod_fmt == "%H:%M:%S" and rng.random() < 0.3:
            if rng.random() < 0.5:
                tod += ".{:d}".format(int(rng.integers(100000)))
            else:
                mic = int(rng.integers(1000000))
                tod += ".{:06d}".format(mic)
                tod_fmt += ".%f"
                want = full + dt.timedelta(microseconds=mic)
        elif tod_fmt == "%H:%M" and rng.random() < 0.5:
            # Anything past the end of the format is ignored, including what
            # looks the same as earlier parts
            tod += str(rng.choice([tod[-3:], tod[-3:], ":00", ":59.5", "Z",
                                   tod, ":" + tod[:2]]))
        kwargs = {"datetime_fmt": dfmt + " " + tod_fmt}
        if kwargs["datetime_fmt"] == "%Y-%m-%d %H:%M:%S" and \
                rng.random() < 0.5:
            kwargs = {}
        # Only a complete year and seconds of year takes precedence
        if rng.random() < 0.2:
            kwargs["year"] = 1950
        elif rng.random() < 0.2:
            kwargs["soy"] = 3600
        case.show(tod=tod, kwargs=kwargs)
        case.same(case.call(ot.convert_time, date=date, tod=tod, **kwargs),
                  want, "date and time of day")
    case.seen(kind, date, dfmt, sec)


class Zone(dt.tzinfo):
    """Fixed time zone."""

    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, dtime):
        return dt.timedelta(minutes=self.minutes)

    def dst(self, dtime):
        return dt.timedelta(0)

    def tzname(self, dtime):
        return "UTC"


@suite.group(150)
def text_length(case):
    """The length for a format holds every time written in it."""
    import ocbpy.ocb_time as ot

    rng = case.rng
    codes = list(rng.permutation(["%a", "%A", "%b", "%B", "%Y", "%m", "%d",
                                  "%y", "%H", "%I", "%p", "%M", "%S", "%f",
                                  "%z", "%Z", "%j", "%U", "%W", "%c", "%x",
                                  "%X"]))[:int(rng.integers(1, 9))]
    fmt = "".join(str(cc) + str(rng.choice(["", " ", "-", ":", "/", "T"]))
                  for cc in codes)
    need = 0
    for _ in range(20):
        base, sec = draw_time(rng)
        tt = base + dt.timedelta(seconds=sec, microseconds=int(
            rng.integers(1000000)))
        tt = tt.replace(tzinfo=Zone(int(rng.integers(-720, 721))))
        need = max(need, len(tt.strftime(fmt)))
    for day in range(7):
        for month in range(1, 13):
            tt = dt.datetime(2000, month, 22 + day, 23, 59, 59, 999999,
                             tzinfo=Zone(-90))
            need = max(need, len(tt.strftime(fmt)))
    case.show(fmt=fmt)
    got = case.call(ot.get_datetime_fmt_len, fmt)
    case.check(got >= need, "length is too short for the times", fmt, got,
               need)
    case.seen(fmt, need)
