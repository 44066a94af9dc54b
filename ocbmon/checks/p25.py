"""P25: locations along a satellite track are told from all others."""

import math

import numpy as np

from ocbmon import gen, refs
from ocbmon.core import Suite

suite = Suite("P25", "random tracks (falling, rising, and parallel to either "
              "axis), widths, buffers, and locations (on and next to every "
              "limit, both hemispheres, undefined, any shape); every location "
              "is judged; non-trivial by track and selected locations",
              ["locations within 1e-7 degrees of a limit are not judged",
               "the width along rising tracks follows its own convention, see "
               "the listed finding"])


def draw_track(rng):
    """Draw the two boundary locations of a track."""
    kind = str(rng.choice(["fall", "rise", "flat", "vertical"],
                          p=[0.5, 0.2, 0.15, 0.15]))
    x1, y1, x2, y2 = [round(float(vv), 3) for vv in rng.uniform(-25, 25, 4)]
    if kind == "flat":
        y2 = y1
    elif kind == "vertical":
        x2 = x1
    elif ((y1 - y2) * (x1 - x2) < 0) != (kind == "fall"):
        y1, y2 = y2, y1
    if rng.random() < 0.1:
        # Steep tracks
        if kind == "fall":
            x2 = round(x1 - math.copysign(0.01, y2 - y1), 3)
    return kind, x1, y1, x2, y2


def inside(track, del_x, del_y, past, colat, mlt, sign):
    """Judge one location.

    Returns
    -------
    bool or NoneType
        None too close to a limit

    """
    kind, x1, y1, x2, y2 = track
    if math.isnan(colat) or math.isnan(mlt):
        return False
    ang = math.radians(refs.wrap(mlt, 0.0, 24.0) * 15.0 - 90.0)
    xx, yy = colat * math.cos(ang), colat * math.sin(ang)
    if x1 == x2:
        margin = del_x - abs(xx - x1)
    else:
        slope = (y1 - y2) / (x1 - x2)
        width = del_y + sign * abs(slope) * del_x
        margin = (width - abs(yy - y1 - slope * (xx - x1))) / max(
            1.0, abs(slope))
    if abs(margin) < 1e-7:
        return None
    if margin < 0.0:
        return False
    one, two = math.hypot(xx - x1, yy - y1), math.hypot(xx - x2, yy - y2)
    left = [math.hypot(x1, y1) + past - colat, math.hypot(x2, y2) + past
            - colat]
    if abs(one - two) < 1e-7:
        if left[0] * left[1] <= 0.0:
            return None
    left = left[0] if one <= two else left[1]
    return None if abs(left) < 1e-7 else left > 0.0


@suite.group(400)
def track(case):
    """Every location is judged."""
    import ocbpy

    rng = case.rng
    line = draw_track(rng)
    kind, x1, y1, x2, y2 = line
    hemi = int(rng.choice([1, -1]))
    kwargs, lim = {}, [1.0, 1.0, 5.0]
    for ii, (key, high) in enumerate([("del_x", 6.0), ("del_y", 6.0),
                                      ("past_bound", 20.0)]):
        if rng.random() < 0.7:
            lim[ii] = round(float(rng.uniform(0, high)), 3)
            if rng.random() < 0.1:
                lim[ii] = 0.0
            kwargs[key] = lim[ii]
    num = gen.count(rng, 4, 40, 1500)
    xx, yy = np.empty(num), np.empty(num)
    length = max(math.hypot(x2 - x1, y2 - y1), 1e-3)
    for ii in range(num):
        tt = float(rng.uniform(-0.5, 1.5))
        px, py = x1 + tt * (x2 - x1), y1 + tt * (y2 - y1)
        pick = int(rng.integers(5))
        if pick == 0:
            px, py = rng.uniform(-40, 40, 2)
        elif pick == 1:
            py += float(rng.uniform(-2, 2)) * lim[1]
        elif pick == 2:
            px += float(rng.uniform(-2, 2)) * lim[0]
        elif pick == 3:
            # Next to the limits
            sg = float(rng.choice([-1, 1])) * (1.0 + float(
                rng.choice([-1e-4, 1e-4])))
            px, py = px + sg * lim[0], py - sg * lim[1] * np.sign(
                (y1 - y2) * (x1 - x2) if x1 != x2 else 0.0)
        else:
            # Next to the equatorward end
            bx, by = [(x1, y1), (x2, y2)][int(rng.integers(2))]
            far = math.hypot(bx, by) + lim[2] + float(rng.choice([-1e-3,
                                                                  1e-3]))
            fac = far / max(math.hypot(bx, by), 1e-3)
            px, py = bx * fac, by * fac
        xx[ii], yy[ii] = px, py
    colat = np.hypot(xx, yy)
    mlt = np.degrees(np.arctan2(yy, xx)) / 15.0 + 6.0
    form = str(rng.choice(["array", "list", "2d", "wide", "scalar"]))
    if form != "list":
        mlt = np.where(rng.random(num) < 0.5, mlt % 24.0, mlt)
    if form == "wide":
        mlt = mlt + 24.0 * rng.integers(-1, 3, num)
    if rng.random() < 0.3:
        pick = rng.random(num) < 0.2
        colat = np.where(pick, 180.0 - colat, colat)
    if rng.random() < 0.15:
        colat[int(rng.integers(num))] = np.nan
    lat = hemi * (90.0 - colat)
    whole = str(rng.choice(["", "lat", "mlt", "both"],
                           p=[0.7, 0.12, 0.12, 0.06]))
    if not np.isfinite(lat).all():
        whole = ""
    # Whole numbers are given with an integer type
    if whole in ["lat", "both"]:
        lat = np.round(lat).astype(int)
    if whole in ["mlt", "both"]:
        mlt = np.round(mlt).astype(int)
    lat_in, mlt_in = lat.copy(), mlt.copy()
    if form == "list":
        lat_in, mlt_in = lat.tolist(), mlt.tolist()
    elif form == "scalar":
        lat_in, mlt_in = lat[0].item(), mlt[0].item()
    elif form == "2d":
        lat_in, mlt_in = lat[:num // 2 * 2].reshape(2, -1), mlt[
            :num // 2 * 2].reshape(2, -1)
    case.show(track=line, hemi=hemi, kwargs=kwargs, lat=lat_in, mlt=mlt_in)
    got = case.call(ocbpy.cycle_boundary.satellite_track, lat_in, mlt_in, x1,
                    y1, x2, y2, hemi, **kwargs)
    got = np.asarray(got)
    case.same(got.shape, np.asarray(lat_in).shape, "shape")
    case.check(got.dtype == bool, "selection is not boolean", str(got.dtype))
    count = 0
    for ii, val in enumerate(got.ravel()):
        co = hemi * (hemi * 90.0 - lat[ii])
        want = inside(line, *lim, co, mlt[ii], 1.0)
        if want is None:
            continue
        count += 1
        if bool(val) == want:
            continue
        if kind == "rise":
            other = inside(line, *lim, co, mlt[ii], -1.0)
            if other is None or other == bool(val):
                case.known("rising-track", "width along a rising track")
                continue
        case.fail("location {:} (lat {!r}, MLT {!r}) is{:s} selected".format(
            ii, lat[ii], mlt[ii], "" if val else " not"))
    if count > 0:
        case.seen(line, hemi, lim, got.ravel().astype(int).tolist())


@suite.group(60, 400)
def limits(case):
    """Locations exactly on a limit are selected, those past it are not.

    The locations are at dawn or noon and all values are whole numbers, for
    which neither the coordinates nor the limits are rounded.

    """
    import ocbpy

    rng = case.rng
    hemi = int(rng.choice([1, -1]))
    past = int(rng.integers(0, 9))
    width = int(rng.choice([0, 0, 1, 2, 5]))
    co = int(rng.integers(6, 26))
    sign = int(rng.choice([-1, 1]))
    kind = str(rng.choice(["along", "across"]))
    # The track crosses the pole along the meridian of the locations, or is
    # perpendicular to it
    other = int(rng.integers(1, 26))
    if kind == "along":
        ends, aside = [(co, 0), (-other, 0)], (10.0, float(width))
        past_at, lim = co + past, None
    else:
        far = int(rng.integers(1, 20))
        ends, aside = [(co, far), (co, -far)], (float(width), 10.0)
        past, lim = 60, co + sign * width
    at_noon = rng.random() < 0.5
    if at_noon:
        ends, aside = [(yy, xx) for xx, yy in ends], aside[::-1]
    if rng.random() < 0.5:
        ends = ends[::-1]
    mlt = 12.0 if at_noon else 6.0
    if kind == "along" and at_noon:
        # The coordinate across the track is rounded
        aside = (max(aside[0], 1.0), aside[1])
    step = 0.5
    if lim is None:
        tries = [(past_at, True), (past_at + step, False),
                 (past_at - step, True), (past_at + 1, False)]
    else:
        tries = [(lim, True), (lim + sign * step, False),
                 (lim + sign, False)]
        if width > 0:
            tries.append((lim - sign * step, True))
    tries = [(cc, ok) for cc, ok in tries if cc > 0]
    lat = hemi * (90.0 - np.array([float(cc) for cc, _ in tries]))
    case.show(ends=ends, mlt=mlt, lat=lat, past=past, aside=aside, hemi=hemi)
    got = case.call(ocbpy.cycle_boundary.satellite_track, lat,
                    np.full(lat.shape, mlt), *ends[0], *ends[1], hemi,
                    del_x=aside[0], del_y=aside[1], past_bound=float(past))
    case.same(np.asarray(got).astype(bool).tolist(), [ok for _, ok in tries],
              "selection at a limit")
    case.seen("limits", kind, at_noon, ends, past, width, hemi)


@suite.group(40, 300)
def invalid(case):
    """Unusable limits are refused."""
    import ocbpy

    rng = case.rng
    line = draw_track(rng)
    kwargs, hemi = {}, int(rng.choice([1, -1]))
    bad = int(rng.integers(4))
    if bad == 3:
        hemi = [0, 2, -2, 0.5, 90][int(rng.integers(5))]
    else:
        kwargs[["del_x", "del_y", "past_bound"][bad]] = -float(
            rng.choice([1e-6, 1.0, 100.0]))
    lat, mlt = rng.uniform(50, 90, 4), rng.uniform(0, 24, 4)
    case.show(track=line, hemi=hemi, kwargs=kwargs)
    case.raises(ValueError, ocbpy.cycle_boundary.satellite_track, lat, mlt,
                *line[1:], hemi, **kwargs)
    case.seen(bad, line, hemi, str(kwargs))
