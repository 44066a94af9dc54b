"""Independent reference models.

These restate what the documentation of ocbpy promises with plain scalar
mathematics, and share no code with the package.
"""

import datetime as dt
import math

import numpy as np

NAN = float("nan")


# ---------------------------------------------------------------------------
# Time and angles

def days_in_month(year, month):
    """Days of a month in the Gregorian calendar."""
    if month == 2:
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
        return 29 if leap else 28
    return 30 if month in (4, 6, 9, 11) else 31


def from_year_seconds(year, seconds):
    """Get the calendar time an integer number of seconds into a year."""
    day, sec = divmod(int(seconds), 86400)
    month = 1
    while day >= days_in_month(year, month):
        day -= days_in_month(year, month)
        month += 1
        if month > 12:
            month = 1
            year += 1
    return dt.datetime(year, month, day + 1, sec // 3600, sec % 3600 // 60,
                       sec % 60)


def ut_hours(dtime):
    """Hours of day."""
    return (dtime.hour * 3600 + dtime.minute * 60 + dtime.second
            + dtime.microsecond / 1e6) / 3600.0


def wrap(val, low, period):
    """Move a value into [low, low + period)."""
    if math.isnan(val):
        return NAN
    out = val - period * math.floor((val - low) / period)
    return low if out >= low + period else out


def circ_diff(aa, bb, period):
    """Smallest difference between cyclic values."""
    diff = np.abs(np.asarray(aa, dtype=float) - np.asarray(bb, dtype=float))
    diff = np.mod(diff, period)
    return np.minimum(diff, period - diff)


# ---------------------------------------------------------------------------
# Boundary corrections, from the published coefficients

ELLIPSE = {"median": (4.01, 0.55, -0.92), "gaussian": (4.41, 0.51, -0.95)}
HARM = {
    ("ampere", "median"): [3.31000535, -0.5452934, -1.24389141, 2.42619653,
                           -0.66677988, -1.03467488, -0.30763009, 0.52426756,
                           0.04359299, 0.60201848, 0.50618522, 1.04360529,
                           0.25186405],
    ("ampere", "gaussian"): [3.80100827, 0.98555723, -3.43760943, 1.85084271,
                             -0.36730751, -0.81975654, -1.02823832, 1.30637288,
                             -0.53599218, 0.40380183, -1.22462708, -1.2733629,
                             -0.62743381],
    ("si12", "ocb"): [0.0405, -1.5078, 1.0, 0.5095, 1.0, 0.9371, 1.0, 0.0708,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("si12", "eab"): [-0.1447, -1.9779, 1.0, 2.6799, 1.0, 0.5778, 1.0, -1.2297,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("si13", "ocb"): [0.5797, -0.6837, 1.0, -0.5020, 1.0, 0.2971, 1.0, -0.4173,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("si13", "eab"): [0.2500, -2.9931, 1.0, 0.8818, 1.0, 0.8511, 1.0, -0.6300,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("wic", "ocb"): [1.0298, -1.1249, 1.0, -0.7380, 1.0, 0.1838, 1.0, -0.6171,
                     1.0, 0.0, 1.0, 0.0, 1.0],
    ("wic", "eab"): [-0.4935, -2.1186, 1.0, 0.3188, 1.0, 0.5749, 1.0, -0.3118,
                     1.0, 0.0, 1.0, 0.0, 1.0]}


def circular(mlt, r_add=0.0):
    """Constant offset."""
    return float(r_add)


def elliptical(mlt, instrument="ampere", method="median"):
    """Elliptical poleward correction."""
    amp, ecc, tilt = ELLIPSE[method.lower()]
    ang = math.pi * mlt / 12.0
    return -amp * (1.0 - ecc**2) / (1.0 + ecc * math.cos(ang - tilt))


def harmonic(mlt, instrument="ampere", method="median"):
    """Harmonic poleward correction."""
    coef = HARM[(instrument.lower(), method.lower())]
    ang = math.pi * mlt / 12.0
    out = coef[0]
    for ii in range(1, 4):
        cc = coef[4 * ii - 3:4 * ii + 1]
        out += cc[0] * math.cos(ii * (ang + cc[1])) + cc[2] * math.sin(
            ii * (ang + cc[3]))
    return -out


# ---------------------------------------------------------------------------
# Planar boundary geometry

def plane(colat, mlt):
    """Position in the plane with its origin at the pole, x towards 0 MLT."""
    ang = math.pi * mlt / 12.0
    return complex(colat * math.cos(ang), colat * math.sin(ang))


def unplane(pos):
    """Get co-latitude and MLT of a position in the plane."""
    mlt = math.degrees(math.atan2(pos.imag, pos.real)) / 15.0
    return abs(pos), wrap(mlt, 0.0, 24.0)


class Rec(object):
    """One boundary record and its correction."""

    def __init__(self, dtime, phi, rcent, rad, fom, corr=circular, kw=None):
        self.dtime = dtime
        self.phi = phi
        self.rcent = rcent
        self.rad = rad
        self.fom = fom
        self.corr = corr
        self.kw = {} if kw is None else kw
        self.extra = {}

    @property
    def centre(self):
        """Boundary centre in the plane."""
        return plane(self.rcent, self.phi / 15.0)

    def r_corr(self, mlt):
        """Correction at an MLT."""
        return NAN if math.isnan(mlt) else self.corr(mlt, **self.kw)


def normalise(rec, hemi, ref_lat, lat, mlt):
    """Normalised position in the plane, None when it is undefined.

    Returns
    -------
    pos : complex or NoneType
        Position relative to the boundary centre, scaled to the reference
    r_corr : float
        Radius correction

    """
    if math.isnan(lat) or math.isnan(mlt) or lat * hemi <= 0.0:
        return None, NAN
    r_corr = rec.r_corr(mlt)
    scale = (90.0 - abs(ref_lat)) / (rec.rad + r_corr)
    return (plane(90.0 - abs(lat), mlt) - rec.centre) * scale, r_corr


def boundary_colat(rec, mlt):
    """Co-latitude of the boundary along an MLT, NaN if there is none.

    The boundary is the set of positions whose distance from the centre is the
    radius plus the correction at the MLT of the position; the position
    furthest from the pole is used.

    """
    mlt = wrap(mlt, 0.0, 24.0)
    rad = rec.rad + rec.r_corr(mlt)
    unit = plane(1.0, mlt)
    cen = rec.centre
    along = unit.real * cen.real + unit.imag * cen.imag
    cross = unit.real * cen.imag - unit.imag * cen.real
    disc = rad**2 - cross**2
    if disc < 0.0:
        return NAN, disc
    out = along + math.sqrt(disc)
    return (NAN, disc) if out < 0.0 else (out, min(disc, out))


def signed_lat(hemi, colat):
    """Latitude of a co-latitude."""
    return hemi * (90.0 - colat)


# ---------------------------------------------------------------------------
# Spherical geometry

def unit_vec(lat, mlt):
    """Get the Cartesian unit vector of a location."""
    la, lo = math.radians(lat), math.pi * mlt / 12.0
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
                     math.sin(la)])


def local_axes(loc, pole):
    """Get the local north (towards the pole) and east unit vectors."""
    north = pole - np.dot(pole, loc) * loc
    norm = np.linalg.norm(north)
    north = north / norm
    return north, np.cross(north, loc), norm


def rotate_vector(lat, mlt, vn, ve, pole_lat, pole_mlt):
    """Express a horizontal vector relative to another pole.

    The local axes are defined by the base pole of the hemisphere the data
    lie in for the north component (positive towards geographic/AACGM north)
    and east completes the frame with vertical positive down.  The destination
    north points along the great circle from the data to the destination
    (north) pole, or away from the destination south pole.

    Returns
    -------
    dn, de : float
        Components relative to the destination pole
    margin : float
        Sine of the smallest distance from the data to any pole

    """
    loc = unit_vec(lat, mlt)
    base_n, base_e, m1 = local_axes(loc, np.array([0.0, 0.0, 1.0]))
    pole = unit_vec(pole_lat, pole_mlt)
    if pole_lat < 0.0:
        pole = -pole
    dest_n, dest_e, m2 = local_axes(loc, pole)
    vec = vn * base_n + ve * base_e
    return (float(np.dot(vec, dest_n)), float(np.dot(vec, dest_e)),
            min(m1, m2))


def pole_angle(lat, mlt, pole_lat, pole_mlt):
    """Angle at the data between the base and the destination poles."""
    loc = unit_vec(lat, mlt)
    sign = 1.0 if pole_lat >= 0.0 else -1.0
    base, _, m1 = local_axes(loc, np.array([0.0, 0.0, sign]))
    dest, _, m2 = local_axes(loc, unit_vec(pole_lat, pole_mlt))
    cosa = float(np.clip(np.dot(base, dest), -1.0, 1.0))
    sina = float(np.linalg.norm(np.cross(base, dest)))
    return math.degrees(math.atan2(sina, cosa)), min(m1, m2)
