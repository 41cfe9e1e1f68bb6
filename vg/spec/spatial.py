"""Documented definitions of the geometry helpers."""
import numpy as np
import pandas as pd
from pyproj import Proj


def zone_of(lon):
    return min(int((lon + 180) / 6 + 1), 60)


def fwd(lat, lon, zone, south):
    p = Proj(proj='utm', zone=zone, ellipsis='WGS84', datum='WGS84', units='m', south=south, preserve_units=True)
    return p(lon, lat)


def utm(lat, lon, zone=None):
    if zone is None:
        zone = zone_of(lon)
    e, n = fwd(lat, lon, zone, lat < 0)
    return e, n, zone


def inv(e, n, zone, south):
    p = Proj(proj='utm', zone=zone, ellipsis='WGS84', datum='WGS84', units='m', south=south)
    lon, lat = p(e, n, inverse=True)
    return lat, lon


def lcs(lat, lon, olat, olon, zone=None):
    if zone is None:
        zone = zone_of(olon)
    e, n = fwd(lat, lon, zone, olat < 0)
    e0, n0 = fwd(olat, olon, zone, olat < 0)
    return e - e0, n - n0


def unlcs(east, north, olat, olon, zone=None):
    if zone is None:
        zone = zone_of(olon)
    e0, n0 = fwd(olat, olon, zone, olat < 0)
    return inv(east + e0, north + n0, zone, olat < 0)


def flat(lat, lon, lat0, lon0):
    a = 6378137.0
    f = 1 / 298.257223563
    e2 = 2 * f - f ** 2
    w = 1 - e2 * np.sin(np.deg2rad(lat0)) ** 2
    rn = a / np.sqrt(w)
    rm = rn * (1 - e2) / w
    return (rn * np.cos(np.deg2rad(lat0)) * (np.deg2rad(lon) - np.deg2rad(lon0)),
            rm * (np.deg2rad(lat) - np.deg2rad(lat0)))


def tmerc(lat, lon, lat0, lon0):
    p = Proj(proj='tmerc', lat_0=lat0, lon_0=lon0, k=1, x_0=0, y_0=0, ellps='WGS84', datum='WGS84', units='m',
             preserve_units=True)
    return p(lon, lat)


def dot(ax, ay, bx, by):
    return ax * bx + ay * by


def mag(x, y):
    return np.sqrt(x ** 2 + y ** 2)


def proj(x, y, dx, dy):
    return (x * dx + y * dy) / np.sqrt(dx ** 2 + dy ** 2)


def rotate(x, y, th):
    return x * np.cos(th) - y * np.sin(th), x * np.sin(th) + y * np.cos(th)


def polar(x, y):
    return np.sqrt(x ** 2 + y ** 2), np.arctan2(y, x)


def rect(r, th):
    return r * np.cos(th), r * np.sin(th)
