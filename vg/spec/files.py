"""Documented behaviour of the file helpers."""
import os
import netCDF4
import numpy as np
import pandas as pd
from spec import hope


def target(row, folder):
    """file and address of one row of a download list: the address is the last word of the row"""
    u = row.decode('utf-8').split()[-1].strip()
    return os.path.join(folder, os.path.split(u)[-1]), u


def listing(folder, ext, sort):
    fs = [f for f in os.listdir(folder) if ext is None or os.path.splitext(f)[-1] == ext]
    if sort:
        fs = sorted(fs)
    return fs


def parse(path):
    ds = netCDF4.Dataset(path)
    ds.set_auto_mask(False)
    ids = ds['station_id'][:]
    t = pd.to_datetime(ds['time'][:], unit='s').tz_localize('UTC')
    data = pd.DataFrame(ds['rsds'][:], index=t, columns=ids)
    flag = pd.DataFrame(ds['rsds_flag'][:], index=t, columns=ids)
    pos = pd.DataFrame({'lat': ds['lat'][:], 'lon': ds['lon'][:]}, index=ids)
    return data, flag, pos


def controlled(source, method):
    data = pd.read_hdf(source, mode='r', key='data')
    flag = pd.read_hdf(source, mode='r', key='flag')
    pos = pd.read_hdf(source, mode='r', key='latlon')
    if method == 'interp':
        data = hope.fill(hope.null_qc(data), 5)
    elif method == 'null':
        data = hope.null_qc(data)
    else:
        data = hope.flag_qc(data, flag, 2)
    return data, flag, pos


def sensor(path, column):
    """readings of one column on an even 10 ms grid, at fixed GMT-5 time"""
    d = pd.read_csv(path)
    t = pd.DatetimeIndex(pd.to_datetime(d.iloc[:, 0]) + pd.to_timedelta(d.iloc[:, 1])).tz_localize('Etc/GMT+5')
    x = d[column]
    x.index = t
    return x.resample('10ms').ffill()


def sensors(folder, names, ids, column):
    """one column per sensor file, on the times of the first"""
    out = None
    for f, s in zip(names, ids):
        x = sensor(os.path.join(folder, f), column)
        if out is None:
            out = pd.DataFrame({s: x})
        else:
            out[s] = x
    return out


def sites(path):
    return pd.read_csv(path).rename(columns={'Site': 'id', 'Latitude': 'lat', 'Longitude': 'lon'}).set_index('id')
