"""Documented behaviour of the campaign data quality control."""
import numpy as np


def flag_qc(data, flag, level):
    return data.mask(flag >= level)


def null_qc(data):
    return data.mask(data < -100)


def fill(data, limit):
    out = data.copy()
    for c in data.columns:
        out[c] = fill_one(data[c], limit)
    return out


def fill_one(x, limit):
    """missing values between valid ones are interpolated, unless their run of missing values is longer than the limit"""
    gone = x.isna()
    run = gone.groupby((~gone).cumsum()).transform('sum')
    return x.where(~gone, x.interpolate(limit_area='inside')).mask(gone & (run > limit))

