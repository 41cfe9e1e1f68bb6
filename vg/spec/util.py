import numpy as np


def arr(x, y):
    return np.array([x, y])


def ids(table):
    return list(table.index)


def part(obj, name):
    return getattr(obj, name)


def entry(d, key):
    return d[key]


def nd(x):
    return np.asarray(x)
