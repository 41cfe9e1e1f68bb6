import pandas as pd
import pvlib


def csi(g, c, cap):
    if isinstance(g, pd.DataFrame):
        return g.apply(lambda x: pvlib.irradiance.clearsky_index(x, c, cap), axis=0)
    return pvlib.irradiance.clearsky_index(g, c, cap)
