"""P05: any other option string must reach only raising exits."""
from .util import *
from . import contexts as X
from .. import summaries as SM

# (function, option parameter, accepted literals)
OPTS = [
    ('signalproc.correlation', 'scaling', ()),
    ('signalproc.xcorr_delay', 'scaling', ()),
    ('signalproc.compute_delays', 'scaling', ()),
    ('signalproc.compute_delays', 'mode', ()),
    ('signalproc.tf_delay', 'method', ()),
    ('signalproc.compute_delays_tf', 'method', ()),
    ('signalproc.get_1d_plant', 'shape', ()),
    ('spatial.lla2flat', 'method', ()),
    ('cmv.compute_cmv', 'method', ()),
    ('cmv.compute_cmv', 'delay_backend', ()),
    ('field.compute_predicted_position', 'mode', ()),
    ('field.compute_predicted_position', 'delay_method', ()),
    ('synthirrad.cloudfield.cloudfield_timeseries', 'scaling', ()),
]
# stands for every string that equals no literal of the source (also after lower(), strip() ...)
ANY = type('Any', (), {'__contains__': lambda s, x: True})()
OTHER = '\u2020other'
POSN = {('signalproc.correlation', 'scaling'): 2, ('signalproc.xcorr_delay', 'scaling'): 2}


def _mk(fn, opt, label, build, stubs):
    @case('P05', name='%s %s,%s' % (fn.split('.')[-1], opt, label), stubs=None, limit=120)
    def p05(c):
        args, kw = build(c.I)
        bad = leaf(OTHER)
        k = POSN.get((fn, opt))
        if k is not None and len(args) > k:
            args = list(args)
            args[k] = bad
        else:
            kw[opt] = bad
        rejects(c, ANY, fn, 'a string outside the documented set is rejected', *args, **kw)


for fn, opt, acc in OPTS:
    
    for f, label, build, stubs in X.LIST:
        if f == fn:
            _mk(fn, opt, label, build, stubs)
