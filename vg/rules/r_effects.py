"""Effects of every public function: argument mutation, process state, output."""
from .util import *
from . import contexts

EXEMPT = {('signalproc.cleanfreq', 'sig')}
STATE = ('global_write', 'seterr', 'warnfilter', 'memo', 'process_state', 'global_state', 'rng_global', 'rng_entropy')
OUT = ('plot', 'print')


def where(e):
    return dict(file=e.file, line=e.line, function=e.func)


def enter(c, fn, build):
    args, kw = build(c.I)
    try:
        c.call_any(fn, *args, **kw)
    except Dead as e:
        # effects up to the point of failure still count
        c.dead = e
    return c


def report(c, evs, what, fn, show=lambda e: ''):
    if not evs:
        c.ob('holds', what, fn)
    for e in evs:
        c.ob('violated', what, where(e), detail='%s %s when %s' % (e.kind, show(e), T.short(e.pc, 300)))


def _mk(fn, label, build, stubs):
    nm = '%s,%s' % (fn.split('.')[-1], label)

    def p01(c):
        enter(c, fn, build)
        ev = [e for e in c.events('mutate') if e.phase == 'call' and any((fn, r) not in EXEMPT for r in e.data['roots'])]
        report(c, ev, 'no argument is written', fn, lambda e: 'of %s by %s' % (', '.join(e.data['roots']), e.data['what']))

    def p02(c):
        enter(c, fn, build)
        ex = set()
        if '.cloudfield.' in fn:
            ex.add('rng_global')
        if '.copula.' in fn:
            ex.add('rng_entropy')
        ev = [e for e in c.events(*STATE) if e.phase == 'call' and e.kind not in ex]
        report(c, ev, 'no process-wide or hidden state is touched', fn, lambda e: repr(e.data)[:120])

    def p03(c):
        enter(c, fn, build)
        ev = [e for e in c.events(*OUT) if e.phase == 'call' and not (e.kind == 'print' and '_basic' in fn + e.func)]
        report(c, ev, 'no figure or console output unless asked for', fn, lambda e: repr(e.data)[:120])
    for p, f in (('P01', p01), ('P02', p02), ('P03', p03)):
        case(p, stubs=stubs, name=nm, limit=120)(f)


for x in contexts.LIST:
    _mk(*x)


# with the switch symbolic, the result may not depend on it
def _mk_switch(fn, label, build, sw):
    @case('P03', name='%s,%s switch' % (fn.split('.')[-1], label), limit=120)
    def p03s(c):
        args, kw = build(c.I)
        kw[sw] = T.bool_atom(T.mk_atom('flag', ('drawing',), deps=('drawing',), isbool=True))
        try:
            r = c.call_any(fn, *args, **kw)
        except Dead:
            return
        dep = 'drawing' in T._meta((c.I.term(r),))[0]
        c.check(not dep, 'the result does not depend on the drawing switch', fn, detail='the returned value depends on %s' % sw)


_SW = {'_random_at_scale': 'plot', '_stack_random_field': 'plot', '_calc_clear_mask': 'plot', '_find_edges': 'plot',
       '_scale_field_lave': 'plot', '_scale_field_basic': 'plot', 'get_timeseries_stats': 'plot', '_gmdistribution': 'debug'}
for fn, label, build, stubs in contexts.LIST:
    if fn.split('.')[-1] in _SW:
        _mk_switch(fn, label, build, _SW[fn.split('.')[-1]])
