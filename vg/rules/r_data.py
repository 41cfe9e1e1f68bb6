"""Campaign data: quality control and file handling."""
from .util import *

H = 'dataio.hope_campaign.'
IO = 'dataio.iotools.'


def fr(c, nm='ts', nan=True, **kw):
    return C.frame(c.I, nm, n(), 't', ncol=m(), cname='s', nan=nan, **kw)


@case('P45', params=['given', 'default'])
def flags(c, k):
    d, f = fr(c), fr(c, 'fl', nan=False)       # flags are whole numbers
    lv = [sc('lv')] if k == 'given' else []
    g = c.call(H + 'flag_qc', d, f, *lv)
    c.eq(g, c.spec('hope.flag_qc', fr(c), fr(c, 'fl', nan=False), lv[0] if lv else num(2)), 'blank exactly where the flag reaches the level', H + 'flag_qc')
    c.eq(d, fr(c), 'the given data are unchanged', H + 'flag_qc', labels=True)
    c.eq(f, fr(c, 'fl', nan=False), 'the given flags are unchanged', H + 'flag_qc', labels=True)


@case('P45')
def nulls(c):
    d = fr(c)
    g = c.call(H + 'null_qc', d)
    c.eq(g, c.spec('hope.null_qc', fr(c)), 'blank exactly the readings that cannot be irradiance', H + 'null_qc')
    c.eq(d, fr(c), 'the given data are unchanged', H + 'null_qc', labels=True)


@case('P45', params=['given', 'default'])
def gaps(c, k):
    d = fr(c)
    lim = sc('lim', isint=True, nonneg=True)
    g = c.call(H + 'interp_nan', d, *([lim] if k == 'given' else []))
    w = c.spec('hope.fill', fr(c), lim if k == 'given' else num(5))
    c.eq(g, w, 'missing values between valid ones are interpolated when their run is within the limit, everything else kept', H + 'interp_nan')
    c.eq(d, fr(c), 'the given data are unchanged', H + 'interp_nan', labels=True)


@case('P45')
def gaps_clean(c):
    d = fr(c, nan=False)
    g = c.call(H + 'interp_nan', d)
    c.eq(g, fr(c, nan=False), 'data without gaps are kept as they are', H + 'interp_nan')


# ------------------------------------------------------------------ files
def at_ev(e):
    return dict(file=e.file, line=e.line, function=e.func)


def files(c, *kinds):
    return c.events(*(kinds or ('file_write', 'file_remove', 'file_move', 'makedirs', 'process_state')))


def impl(c, e, cond, what):
    """whenever the effect happens, the condition holds"""
    c.true(T.lor(T.lnot(e.pc), cond), what, at_ev(e), pc=T.TRUE)


def isfile(c, path):
    return T.as_bool(T.app('isfile', c.I.term(path), isbool=True))


def same(c, a, b):
    return isinstance(a, S) and isinstance(b, S) and T.same(c.I.term(a), c.I.term(b))


def only_at(c, e, path, what):
    if isinstance(e.data['path'], S):
        c.eq(e.data['path'], path, what, at_ev(e))
    else:
        c.ob('undecided', what, at_ev(e), detail='path not resolved')


def run(c, fn, *a, **kw):
    try:
        return c.call_any(fn, *a, **kw)
    except Dead:
        return None


def closed(c, fn):
    """every opened file is closed on the paths that return"""
    for e in c.events('open', 'net'):
        o = e.data.get('obj')
        if o is None:
            continue
        cl = T.FALSE
        for x in c.events('close'):
            if x.data['obj'] is o or getattr(x.data['obj'], 'oid', 0) == getattr(o, 'oid', 1):
                cl = T.lor(cl, x.pc)
        c.true(T.lor(T.lnot(T.land(e.pc, c.I.pc)), cl), 'what is opened is closed', at_ev(e), pc=T.TRUE)


def path(nm):
    return leaf('\u2020' + nm)


@case('P44')
def download(c):
    fn = IO + 'download'
    run(c, fn, path('url'), path('file'))
    w = files(c)
    if c.taint():
        c.ob('undecided', 'one download to the given path', fn)
        return
    c.check(len(w) == 1 and w[0].kind == 'file_write', 'exactly one file is written', fn)
    only_at(c, w[0], path('file'), 'only the given path is written')
    if isinstance(w[0].data.get('data'), S):
        c.eq(w[0].data['data'], path('url'), 'from the given address', at_ev(w[0]))
    impl(c, w[0], T.TRUE, 'always')


@case('P44', params=['verbose', 'silent'])
def wget(c, k):
    fn = IO + 'wget_fromurl'
    run(c, fn, path('url'), path('dir'), TRUE if k == 'verbose' else FALSE)
    w = files(c)
    seen = T.FALSE
    for e in w:
        p = e.data['path']
        if e.kind != 'file_write' or not isinstance(p, S):
            c.ob('undecided' if c.taint() else 'violated', 'only downloads', at_ev(e))
            continue
        impl(c, e, T.lnot(isfile(c, p)), 'a file that exists is left alone')
        iv = [a for a in p.free if a.op == 'ivar']
        if not iv:
            c.ob('undecided' if c.taint() else 'violated', 'each row of the list has its own file', at_ev(e))
            continue
        row = T.app('urlrow', T.app('url', path('url')), V(iv[0]))
        want = items(c, c.spec('files.target', row, path('dir')))
        c.eq(p, want[0], 'stored in the target folder under its own name', at_ev(e))
        if isinstance(e.data.get('data'), S):
            c.eq(e.data['data'], want[1], 'from the address of the row', at_ev(e))
        seen = T.lor(seen, e.pc)
    if w:
        p = w[0].data['path']
        if isinstance(p, S):
            c.true(T.lor(isfile(c, p), seen), 'every missing file is fetched', fn, pc=T.TRUE)
    else:
        c.ob('undecided' if c.taint() else 'violated', 'every missing file is fetched', fn)


@case('P44')
def folder(c):
    fn = IO + 'ensurepath'
    run(c, fn, path('dir'))
    w = files(c)
    there = T.as_bool(T.app('pathexists', path('dir'), isbool=True))
    made = T.FALSE
    for e in w:
        if e.kind != 'makedirs':
            c.ob('undecided' if c.taint() else 'violated', 'nothing but a missing folder is created', at_ev(e))
            continue
        only_at(c, e, path('dir'), 'only the given folder is created')
        ok = e.data['kw'].get('exist_ok')
        if ok is not T.TRUE:
            impl(c, e, T.lnot(there), 'an existing folder is left alone')
        made = T.lor(made, e.pc)
    if not c.taint():
        c.true(T.lor(there, made), 'a missing folder is created', fn, pc=T.TRUE)


@case('P44', params=[(e, s) for e in ('all', '.csv', 'any', 'default') for s in ('sorted', 'as listed', 'default')])
def listing(c, ext, srt):
    fn = IO + 'getfiles'
    x = {'all': NONE, 'default': NONE, '.csv': leaf('.csv'), 'any': path('ext')}[ext]
    s = FALSE if srt == 'as listed' else TRUE
    kw = {} if ext == 'default' else {'ext': x}
    if srt != 'default':
        kw['sort'] = s
    r = run(c, fn, path('dir'), **kw)
    n0 = len(files(c))
    w = c.spec('files.listing', path('dir'), x, s)
    if r is not None:
        c.eq(r, w, 'exactly the files with the extension, sorted on request', fn)
    c.check(n0 == 0, 'listing changes nothing', fn)


NC = {'station_id': (m(),), 'lat': (m(),), 'lon': (m(),), 'time': (n(),), 'rsds': (n(), m()), 'rsds_flag': (n(), m())}


def campaign(c):
    c.I.ncshape = {'station_id': (m(),), 'lat': (m(),), 'lon': (m(),), 'time': (n(),), 'rsds': (n(), m()), 'rsds_flag': (n(), m())}


@case('P44')
def source(c):
    fn = H + 'parse_file'
    campaign(c)
    r = run(c, fn, path('file'))
    c.check(not files(c), 'a source file is only read', fn)
    for e in c.events('file_read'):
        only_at(c, e, path('file'), 'only the given file is read')
    closed(c, fn)


@case('P46')
def content(c):
    fn = H + 'parse_file'
    campaign(c)
    g = items(c, c.call(fn, path('file')))
    w = items(c, c.spec('files.parse', path('file')))
    for x, y, nm in zip(g, w, ('irradiance', 'flags', 'stations')):
        c.eq(x, y, nm + ' at the stored time (UTC) and station', fn)


FILES = {0: ['notes.txt'], 1: ['x.nc', 'wget.sh'], 3: ['c.nc', 'list.txt', 'a.nc', 'b.nc']}


@case('P44', params=[(k, o) for k in (0, 1, 3) for o in ('overwrite', 'keep', 'either', 'default')])
def archive(c, k, o):
    fn = H + 'dataset_to_h5'
    campaign(c)
    c.I.dirlist = FILES[k]
    ow = {'overwrite': TRUE, 'keep': FALSE, 'default': FALSE, 'either': sc('ow', isbool=True)}[o]
    run(c, fn, path('dir'), path('h5'), *([] if o == 'default' else [ow]), **{'verbose': sc('vb', isbool=True)})
    ex = isfile(c, path('h5'))
    owb = T.truth(ow)
    rj = c.raised('ValueError')
    if not c.taint():
        c.true(T.s_eq(rj, T.land(ex, T.lnot(owb))), 'rejected exactly when the archive exists and overwriting was not requested', fn, pc=T.TRUE)
    gone = T.FALSE
    for e in files(c):
        only_at(c, e, path('h5'), 'only the given archive is touched')
        if e.kind == 'file_remove':
            impl(c, e, owb, 'the archive is removed only when overwriting was requested')
            gone = T.lor(gone, e.pc)
            continue
        if e.kind != 'file_write':
            c.ob('undecided' if c.taint() else 'violated', 'the archive is removed or written, nothing else', at_ev(e))
            continue
        impl(c, e, T.lor(T.lnot(ex), owb), 'an existing archive is kept unless overwriting was requested')
        if cstr_(e.data['mode']) != 'w':
            impl(c, e, T.lor(T.lnot(ex), gone), 'no rows of a replaced archive survive')
        else:
            gone = T.lor(gone, e.pc)


def cstr_(x):
    return x.val if isinstance(x, S) and x.kind == 'L' and isinstance(x.val, str) else None


@case('P46', params=[1, 3])
def archived(c, k):
    fn = H + 'dataset_to_h5'
    campaign(c)
    c.I.dirlist = FILES[k]
    run(c, fn, path('dir'), path('h5'), TRUE, FALSE)
    ev = [e for e in files(c, 'file_write')]
    if c.taint() or any(e.data.get('how') != 'pandas.to_*' for e in ev):
        c.ob('undecided', 'archive content', fn)
        return
    by = {}
    for e in ev:
        by.setdefault(cstr_(e.data['kw'].get('key', e.data['args'][1] if len(e.data['args']) > 1 else None)), []).append(e)
    c.check(set(by) == {'data', 'flag', 'latlon'}, 'the archive holds data, flags and stations', fn, detail=repr(sorted(map(str, by))))
    want = []
    for f in sorted(x for x in FILES[k] if x.endswith('.nc')):
        want.append(items(c, c.spec('files.parse', leaf('\u2020dir/' + f))))
    for key, pos in (('data', 0), ('flag', 1), ('latlon', 2)):
        es = by.get(key, [])
        nn = 1 if key == 'latlon' else k
        if len(es) == 1 and nn > 1 and all(f in repr(es[0].data['av'].opened()[1]) for f in FILES[k] if f.endswith('.nc')):
            c.ob('undecided', 'all files joined and stored at once', at_ev(es[0]))
            continue
        if not c.check(len(es) == nn, '%s of %s stored' % (key, 'the first file' if nn == 1 else 'every file'), fn) == 'holds':
            continue
        for i, e in enumerate(es):
            c.eq(c.I.alloc(Arr(e.data['av'])), want[i][pos], '%s of file %d' % (key, i), at_ev(e))
            impl(c, e, T.lor(T.lnot(c.I.pc), e.pc), 'unconditionally')
            if key != 'latlon':
                c.check(e.data['kw'].get('append') is T.TRUE, 'rows of later files are added to those of earlier ones', at_ev(e))
            c.check(cstr_(e.data['mode']) in ('a', 'r+') or e is ev[0], 'other tables of the archive stay', at_ev(e))


def stays(c, ev):
    """what is written to an archive is still there at the end"""
    for e in ev[1:]:
        m = cstr_(e.data['mode'])
        c.ob('undecided' if m is None else 'holds' if m in ('a', 'r+') else 'violated', 'tables stored before stay', at_ev(e), detail=str(m))


def answers(x):
    """texts an answer of the user is compared with in a condition: [(atom, text)]"""
    from ..loops import _guards
    out = []
    for a in _guards(x):
        if not any(y.op == 'input' for y in T.walk_atoms(a)):
            continue
        txt = None
        for y in T.walk_atoms(a):
            if y.op in ('eqc', 'str.startswith', 'contains', 'eq'):
                for z in y.args:
                    v = z.val if isinstance(z, S) and z.kind == 'L' else z
                    if isinstance(v, str):
                        txt = v
        out.append((a, txt))
    return out


def consent(c, e, extra, what):
    """the effect needs a positive answer of the user (or the extra condition)"""
    k = answers(e.pc)
    if any(t is None for a, t in k):
        c.ob('undecided', what, at_ev(e), detail='answer test not recognised')
        return
    yes = T.FALSE
    for a, t in k:
        if t.strip().lower() in ('y', 'yes', 'j'):
            yes = T.lor(yes, T.bool_atom(a))
    impl(c, e, T.lor(extra, yes), what)


QCS = ('none', 'interp', 'null', 'flag')


def tool(c, qc):
    campaign(c)
    c.I.dirlist = FILES[1]
    c.I.whole_tables = {'flag'}     # flags are whole numbers
    ns = Obj('ns', {'dataset': leaf('HOPE'), 'target': path('dir'), 'meta': sc('meta', isbool=True), 'makeh5': sc('makeh5', isbool=True),
                    'silent': sc('silent', isbool=True), 'qc': NONE if qc == 'none' else leaf(qc)})
    used = []
    c.I.stubs[H + '_parse_args'] = lambda I, env, node: (used.append(1), I.alloc(ns))[1]
    run(c, H + '_main')
    return bool(used)


@case('P44', params=QCS)
def tool_files(c, qc):
    fn = H + '_main'
    if not tool(c, qc):
        c.ob('undecided', 'command line tool', fn, detail='arguments are read elsewhere')
        return
    for e in files(c):
        p = e.data['path']
        if e.kind == 'file_remove':
            consent(c, e, FALSE, 'a file is deleted only after the user agreed')
        elif e.kind == 'file_write' and e.data.get('how') == 'pandas.to_*':
            consent(c, e, T.lnot(isfile(c, p)), 'an existing archive is touched only after the user agreed')
        elif e.kind == 'file_move' or e.kind == 'process_state':
            c.ob('undecided' if c.taint() else 'violated', 'nothing else is moved or changed', at_ev(e))
        if isinstance(p, S) and e.kind != 'makedirs' and not c.taint():
            t = cstr_(p)
            c.check(t.startswith('\u2020dir/') if t is not None else T.short(p, 400).startswith("pathjoin('\u2020dir'"), 'only files below the target folder are touched', at_ev(e),
                    detail=T.short(p, 200))


@case('P45', params=QCS[1:])
def tool_content(c, qc):
    fn = H + '_main'
    if not tool(c, qc):
        c.ob('undecided', 'command line tool', fn, detail='arguments are read elsewhere')
        return
    src, tgt = leaf('\u2020dir/hope.h5'), leaf('\u2020dir/hope-qc%s.h5' % qc)
    ev = [e for e in files(c, 'file_write') if e.data.get('how') == 'pandas.to_*' and same(c, e.data['path'], tgt)]
    if c.taint():
        c.ob('undecided', 'controlled archive', fn)
        return
    got = {cstr_(e.data['kw'].get('key')): e for e in ev}
    c.check(set(got) == {'data', 'flag', 'latlon'} and len(ev) == 3, 'the controlled archive holds data, flags and stations', fn, detail=repr(sorted(map(str, got))))
    w = items(c, c.spec('files.controlled', src, leaf(qc)))
    for k, x in zip(('data', 'flag', 'latlon'), w):
        if k in got:
            c.eq(c.I.alloc(Arr(got[k].data['av'])), x, k + ' of the controlled archive', at_ev(got[k]))
    stays(c, ev)


@case('P44')
def conversion(c):
    fn = 'dataio.nrcan_data.process_files'
    c.I.dirlist = SENSORS['several']
    run(c, fn, path('dir'), path('sites'), path('h5'))
    w = files(c)
    for e in w:
        only_at(c, e, path('h5'), 'only the given archive is written')
        c.check(e.kind == 'file_write', 'nothing is deleted or moved', at_ev(e))
        if e.kind == 'file_write' and cstr_(e.data['mode']) is not None:
            c.check(cstr_(e.data['mode']) in ('a', 'r+'), 'tables already in the archive stay', at_ev(e))
    for e in c.events('file_read'):
        p = e.data['path']
        c.check(isinstance(p, S) and ('\u2020dir' in T.short(p, 200) or '\u2020sites' in T.short(p, 200)), 'only the given sources are read', at_ev(e))


DANGER = ('os.remove os.unlink os.rmdir os.removedirs os.rename os.replace os.truncate os.makedirs os.mkdir os.chdir os.system shutil. subprocess. '
          'builtins.open io.open urllib. netCDF4. tempfile. pickle.dump numpy.save numpy.savetxt numpy.savez').split()
METHODS = ('to_hdf', 'to_csv', 'to_pickle', 'to_excel', 'to_parquet', 'to_json', 'tofile', 'unlink', 'rmdir', 'write_text', 'write_bytes', 'savefig')


@case('P44')
def elsewhere(c):
    """outside the data input modules and the plotting helpers no function touches files"""
    import ast
    from ..check import load_repo
    repo = load_repo()
    k = 0
    for nm, mod in sorted(repo.modules.items()):
        if mod.rel.startswith('spec/') or 'dataio' in nm.split('.') or 'visualization' in nm.split('.'):
            continue
        names = {}
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                for a in x.names:
                    names[a.asname or a.name] = x.module + '.' + a.name
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call):
                k += 1
                f, parts = x.func, []
                while isinstance(f, ast.Attribute):
                    parts.append(f.attr)
                    f = f.value
                if isinstance(f, ast.Name):
                    root = names.get(f.id, 'builtins.open' if f.id == 'open' and not parts else '')
                    full = '.'.join([root] + parts[::-1]) if root else ''
                    if any(full == d or d.endswith('.') and full.startswith(d) for d in DANGER):
                        c.ob('violated', 'no file effect outside the data input modules', dict(file=mod.rel, line=x.lineno, function=nm), detail=full)
                if isinstance(x.func, ast.Attribute) and x.func.attr in METHODS:
                    c.ob('violated', 'no file effect outside the data input modules', dict(file=mod.rel, line=x.lineno, function=nm), detail=x.func.attr)
    c.ob('holds', 'no file effect outside the data input modules', None, detail='%d call sites' % k)


SENSORS = {'one': ['notes.txt', '20_b.csv', 'latlon_x.csv'], 'several': ['20_b.csv', 'latlon_x.csv', '20_a.csv', 'z.txt', '20_c_raw.csv']}


@case('P47', params=list(SENSORS))
def sensor_files(c, k):
    fn = 'dataio.nrcan_data.process_files'
    c.I.dirlist = SENSORS[k]
    run(c, fn, path('dir'), path('sites'), path('h5'))
    ev = files(c, 'file_write')
    if c.taint() or any(e.data.get('how') != 'pandas.to_*' for e in ev):
        c.ob('undecided', 'archive content', fn)
        return
    got = {cstr_(e.data['kw'].get('key', e.data['args'][1] if len(e.data['args']) > 1 else None)): e for e in ev}
    c.check(set(got) == {'data', 'data_tilt', 'latlon'} and len(ev) == 3, 'the archive holds horizontal and tilted readings and the sites', fn, detail=repr(sorted(map(str, got))))
    u = c.uncaught()
    x = T.FALSE
    for r in u:
        if not r['exc'].endswith('*'):
            x = T.lor(x, r['cond'])
    c.true(T.lnot(x), 'valid files are not rejected', fn, pc=T.TRUE)
    fs = sorted(f for f in SENSORS[k] if f.endswith('.csv') and 'latlon' not in f)
    nm = C.lst(c.I, [leaf(f) for f in fs])
    ids = C.lst(c.I, [leaf(f[:-4].split('_')[1]) for f in fs])
    for key, col in (('data', 'G1 (W/m2)'), ('data_tilt', 'G2 (W/m2)')):
        if key in got:
            w = c.spec('files.sensors', path('dir'), nm, ids, leaf(col))
            c.eq(c.I.alloc(Arr(got[key].data['av'])), w, '%s: every sensor in its own column, on an even grid' % key, at_ev(got[key]))
    if 'latlon' in got:
        c.eq(c.I.alloc(Arr(got['latlon'].data['av'])), c.spec('files.sites', path('sites')), 'sites', at_ev(got['latlon']))
    stays(c, ev)


@case('P03', name='file helpers, verbose off', params=['wget', 'archive'])
def quiet(c, k):
    if k == 'wget':
        fn = IO + 'wget_fromurl'
        run(c, fn, path('url'), path('dir'), FALSE)
    else:
        fn = H + 'dataset_to_h5'
        campaign(c)
        c.I.dirlist = FILES[3]
        run(c, fn, path('dir'), path('h5'), TRUE, FALSE)
    ev = c.events('print', 'plot')
    for e in ev:
        c.ob('violated', 'no console output when verbose is off', at_ev(e), detail='print when %s' % T.short(e.pc, 300))
    if not ev:
        c.ob('holds', 'no console output when verbose is off', fn)
