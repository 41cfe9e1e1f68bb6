"""Loop summarisation: one generic iteration with 'carry' markers, then closed
forms for maps, appends, accumulations and indexed stores."""
import ast
from . import terms as T
from . import funcs as FX
from .terms import S, P, num, leaf, atom_poly, ivar, app, ite, land, lor, lnot
from .values import *

_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def contains(x, atom):
    return any(a is atom for a in T.walk_atoms(x))


def has_carry(x, u):
    for a in T.walk_atoms(x):
        if a.op == 'carry' and a.args[0] == u:
            return True
    return False


def exec_for_sym(I, s, seq):
    from .interp import DeadPath, MaybeUnbound
    fr = I.frames[-1]
    snap = I.snapshot()
    iv, n = seq.iv, seq.n
    # ---- discovery pass
    I.quiet += 1
    I.raises.append([])
    fr.loops.append(dict(breaks=[], continues=[], escape=[], sym=True))
    dead = False
    try:
        I.assign(s.target, seq.elem)
        dead = I.exec_block(s.body)
    except DeadPath:
        dead = True
    info = fr.loops.pop()
    dead = I.join_list(dead, info['continues'])
    I.raises.pop()
    I.quiet -= 1
    irregular = bool(info['breaks'] or info['escape'])
    changed_env = []
    mutated = []
    if not dead or True:
        for (f, e) in snap[1]:
            for k, v in e.items():
                nv = f.env.get(k)
                if nv is not v and not (nv == v if not isinstance(nv, S) else False):
                    changed_env.append((f, k))
        for o, r in snap[0].items():
            if I.heap.get(o) is not r:
                mutated.append(o)
    I.restore(snap)
    if irregular:
        I.undecide('loop with conditional exit', s)
        # still analyse one generic iteration for effects
        fr.loops.append(dict(breaks=[], continues=[], escape=[], sym=True))
        I.raises.append([])
        try:
            I.assign(s.target, seq.elem)
            I.exec_block(s.body)
        except DeadPath:
            pass
        rr = I.raises.pop()
        inf2 = fr.loops.pop()
        I.restore(snap)
        for rec in rr:
            _lift_raise(I, rec, iv, n)
        esc = [x for x in inf2['escape'] if x[0] == 'return']
        if esc and not inf2['breaks']:
            # search loop: may return from inside
            for (_, c, v) in esc:
                cc = FX.s_any([iv], [n], I_restrict(c, snap[2]))
                vv = T.opaque('firstmatch', I.term(v) if not isinstance(v, S) else v, num(uid())) if True else v
                if isinstance(v, S) and iv not in v.free:
                    vv = v
                    I_un = False
                fr.exits.append((land(snap[2], cc), vv, dict(snap[0])))
                I.pc = land(I.pc, lnot(cc))
        I.havoc(s)
        if s.orelse:
            return I.exec_block(s.orelse)
        return I.pc is T.FALSE
    # ---- generic iteration with carries
    carr = {}
    targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    for f, k in changed_env:
        if f is fr and k in targets:
            continue
        old = dict(snap[1])[f].get(k) if False else next(e for g, e in snap[1] if g is f)[k]
        if isinstance(old, MaybeUnbound):
            old = old.v
        u = uid()
        if isinstance(old, S):
            c = app('carry', u, old if False else num(0))
            carr[('env', f, k)] = (u, old, c)
            f.env[k] = c
        elif isinstance(old, Ref) and isinstance(I.rec(old), Arr):
            r = I.rec(old)
            axes, body = r.av.opened()
            c = app('carry', u, *[P(atom_poly(a.var)) for a in axes])
            carr[('env', f, k)] = (u, old, c)
            f.env[k] = I.alloc(Arr(AV(axes, c, r.av.kind, r.av.dtype, r.av.name), r.roots))
        else:
            carr[('env', f, k)] = (None, old, None)
    for o in mutated:
        r = snap[0][o]
        u = uid()
        if isinstance(r, Arr):
            axes, body = r.av.opened()
            c = app('carry', u, *[P(atom_poly(a.var)) for a in axes])
            I.heap[o] = Arr(AV(axes, c, r.av.kind, r.av.dtype, r.av.name), r.roots, r.base, r.attrs)
            carr[('heap', o)] = (u, r, (axes, c))
        elif isinstance(r, Lst):
            I.heap[o] = Lst([('carry', u)], r.roots)
            carr[('heap', o)] = (u, r, None)
        elif isinstance(r, Dct):
            # keep known constant keys visible, mark as carried
            I.heap[o] = Dct([('carry', u)], r.roots)
            carr[('heap', o)] = (u, r, None)
        elif isinstance(r, Obj):
            at = {}
            cc = {}
            for k, v in r.attrs.items():
                if isinstance(v, S):
                    uu = uid()
                    at[k] = app('carry', uu, num(0))
                    cc[k] = (uu, at[k])
                else:
                    at[k] = v
            I.heap[o] = Obj(r.cls, at, r.roots)
            carr[('heap', o)] = (u, r, cc)
    I.raises.append([])
    before_exits = len(fr.exits)
    fr.loops.append(dict(breaks=[], continues=[], escape=[], sym=True))
    I.loopdepth += 1
    I.loopvars = getattr(I, 'loopvars', [])
    I.loopvars.append((iv, n))
    heap_before = dict(I.heap)
    try:
        I.assign(s.target, seq.elem)
        dead = I.exec_block(s.body)
    except DeadPath:
        dead = True
    I.loopvars.pop()
    I.loopdepth -= 1
    info = fr.loops.pop()
    dead = I.join_list(dead, info['continues'])
    recs = I.raises.pop()
    anyr = T.FALSE
    for rec in recs:
        c = _lift_raise(I, rec, iv, n)
        anyr = lor(anyr, c)
    if dead:
        I.restore(snap)
        I.pc = land(snap[2], lnot(anyr))
        if I.pc is T.FALSE:
            return True
        return False
    after_heap = I.heap
    after_env = {(f, k): f.env.get(k) for (t, f, k) in [x for x in carr if x[0] == 'env']}
    after_new = {k: v for k, v in fr.env.items()}
    pre_env = next(e for g, e in snap[1] if g is fr)
    I.pc = land(snap[2], lnot(anyr))
    last = T.s_sub(n, num(1))
    # ---- post state
    newheap = dict(after_heap)
    for key, (u, old, c) in carr.items():
        if key[0] != 'heap':
            continue
        o = key[1]
        r = after_heap[o]
        if isinstance(old, Arr):
            axes, cb = c
            newheap[o] = Arr(close_arr(I, old.av, r.av, u, iv, n, s), old.roots, old.base, old.attrs)
        elif isinstance(old, Lst):
            newheap[o] = close_list(I, old, r, u, iv, n, s)
        elif isinstance(old, Dct):
            newheap[o] = close_dict(I, old, r, u, iv, n, s)
        elif isinstance(old, Obj):
            at = {}
            for k, v in r.attrs.items():
                if k in c:
                    at[k] = close_scalar(I, old.attrs[k], v, c[k][0], iv, n, s)
                else:
                    at[k] = v
            newheap[o] = Obj(old.cls, at, old.roots)
    I.heap = newheap
    for key, (u, old, c) in carr.items():
        if key[0] != 'env':
            continue
        _, f, k = key
        v = after_env[(f, k)]
        if isinstance(v, MaybeUnbound):
            v = v.v
        if u is None:
            f.env[k] = I.models.instantiate(I, v, {iv: last})
            if has_any_carry_val(I, f.env[k]):
                f.env[k] = T.opaque('loopval', num(uid()))
                I.undecide('loop-carried value', s)
        elif isinstance(old, S):
            if isinstance(v, S):
                f.env[k] = close_scalar(I, old, v, u, iv, n, s)
            else:
                if has_any_carry_val(I, v):
                    I.undecide('loop-carried value of changing type', s)
                    f.env[k] = T.opaque('loopval', num(uid()), old, I.term(v) if True else None)
                else:
                    f.env[k] = I.models.instantiate(I, v, {iv: last})
        else:
            if isinstance(v, Ref) and isinstance(I.rec(v), Arr):
                r0 = snap[0][old.oid]
                av = close_arr(I, r0.av, I.rec(v).av, u, iv, n, s)
                f.env[k] = I.alloc(Arr(av, I.rec(v).roots & r0.roots))
            else:
                I.undecide('loop-carried array', s)
                f.env[k] = T.opaque('loopval', num(uid()))
    # names defined only in the loop: last value
    for k, v in list(fr.env.items()):
        if k not in pre_env or k in targets:
            if isinstance(v, MaybeUnbound):
                v = v.v
            fr.env[k] = MaybeUnbound(I.models.instantiate(I, v, {iv: last}), T.s_lt(num(0), n)) if k not in pre_env else I.models.instantiate(I, v, {iv: last})
    if s.orelse:
        return I.exec_block(s.orelse)
    return False


def I_restrict(c, pc):
    while pc.kind == 'N':
        if pc.lo is T.FALSE:
            c = T.cof(c, pc.atom, True)
            pc = pc.hi
        elif pc.hi is T.FALSE:
            c = T.cof(c, pc.atom, False)
            pc = pc.lo
        else:
            break
    return c


def _lift_raise(I, rec, iv, n):
    c = rec['cond']
    if iv in c.free:
        c = FX.s_any([iv], [n], c)
        rec['cond'] = c
    if I.raises:
        I.raises[-1].append(rec)
    elif not I.quiet:
        I.uncaught.append(rec)
    return c


def has_any_carry_val(I, v):
    t = I.term(v)
    return any(a.op == 'carry' for a in T.walk_atoms(t if isinstance(t, tuple) else (t,)))


def close_scalar(I, old, new, u, iv, n, node):
    if not isinstance(new, S):
        I.undecide('loop-carried value', node)
        return T.opaque('loopval', num(uid()), old)
    if new.kind == 'L' and isinstance(new.val, T.Poly):
        a = T.single_atom(new.val)
        if a is not None and a.op == 'carry' and a.args[0] == u:
            return old
    if not has_carry(new, u):
        return T.subst(new, {iv: T.s_sub(n, num(1))})
    c = _carry_of(new, u)
    polys = [T.as_poly(v) for v in T.leaves(new)]
    if all(p is not None for p in polys):
        diff = T.s_sub(new, P(atom_poly(c)))
        if not has_carry(diff, u):
            return T.s_add(old, FX.s_sum([iv], [n], diff))
        q = T.s_div(new, P(atom_poly(c)))
        if not has_carry(q, u):
            return T.s_mul(old, app('prod', T.lam([iv], [n], q)))
    # last write wins / flags
    W = T.apply1('w%d' % u, lambda v: leaf(not _is_carry(v, u)), new)
    if not has_carry(W, u):
        V = T.cof_true(new, W, c) if False else new
        vals = [v for v in T.leaves(new) if not _is_carry(v, u)]
        if len(vals) == 1 and not _leaf_has(vals[0], u) and iv not in leaf(vals[0]).free:
            return ite(FX.s_any([iv], [n], W), leaf(vals[0]), old)
    I.undecide('loop-carried scalar', node)
    return T.opaque('loopval', num(uid()), old, T.lam([iv], [n], new))


def _leaf_has(v, u):
    return isinstance(v, T.Poly) and has_carry(v, u)


def _is_carry(v, u):
    if isinstance(v, T.Poly):
        a = T.single_atom(v)
        return a is not None and a.op == 'carry' and a.args[0] == u
    return False


def _carry_of(x, u):
    for a in T.walk_atoms(x):
        if a.op == 'carry' and a.args[0] == u:
            return a


def close_arr(I, old, new, u, iv, n, node):
    """old AV, new AV after generic iteration"""
    if new.ndim != old.ndim:
        I.undecide('loop changes array rank', node)
        return new.copy(body=T.opaque('looparr', num(uid()), *[P(atom_poly(a.var)) for a in new.axes]))
    axes, oldb = old.opened()
    m = {b.var: P(atom_poly(a.var)) for a, b in zip(axes, new.axes)}
    nb = T.subst(new.body, m)
    vars_ = [P(atom_poly(a.var)) for a in axes]
    C = app('carry', u, *vars_)
    res = close_body(I, oldb, nb, u, C, iv, n, axes, node)
    return AV(axes, res, new.kind, old.dtype if old.dtype == new.dtype else None, new.name)


def close_body(I, oldb, nb, u, C, iv, n, axes, node):
    if nb is C:
        return oldb
    if not has_carry(nb, u):
        return T.subst(nb, {iv: T.s_sub(n, num(1))})
    ca = T.single_atom(C.val)
    # carry only at the same location?
    others = [a for a in T.walk_atoms(nb) if a.op == 'carry' and a.args[0] == u and a is not ca]
    if others:
        # every round reads and writes only its own line: lines are independent
        for d, ax in enumerate(axes):
            if all(len(a.args) == len(axes) + 1 and a.args[d + 1] is T.atom_poly(iv) for a in others) and T.same(ax.n, n):
                def old_at(args):
                    return T.subst(oldb, {x.var: (v if isinstance(v, S) else leaf(v)) for x, v in zip(axes, args)})
                st = solve_store(I, oldb, nb, u, C, iv, n, [ax], old_at)
                if st is not None:
                    return st
    if not others:
        st = solve_store(I, oldb, nb, u, C, iv, n, axes)
        if st is not None:
            return st
        polys = [T.as_poly(v) for v in T.leaves(nb)]
        if all(p is not None for p in polys):
            diff = T.s_sub(nb, C)
            if not has_carry(diff, u):
                return T.s_add(oldb, FX.s_sum([iv], [n], diff))
        # last write wins
        W = written(nb, u)
        if not has_carry(W, u):
            vals = [v for v in T.leaves(nb) if not _is_carry(v, u)]
            if not any(_leaf_has(v, u) for v in vals):
                V = drop_carry(nb, u)
                if iv not in V.free:
                    return ite(FX.s_any([iv], [n], W), V, oldb)
                return app('lastwrite', T.lam([iv], [n], W), T.lam([iv], [n], V), oldb)
    I.undecide('loop-carried array', node)
    return T.opaque('looparr', num(uid()), oldb, T.lam([iv], [n], nb))


def written(nb, u):
    return T.apply1('written%d' % u, lambda v: leaf(not _is_carry(v, u)), nb)


def drop_carry(nb, u):
    """value with carry leaves replaced by some written leaf where unreachable"""
    def go(s):
        if s.kind == 'L':
            return None if _is_carry(s.val, u) else s
        h, l = go(s.hi), go(s.lo)
        if h is None:
            return l
        if l is None:
            return h
        return ite(T.bool_atom(s.atom), h, l)
    return go(nb)


def solve_store(I, oldb, nb, u, C, iv, n, axes, old_at=None):
    W = written(nb, u)
    ca = T.single_atom(C.val)
    for a in _guards(W):
        if a.op != 'eq' or iv not in a.free:
            continue
        for ax in axes:
            if ax.var not in a.free:
                continue
            p = a.args[0]
            # p = s*(ax - iv + c)
            cf_iv = cf_ax = None
            rest = {}
            ok = True
            for m, c in p.t:
                if len(m) == 1 and m[0][0] is iv and m[0][1] == 1:
                    cf_iv = c
                elif len(m) == 1 and m[0][0] is ax.var and m[0][1] == 1:
                    cf_ax = c
                else:
                    if any(iv in at.free for at, e in m):
                        ok = False
                    rest[m] = c
            if not ok or cf_iv is None or cf_ax is None or cf_iv != -cf_ax:
                continue
            if T.cof(W, a, False) is not T.FALSE:
                continue
            # iv = ax + rest/cf_ax
            off = T.scale(T.mk_poly(rest), 1 / cf_ax)
            sol = T.s_add(P(atom_poly(ax.var)), P(off))
            V = T.cof(nb, a, True)
            if old_at is not None:
                if off.t:
                    continue
                T.CARRY[u] = old_at
                try:
                    V2 = T.subst(V, {iv: sol})
                finally:
                    T.CARRY.pop(u, None)
                if any(x.op == 'carry' and x.args[0] == u and x is not ca for x in T.walk_atoms(V2)):
                    continue
            else:
                V2 = T.subst(V, {iv: sol})
            V2 = T.subst(V2, {ca: oldb}) if has_carry(V2, u) else V2
            if off.t:
                inr = land(T.lnot(T.s_lt(sol, num(0))), T.s_lt(sol, n))
            else:
                inr = T.TRUE if T.same(ax.n, n) else T.s_lt(sol, n)
            return ite(inr, V2, oldb)
    return None


def _guards(s):
    seen = set()
    st = [s]
    out = []
    while st:
        x = st.pop()
        if x in seen or x.kind == 'L':
            continue
        seen.add(x)
        if x.atom not in out:
            out.append(x.atom)
        st.extend((x.hi, x.lo))
    return out


def close_list(I, old, new, u, iv, n, node):
    if not new.parts or new.parts[0] != ('carry', u):
        if not new.parts:
            return new
        I.undecide('list rebuilt in loop', node)
        return Lst([('opaque', T.opaque('looplist', num(uid())))], old.roots)
    rest = new.parts[1:]
    parts = list(old.parts)
    if not rest:
        return old
    if len(rest) == 1 and rest[0][0] == 'one':
        parts.append(('map', iv, n, rest[0][1], T.TRUE))
    elif len(rest) == 1 and rest[0][0] == 'if' and len(rest[0][2]) == 1 and rest[0][2][0][0] == 'one':
        parts.append(('map', iv, n, rest[0][2][0][1], rest[0][1]))
    elif len(rest) == 2 and all(r[0] == 'if' and len(r[2]) == 1 and r[2][0][0] == 'one' for r in rest) and \
            T.same(lnot(rest[0][1]), rest[1][1]):
        v = I.merge_val(rest[0][1], rest[0][2][0][1], rest[1][2][0][1])
        parts.append(('map', iv, n, v, T.TRUE))
    elif all(r[0] == 'one' for r in rest):
        parts.append(('map', iv, n, Tup([r[1] for r in rest]), T.TRUE))
        parts[-1] = ('flat', iv, n, Tup([r[1] for r in rest]), T.TRUE)
    else:
        parts.append(('flat', iv, n, tuple(rest), T.TRUE))
    return Lst(parts, old.roots)


def close_dict(I, old, new, u, iv, n, node):
    if not new.parts or new.parts[0] != ('carry', u):
        I.undecide('dict rebuilt in loop', node)
        return Dct([('opaque', T.opaque('loopdict', num(uid())))], old.roots)
    parts = list(old.parts)
    for r in new.parts[1:]:
        if r[0] == 'kv':
            parts.append(('dmap', iv, n, r[1], r[2], T.TRUE))
        elif r[0] == 'if' and len(r[2]) == 1 and r[2][0][0] == 'kv':
            parts.append(('dmap', iv, n, r[2][0][1], r[2][0][2], r[1]))
        else:
            I.undecide('dict update in loop', node)
            parts.append(('opaque', T.opaque('loopdict', num(uid()))))
    return Dct(parts, old.roots)


# ------------------------------------------------------------------ comprehensions
def comprehension(I, e, kind):
    fr = I.frames[-1]
    saved = dict(fr.env)
    targets = set()
    for g in e.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                targets.add(x.id)
    try:
        parts = _comp(I, e, e.generators, kind)
    finally:
        for t in targets:
            if t in saved:
                fr.env[t] = saved[t]
            else:
                fr.env.pop(t, None)
    if kind == 'dict':
        out = []
        for p in parts:
            if p[0] == 'kv':
                out = I.models.dict_put(out, p[1], p[2])
            else:
                out.append(p)
        return I.alloc(Dct(out))
    if kind == 'set':
        ref = I.alloc(Lst(parts))
        return I.models.call_builtin(I, 'builtins.set', [ref], {}, e)
    return I.alloc(Lst(parts))


def _comp(I, e, gens, kind):
    g = gens[0]
    it = I.eval(g.iter)
    items, seq = I.models.iterate(I, it, e)
    if items is not None:
        out = []
        for v in items:
            I.assign(g.target, v)
            c = T.TRUE
            for cond in g.ifs:
                c = land(c, I.under_pc(I.truth(I.eval(cond))))
                if c is T.FALSE:
                    break
            if c is T.FALSE:
                continue
            inner = _comp_inner(I, e, gens, kind)
            if c is T.TRUE:
                out.extend(inner)
            else:
                out.append(('if', c, tuple(inner)))
        return out
    I.assign(g.target, seq.elem)
    c = seq.guard
    for cond in g.ifs:
        c = land(c, I.truth(I.eval(cond)))
    pc0 = I.pc
    if c.kind == 'N':
        I.pc = land(I.pc, c)
    mark = len(I.raises[-1]) if I.raises else len(I.uncaught)
    inner = _comp_inner(I, e, gens, kind)
    lst = I.raises[-1] if I.raises else I.uncaught
    for rec in lst[mark:]:
        if seq.iv in rec['cond'].free:
            rec['cond'] = FX.s_any([seq.iv], [seq.n], rec['cond'])
    pcx = I.pc
    I.pc = pc0
    for rec in lst[mark:]:
        I.pc = land(I.pc, lnot(rec['cond']))
    if len(inner) == 1 and inner[0][0] == 'one':
        return [('map', seq.iv, seq.n, inner[0][1], c)]
    if len(inner) == 1 and inner[0][0] == 'kv':
        return [('dmap', seq.iv, seq.n, inner[0][1], inner[0][2], c)]
    return [('flat', seq.iv, seq.n, tuple(inner), c)]


def _comp_inner(I, e, gens, kind):
    if len(gens) > 1:
        return _comp(I, e, gens[1:], kind)
    if kind == 'dict':
        k = I.eval(e.key)
        return [('kv', I.models.keyterm(I, k), I.eval(e.value))]
    return [('one', I.eval(e.elt))]
