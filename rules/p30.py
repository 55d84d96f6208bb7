"""Weights of the bilinear and triangulation modes."""
from .p37 import *
from .p37 import run as p37run
from . import p37

EXPLAIN = ('The three modes are evaluated abstractly from source points and target coordinates to the table. The weights stored for a cell are brought into polynomial normal form and compared with '
           'the equations given to the solver, evaluated on the corners of which the indexes are stored; barycentric weights are followed to the triangle, its transform and its vertices.')
RULE = ('bilinear weights sum to 1, and each is the factor its own corner has in both equations solved for the cell; barycentric weights are those of the cell in the triangle found for it, '
        'next to the vertices of that triangle; points repeated over the border have the index of the original; cells at a source point and out of reach as documented')
ASSUME = ['the solver and the triangulation of scipy do what they document', 'loops over the candidates run at least once']
SOLVERS = ('scipy.optimize.fsolve', 'scipy.optimize.root', 'scipy.optimize.newton')
CLIP = ('numpy.clip', 'numpy.core.umath.clip')
W = 'pyg2p/main/interpolation/scipy_interpolation_lib.py'


def check(rep, overlay=None):
    rep.each(['bilinear', 'triangulation', 'bilinear_delaunay'], lambda r, m: mode(r, overlay, m), width=3)


def opaque():
    """functions of the module that look at candidates are opaque; those given the solution, or called with nothing, are evaluated"""
    def invoke(e, fi, selfn, args, kw, st):
        if fi.cls is not None or 'scipy_interpolation_lib' not in str(getattr(fi.module, 'path', '')):
            return None
        vals = tuple(e.freeze(a, st) for a in list(args) + list(kw.values()))
        if not vals or any(mentions(v, lambda n: n.op == 'call' and (ext_of(n) in SOLVERS or n.args[0].op == 'attr' and n.args[0].args[1] == 'find_simplex')) for v in vals):
            return None
        if any(v.op in ('bound', 'func') for v in vals):
            return None
        return N('op', 'fn', fi.name, vals)
    return invoke


def mode(rep, overlay, m):
    was = p37.engine, p37.stub
    p37.stub = lambda g: opaque()
    p37.engine = lambda ov, hooks=None, **k: was[0](ov, {'invoke': opaque()} if hooks is not None and not hooks else hooks, **k)
    try:
        g = p37run(overlay, m, False, False, False)
    finally:
        p37.engine, p37.stub = was
    rep.need(g is not None, f'{m}: the interpolation with scipy was not found')
    rep.scenario(g.e, m)
    ls = leafset(g.v)
    rep.need(len(ls) == 1 and ls[0].op == 'tuple' and len(ls[0].args[0]) == 3, f'{m}: the result is not field, weights and indexes')
    g.parts = ls[0].args[0]
    g.bases = [bases(g, p) for p in g.parts]
    stored = [[x for x in g.e.events if x.kind == 'setitem' and isinstance(x.args[0], Node) and x.g and any(l in b for _, l in leaves(x.args[0], x.g))] for b in g.bases]
    rep.need(stored[1], f'{m}: no weights are stored')
    seen = set()
    for x in stored[1]:
        v = x.args[2]
        if solved(v):
            seen.add('solved')
            bilinear(rep, g, m, x, *stored)
        elif pieces(v) is not None and len(pieces(v)) > 1:
            seen.add('barycentric')
            barycentric(rep, g, m, x, *stored)
    want = {'bilinear': {'solved'}, 'triangulation': {'barycentric'}, 'bilinear_delaunay': {'solved', 'barycentric'}}[m]
    known = any(solved(x.args[2]) or mentions(x.args[2], lambda n: n.op == 'attr' and n.args[1] == 'transform') for x in stored[1])
    rep.need(known, f'{m}: the weights were not recognised ({", ".join(sorted(want - seen))})')
    if m == 'bilinear':
        cases(rep, g, m, *stored)
    else:
        repeated(rep, g, m, stored[2])


def bases(g, n):
    """arrays an updated array started from"""
    out, todo, seen = set(), [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            todo += [x.args[1], x.args[2]]
        elif x.op == 'upd':
            todo.append(x.args[0])
        elif x.op == 'mu':
            todo += [y for y in g.e.mus.get((x.args[0], x.args[1]), ()) if isinstance(y, Node)]
        else:
            out.add(x)
    return out


def solved(v):
    return mentions(v, lambda n: n.op == 'call' and ext_of(n) in SOLVERS)


def items(x, many=None):
    """column -> value of what is stored for the cell"""
    k, v = x.args[1], x.args[2]
    if k.op == 'tuple' and len(k.args[0]) == 2 and is_const(k.args[0][1]):
        return {k.args[0][1].args[0]: v}
    while v.op == 'call' and ext_of(v) in SAME and v.args[1]:
        v = v.args[1][0]
    if v.op in ('listv', 'tuple'):
        return dict(enumerate(v.args[0]))
    return {}


def row(x):
    k = x.args[1]
    return k.args[0][0] if k.op == 'tuple' and k.args[0] else k


def together(x, xs):
    """columns of all stores made with this one"""
    out = {}
    for y in xs:
        if y.g == x.g and row(y) is row(x):
            out.update(items(y))
    return out


def canon(n):
    return ratio(n)


# ------------------------------------------------------------------ the equations

def bilinear(rep, g, m, x, fields, weights, indexes):
    e = g.e
    where = str(x.where)
    cols = together(x, weights)
    if len(cols) < 4:
        return
    ws = [cols[k] for k in sorted(cols)[:4]]
    sol = [n for w in ws for n in walk(w) if n.op == 'call' and ext_of(n) in SOLVERS]
    s = sol[0]
    rep.ob(f'{m}:one-solution', len(set(sol)) == 1, where, f'{m}: the weights of a cell are made of several solutions')
    found, free = {}, False
    todo, seen = list(ws), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        k = unknown(n, s)
        if k is not None:
            found.setdefault(k[0], {}).setdefault(n, k[1])
            continue
        free = free or n is s
        todo += children(n)
    ok = sorted(found) == [0, 1] and all(len(v) == 1 and all(v.values()) for v in found.values()) and not free
    rep.ob(f'{m}:bounds', ok, where, f'{m}: the solution is not kept between 0 and 1')
    if sorted(found) != [0, 1] or any(len(v) != 1 for v in found.values()):
        return
    a, b = (next(iter(found[k])) for k in (0, 1))
    ab = {a: N('param', 'first unknown'), b: N('param', 'second unknown')}
    if any(mentions(rewrite(w, lambda n: ab.get(n, n), {}), lambda n: n.op == 'call') for w in ws):
        return
    one = canon(ws[0])
    for w in ws[1:]:
        one = plus(one, canon(w))
    rep.ob(f'{m}:sum', equal(one, (num(1), num(1))), where, f'{m}: the weights of a cell do not sum to 1')
    # corners, as the equations know them
    f = s.args[1][0]
    st = e.state()
    st.heap, st.cont = dict(x.heap), dict(x.cont or {})
    now, me = {}, None
    if f.op == 'bound' and f.args[0] in st.heap:
        me = f.args[0]
        h = st.heap[me]
        now = {k: e.freeze(v, st) for k, v in h.known.items()}
        st.heap[me] = copyobj(h, {k: N('param', 'now', str(k.args[0])) if isinstance(k, Node) else N('param', 'now', str(k)) for k in now})
        now = {(str(k.args[0]) if isinstance(k, Node) else str(k)): v for k, v in now.items()}
    pa, pb = N('param', 'first unknown'), N('param', 'second unknown')
    try:
        v, st2, r = e.run(f, [N('tuple', (pa, pb))], {}, st)
    except AnalysisError:
        raise
    v = e.freeze(v, st2)
    while v.op == 'call' and ext_of(v) in SAME:
        v = v.args[1][0]
    rep.need(v.op in ('listv', 'tuple') and len(v.args[0]) == 2, f'{m}: the equations were not found')
    eqs = v.args[0]
    idx = together(x, indexes)
    idx = [idx[k] for k in sorted(idx)[:4]]
    if len(idx) < 4:
        rep.ob(f'{m}:indexes', False, where, f'{m}: no indexes are stored with the weights of a cell')
        return

    def corner(i, j):
        """component j of the corner whose index is stored at position i, as the equations call it"""
        for nm, val in now.items():
            if same_value(e.freeze(e.getitem(val, const(3), st2), st2), idx[i], x.g):
                return e.freeze(e.getitem(N('param', 'now', nm), const(j), st2), st2)
        return component(e, idx[i], j, st2)
    ren = {a: pa, b: pb}
    wp = [canon(rewrite(w, lambda n: ren.get(n, n), {})) for w in ws]
    names = ('latitude', 'longitude')
    for j, q in enumerate(eqs):
        cs = [corner(i, j) for i in range(4)]
        if None in cs:
            rep.ob(f'{m}:corners', False, where, f'{m}: the index stored with a weight is not that of a corner in the equations')
            return
        total = times(wp[0], of(cs[0]))
        for w, c in zip(wp[1:], cs[1:]):
            total = plus(total, times(w, of(c)))
        got = canon(q)
        for target, what in targets(now, row(x), me):
            if equal(got, plus(total, of(target), -1)) or equal(got, plus(of(target), total, -1)):
                rep.ob(f'{m}:equation:{names[j]}', what == names[j], where, f'{m}: the {names[j]} of the corners is set equal to the {what} of the cell')
                break
        else:
            rep.ob(f'{m}:equation:{names[j]}', False, where, f'{m}: the weights stored are not those with which the {names[j]} of the corners gives that of the cell, each for the corner of its index')
    # the field
    for y in fields:
        if y.g == x.g and row(y) is row(x):
            zs = [component(e, i, 2, st2) for i in idx]
            if None in zs or mentions(y.args[2], lambda n: n.op == 'bin' and n.args[0] == '@' or n.op == 'call' and ((ext_of(n) or '').split('.')[-1] in ('dot', 'sum', 'inner', 'einsum', 'average') or n.args[0].op == 'attr' and n.args[0].args[1] in ('dot', 'sum'))):
                continue
            total = times(canon(ws[0]), of(zs[0]))
            for w, z in zip(ws[1:], zs[1:]):
                total = plus(total, times(canon(w), of(z)))
            rep.ob(f'{m}:field', equal(canon(y.args[2]), total), str(y.where), f'{m}: the value of a cell is not the sum of its weights times the values of its corners')
    for i in idx:
        corners(rep, g, m, x, i)
    fresh(rep, g, m, x, idx)


def kept(n):
    """(value, whether it is kept between 0 and 1)"""
    if n.op == 'call' and ext_of(n) in CLIP and n.args[1]:
        kw = dict(n.args[2] or ())
        lo, hi = (n.args[1][i] if len(n.args[1]) > i else kw.get(k, kw.get(k2)) for i, k, k2 in ((1, 'a_min', 'min'), (2, 'a_max', 'max')))
        return n.args[1][0], lo is not None and hi is not None and is_const(lo, 0, 0.0) and is_const(hi, 1, 1.0)
    if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'clip':
        return n.args[0].args[0], len(n.args[1]) == 2 and is_const(n.args[1][0], 0, 0.0) and is_const(n.args[1][1], 1, 1.0)

    def lim(n):
        if n.op == 'call' and (ext_of(n) or '').split('.')[-1] in ('minimum', 'maximum', 'min', 'max') and len(n.args[1]) == 2:
            c = [x for x in n.args[1] if is_const(x)]
            r = [x for x in n.args[1] if not is_const(x)]
            if len(c) == 1:
                return r[0], ext_of(n).split('.')[-1][:3], c[0].args[0]
        return None
    o = lim(n)
    if o:
        i = lim(o[0])
        if i:
            return i[0], {o[1:], i[1:]} == {('min', 1), ('max', 0)}
        return o[0], False
    return None


def unknown(n, s):
    """(number of the unknown, whether it is kept between 0 and 1)"""
    if n.op == 'sub' and is_const(n.args[1], 0, 1):
        if n.args[0] is s:
            return n.args[1].args[0], False
        k = kept(n.args[0])
        if k is not None and k[0] is s:
            return n.args[1].args[0], k[1]
    k = kept(n)
    if k is not None:
        u = unknown(k[0], s)
        if u is not None:
            return u[0], k[1] or u[1]
    return None


def copyobj(h, known):
    import copy
    o = copy.copy(h)
    o.known = known
    return o


def same_value(a, b, g):
    """the same in all cases that are possible"""
    if a is b:
        return True
    if a.op != 'ite' and b.op != 'ite':
        return False
    return all(l is k for c, l in leaves(a, g) for _, k in leaves(b, c))


def component(e, n, j, st):
    """what is next to an element, in the same point"""
    if n.op == 'ite':
        hi, lo = (component(e, y, j, st) for y in n.args[1:])
        return None if hi is None or lo is None else ite(B.var(B.atoms[n.args[0]]), hi, lo)
    return e.freeze(e.getitem(n.args[0], const(j), st), st) if n.op == 'sub' else None


def targets(now, r, me):
    """what stands for the coordinates of the cell"""
    out = []
    for nm, v in now.items():
        c = cell(v, r)
        if c:
            out.append((N('param', 'now', nm), c))
    return out


def cell(v, r):
    """latitude or longitude of the cell of a row of the table"""
    ls = leafset(v)
    if len(ls) != 1:
        return None
    v = ls[0]
    if v.op != 'sub':
        return None
    a, k = v.args
    if a.op == 'sub' and a.args[1] is r and is_const(k, 0, 1):
        ps = stacked(a.args[0])
        if ps is None:
            return None
        return coordinate_of(ps[k.args[0]])
    if k is r:
        return coordinate_of(a)
    if k.op == 'tuple' and len(k.args[0]) == 2 and k.args[0][0] is r and is_const(k.args[0][1], 0, 1):
        ps = stacked(a)
        return coordinate_of(ps[k.args[0][1].args[0]]) if ps else None
    return None


def coordinate_of(a):
    while a.op == 'sub':
        a = a.args[0]
    la, lo = (mentions(a, lambda n, t=t: n is t) for t in (TLAT, TLON))
    return 'latitude' if la and not lo else 'longitude' if lo and not la else None


def stacked(n):
    """columns of an array of points"""
    n = leafset(n)
    if len(n) != 1:
        return None
    n = n[0]
    while n.op == 'upd':
        n = n.args[0]
    n = plainarray(n)
    t = n.op == 'attr' and n.args[1] == 'T'
    if t:
        n = n.args[0]
    if n.op == 'call' and n.args[1] and n.args[1][0].op in ('tuple', 'listv') and len(n.args[1][0].args[0]) == 2:
        f, kw = ext_of(n), dict(n.args[2] or ())
        ax = kw.get('axis', n.args[1][1] if len(n.args[1]) > 1 else const(0))
        if f == 'numpy.column_stack' or f == 'numpy.stack' and is_const(ax, 1, -1) or t and f in ('numpy.vstack', 'numpy.array', 'numpy.stack'):
            return list(n.args[1][0].args[0])
    return None


def corners(rep, g, m, x, i):
    """the corners ordered are the points of the entry: coordinates, value and index of one point in each row"""
    for n in through(g.e, i):
        if n.op == 'call' and ext_of(n) == 'numpy.array' and n.args[1] and n.args[1][0].op == 'listv' and len(n.args[1][0].args[0]) == 4:
            rows = [r.args[0] for r in n.args[1][0].args[0] if r.op in ('listv', 'tuple')]
            if len(rows) != 4 or any(len(r) != 4 for r in rows):
                continue
            rep.ob(f'{m}:four-corners', len({r[3] for r in rows}) == 4, str(x.where), f'{m}: a corner is there twice')
            for j, (la, lo, z, k) in enumerate(rows):
                bad = None
                zi = at(z)
                if zi is not None and zi[1] != point(k):
                    bad = 'value'
                for c, what in ((la, 'latitude'), (lo, 'longitude')):
                    p = at(c)
                    if p is not None and not mentions(p[0], lambda n: n.op == 'op' and n.args[0] == 'fn'):
                        if p[1] != point(k) or mentions(p[0], lambda n: n is (SLON if what == 'latitude' else SLAT)) and not mentions(p[0], lambda n: n is (SLAT if what == 'latitude' else SLON)):
                            bad = what
                    elif c.op == 'sub' and is_const(c.args[1]) and c.args[0].op == 'sub' and is_const(c.args[0].args[1], 0, 1) and c.args[0].args[0].op == 'op':
                        call = c.args[0].args[0]
                        given = [v for v in call.args[2]]
                        ks = [r[3] for r in rows]
                        if c.args[1].args[0] != j or c.args[0].args[1].args[0] != (0 if what == 'latitude' else 1) or given[-4:] != ks and ks != [y for y in given if y in ks]:
                            bad = what
                        src = [1 if mentions(v, lambda n: n is SLAT) and not mentions(v, lambda n: n is SLON) else 2 if mentions(v, lambda n: n is SLON) and not mentions(v, lambda n: n is SLAT) else 0 for v in given if v not in ks]
                        if [s for s in src if s] not in ([1, 2], []):
                            bad = what
                rep.ob(f'{m}:corner', bad is None, str(x.where), f'{m}: the {bad} of a corner is not that of its point')
            return


def through(e, i):
    """nodes of a value, with what the last round of a loop made"""
    out, todo, seen = [], [i], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        out.append(n)
        todo += children(n)
        if n.op == 'mu':
            todo += [y for y in e.mus.get((n.args[0], n.args[1]), ())[1:] if isinstance(y, Node)]
    return out


def at(c):
    """(array, point) of an element"""
    if c.op == 'sub' and c.args[0].op == 'sub' and is_const(c.args[1]) and c.args[0].args[1].op != 'const':
        return c.args[0].args[0], point(N('sub', c.args[0].args[1], c.args[1]))
    if c.op == 'sub':
        return c.args[0], point(c.args[1])
    return None


def point(k):
    """an index as (indexes, cell, column)"""
    if k.op == 'sub' and k.args[1].op == 'tuple' and len(k.args[1].args[0]) == 2:
        return k.args[0], k.args[1].args[0][0], k.args[1].args[0][1]
    if k.op == 'sub' and k.args[0].op == 'sub':
        a, r = k.args[0].args
        if r.op == 'tuple' and len(r.args[0]) == 2:
            r = r.args[0][0]
        return a, r, k.args[1]
    return k


def fresh(rep, g, m, x, idx):
    """corners are those of this cell: none can be left over from the cell before"""
    e = g.e
    for i in idx:
        for c, l in [(c2, l2) for c, q in leaves(i, x.g) if q.op == 'sub' for c2, l2 in leaves(q.args[0], c)]:
            if l.op != 'mu':
                continue
            init, nxt = e.mus.get((l.args[0], l.args[1]), (None, None))
            if not isinstance(nxt, Node):
                continue
            stale = 0
            for c2, l2 in leaves(nxt):
                if l2.op == 'mu' and l2.args[1] == l.args[1] or l2.op == 'absent':
                    stale = B.OR(stale, c2)
            stale = flags(stale, l.args[0])
            left = stepped(e, c, l.args[0])
            if left is not None:
                rep.ob(f'{m}:own-corners', B.AND(stale, left) == 0, str(x.where), f'{m}: when {showb(B.AND(stale, left))[:160]} the corners are those of the cell before')


def flags(f, loop):
    """conditions on flags of a loop, written as whether they are set"""
    for a in list(B.support(f)):
        a = a if isinstance(a, Node) else B.atoms[a]
        ms = [n for n in a.args if isinstance(n, Node) and n.op == 'mu' and n.args[0] == loop]
        other = [n for n in a.args if n not in ms]
        if a.op == 'eq' and len(ms) == 1 and len(other) == 1 and is_const(other[0], True, False):
            b = isset(ms[0])
            f = put(f, a, b if other[0].args[0] else B.NOT(b))
    return f


def isset(n):
    return n.args[0] if n.op == 'bool' else (1 if n.args[0] else 0) if n.op == 'const' else atom(N('truth', n))


def put(f, a, b):
    """a condition replaced"""
    hi, lo = B.restrict_map(f, lambda n: True if n is a else None), B.restrict_map(f, lambda n: False if n is a else None)
    return B.OR(B.AND(b, hi), B.AND(B.NOT(b), lo))


def stepped(e, f, loop):
    """a condition after the loop on what the last round of the loop leaves; None when it is not about flags of the loop"""
    f = flags(f, loop)
    d = {}
    for a in B.support(f):
        a = a if isinstance(a, Node) else B.atoms[a]
        if a.op != 'truth' or a.args[0].op != 'mu' or a.args[0].args[0] != loop:
            continue
        nxt = e.mus.get((loop, a.args[0].args[1]), (None, None))[1]
        if not isinstance(nxt, Node) or any(l.op not in ('const', 'mu', 'bool') for l in leafset(nxt)):
            continue
        b = 0
        for c, l in leaves(nxt):
            b = B.OR(b, B.AND(c, isset(l)))
        d[a] = flags(b, loop)
    if not d:
        return None
    # what the others are after the last round does not follow; all flags at once
    for a in list(B.support(f)):
        a = a if isinstance(a, Node) else B.atoms[a]
        if a not in d and any(isinstance(n, Node) and mentions(n, lambda y: y.op == 'mu' and y.args[0] == loop) for n in a.args):
            f = B.OR(put(f, a, 1), put(f, a, 0))
    tmp = {a: atom(N('truth', N('param', 'after', str(i)))) for i, a in enumerate(d)}
    for a in d:
        f = put(f, a, tmp[a])
    for a, b in d.items():
        f = put(f, B.atoms[B.top(tmp[a])] if isinstance(B.top(tmp[a]), int) else B.top(tmp[a]), b)
    return f


# ------------------------------------------------------------------ triangles

def pieces(n):
    """parts of an array put together"""
    n0 = n
    if n.op == 'call' and n.args[1]:
        f = ext_of(n)
        if f == 'numpy.append' and len(n.args[1]) >= 2:
            return (pieces(n.args[1][0]) or [n.args[1][0]]) + (pieces(n.args[1][1]) or [n.args[1][1]])
        if f in ('numpy.concatenate', 'numpy.hstack') and n.args[1][0].op in ('tuple', 'listv'):
            return [p for y in n.args[1][0].args[0] for p in (pieces(y) or [y])]
        if n.args[0].op == 'attr' and n.args[0].args[1] == 'astype':
            return pieces(n.args[0].args[0])
    return None


def untransposed(n):
    while True:
        if n.op == 'attr' and n.args[1] == 'T':
            n = n.args[0]
        elif n.op == 'call' and ext_of(n) == 'numpy.transpose' and n.args[1]:
            n = n.args[1][0]
        elif n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in ('transpose', 'ravel', 'flatten', 'copy'):
            n = n.args[0].args[0]
        else:
            return n


def barycentric(rep, g, m, x, fields, weights, indexes):
    where, r = str(x.where), row(x)
    ps = [untransposed(p) for p in pieces(x.args[2])]
    ps = [p.args[0][0] if p.op in ('listv', 'tuple') and len(p.args[0]) == 1 else p for p in ps]
    ps = [p for p in ps if not (p.op == 'call' and ext_of(p) == 'numpy.zeros') and not (p.op == 'listv' and all(is_const(v, 0) for v in p.args[0]))]
    b = ps[0]
    tot = N('total of b')

    def f(n):
        if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'sum' and untransposed(n.args[0].args[0]) is b or n.op == 'call' and ext_of(n) in ('numpy.sum', 'sum') and n.args[1] and untransposed(n.args[1][0]) is b:
            return tot
        return n
    ok = len(ps) == 2 and equal(canon(rewrite(ps[1], f, {})), plus((num(1), num(1)), of(tot), -1))
    rep.ob(f'{m}:barycentric:sum', ok, where, f'{m}: the weight of the last vertex is not 1 less those of the others')
    mat = vec = None
    if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] == 'dot' and len(b.args[1]) == 1:
        mat, vec = b.args[0].args[0], b.args[1][0]
    elif b.op == 'call' and ext_of(b) in ('numpy.dot', 'numpy.matmul') and len(b.args[1]) == 2:
        mat, vec = b.args[1]
    elif b.op == 'bin' and b.args[0] == '@':
        mat, vec = b.args[1:]
    if mat is None:
        return
    vec = untransposed(vec)
    t1 = transform(mat)
    ok = t1 is not None and t1[2].op == 'slice' and is_const(t1[2].args[0], None, 0) and is_const(t1[2].args[1], 2, -1)
    rep.ob(f'{m}:barycentric:matrix', ok, where, f'{m}: the weights are not made with the matrix of the triangle')
    if not ok:
        return
    tri, t, _ = t1
    t2, p = None, None
    if vec.op == 'bin' and vec.args[0] == '-':
        p, t2 = vec.args[1], transform(vec.args[2])
    ok = t2 is not None and t2[0] is tri and t2[1] is t and is_const(t2[2], 2, -1)
    rep.ob(f'{m}:barycentric:origin', ok, where, f'{m}: the cell is not taken relative to the last vertex of its own triangle')
    if p is None:
        return
    ok = p.op == 'sub' and p.args[1] is r
    rep.ob(f'{m}:barycentric:cell', ok, where, f'{m}: the weights are not those of the cell they are stored for')
    found = t.args[0] if t.op == 'sub' and t.args[1] is r else None
    ok = found is not None and found.op == 'call' and found.args[0].op == 'attr' and found.args[0].args[1] == 'find_simplex' and found.args[0].args[0] is tri and p.op == 'sub' and found.args[1][:1] == (p.args[0],)
    rep.ob(f'{m}:barycentric:triangle', ok, where, f'{m}: the triangle is not the one that was found for the cell')
    verts = set()
    for base in g.bases[2]:
        for n in walk(base):
            if n.op == 'sub' and n.args[0].op == 'attr' and n.args[0].args[1] == 'simplices':
                verts.add(n)
    ok = bool(verts) and all(n.args[0].args[0] is tri and n.args[1] is found for n in verts)
    rep.ob(f'{m}:barycentric:vertices', ok, where, f'{m}: the indexes of a cell are not the vertices of the triangle that was found for it')
    src = tri.args[1][0] if tri.op == 'call' and tri.args[1] else None
    if src is None or p.op != 'sub':
        return
    points(rep, g, m, where, src, p.args[0])
    # the field
    for y in fields:
        if y.g == x.g and row(y) is r and y.args[2].op == 'bin':
            terms = summands(y.args[2])
            cols = sorted(str(c) for c in (column(q) for q in terms))
            rep.ob(f'{m}:barycentric:field', len(terms) == 3 and cols == ['0', '1', '2'], str(y.where), f'{m}: the value of a cell is not the sum of the three weights times the values of their vertices')


def summands(n):
    if n.op == 'bin' and n.args[0] == '+':
        return summands(n.args[1]) + summands(n.args[2])
    return [n]


def column(q):
    """column k when a term is weights[cell, k] * values[indexes[cell, k]]"""
    if q.op != 'bin' or q.args[0] != '*':
        return None
    found = []
    for a in q.args[1:]:
        ks = set()
        for l in leafset(a):
            for k in leafset(l.args[1]) if l.op == 'sub' else ():
                pt = point(k)
                c = pt[2] if isinstance(pt, tuple) else k.args[0][-1] if k.op == 'tuple' and k.args[0] else k
                if is_const(c):
                    ks.add(c.args[0])
                if k.op == 'elem' and l.args[0].op == 'sub':
                    ks.add(None)
        found.append(ks)
    both = found[0] | found[1] if found else set()
    return next(iter(both)) if len(both) == 1 and all(len(k) <= 1 for k in found) else None


def transform(n):
    """(triangulation, triangle, part) of transform[triangle, part]"""
    if n.op != 'sub':
        return None
    a, k = n.args
    if a.op == 'sub' and a.args[0].op == 'attr' and a.args[0].args[1] == 'transform':
        return a.args[0].args[0], a.args[1], k
    if a.op == 'attr' and a.args[1] == 'transform' and k.op == 'tuple' and len(k.args[0]) == 2:
        return a.args[0], k.args[0][0], k.args[0][1]
    return None


def points(rep, g, m, where, src, tgt):
    """both sets of points are (latitude, longitude), with latitudes scaled by the same formula"""
    for pts, lat, lon, what in ((src, SLAT, SLON, 'source points'), (tgt, TLAT, TLON, 'target cells')):
        for c, l in leaves(pts):
            ps = stacked(l)
            if ps is None:
                continue
            for p, mine, other, nm in ((ps[0], lat, lon, 'latitude'), (ps[1], lon, lat, 'longitude')):
                good = mentions(values(g, p), lambda n: n is mine) and not mentions(values(g, p), lambda n: n is other)
                rep.ob(f'{m}:points:{what}:{nm}', good, where, f'{m}: the {nm} of the {what} is not where that of the others is')
    a, b = scale(g, src, SLAT), scale(g, tgt, TLAT)
    rep.ob(f'{m}:scale', a == b, where, f'{m}: source points are scaled with {a}, target cells with {b}')


def values(g, n):
    """the array of values, without the conditions that select parts of it"""
    def f(x):
        if x.op == 'sub' and x.args[1].op in ('bool', 'atom', 'ite'):
            return x.args[0]
        if x.op == 'upd' and x.args[1].op == 'bool':
            return x.args[0]
        return x
    ls = leafset(n)
    out = [rewrite(l, f, {}) for l in ls]
    out = [pieces(l)[0] if pieces(l) else l for l in out]
    return N('tuple', tuple(out))


def scale(g, pts, lat):
    """how latitudes are scaled: functions and factors of every change of the coordinates"""
    out = set()
    todo = [l for _, l in leaves(pts)]
    todo += [l for p in list(todo) for q in (stacked(p) or ()) for l in leafset(untransposed(q))]
    base = {n for l in todo for n in walk(l) if n.op in ('call', 'param', 'mu')}
    for x in g.e.events:
        if x.kind != 'setitem' or not isinstance(x.args[0], Node) or not mentions(x.args[0], lambda n: n is lat) or x.args[0] not in base:
            continue
        if not mentions(x.args[2], lambda n: n.op == 'call' and (ext_of(n) or '').startswith(('scipy.integrate', 'numpy', 'math', 'max', 'min'))):
            continue
        v = x.args[2]
        for n in upto(v):
            if n.op == 'func':
                out.add(('function', n.args[0]))
            elif n.op == 'call' and ext_of(n) and ext_of(n).split('.')[-1] != 'max' and ext_of(n) not in SAME:
                out.add(('call', ext_of(n)))
        if v.op == 'bin':
            out.add(('factor', factor(v)))
    return sorted(out, key=str)


def upto(v):
    out, todo, seen = [], [v], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        out.append(n)
        if n.op in ('mu', 'elem', 'iter') or n.op == 'call' and (ext_of(n) or '').split('.')[-1] in ('max', 'amax'):
            continue
        todo += children(n)
    return out


def factor(v):
    """the constant a value is multiplied with"""
    p, q = ratio(v)
    c = [x for x in p.values()]
    d = [x for x in q.values()]
    return (c[0] / d[0]) if len(c) == 1 and len(d) == 1 else None


def repeated(rep, g, m, indexes):
    """points added beyond the borders keep the index of the original"""
    e = g.e
    done = False
    for x in indexes:
        k, v = x.args[1], x.args[2]
        if v.op != 'sub' or pieces(v.args[0]) is None:
            continue
        done = True
        orig = [p for p in pieces(v.args[0]) if not (p.op == 'listv' and not p.args[0])]
        conds = [p.args[1][0] if p.op == 'call' and ext_of(p) in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero') and p.args[1] else None for p in orig]
        # which positions are changed, and by how much
        n0 = None
        i = v.args[1]
        if i.op == 'bin' and i.args[0] == '-':
            n0 = i.args[2]
        rep.ob(f'{m}:repeated:offset', n0 is not None and mentions(k, lambda n: n is n0) and count_of(n0), str(x.where), f'{m}: the index of a repeated point is not counted from the number of points of the grid')
        tri = next((n for b in g.bases[2] for n in walk(b) if n.op == 'attr' and n.args[1] == 'simplices'), None)
        if tri is None or tri.args[0].op != 'call':
            continue
        for c, l in leaves(tri.args[0].args[1][0]):
            ps = stacked(l)
            if ps is None:
                continue
            for col, what in ((ps[0], 'latitudes'), (ps[1], 'longitudes')):
                for c2, a in leaves(col, c):
                    parts = pieces(a)
                    if parts is None:
                        continue
                    base, got = parts[0], []
                    for p in parts[1:]:
                        shift = 0
                        if p.op == 'bin' and p.args[0] in '+-' and is_const(p.args[2]):
                            shift = p.args[2].args[0] * (1 if p.args[0] == '+' else -1)
                            p = p.args[1]
                        got.append((p.args[1] if p.op == 'sub' and p.args[0] is base else None, shift))
                    rep.ob(f'{m}:repeated:{what}', [q for q, _ in got] == conds and None not in conds, str(x.where), f'{m}: the {what} repeated beyond the borders are not those of the points whose indexes are kept for them')
                    want = [0, 0] if what == 'latitudes' else [-360, 360]
                    rep.ob(f'{m}:repeated:{what}:shift', [s for _, s in got] == want or what == 'longitudes' and sorted(s for _, s in got) == want and sides(got), str(x.where), f'{m}: {what} repeated beyond the borders are shifted by {[s for _, s in got]}')
                    if what == 'longitudes':
                        rep.ob(f'{m}:repeated:sides', sides(got), str(x.where), f'{m}: points are repeated on the side they are on already')
    rep.ob(f'{m}:repeated', done, W, f'{m}: the indexes of points repeated beyond the borders are not those of the originals')


def sides(got):
    """points of the east are repeated in the west, and the other way round"""
    for c, s in got:
        if c is None:
            return False
        east = mentions(c, lambda n: n.op == 'call' and ((ext_of(n) or '').split('.')[-1] in ('max', 'amax') or n.args[0].op == 'attr' and n.args[0].args[1] == 'max'))
        west = mentions(c, lambda n: n.op == 'call' and ((ext_of(n) or '').split('.')[-1] in ('min', 'amin') or n.args[0].op == 'attr' and n.args[0].args[1] == 'min'))
        if east == west or (s < 0) != east:
            return False
    return True


def count_of(n):
    """the number of source points"""
    return n.op == 'call' and ext_of(n) == 'len' and mentions(n, lambda y: y in (SLAT, SLON)) or n.op == 'attr' and n.args[1] == 'size' and mentions(n, lambda y: y in (SLAT, SLON)) or \
        n.op == 'sub' and is_const(n.args[1], 0) and n.args[0].op == 'attr' and n.args[0].args[1] == 'shape'


# ------------------------------------------------------------------ cells without four corners

def cases(rep, g, m, fields, weights, indexes):
    """a cell at a source point, in reach, or out of it"""
    dist, bounds = {}, {}
    for x in weights:
        for a in B.support(x.g):
            a = a if isinstance(a, Node) else B.atoms[a]
            if a.op == 'lt':
                l, r = a.args
                if first(r, row(x)) and is_const(l):
                    dist[a] = l.args[0]
                elif first(r, row(x)) and mentions(l, is_query):
                    bounds[a] = (l, True)
                elif first(l, row(x)) and mentions(r, is_query):
                    bounds[a] = (r, False)
                elif first(l, row(x)) and is_const(r):
                    dist[a] = r.args[0]
    rep.ob(f'{m}:exact', len(dist) == 1 and 0 <= list(dist.values())[0] <= 1e-6, W, f'{m}: cells at a source point are those nearer than {sorted(dist.values())}')
    rep.ob(f'{m}:reach', len({b for b, _ in bounds.values()}) == 1, W, f'{m}: no single largest distance of the nearest point')
    if len(dist) != 1 or len({b for b, _ in bounds.values()}) != 1:
        return
    da = next(iter(dist))
    far = next(iter(bounds))
    tree = next((n for n in walk(bounds[far][0]) if is_query(n)), None)
    src = tree.args[0].args[0].args[1][0]
    rep.ob(f'{m}:reach:bound', reach(bounds[far][0], src), W, f'{m}: the reach is not the largest distance between neighbouring source points and four times that over the number of rows')
    isfar = bounds[far][1]
    worlds = {'at a source point': {da: first(da.args[0], None), far: not isfar}, 'out of reach': {da: not first(da.args[0], None), far: isfar},
              'in reach': {da: not first(da.args[0], None), far: not isfar}}
    for nm, d in worlds.items():
        got = {}
        for x in weights:
            gd = B.restrict_map(x.g, lambda a, d=d: d.get(a))
            if gd:
                got.setdefault(kind(x), 0)
                got[kind(x)] = B.OR(got[kind(x)], gd)
        if nm == 'at a source point':
            rep.ob(f'{m}:{nm}', set(got) == {'alone'}, W, f'{m}: a cell {nm} gets {sorted(got)}')
        elif nm == 'out of reach':
            rep.ob(f'{m}:{nm}', set(got) == {'none'}, W, f'{m}: a cell {nm} gets {sorted(got)}')
        else:
            rep.ob(f'{m}:{nm}', 'corners' in got, W, f'{m}: a cell {nm} gets {sorted(got)}')
            if 'none' in got:
                outside(rep, g, m, got['none'])
    for x in weights:
        if kind(x) == 'alone':
            mine = [y for y in fields if row(y) is row(x) and y.g == x.g]
            for y in mine:
                v = y.args[2]
                k = v.args[1] if v.op == 'sub' else None
                pt = point(k) if k is not None else None
                ok = pt is not None and isinstance(pt, tuple) and is_const(pt[2], 0)
                rep.ob(f'{m}:alone:value', ok, str(y.where), f'{m}: a cell that gets one point does not get the value of the first')


def first(n, r):
    """distance of the first neighbour of a cell"""
    n = leafset(n)
    if len(n) != 1 or n[0].op != 'sub':
        return False
    pt = point(n[0])
    if not isinstance(pt, tuple) or not is_const(pt[2], 0):
        return False
    return mentions(pt[0], is_query) and mentions(pt[0], lambda y: y.op == 'sub' and is_query(y.args[0]) and is_const(y.args[1], 0))


def kind(x):
    if solved(x.args[2]):
        return 'corners'
    vs = items(x)
    vs = [vs[k] for k in sorted(vs)]
    if vs and is_const(vs[0], 1, 1.0) and all(is_const(v, 0, 0.0) for v in vs[1:]):
        return 'alone'
    if vs and (vs[0].op == 'nan' or mentions(vs[0], lambda n: n.op == 'nan')):
        return 'none'
    if not vs and mentions(x.args[2], lambda n: n.op == 'nan'):
        return 'none'
    return 'other'


def outside(rep, g, m, f):
    """in a regional grid: cells beyond its smallest and largest coordinates"""
    sides = {}
    for a in B.support(f):
        a = a if isinstance(a, Node) else B.atoms[a]
        if a.op != 'lt':
            continue
        for tgt, src, above in ((a.args[1], a.args[0], True), (a.args[0], a.args[1], False)):
            tgt = tgt.args[0] if tgt.op == 'sub' else tgt
            c = coordinate_of(tgt)
            if c is None or not (mentions(src, lambda n: n is SLAT) or mentions(src, lambda n: n is SLON)) or mentions(tgt, lambda n: n in (SLAT, SLON)):
                continue
            own = 'latitude' if mentions(src, lambda n: n is SLAT) else 'longitude'
            top = mentions(src, lambda n: n.op == 'attr' and n.args[1] == 'max' or n.op == 'ext' and str(n.args[0]).split('.')[-1] in ('max', 'amax'))
            sides[a] = (c, own, above, top)
    rep.ob(f'{m}:outside', len(sides) == 4 and all(c == o and u == t for c, o, u, t in sides.values()) and len({(c, u) for c, _, u, _ in sides.values()}) == 4, W,
           f'{m}: cells outside a regional grid are not those beyond its smallest and largest latitude and longitude: {sorted(sides.values())}')
    inside = B.restrict_map(f, lambda a: False if a in sides else None)
    rep.ob(f'{m}:inside', inside == 0, W, f'{m}: a cell in reach and inside the grid can get no entry')
