"""Tables computed with the GRIB library, serial and parallel."""
from .percell import *

EXPLAIN = ('The four computations of a table (nearest and inverse distance, serial and parallel) are evaluated on open targets; loops over the cells, chunks of a dask bag and filtered arrays are summarised to what one generic '
           'target cell contributes to every part of the table, under which condition. Parts are compared with each other, serial with parallel, and weights as rational functions of the distances for every combination of zero distances.')
RULE = 'all parts of the table keep a cell under the same condition: coordinates valid and neighbours found; its row, column, the indexes of the neighbours found at its coordinates, weights 1/distance normalised, or 1 for a point at distance 0'
ASSUME = ['rows, columns and indexes of points are not negative; target coordinates and distances are numbers', 'dask keeps the order of a bag and numpy.array_split cuts in order', 'the target has latitudes and longitudes of one shape']
G, T, O, M = (N('param', x) for x in ('gid', 'target_lats', 'target_lons', 'mv'))
PARTS = {'nearest': ('rows', 'columns', 'indexes'), 'invdist': ('rows', 'columns', 'first indexes', 'second indexes', 'third indexes', 'fourth indexes', 'first weights', 'second weights', 'third weights', 'fourth weights')}


def check(rep, overlay=None):
    for method in ('nearest', 'invdist'):
        got = {}
        for par in ('', '_parallel'):
            name = f'grib_{method}{par}'
            e = engine(overlay, {}, forget=False)
            f = e.find_func(name)
            st = e.state()
            v, st, r = e.run(f, [G, T, O, M], {}, st)
            v = e.freeze(v, st)
            rep.scenario(e, name)
            divisors(rep, name, e)
            handle(rep, name, e)

            def run(fn, args, kw):
                s = e.state()
                x, s, ra = e.run(fn, args, kw, s)
                return e.freeze(x, s), e, s
            pc = PerCell(e, {T: LAT, O: LON}, run)
            try:
                ls = leaves(v, st.g)
                rep.need(len(ls) == 1 and ls[0][1].op in ('tuple', 'listv'), f'{name}: the result is not one table')
                parts = [pc.cell(x) for x in ls[0][1].args[0]]
            except Misaligned as x:
                rep.ob(f'{name}:aligned', False, name, str(x))
                continue
            except Unknown as x:
                rep.need(False, f'{name} cannot be followed: {x}')
            rep.ob(f'{name}:parts', len(parts) == len(PARTS[method]), name, f'the table has {len(parts)} parts instead of {len(PARTS[method])}')
            if len(parts) == len(PARTS[method]):
                got[par] = table(rep, name, method, parts)
        if len(got) == 2:
            a, b = got[''], got['_parallel']
            rep.ob(f'{method}:same', a == b or not a or not b, f'grib_{method}', f'{method}: serial and parallel computation do not give the same table')


def bounds(n, nz=()):
    """interval of a number; the target has one cell or more"""
    inf = float('inf')
    if is_const(n) and isinstance(n.args[0], (int, float)):
        return n.args[0], n.args[0]
    if n.op == 'attr' and n.args[1] == 'size' or ext_of(n) in ('len', 'numpy.size'):
        return 1, inf
    if n.op == 'sub' and n.args[0].op == 'attr' and n.args[0].args[1] == 'shape':
        return 1, inf
    if n.op == 'ite':
        c = B.atoms[n.args[0]]
        a, b = bounds(n.args[1], nz + (c.args[0],) if c.op == 'truth' else nz), bounds(n.args[2], nz)
        return a and b and (min(a[0], b[0]), max(a[1], b[1]))
    if n.op == 'bin':
        a, b = bounds(n.args[1], nz), bounds(n.args[2], nz)
        if not a or not b or min(a[0], b[0]) < 0:
            return None
        o = n.args[0]
        low = {'+': a[0] + b[0], '*': a[0] * b[0]}
        if o in low:
            return low[o], inf
        if o in ('/', '//') and b[0] > 0 and b[0] == b[1]:
            return (a[0] / b[0], inf) if o == '/' else (1 if n in nz else a[0] // b[0], inf)
        return None
    f = ext_of(n)
    if f in ('int', 'math.floor', 'numpy.floor', 'round', 'math.ceil', 'numpy.ceil') and len(n.args[1]) == 1:
        a = bounds(n.args[1][0], nz)
        if not a or a[0] < 0:
            return None
        return (1 if 'ceil' in f and a[0] > 0 or n in nz else int(a[0])), a[1]
    if f in ('max', 'min') and len(n.args[1]) > 1:
        xs = [bounds(x, nz) for x in n.args[1]]
        if f == 'max':
            return max((x[0] for x in xs if x), default=-inf), inf
        return all(xs) and (min(x[0] for x in xs), min(x[1] for x in xs)) or None
    return None


def divisors(rep, name, e):
    """divisors computed from the number of cells are never zero"""
    seen, known = set(), set()
    for x in e.events:
        ns = [B.atoms[i] if isinstance(i, int) else i for i in B.support(x.g)]
        known |= {y for a in ns if a.op in ('truth', 'eq', 'lt') for y in a.args if isinstance(y, Node) and y.op != 'const'}
        for a in ns + [a for a in x.args if isinstance(a, Node)]:
            seen |= {y for y in walk(a) if y.op == 'bin' and y.args[0] in ('%', '//', '/')}
    for y in seen:
        d = y.args[2]
        if d in known or not mentions(d, lambda z: z.op == 'attr' and z.args[1] in ('size', 'shape') or ext_of(z) == 'len'):
            continue
        b = bounds(d)
        if b:
            rep.ob(f'{name}:size', b[0] > 0, name, f'a number of cells gives a division by zero: {show(d, 6)[:160]}')


def handle(rep, name, e):
    """the handle of the message is of this process: workers have to share it"""
    active, n = [], 0
    for x in e.events:
        if x.kind == 'with_exit' and x.args and ext_of(x.args[0]) == 'dask.config.set':
            active = [a for a in active if a.args[0] != x.args[0].args[1] or dict(a.args[1]) != dict(x.args[0].args[2] or ())]
        if x.kind == 'call' and x.fn is not None:
            fn = x.fn
            if fn.op == 'ext' and fn.args[0] == 'dask.config.set':
                seen = N('setting', tuple(x.args), tuple(sorted(dict(x.kw or ()).items(), key=str)))
                active.append(seen)
            elif fn.op == 'attr' and fn.args[1] == 'compute' and mentions(fn, lambda y: ext_of(y).startswith('dask.bag')) or fn.op == 'ext' and fn.args[0] in ('dask.compute', 'dask.base.compute'):
                n += 1
                kw = dict(x.kw or ())
                sched = kw.get('scheduler')
                good = shares(sched) if sched is not None else False
                if sched is None or is_const(sched, 'processes', 'multiprocessing'):
                    good = good or any(settings(a) for a in active)
                rep.ob(f'{name}:handle', good, x.where, 'cells are interpolated in processes that do not have the handle of the message')
    rep.need(n or 'parallel' not in name, f'{name}: no computation of the bag was found')


def shares(v):
    return is_const(v, 'threads', 'threading', 'sync', 'synchronous', 'single-threaded', 'fork')


def settings(a):
    args, kw = a.args[0], dict(a.args[1])
    for d in args:
        if isinstance(d, Node) and d.op == 'dictv':
            kw.update({(k.args[0] if isinstance(k, Node) else k): v for k, v in d.args[0]})
    return any(str(k).replace('__', '.') in ('multiprocessing.context', 'scheduler') and shares(v) for k, v in kw.items())


def consistent(f):
    """without the impossible combinations of comparisons"""
    g = f
    sup = [B.atoms[i] if isinstance(i, int) else i for i in B.support(f)]
    for a in sup:
        for b in sup:
            if a is not b and a.op in ('lt', 'eq') and b.op in ('lt', 'eq') and set(a.args) == set(b.args) and (a.op != b.op or a.args == tuple(reversed(b.args))):
                g = B.AND(g, B.NOT(B.AND(atom(a), atom(b))))
    return g


def table(rep, name, method, parts):
    keeps = []
    for p in parts:
        k = 0
        for c, l in leaves(p, 1):
            if mentions(l, lambda x: x.op == 'misaligned'):
                if consistent(c):
                    rep.ob(f'{name}:aligned', False, name, 'values of different cells are combined')
            elif l is not DROPPED:
                k = B.OR(k, c)
        keeps.append(k)
    ok = True
    for w, p, k in zip(PARTS[method], parts, keeps):
        diff = consistent(B.OR(B.AND(k, B.NOT(keeps[0])), B.AND(keeps[0], B.NOT(k))))
        rep.ob(f'{name}:aligned[{w}]', diff == 0, name, f'{w} and rows of the table do not belong to the same cells: {showb(diff, 4)[:200]}')
        ok &= diff == 0
    if not ok:
        return None
    keep = keeps[0]
    # which cells
    def world(fail, mv):
        def d(a):
            if a is FAIL:
                return fail
            if a.op == 'eq' and LON in a.args and M in a.args:
                return mv
            if a.op == 'lt' and LON in a.args:
                o = a.args[0] if a.args[1] is LON else a.args[1]
                if is_const(o) and isinstance(o.args[0], (int, float)) and o.args[0] <= -1000:
                    return a.args[1] is LON
            if a.op == 'eq' and LON in a.args and any(is_const(x) and x.args[0] <= -1000 for x in a.args if is_const(x)):
                return False
            return None
        return d
    rep.ob(f'{name}:failed', B.restrict_map(keep, world(True, False)) == 0, name, 'cells without neighbours are in the table')
    rep.ob(f'{name}:missing', B.restrict_map(keep, world(None, True)) == 0, name, 'cells without coordinates are in the table')
    rep.ob(f'{name}:all', B.restrict_map(keep, world(False, False)) == 1, name, f'cells with coordinates and neighbours are left out: {showb(B.NOT(B.restrict_map(keep, world(False, False))), 4)[:200]}')
    w = world(False, False)
    vals = [{l for c, l in restricted(p, w)} for p in parts]
    rep.ob(f'{name}:rows', vals[0] == {X}, name, f'rows of the table are {" ".join(show(x, 3)[:60] for x in vals[0])}')
    rep.ob(f'{name}:columns', vals[1] == {Y}, name, f'columns of the table are {" ".join(show(x, 3)[:60] for x in vals[1])}')
    nears = {x for p in parts for x in walk(p) if x.op == 'near'}
    rep.need(nears, f'{name}: no search of neighbours was found')
    for x in nears:
        n = dict(x.args[3]).get('npoints')
        rep.ob(f'{name}:search', x.args[0] is G and x.args[1] is LAT and x.args[2] is LON, name, f'neighbours are searched at {show(x.args[1], 2)}, {show(x.args[2], 2)}')
        rep.ob(f'{name}:npoints', is_const(n, 4) if method == 'invdist' else n is None or is_const(n, 1), name, 'neighbours of another number of points are searched')
    if len(nears) != 1:
        rep.ob(f'{name}:onesearch', False, name, 'parts of the table come from different searches')
        return None
    near_ = next(iter(nears))
    item = lambda i, what: N('sub', N('sub', near_, const(i)), const(what))
    if method == 'nearest':
        rep.ob(f'{name}:index', vals[2] == {item(0, 'index')}, name, f'the index of the nearest point is {" ".join(show(x, 4)[:80] for x in vals[2])}')
        return tuple(frozenset((c, l) for c, l in restricted(p, w)) for p in parts)
    for zeros in range(16):
        zero = {item(i, 'distance'): bool(zeros >> i & 1) for i in range(4)}

        def d(a):
            r = w(a)
            if r is None and a.op in ('eq', 'lt'):
                for x, z in zero.items():
                    if x in a.args and any(is_const(y, 0) for y in a.args):
                        return z if a.op == 'eq' else (not z and is_const(a.args[0], 0))
            if r is None and a.op in ('truth', 'isnone') and a.args[0] in zero:
                return (a.op == 'truth') == (not zero[a.args[0]])
            return r
        total = {}
        good = True
        for i, c in zip(range(2, 6), range(6, 10)):
            ix, co = restricted(parts[i], d), restricted(parts[c], d)
            if len(ix) != 1 or len(co) != 1:
                good = False
                break
            q = ratio(co[0][1])
            total[ix[0][1]] = plus(total[ix[0][1]], q) if ix[0][1] in total else q
        st = 'no point at distance 0' if not zeros else 'distance 0 of point ' + ', '.join(str(i + 1) for i in range(4) if zeros >> i & 1)
        if not good:
            rep.ob(f'{name}:weights[{st}]', False, name, f'{st}: the weights depend on something else than the distances')
            continue
        found = [item(i, 'index') for i in range(4)]
        rep.ob(f'{name}:points[{st}]', all(i in found for i in total), name, f'{st}: the entry has points that are not neighbours of the cell, whose missing values would make it missing')
        if not zeros:
            s = num(0), num(1)
            for i in range(4):
                s = plus(s, ratio(N('bin', '/', const(1), item(i, 'distance'))))
            want = {item(i, 'index'): (lambda q: (q[0], q[1]))(mulr(ratio(N('bin', '/', const(1), item(i, 'distance'))), s)) for i in range(4)}
            rep.ob(f'{name}:weights[{st}]', set(total) == set(want) and all(equal(total[i], want[i]) for i in want), name, f'{st}: weights are not the normalised inverse distances of their points')
        else:
            one = [i for i, q in total.items() if not equal(q, (num(0), num(1)))]
            at = [item(i, 'index') for i in range(4) if zeros >> i & 1]
            s = num(0), num(1)
            for i in one:
                s = plus(s, total[i])
            rep.ob(f'{name}:weights[{st}]', bool(one) and all(i in at for i in one) and equal(s, (num(1), num(1))), name, f'{st}: the point that coincides does not get the whole weight')
    return None if not ok else tuple(frozenset((c, l) for c, l in restricted(p, w)) for p in parts)


def mulr(a, s):
    from .ratio import over
    return over(a, s)
