"""What a saved interpolation table gives when it is read back."""
from .tables import *

EXPLAIN = ('One interpolation is evaluated in every mode on open folders; the field it returns when it creates the table, when it reads the table from its file and when the table is already in memory are three terms: '
           'the table that is read is replaced by the term that was saved, the selection of its parts is carried out, and the terms are compared. The computation of a table is checked for the message handle, coordinates and missing value it is given.')
RULE = 'field(create) = field(read)[file := saved] = field(memory)[entry := stored]; a table of the grib library is computed from the message, or the auxiliary one of the same resolution, and the target coordinates'
ASSUME = ['numpy.save and numpy.load return the array that was given']


def roles(overlay, method):
    """positions of the latitudes and longitudes among the arguments of the computation of a table"""
    e = engine(overlay, {}, forget=False)
    f = e.find_func(f'grib_{method}')
    n = len(e.finfo(f).node.args.args)
    e.run(f, [N('param', 'role', i) for i in range(n)], {}, e.state())
    out = set()
    for x in e.events:
        if x.kind == 'call' and (ext_name(x.fn) or '').endswith('codes_grib_find_nearest'):
            out.add(tuple(next((y.args[1] for y in walk(a) if y.op == 'param' and len(y.args) > 1 and y.args[0] == 'role'), None) for a in x.args[1:3]))
    if len(out) != 1 or None in next(iter(out)):
        raise RuntimeError(f'grib_{method}: the search of the nearest points was not found')
    return out.pop()


def check(rep, overlay=None):
    rep.each([(m, s, h) for m in MODES for s in ((False, True) if m in GRIB else (False,)) for h in ((N('param', 'gid'), -1) if m in GRIB else (-1,))], lambda r, it: one(r, overlay, *it))


class Spec:
    """values with all conditions known in world w decided, loops by what they do"""

    def __init__(self, e, w):
        self.e, self.w, self.memo, self.stack = e, w, {}, []

    def __call__(self, n):
        if not self.stack:
            r = self.memo.get(n)
            if r is not None:
                return r
        if n.op == 'ite':
            i, hi, lo = n.args
            a = B.atoms[i]
            d = self.w(a)
            if d is None and self.stack and mentions(a, lambda x: x.op == 'mu'):
                r = N('loopite', self(a), self(hi), self(lo))
            else:
                r = self(hi if d else lo) if d is not None else ite(atom(self(a)), self(hi), self(lo))
        elif n.op == 'mu' and n.args in self.e.mus:
            if n in self.stack:
                r = N('self', self.stack.index(n))
            else:
                self.stack.append(n)
                init, nxt = self.e.mus[n.args]
                it = self.e.loopinfo.get(n.args[0], {}).get('iter')
                r = N('loop', self(init), self(nxt), self(it) if isinstance(it, Node) else const(None))
                self.stack.pop()
        elif n.op in ('elem', 'lidx', 'keyof', 'valof') and not isinstance(n.args[0], Node):
            ls = [m.args[0] for m in self.stack]
            r = N(n.op, ls.index(n.args[0]) if n.args[0] in ls else -1, *[self.deep(a) for a in n.args[1:]])
        else:
            r = N(n.op, *[self.deep(a) for a in (n.args if n.op != 'call' else n.args[:3] + (0,))])
        if not self.stack:
            self.memo[n] = r
        return r

    def deep(self, a):
        if isinstance(a, Node):
            return self(a)
        if isinstance(a, tuple):
            return tuple(self.deep(x) for x in a)
        return a


def normal(n, table, memo):
    """tables that are read are replaced by the saved one, and parts of known tables taken"""
    r = memo.get(n)
    if r is not None:
        return r

    def d(a):
        return normal(a, table, memo) if isinstance(a, Node) else tuple(d(x) for x in a) if isinstance(a, tuple) else a
    t = table(n)
    if t is not None:
        r = normal(t, lambda x: None, {})
    elif n.op == 'ite':
        i, hi, lo = n.args
        r = ite(atom(d(B.atoms[i])), d(hi), d(lo))
    else:
        r = part(N(n.op, *[d(a) for a in n.args]))
    memo[n] = r
    return r


def part(n):
    if n.op == 'sub' and isinstance(n.args[0], Node):
        b, k = n.args
        if b.op == 'ite':
            return ite(atom(B.atoms[b.args[0]]), part(N('sub', b.args[1], k)), part(N('sub', b.args[2], k)))
        if b.op == 'call':
            fn, a, kw = ext_of(b), b.args[1], dict(b.args[2] or ())
            if fn in ('numpy.rec.fromarrays', 'numpy.core.records.fromarrays') and is_const(k) and 'names' in kw:
                names = [str(x.args[0]) for x in kw['names'].args[0]] if kw['names'].op in ('tuple', 'listv') else str(kw['names'].args[0]).replace(' ', '').split(',')
                if k.args[0] in names and a[0].op in ('tuple', 'listv'):
                    return a[0].args[0][names.index(k.args[0])]
            if fn in ('numpy.asarray', 'numpy.array', 'numpy.stack', 'numpy.vstack') and a and a[0].op in ('tuple', 'listv') and is_const(k) and isinstance(k.args[0], int):
                i = k.args[0]
                if -len(a[0].args[0]) <= i < len(a[0].args[0]):
                    return a[0].args[0][i]
        if b.op in ('tuple', 'listv') and is_const(k) and isinstance(k.args[0], int) and -len(b.args[0]) <= k.args[0] < len(b.args[0]):
            return b.args[0][k.args[0]]
    if n.op == 'call' and ext_of(n) in ('numpy.asarray', 'numpy.array') and len(n.args[1]) == 1 and not n.args[2] and n.args[1][0].op == 'call':
        return n.args[1][0]
    return n


W = dict(user=True, create=True, named_gz=True, defined=True, folder=True, write=True, taken=False)


def is_load(n):
    return n.op == 'call' and ext_of(n) == 'numpy.load'


def is_entry(n, w):
    """an entry of the tables in memory"""
    return n.op == 'sub' and n.args[0].op in ('clsvar', 'upd') and bool(dirkey(n.args[1])) and all(strip_path(l).op != 'sub' for l in leafset(n.args[1])) and w.path(n.args[1]) is not None


def one(rep, overlay, mode, second, gid):
    k = interpolate(overlay, mode, gid=gid, second=second)
    what = f'{mode}{", second resolution" if second else ""}{"" if gid == -1 else ", message given"}'
    tag = what.replace(', ', ':')
    fn = 'Interpolator.interpolate'
    rep.scenario(k.e, what)
    v, g = k.vals[0]

    def world(**kw):
        return Place(**{**OPEN, **W, **kw}).on(k)
    # computation
    comp = [x for x in k.e.events[k.n1:] if x.kind == 'op' and ext_name(x.fn) == 'compute']
    if mode in GRIB:
        rep.need(comp, f'{what}: no computation of a table was found')
        want = gid if gid != -1 else AUX['aux_gid2' if second else 'aux_gid']
        w = world(registered=False, there=(), new_exists=False, cached=False)
        for x in comp:
            if not B.restrict_map(x.g, w):
                continue
            sp = Spec(k.e, w)
            args = [sp(a) for a in x.args]
            rep.ob(f'{tag}:handle', any(a is want for a in args), x.where, f'{what}: the table is not computed from {"the message" if gid != -1 else "the auxiliary message of the resolution"}: {show(args[0], 3)[:100]}')
            rep.ob(f'{tag}:other', not any(a.op == 'param' and a is not want for a in args), x.where, f'{what}: the table is computed from another message')
            role = roles(overlay, 'invdist' if 'invdist' in mode else 'nearest')
            for i, (key, name) in enumerate((('interpolation.latMap', 'latitudes'), ('interpolation.lonMap', 'longitudes'))):
                rep.ob(f'{tag}:{name}', all(coordinate(l) == key for l in leafset(args[role[i]])), x.where, f'{what}: the table is not computed for the {name} of the target')
        if gid == -1:
            return
    w0 = world(registered=False, there=(), new_exists=False, cached=False)
    saved = []
    for x in k.e.events[k.n1:]:
        if x.kind == 'call' and ext_name(x.fn) in ('numpy.save', 'numpy.savez', 'numpy.savez_compressed') and B.restrict_map(x.g, w0) and len(x.args) > 1:
            saved.append(x.args[1])
    rep.need(saved, f'{what}: no table is saved')
    rep.ob(f'{tag}:one', len({Spec(k.e, w0)(x) for x in saved}) == 1, fn, f'{what}: the content of the saved table depends on its file')
    table = Spec(k.e, w0)(saved[0])

    hole = const('nothing')
    whole = ite(g, v, hole)

    def field(w, is_table=lambda n: False):
        """the whole field, tables that are read replaced by the saved one"""
        return normal(Spec(k.e, w)(whole), lambda n: (seen.append(n), table)[1] if is_table(n) else None, {})
    seen = []
    made = field(w0)

    def compare(w, is_table):
        """differences between the field at creation and the one in world w"""
        n, out = 0, []
        back = field(w, is_table)
        for c1, l1 in leaves(made, 1):
            for c2, l2 in leaves(back, 1):
                c = B.AND(c1, c2)
                if not c or l1 is hole or l2 is hole:
                    continue
                n += 1

                def known(a):
                    b = atom(a)
                    return True if B.implies(c, b) else False if B.AND(c, b) == 0 else None
                sp = Spec(k.e, known)
                a, b = normal(sp(l1), lambda x: None, {}), normal(sp(l2), lambda x: None, {})
                if a is not b:
                    out.append((a, b))
        return n, out
    for suffix in ('', '.gz'):
        for d in ('user', 'global'):
            w = world(registered=True, there={(d, suffix)}, named_gz=False, cached=False)
            seen = []
            n, out = compare(w, is_load)
            rep.need(n, f'{what}: nothing is returned when the table is there')
            rep.need(seen, f'{what}: no table is read')
            rep.ob(f'{tag}:read[{d}{suffix}]', not out, fn, f'{what}: the field interpolated with the saved table is not the one of the execution that created it: {differ(out)}')
    # memory
    w = world(registered=True, there={('user', '')}, named_gz=False, cached=True)
    seen = []
    n, out = compare(w, lambda n: is_entry(n, w))
    if seen:
        rep.ob(f'{tag}:memory', not out, fn, f'{what}: the field interpolated with a table in memory is not the one of the table in its file: {differ(out)}')
    w1 = world(registered=True, there={('user', '')}, named_gz=False, cached=False)
    for ww in (w0, w1):
        loads = set()
        for l, x, m in opened(k, ww):
            if m == 'r' and not registry(l):
                loads.add(l)
        for x in k.e.events[k.n1:]:
            if x.kind == 'setitem' and x.args[0].op in ('clsvar', 'attr') and B.restrict_map(x.g, ww):
                sp = Spec(k.e, ww)
                val = sp(x.args[2])
                keys = leafset(x.args[1])
                if not dirkey(x.args[1]):
                    if any(is_load(l) or l is table for l in leafset(val)):
                        rep.ob(f'{tag}:key', all(is_id(l) for l in keys), x.where, f'{what}: a table is kept in memory under a key that does not tell its file: {show(x.args[1], 3)[:80]}')
                    continue
                rep.ob(f'{tag}:stored', all(is_load(l) or l is table for l in leafset(val)), x.where, f'{what}: another table than the one of the file is kept in memory: {show(val, 3)[:100]}')
                names = {sp(y) for _, y in restricted(x.args[1], ww, x.g)}
                paths = {sp(y) for y, z, m in opened(k, ww) if m == ('w' if ww is w0 else 'r') and not registry(y)}
                rep.ob(f'{tag}:key', all(y in paths or any(strip_gz(p) is y or strip_gz(y) is p for p in paths) for y in names), x.where, f'{what}: a table is kept in memory under another path than its file')


def strip_gz(p):
    if p.op == 'fmt' and len(p.args[0]) == 2 and is_const(p.args[0][1], '.gz'):
        return p.args[0][0]
    if p.op == 'bin' and p.args[0] == '+' and is_const(p.args[2], '.gz'):
        return p.args[1]
    return p


def coordinate(n):
    """the setting of the map these coordinates are read from"""
    for x in walk(n):
        if x.op == 'op' and x.args[0] == 'map':
            key = cfg_key(x.args[1])
            if x.args[2] is not None and is_const(x.args[2], 'NetCDFReader'):
                i = [y.args[1].args[0] for y in walk(n) if y.op == 'sub' and is_const(y.args[1], 0, 1)]
                return {0: 'interpolation.latMap', 1: 'interpolation.lonMap'}.get(i[0] if len(i) == 1 else None)
            return key if mentions(n, lambda y: y.op == 'attr' and y.args[1] in ('values', 'get_lat_values', 'get_lon_values')) else None
    return None


def differ(out):
    if not out:
        return ''
    a, b = out[0]
    while True:
        ca, cb = children(a), children(b)
        d = [(x, y) for x, y in zip(ca, cb) if x is not y]
        if a.op != b.op or len(ca) != len(cb) or len(d) != 1:
            return f'{show(a, 5)[:160]} / {show(b, 5)[:160]}'
        a, b = d[0]
