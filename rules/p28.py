"""Arithmetic of aggregations."""
from .p01 import *
from .ratio import *
from .texts import Forms
from .missing import FRESH

EXPLAIN = ('The aggregation is evaluated abstractly for each type. Every stored field is brought to a rational function of messages (by their step, as a polynomial over the loop position) under its path '
           'condition and compared with the documented one; messages added on the way must be the linear interpolation between the neighbours found by bisection of sorted steps.')
RULE = ('accumulation: (V(end) - V(end - step)) * unit / step with V the message, the linear interpolation between the nearest ones, or zeros at step 0; average: sum of weighted values over the sum of the weights, '
        'weights 1 over the steps of the period (the next message when there is none), or half of the others at its ends; instantaneous: the message of the step or the next one')
ASSUME = ['aggregation step > 0', 'steps of messages are distinct']
W = 'pyg2p/main/manipulation/aggregator.py'
START, END, AGGR, UNIT = (N('param', x) for x in ('start_step', 'end_step', 'aggr_step', 'unit_time'))


class Unclear(Exception):
    pass


def run(overlay, kind, **fixed):
    def hook(e, ci, args, kw, st):
        if ci.name == 'Step':
            names = ('start_step', 'end_step', 'points_meridian', 'input_step', 'level')
            d = dict(zip(names, args))
            d.update(kw)
            return N('op', 'step', tuple(d.get(x, const(None)) for x in names))
        return None
    e = engine(overlay, {'instantiate': hook})
    st = e.state()
    kw = {k: N('param', k) for k in ('mv_grib', 'step_type', 'input_step', 'unit_time', 'aggr_step', 'aggr_halfweights', 'force_zero_array', 'start_step', 'end_step')}
    kw['aggr_type'] = const(kind)
    kw.update({k: const(v) for k, v in fixed.items()})
    a, st, r = e.run(e.find_class('Aggregator'), [], kw, st)
    v, st, r = e.run(e.getattr(a, 'do_manipulation', st), [N('param', 'values')], {}, st)
    return e, e.freeze(v, st)


class Algebra:
    def __init__(self, e, zero_start):
        self.e = e
        self.kinds = Kinds(e, N('param', 'values'))
        self.forms = Forms(e)
        self.zero = zero_start
        self.known = {}
        self.rw = {}

    def start_atom(self, a):
        """start_step == 0"""
        if a.op == 'eq' and any(is_const(x, 0) for x in a.args) and any(strip_conv(x) is START for x in a.args):
            return self.zero
        if a.op == 'truth' and strip_conv(a.args[0]) is START:
            return not self.zero
        return None

    def simple(self, n):
        """decide the start step"""
        def f(x):
            if x.op == 'ite':
                d = self.start_atom(B.atoms[x.args[0]])
                if d is not None:
                    return x.args[1] if d else x.args[2]
            return x
        return rewrite(n, f, self.rw)

    def cond(self, c):
        return B.restrict_map(c, self.start_atom)

    # ---------------------------------------------------------------- keys
    def poly(self, n):
        return self.forms.poly(self.simple(n))

    def key(self, n, g):
        """[(c, position)] of a step"""
        out = []
        for c, l in leaves(self.simple(n), g):
            if l.op == 'sub' and self.kinds(l.args[0]) == 'keys':
                for d, i in leaves(l.args[1], c):
                    out.append((d, self.neighbour(l.args[0], i, d)))
            elif l.op == 'call' and ext_of(l) == 'next' or l.op == 'call' and ext_of(l) in ('min', 'max'):
                out.append((c, self.extreme(l, c)))
            else:
                out.append((c, frozenset(self.poly(l).items())))
        return [(c, k) for c, k in out if c]

    def absent(self, t, g):
        """the step has no message under g"""
        for i in B.support(g):
            a = B.atoms[i] if isinstance(i, int) else i
            if a.op == 'in' and (same(self.poly(a.args[0]), t) or t == {} and is_zero_step(self, self.poly(a.args[0]), g)) and B.implies(g, B.NOT(atom(a))) and (self.kinds(a.args[1]) in ('map', 'keys')):
                return True
        return False

    def sortedkeys(self, n):
        for l in leafset(n):
            if l.op == 'call' and ext_of(l) == 'sorted' and self.ordered(l):
                continue
            if l.op == 'call' and ext_of(l) in ('list', 'tuple') and l.args[1] and self.sortedmap(l.args[1][0]):
                continue
            if self.sortedmap(l):
                continue
            return False
        return True

    def ordered(self, n):
        """sorted by step"""
        kw = dict(n.args[2])
        if 'reverse' in kw and not is_const(kw['reverse'], False):
            return False
        x = n.args[1][0]
        item = N('param', 'item')
        k = self.forms.apply(kw['key']) if 'key' in kw and not is_const(kw['key'], None) else item
        while k.op == 'tuple' and k.args[0]:
            k = k.args[0][0]
        k = strip_conv(k)
        box = x
        while box.op == 'call' and (box.args[0].op == 'attr' and box.args[0].args[1] in ('items', 'keys') or ext_of(box) in ('list', 'tuple') and box.args[1]):
            box = box.args[0].args[0] if box.args[0].op == 'attr' and box.args[0].args[1] in ('items', 'keys') else box.args[1][0]
        if box is N('param', 'values'):
            return k.op == 'attr' and k.args[1] == 'end_step' and k.args[0] in (item, N('sub', item, const(0)))
        return k in (item, N('sub', item, const(0)))

    def sortedmap(self, n):
        """filled in the order of steps and not added to"""
        if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in ('keys', 'copy'):
            return self.sortedmap(n.args[0].args[0])
        if n.op == 'call' and ext_of(n) in ('list', 'tuple') and n.args[1]:
            return self.sortedmap(n.args[1][0])
        if n.op == 'call' and ext_of(n) == 'sorted':
            return self.sortedkeys(n)
        if n.op == 'call' and ext_of(n) in ('collections.OrderedDict', 'dict') and n.args[1]:
            x = n.args[1][0]
            return x.op == 'call' and ext_of(x) == 'sorted' and self.ordered(x) or self.sortedmap(x)
        if n.op == 'dcomp' and len(n.args[2]) == 1:
            it = self.e.loopinfo[n.args[2][0].args[0]]['iter']
            return it is not None and it.op == 'call' and ext_of(it) == 'sorted' and self.ordered(it) and (len(n.args) < 4 or B.restrict_map(tobdd(n.args[3]), lambda a: True if a.op == 'iter' else None) == 1)
        return False

    def neighbour(self, keys, i, g):
        base, off = None, 0
        p = self.forms.poly(i)
        for m, c in p.items():
            if m == ():
                off = c
            elif len(m) == 1 and c == 1 and isinstance(m[0], Node) and base is None:
                base = m[0]
            else:
                raise Unclear(f'position {show(i, 3)}')
        if base is None:
            return ('position', keys, off)
        if not (base.op == 'call' and ext_of(base).startswith('bisect.bisect')):
            return ('position', keys, i)
        f = ext_of(base)
        ks, t = base.args[1][0], self.poly(base.args[1][1])
        if len(base.args[1]) > 2 or base.args[2]:
            raise Unclear('bisection of a part')
        if not (self.sortedkeys(ks) and self.sortedkeys(keys)):
            return ('unsorted', i)
        if not self.absent(t, g):
            return ('position', f, i)
        return ({0: 'next', -1: 'prev'}.get(off, ('skip', off)), frozenset(t.items()))

    def extreme(self, n, g):
        """next(k for k in sorted keys if k > t), min(k ... if k > t), max(k ... if k < t)"""
        f = ext_of(n)
        c = n.args[1][0]
        if c.op == 'comp' and len(c.args[2]) == 1:
            L = c.args[2][0]
            it = self.e.loopinfo[L.args[0]]['iter']
            if it is not None and (self.kinds(it) == 'keys' or self.kinds(it) == 'map') and self.kinds(c.args[1]) == 'key':
                for a in [B.atoms[i] if isinstance(i, int) else i for i in B.support(tobdd(c.args[3]))] if len(c.args) > 3 else []:
                    if a.op == 'lt' and c.args[1] in a.args:
                        t = self.poly(a.args[0] if a.args[1] is c.args[1] else a.args[1])
                        above = B.restrict_map(tobdd(c.args[3]), lambda x: True if x is a or x.op == 'iter' else None) == 1
                        if a.args[0] is c.args[1]:
                            above = not above
                        if self.absent(t, g):
                            if f in ('min', 'next') and above and (f == 'min' or self.sortedkeys(it)):
                                return ('next', frozenset(t.items()))
                            if f == 'max' and not above:
                                return ('prev', frozenset(t.items()))
        raise Unclear(f'step {show(n, 3)}')

    # ---------------------------------------------------------------- values
    def cases(self, n, g=1):
        """[(c, rational)]"""
        if n.op == 'ite':
            out = []
            for c, l in leaves(n, g):
                out += self.cases(l, c)
            return self.merge(out)
        if n in self.known:
            return [(g, of(('V', self.known[n])))]
        if is_const(n) and isinstance(n.args[0], (int, float)):
            return [(g, (num(n.args[0]), num(1)))]
        if n.op == 'bin' and n.args[0] in ('+', '-', '*', '/'):
            return self.both(n.args[0], n.args[1], n.args[2], g)
        if n.op == 'aug':
            return self.both(n.args[0].rstrip('='), n.args[1], n.args[2], g)
        if n.op == 'ne':
            return self.cases(n.args[0], g)
        if n.op == 'call':
            f, a, kw = ext_of(n), n.args[1], dict(n.args[2])
            if f == 'numpy.ma.masked_where':
                return self.cases(kw.get('a', a[1] if len(a) > 1 else None), g)
            if f in SAME or f in ('numpy.array', 'numpy.asarray', 'float', 'numpy.float64', 'int'):
                return self.cases(a[0] if a else kw['data'], g)
            if f in FRESH and 'zeros' in f:
                return [(g, (num(0), num(1)))]
            if f in FRESH and 'ones' in f:
                return [(g, (num(1), num(1)))]
            if f in OPS and len(a) == 2:
                return self.both(OPS[f], a[0], a[1], g)
            if n.args[0].op == 'attr' and n.args[0].args[1] in ('copy', 'astype'):
                return self.cases(n.args[0].args[0], g)
        if self.kinds(n) == 'arr' and n.op in ('sub', 'call'):
            box, k = (n.args[0], n.args[1]) if n.op == 'sub' else (n.args[0].args[0], n.args[1][0])
            if self.kinds(box) == 'map' and self.bystep(box):
                return self.merge([(c, of(('V', k))) for c, k in self.key(k, g)])
        if self.kinds(n) == 'key':
            return self.merge([(c, (dict(k), num(1)) if isinstance(k, frozenset) else of(k)) for c, k in self.key(n, g)])
        p = self.poly(n)
        if p == {(n,): 1} or p == {(self.simple(n),): 1}:
            return [(g, of(self.simple(n)))]
        return [(g, (p, num(1)))]

    def both(self, o, x, y, g):
        out = []
        for c, a in self.cases(x, g):
            for d, b in self.cases(y, c):
                out.append((d, times(a, b) if o == '*' else over(a, b) if o == '/' else plus(a, b, 1 if o == '+' else -1)))
        return self.merge(out)

    def merge(self, xs):
        out = []
        for c, r in xs:
            c = self.cond(c)
            if not c:
                continue
            for i, (d, s) in enumerate(out):
                if equal(r, s):
                    out[i] = (B.OR(c, d), s)
                    break
            else:
                out.append((c, r))
        if len(out) > 200:
            raise Unclear('too many cases')
        return out

    def bystep(self, n, seen=()):
        """messages by their end step"""
        for l in leafset(n):
            if l in seen:
                continue
            seen = seen + (l,)
            if l.op == 'mu':
                if not self.bystep(self.e.mus[l.args][0], seen):
                    return False
            elif l.op in ('upd', 'dupdate'):
                if not self.bystep(l.args[0], seen):
                    return False
            elif l.op == 'call' and (ext_of(l) in ('collections.OrderedDict', 'dict', 'sorted', 'list') and l.args[1]):
                if not self.bystep(l.args[1][0], seen):
                    return False
            elif l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] in ('items', 'copy'):
                if not self.bystep(l.args[0].args[0], seen):
                    return False
            elif l.op in ('comp', 'dcomp'):
                k, v = (l.args[0], l.args[1]) if l.op == 'dcomp' else l.args[1].args[0] if l.args[1].op == 'tuple' and len(l.args[1].args[0]) == 2 else (None, None)
                k = strip_conv(k) if k is not None else k
                if not (k is not None and k.op == 'attr' and k.args[1] == 'end_step' and self.partner(k.args[0]) is v):
                    # a mapping by step gone through again
                    if not (k is not None and self.kinds(k) == 'key' and self.partner(k) is v):
                        return False
            elif l.op in ('empty', 'dictv'):
                pass
            else:
                return False
        return True

    def partner(self, k):
        if k.op == 'keyof':
            return N('valof', *k.args)
        if k.op == 'sub' and is_const(k.args[1], 0):
            return N('sub', k.args[0], const(1))
        if k.op == 'elem':
            return N('sub', k.args[1], k)
        return None


def upper(al, L):
    """exclusive bound of a counting loop and what is compared with it"""
    inf = al.e.loopinfo[L]
    it = inf['iter']
    if it is not None:
        it = al.simple(it)
        if it.op == 'call' and ext_of(it) == 'range':
            a = it.args[1]
            lo = al.poly(a[0]) if len(a) > 1 else num(0)
            step = al.poly(a[2]) if len(a) > 2 else num(1)
            hi = al.poly(a[1] if len(a) > 1 else a[0])
            return lo, hi, step
        return None
    cond = al.cond(inf.get('cond', 0))
    ats = [B.atoms[i] if isinstance(i, int) else i for i in B.support(cond)]
    ats = [a for a in ats if a.op == 'lt' and mentions(a, lambda y: y.op == 'mu' and y.args[0] == L)]
    if len(ats) != 1:
        return None
    a, b = ats[0].args
    yes = B.restrict_map(cond, lambda x: True if x is ats[0] else None)
    v, h, extra = (a, b, 0) if yes else (b, a, 1)
    p = al.poly(v)
    k = (('K', L),)
    ks = {m: c for m, c in p.items() if ('K', L) in m}
    step = {tuple(x for x in m if x != ('K', L)): c for m, c in ks.items()}
    lo = {m: c for m, c in p.items() if m not in ks}
    return lo, add(al.poly(h), num(extra)), step


def atoms_of(c):
    return [B.atoms[i] if isinstance(i, int) else i for i in B.support(c)]


def is_zero_step(al, t, c):
    """c implies that step t is 0"""
    for a in atoms_of(c):
        if a.op == 'eq' and any(is_const(x, 0) for x in a.args):
            x = [y for y in a.args if not is_const(y, 0)]
            if x and (same(al.poly(x[0]), t) or same(al.poly(x[0]), mul(t, num(-1)))) and B.implies(c, atom(a)):
                return True
        if a.op == 'eq' and B.implies(c, atom(a)) and same(add(al.poly(a.args[0]), al.poly(a.args[1]), -1), t):
            return True
        if a.op == 'truth' and B.implies(c, B.NOT(atom(a))) and a.args[0].op == 'bin' and same(al.poly(a.args[0]), t):
            return True
    return t == {}


def V(k):
    return of(('V', k if isinstance(k, (tuple, frozenset)) else frozenset(k.items())))


def const_r(c):
    return num(c), num(1)


def line(al, t):
    """value of step t on the line between its neighbours"""
    f = frozenset(t.items())
    a, b = ('prev', f), ('next', f)
    pa, pb = ({(a,): 1}, num(1)), ({(b,): 1}, num(1))
    return plus(V(a), times(plus(V(b), V(a), -1), over(plus((t, num(1)), pa, -1), plus(pb, pa, -1))))


def check_messages(rep, al, e, tag, out, forms=None):
    """messages added to the container: value on the line between its neighbours (zeros at step 0)"""
    seen = set()
    todo = [out]
    for x in list(e.mus.values()):
        todo += list(x)
    ups = []
    for n in todo:
        for z in walk(n):
            if z.op == 'upd' and len(z.args) >= 3 and z not in seen and al.kinds(z.args[0]) == 'map' and al.bystep(z.args[0]):
                seen.add(z)
                ups.append(z)
    # events carry the condition
    n = 0
    for x in e.events:
        if x.kind == 'setitem' and x.g:
            base = x.args[0] if isinstance(x.args[0], Node) else None
            k, v = x.args[1], x.args[2]
            if not isinstance(v, Node) or k.op == 'op':
                continue
            cands = [z for z in ups if z.args[2] is v and z.args[1] is k]
            if not cands:
                continue
            n += 1
            t = al.poly(k)
            c = al.cond(x.g)
            if not c:
                continue
            rep.ob(f'{tag}:replaced', al.absent(t, c), x.where, f'{tag}: a message can be replaced by an interpolated one')
            for d, r in al.cases(v, c):
                ok = equal(r, line(al, t)) or (r[0] == {} and is_zero_step(al, t, d))
                rep.ob(f'{tag}:interpolated', ok, x.where, f'{tag}: a missing message is not the linear interpolation between the messages before and after it')
            for c2, l in leaves(v):
                al.known[l] = frozenset(t.items()) if not (l.op == 'call' and ext_of(l) in FRESH) else al.known.get(l)
                if al.known[l] is None:
                    del al.known[l]
    return n


def results(e, al, out):
    got = []
    for c, key, val, l in stores(e, out):
        if key.op == 'op' and key.args[0] == 'step':
            got.append((al.cond(c), key, val))
    return [x for x in got if x[0]]


def periods(rep, al, e, tag, key, instant, slack=(1,)):
    """steps of the key: returns (start, end) polynomials"""
    s, t = al.poly(key.args[1][0]), al.poly(key.args[1][1])
    step = al.poly(AGGR)
    rep.ob(f'{tag}:length', same(add(t, s, -1), num(0) if instant else step), W, f'{tag}: a field does not cover one aggregation step')
    ks = [x for m in t for x in m if isinstance(x, tuple) and x[0] == 'K']
    if not ks:
        raise Unclear('no loop over periods')
    L = ks[0][1]
    b = upper(al, L)
    if b is None:
        raise Unclear('loop over periods')
    lo, hi, st = b
    rep.ob(f'{tag}:every', same(st, step), W, f'{tag}: fields are not an aggregation step apart')
    # offset of the end step from the loop position
    off = add(t, add(lo, mul(st, {(('K', L),): 1})), -1)
    rep.ob(f'{tag}:last', any(same(add(hi, off), add(al.poly(END), num(k))) for k in slack), W, f'{tag}: the last field is not the last one that ends by the end step')
    first = add(lo, off)
    want = step if al.zero else al.poly(START)
    return s, t, first, want


def check(rep, overlay=None):
    try:
        accumulation(rep, overlay)
        average(rep, overlay)
        instantaneous(rep, overlay)
    except (Unclear, Unknown) as x:
        rep.need(False, str(x))


def accumulation(rep, overlay):
    for zero in (True, False):
        for force in (True, False):
            tag = 'accumulation'
            e, out = run(overlay, 'accumulation', force_zero_array=force, **({'start_step': 0} if zero else {}))
            rep.scenario(e, f'accumulation{" from step 0" if zero else ""}{" with zero array" if force else ""}')
            al = Algebra(e, zero)
            check_messages(rep, al, e, tag, out)
            got = results(e, al, out)
            rep.need(got, 'no accumulated fields')
            for c, key, val in got:
                s, t, first, want = periods(rep, al, e, tag, key, False)
                rep.ob(f'{tag}:first', same(first, want), W, f'{tag}: the first field does not end at the start step (the first aggregation step when it is 0)')
                rep.ob(f'{tag}:level', level(al, key), W, f'{tag}: resolution, step or level of a field is not the one of the messages')
                factor = over(of(UNIT), of(AGGR))
                for d, r in al.cases(val, c):
                    z = is_zero_step(al, s, d)
                    full = times(plus(V(t), V(s), -1), factor)
                    zeroed = times(V(t), factor)
                    zeroed0 = times(plus(V(t), V({}), -1), factor)
                    if z and force:
                        ok = equal(r, zeroed)
                    elif z:
                        ok = equal(r, full) or equal(r, zeroed0) or equal(r, zeroed) and absent0(al, s, d)
                    else:
                        ok = equal(r, full)
                    rep.ob(f'{tag}:value{":zero" if z else ""}', ok, W,
                           f'{tag}: a field is not the difference of the messages at its ends, times unit over aggregation step' + (' (zeros at step 0)' if z else ''))


def absent0(al, s, c):
    return al.absent(s, c) or al.absent({}, c)


def level(al, key):
    """resolution and level from the keys of the messages"""
    res, inp, lev = key.args[1][2:5]
    return all(x.op == 'attr' and x.args[1] == nm and al.kinds(x.args[0]) == 'key' for x, nm in ((res, 'resolution'), (lev, 'level'))) and strip_conv(inp) is AGGR


def average(rep, overlay):
    for zero in (True, False):
        for half in (True, False):
            tag = 'average with half weights' if half else 'average'
            e, out = run(overlay, 'average', step_type='instant', aggr_halfweights=half, **({'start_step': 0} if zero else {}))
            rep.scenario(e, f'{tag}{" from step 0" if zero else ""}')
            al = Algebra(e, zero)
            check_messages(rep, al, e, tag, out)
            got = results(e, al, out)
            rep.need(got, 'no averaged fields')
            for c, key, val in got:
                s, t, first, want = periods(rep, al, e, tag, key, False, (1, 2) if zero else (1,))
                rep.ob(f'{tag}:first', same(first, want), W, f'{tag}: the first field does not end at the start step (the first aggregation step when it is 0)')
                rep.ob(f'{tag}:level', level(al, key), W, f'{tag}: resolution, step or level of a field is not the one of the messages')
                n = 0
                for d, r in al.cases(val, c):
                    n += mean(rep, al, e, tag, s, t, d, r, half)
                rep.ob(f'{tag}:value', n > 0, W, f'{tag}: fields are not a sum of messages over a number')


def mean(rep, al, e, tag, s, t, c, r, half):
    """r = T / S, both accumulated by one loop"""
    tops = [m for m in r[0]]
    mus = {x for m in list(r[0]) + list(r[1]) for x in m if isinstance(x, Node) and x.op == 'mu'}
    if not mus:
        # no message in the period
        return 0
    T = [x for x in mus if r[0] == {(x,): 1}]
    if len(T) != 1:
        rep.ob(f'{tag}:value', False, W, f'{tag}: a field is not a sum of messages over a number')
        return 0
    T = T[0]
    L = T.args[0]
    ti, tn = e.mus[T.args]
    for d, i in al.cases(ti, 1):
        rep.ob(f'{tag}:zero', i[0] == {}, W, f'{tag}: sums do not start from 0')
    S = [x for x in mus if x is not T and r[1] == {(x,): 1}]
    b = upper(al, L)
    if b is None:
        raise Unclear('loop over the steps of a period')
    lo, hi, st = b
    want_lo = s if half else add(s, num(1))
    rep.ob(f'{tag}:range', same(lo, want_lo) and same(hi, add(t, num(1))) and same(st, num(1)), W, f'{tag}: not all steps of the period are averaged, or others')
    j = add(lo, {(('K', L),): 1})
    if S:
        S = S[0]
        if S.args[0] != L:
            raise Unclear('sum of weights')
        si, sn = e.mus[S.args]
        for d, i in al.cases(si, 1):
            rep.ob(f'{tag}:zero', i[0] == {}, W, f'{tag}: sums do not start from 0')
    else:
        S = sn = None
        rep.ob(f'{tag}:count', not half and (same(r[1], add(hi, lo, -1)) or r[1] == {(('K', L),): 1}), W, f'{tag}: sums are not divided by the number of steps')
    g0 = atom(N('iter', L)) if e.loopinfo[L]['iter'] is not None else 1
    weights = {}
    n = 0
    for d, v in al.cases(tn, g0):
        for d2, w in (al.cases(sn, d) if sn is not None else [(d, const_r(1))]):
            dt = plus(v, of(T), -1)
            dw = plus(w, of(S), -1) if sn is not None else w
            present = not al.absent(j, d2)
            if half and not present:
                rep.ob(f'{tag}:missing', dt[0] == {} and dw[0] == {}, W, f'{tag}: a step without message has a weight')
                continue
            k = frozenset(j.items()) if present else ('next', frozenset(j.items()))
            n += 1
            rep.ob(f'{tag}:weight', equal(dt, times(V(k), dw)) and dw[0] != {}, W,
                   f'{tag}: ' + ('the message of a step' if present else 'the next message of a step without one') + ' is not summed with the weight that is counted')
            if not half:
                rep.ob(f'{tag}:one', equal(dw, const_r(1)), W, f'{tag}: steps do not have the same weight')
            else:
                at = ends(al, j, lo, add(hi, num(1), -1), d2)
                weights.setdefault(at, []).append(dw)
    if half:
        e1, m1 = weights.get('end', []), weights.get('middle', [])
        rep.ob(f'{tag}:half', e1 and m1 and set(weights) == {'end', 'middle'} and all(equal(times(const_r(2), x), y) for x in e1 for y in m1), W, f'{tag}: the first and last step do not have half of the weight of the others')
    return n


def ends(al, j, a, b, c):
    """whether, under c, the step is the first or last of the period"""
    first = last = 0
    for x in atoms_of(c):
        if x.op == 'eq':
            p = add(al.poly(x.args[0]), al.poly(x.args[1]), -1)
            for i, q in enumerate((a, b)):
                d = add(j, q, -1)
                if same(p, d) or same(p, mul(d, num(-1))):
                    first, last = (B.OR(first, atom(x)), last) if i == 0 else (first, B.OR(last, atom(x)))
        elif x.op == 'lt':
            # steps stay between first and last
            p = add(al.poly(x.args[1]), al.poly(x.args[0]), -1)
            if same(p, add(j, a, -1)):
                first = B.OR(first, B.NOT(atom(x)))
            elif same(p, add(b, j, -1)):
                last = B.OR(last, B.NOT(atom(x)))
            elif same(p, add(add(a, num(1)), j, -1)):
                first = B.OR(first, atom(x))
            elif same(p, add(j, add(b, num(-1)), -1)):
                last = B.OR(last, atom(x))
        elif x.op == 'in' and x.args[1].op in ('tuple', 'listv', 'setv'):
            if same(al.poly(x.args[0]), j) and all(any(same(al.poly(y), q) for q in (a, b)) for y in x.args[1].args[0]) and len(x.args[1].args[0]) == 2:
                first, last = atom(x), atom(x)
    if B.OR(first, last) and B.implies(c, B.OR(first, last)):
        return 'end'
    if first and last and B.implies(c, B.AND(B.NOT(first), B.NOT(last))):
        return 'middle'
    return 'unknown'


def instantaneous(rep, overlay):
    for step in ('instant', 'avg'):
        tag = 'instantaneous'
        e, out = run(overlay, 'instantaneous', step_type=step)
        rep.scenario(e, f'instantaneous of {step}')
        al = Algebra(e, False)
        check_messages(rep, al, e, tag, out)
        got = results(e, al, out)
        rep.need(got, 'no instantaneous fields')
        for c, key, val in got:
            s, t, first, want = periods(rep, al, e, tag, key, True)
            rep.ob(f'{tag}:level', level(al, key), W, f'{tag}: resolution, step or level of a field is not the one of the messages')
            for d, r in al.cases(val, c):
                gone = al.absent(t, d)
                if gone and is_zero_step(al, t, d):
                    ok = r[0] == {}
                else:
                    ok = equal(r, V(('next', frozenset(t.items())) if gone else t))
                rep.ob(f'{tag}:value{":gone" if gone else ""}', ok, W, f'{tag}: a field is not the message of its step' + (' or the next one' if gone else ''))
