"""Normal forms: sums of products for numbers, sequences of pieces for texts, orders for containers."""
from .common import *


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c != 0}


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            t = tuple(sorted(m + n, key=repr))
            r[t] = r.get(t, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def num(c):
    return {(): c} if c else {}


def same(p, q):
    return add(p, q, -1) == {}


class Forms:
    def __init__(self, e):
        self.e = e
        self.memo = {}
        self.busy = set()

    # ------------------------------------------------------------ numbers
    def poly(self, n):
        """{monomial: coefficient}; iteration positions (from 0) are ('K', loop)"""
        if n in self.memo:
            return self.memo[n]
        if n in self.busy:
            return {(n,): 1}
        if n.op == 'mu':
            self.busy.add(n)
        r = self.poly1(n)
        self.busy.discard(n)
        if not self.busy:
            self.memo[n] = r
        return r

    def poly1(self, n):
        if is_const(n) and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool):
            return num(n.args[0])
        if n.op == 'bin':
            o, a, b = n.args[0], n.args[1], n.args[2]
            if o in ('+', 'Add'):
                return add(self.poly(a), self.poly(b))
            if o in ('-', 'Sub'):
                return add(self.poly(a), self.poly(b), -1)
            if o in ('*', 'Mult'):
                return mul(self.poly(a), self.poly(b))
            if o in ('/', 'Div'):
                q = self.poly(b)
                if list(q) == [()]:
                    return mul(self.poly(a), num(1 / q[()]))
                return mul(self.poly(a), {(('inv', frozenset(q.items())),): 1})
        if n.op == 'sub' and n.args[0].op in ('tuple', 'listv') and False:
            pass
        if n.op == 'call':
            nm, ar = ext_of(n), n.args[1]
            if nm in ('int', 'float', 'numpy.float64', 'numpy.int32', 'numpy.int64', 'numpy.double') and len(ar) == 1:
                return self.poly(ar[0])
            if nm == 'len' and len(ar) == 1:
                return self.length(ar[0])
            if nm == 'operator.add' and len(ar) == 2:
                return add(self.poly(ar[0]), self.poly(ar[1]))
        if n.op == 'lidx':
            return add({(('K', n.args[0]),): 1}, self.poly(n.args[1]))
        if n.op == 'elem':
            r = self.counted(n.args[0], n.args[1])
            if r is not None:
                return r
        if n.op == 'mu':
            init, nxt = self.e.mus[n.args]
            d = add(self.poly(nxt), {(n,): 1}, -1)
            if list(d) in ([], [()]):
                return add(self.poly(init), mul(d, {(('K', n.args[0]),): 1}))
        return {(n,): 1}

    def counted(self, L, it):
        """element of a counting iterable at position K"""
        if it.op == 'call' and ext_of(it) in ('range', 'itertools.count', 'numpy.arange'):
            ar = list(it.args[1])
            kw = dict(it.args[2])
            if ext_of(it) == 'itertools.count':
                lo = ar[0] if ar else kw.get('start', const(0))
                st = ar[1] if len(ar) > 1 else kw.get('step', const(1))
            else:
                lo = ar[0] if len(ar) > 1 else const(0)
                st = ar[2] if len(ar) > 2 else const(1)
            return add(self.poly(lo), mul(self.poly(st), {(('K', L),): 1}))
        return None

    def rounds(self, L):
        """number of iterations of a counting loop, None when it is not one"""
        inf = self.e.loopinfo[L]
        it = inf['iter']
        if it is not None:
            if it.op == 'call' and ext_of(it) == 'range':
                ar = it.args[1]
                if len(ar) == 1:
                    return self.poly(ar[0])
                if len(ar) == 2 or (len(ar) == 3 and is_const(ar[2], 1)):
                    return add(self.poly(ar[1]), self.poly(ar[0]), -1)
            return None
        # while a < b, with b - a one less in each iteration
        cond = inf.get('cond', 0)
        ats = [B.atoms[i] if isinstance(i, int) else i for i in B.support(cond)]
        ats = [a for a in ats if a.op == 'lt' and mentions(a, lambda y: y.op == 'mu' and y.args[0] == L)]
        if len(ats) != 1:
            return None
        a, b = self.poly(ats[0].args[0]), self.poly(ats[0].args[1])
        t = B.restrict_map(cond, lambda x: True if x is ats[0] else None)
        f = B.restrict_map(cond, lambda x: False if x is ats[0] else None)
        k = (('K', L),)
        a, b = self.lengths(a, L), self.lengths(b, L)
        d = add(b, a, -1)
        if f == 0 and t != 0:
            extra = 0
        elif t == 0 and f != 0:
            d, extra = add(a, b, -1), 1
        else:
            return None
        if d.get(k) != -1:
            return None
        return add({m: c for m, c in d.items() if m != k}, num(extra))

    def lengths(self, p, L):
        """lengths of texts growing in a loop, through the iteration position"""
        r = {}
        for m, c in p.items():
            q = {(): c}
            for x in m:
                y = {(x,): 1}
                if isinstance(x, tuple) and x[0] == 'len' and isinstance(x[1], Node) and x[1].op == 'mu' and x[1].args[0] == L:
                    init, nxt = self.e.mus[x[1].args]
                    d = add(self.plen(self.pieces(nxt)), y, -1) if nxt.op != 'ite' else {(): 0.5, (x,): 1}
                    if list(d) in ([], [()]):
                        y = add(self.length(init), mul(d, {(('K', L),): 1}))
                q = mul(q, y)
            r = add(r, q)
        return r

    # ------------------------------------------------------------ texts
    def length(self, n):
        """number of characters of a text, or items of a container"""
        ps = self.pieces(n)
        if ps is None:
            return {(('len', n),): 1}
        return self.plen(ps)

    def plen(self, ps):
        r = {}
        for p in ps:
            if p[0] == 's':
                r = add(r, num(len(p[1])))
            elif p[0] == 'rep':
                r = add(r, dict(p[2]))
            elif p[0] == 'v' and p[1].op == 'mu':
                r = add(r, {(('len', p[1]),): 1})
            else:
                r = add(r, {(('len', p),): 1})
        return r

    def pieces(self, n):
        """text as a tuple of ('s', literal) ('v', value) ('num', number) ('rep', char, count) ('part', pieces, lo, hi) ('path', a, b)"""
        k = ('t', n)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return (('v', n),)
        if n.op == 'mu':
            self.busy.add(k)
        r = self.pieces1(n)
        self.busy.discard(k)
        out = []
        for p in r:
            if p[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + p[1])
            elif p[0] == 's' and not p[1]:
                pass
            else:
                out.append(p)
        r = tuple(out)
        if not self.busy:
            self.memo[k] = r
        return r

    def pieces1(self, n):
        if is_const(n):
            return (('s', str(n.args[0])),)
        if n.op == 'fmt':
            r = ()
            for x in n.args[0]:
                r += self.pieces(x)
            return r
        if n.op == 'bin' and n.args[0] in ('+', 'Add'):
            a, b = self.pieces(n.args[1]), self.pieces(n.args[2])
            if self.texty(n.args[1]) or self.texty(n.args[2]):
                return a + b
            return (self.number(n),)
        if n.op == 'bin' and n.args[0] in ('*', 'Mult'):
            for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
                if is_const(a) and isinstance(a.args[0], str):
                    return (('rep', a.args[0], frozenset(self.poly(b).items())),)
            return (self.number(n),)
        if n.op == 'sub' and n.args[1].op == 'slice':
            lo, hi, stp = n.args[1].args
            if is_const(stp, None) and (is_const(lo) and is_const(hi)):
                return (('part', self.pieces(n.args[0]), lo.args[0] or 0, hi.args[0]),)
        if n.op == 'call':
            nm, ar, f = ext_of(n), n.args[1], n.args[0]
            if nm == 'str' and len(ar) == 1:
                return self.pieces(ar[0])
            if nm in ('os.path.join', 'posixpath.join') and len(ar) >= 2:
                r = self.pieces(ar[0])
                for a in ar[1:]:
                    r = (('path', r, self.pieces(a)),)
                return r
            if f.op == 'attr':
                m, b = f.args[1], f.args[0]
                if m in ('encode', 'as_posix') :
                    return self.pieces(b)
                if m == 'zfill' and ar:
                    ps = self.pieces(b)
                    return (('rep', '0', frozenset(add(self.poly(ar[0]), self.plen(ps), -1).items())),) + ps
                if m in ('rjust', 'ljust') and ar:
                    ps = self.pieces(b)
                    c = ar[1].args[0] if len(ar) > 1 and is_const(ar[1]) else ' '
                    pad = (('rep', c, frozenset(add(self.poly(ar[0]), self.plen(ps), -1).items())),)
                    return pad + ps if m == 'rjust' else ps + pad
                if m == 'join' and is_const(b, '') and ar and ar[0].op in ('listv', 'tuple'):
                    r = ()
                    for x in ar[0].args[0]:
                        r += self.pieces(x)
                    return r
                if m == 'join' and is_const(b, '') and ar and ar[0].op == 'comp' and is_const(ar[0].args[1]):
                    ls = ar[0].args[2]
                    if len(ls) == 1:
                        w = self.rounds(ls[0].args[0])
                        if w is not None:
                            return (('rep', ar[0].args[1].args[0], frozenset(w.items())),)
        if n.op == 'mu':
            init, nxt = self.e.mus[n.args]
            if nxt.op != 'ite':
                ps = self.pieces(nxt)
                w = self.rounds(n.args[0])
                if w is not None and len(ps) == 2 and ps[1][0] == 's' and len(ps[1][1]) == 1 and ps[0] == ('v', n):
                    return self.pieces(init) + (('rep', ps[1][1], frozenset(w.items())),)
            return (('v', n),)
        if n.op in ('bin', 'lidx'):
            return (self.number(n),)
        return (('v', n),)

    def texty(self, n):
        if is_const(n):
            return isinstance(n.args[0], str)
        if n.op == 'fmt':
            return True
        if n.op == 'mu':
            init, nxt = self.e.mus[n.args]
            return self.texty(init) or nxt.op == 'bin' and any(self.texty(x) for x in nxt.args[1:] if isinstance(x, Node) and x is not n and x.op != 'mu')
        if n.op == 'call':
            if ext_of(n) in ('str', 'os.path.join'):
                return True
            return n.args[0].op == 'attr' and n.args[0].args[1] in ('zfill', 'rjust', 'ljust', 'join', 'format', 'strip', 'lower', 'upper')
        if n.op == 'bin':
            return any(self.texty(x) for x in n.args[1:3])
        if n.op == 'sub' and n.args[1].op == 'slice':
            return self.texty(n.args[0])
        return False

    def number(self, n):
        return ('num', frozenset(self.poly(n).items()))

    # ------------------------------------------------------------ order
    def order(self, n, seen=()):
        """set of orders a container is gone through: ('sorted', key of N('param','item'), kind) | 'other'"""
        if n in seen:
            return set()
        seen = seen + (n,)
        if n.op == 'ite':
            return self.order(n.args[1], seen) | self.order(n.args[2], seen)
        if n.op == 'call':
            nm, ar, f = ext_of(n), n.args[1], n.args[0]
            if nm in ('collections.OrderedDict', 'dict', 'list', 'tuple', 'iter', 'enumerate', 'zip') and ar:
                return self.order(ar[0], seen)
            if nm == 'sorted':
                kw = dict(n.args[2])
                if 'reverse' in kw and not is_const(kw['reverse'], False):
                    return {'reversed'}
                key = kw.get('key')
                if key is None:
                    return {'natural'}
                k = self.apply(key)
                return {('sorted', k, self.items_of(ar[0]))}
            if f.op == 'attr' and f.args[1] in ('items', 'values', 'keys', 'copy'):
                return self.order(f.args[0], seen)
        if n.op in ('dcomp', 'comp'):
            ls = n.args[2]
            if len(ls) == 1:
                it = self.e.loopinfo[ls[0].args[0]]['iter']
                if it is not None:
                    return self.order(it, seen)
        if n.op == 'mu':
            init, nxt = self.e.mus[n.args]
            if init.op in ('empty',) or (init.op in ('listv', 'dictv') and not init.args[0]):
                it = self.e.loopinfo[n.args[0]]['iter']
                if it is not None:
                    return self.order(it, seen)
        return {'other'}

    def items_of(self, n):
        ks = {'pairs' if (l.op == 'ditems' or l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] == 'items') else 'keys' for l in leafset(n)}
        return ks.pop() if len(ks) == 1 else 'mixed'

    def apply(self, fn):
        st = self.e.state()
        v = self.e.call(fn, [N('param', 'item')], {}, st)
        return self.e.freeze(v, st)


def end_step_order(forms, it):
    """every way the container is filled is sorted by end step"""
    bad = []
    for o in forms.order(it):
        ok = False
        if isinstance(o, tuple):
            k = o[1]
            k = k.args[0][0] if k.op == 'tuple' and k.args[0] else k
            while k.op == 'call' and ext_of(k) in ('int', 'float') and k.args[1]:
                k = k.args[1][0]
            want = N('param', 'item') if o[2] == 'keys' else N('sub', N('param', 'item'), const(0))
            ok = k.op == 'attr' and k.args[1] == 'end_step' and k.args[0] is want
        if not ok:
            bad.append(o)
    return not bad
