"""One cell of array expressions: whether it is masked and its value, in a described world."""
from .missing import *
from .ratio import *

NAN = N('nan')
LOGIC_OR = {'numpy.logical_or', 'numpy.bitwise_or', 'numpy.ma.logical_or', 'numpy.ma.mask_or'}
LOGIC_AND = {'numpy.logical_and', 'numpy.bitwise_and', 'numpy.ma.logical_and'}
LOGIC_NOT = {'numpy.logical_not', 'numpy.invert', 'numpy.bitwise_not'}
COMPARE = {'numpy.equal': '==', 'numpy.not_equal': '!=', 'numpy.less': '<', 'numpy.less_equal': '<=', 'numpy.greater': '>', 'numpy.greater_equal': '>='}
SHAPE = {'copy', 'astype', 'reshape', 'ravel', 'flatten', 'squeeze', 'view', 'unshare_mask', 'harden_mask'}
SHAPEF = {'numpy.ravel', 'numpy.reshape', 'numpy.copy', 'numpy.squeeze', 'numpy.broadcast_to', 'copy.copy', 'copy.deepcopy', 'numpy.ma.copy', 'numpy.asanyarray', 'numpy.ma.asarray',
          'numpy.ma.asanyarray', 'numpy.ma.ravel', 'numpy.ma.reshape', 'numpy.atleast_1d', 'numpy.flipud'}
PLAIN = {'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.ma.getdata', 'numpy.float64', 'float', 'numpy.float32', 'numpy.double'}
# the same cells in other places
MOVE = {'numpy.flipud', 'numpy.fliplr', 'numpy.flip', 'numpy.roll', 'numpy.rot90', 'numpy.transpose', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.rollaxis', 'numpy.sort', 'numpy.ma.transpose', 'numpy.ma.sort'}
MOVES = {'transpose', 'swapaxes', 'sort'}
MASKARR = {'numpy.ma.array', 'numpy.ma.masked_array', 'numpy.ma.MaskedArray', 'numpy.ma.core.MaskedArray'}


class World:
    """source(n): (masked, value node) of a source array, or None; sign: {value node: '+'/'-'}; isarray(node): array is a masked one (True/False/None); scalar(atom): True/False/None; free: values that may equal any number"""

    def __init__(self, source, sign=None, masked_array=None, scalar=None, free=()):
        self.source, self.free = source, free
        self.sign = sign or {}
        self.masked_array = masked_array or (lambda n: None)
        self.scalar = scalar or (lambda a: None)


class Cells:
    def __init__(self, e, w):
        self.e, self.w = e, w
        self.memo = {}
        self.busy = set()

    def __call__(self, n):
        """set of possible (masked, value) of the cell"""
        if n in self.memo:
            return self.memo[n]
        if n in self.busy:
            return frozenset()
        self.busy.add(n)
        try:
            r = frozenset(self.find(n))
        finally:
            self.busy.discard(n)
        if len(r) > 60:
            raise Unknown('too many cases')
        if not self.busy or n.op != 'mu':
            self.memo[n] = r
        return r

    # ------------------------------------------------------------ terms
    def term(self, r):
        """canonical node of a ratio"""
        p, q = r
        if q == num(1) and len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1 and isinstance(m[0], Node):
                return m[0]
            if m == ():
                return const(c)
        if p == {}:
            return const(0)
        return ('ratio', frozenset(p.items()), frozenset(q.items()))

    def asratio(self, t):
        if isinstance(t, tuple):
            return dict(t[1]), dict(t[2])
        return ratio(t)

    def same(self, a, b):
        if a is NAN or b is NAN:
            return False
        return equal(self.asratio(a), self.asratio(b))

    def compare(self, op, a, b):
        """True / False / None"""
        if a is NAN or b is NAN:
            return op == '!='
        if op in ('==', '!='):
            if self.same(a, b):
                return op == '=='
            d = plus(self.asratio(a), self.asratio(b), -1)
            if self.w.free and any(is_const(x) and y in self.w.free for x, y in ((a, b), (b, a)) if not isinstance(x, tuple)) and self.signof(d) in (None, 0):
                return None
            return op == '!='
        d = plus(self.asratio(a), self.asratio(b), -1)
        s = self.signof(d)
        if s is None:
            return None
        return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[op]

    def signof(self, d):
        if d[0] == {}:
            return 0
        if d[1] != num(1) or len(d[0]) != 1:
            return None
        (m, c), = d[0].items()
        s = 1 if c > 0 else -1
        for x in m:
            g = self.w.sign.get(x)
            if g is None:
                return None
            s *= 1 if g == '+' else -1
        return s

    # ------------------------------------------------------------ conditions
    def decide(self, a):
        """gate of a value"""
        r = self.w.scalar(a)
        if r is not None:
            return r
        if a.op == 'isinst' and MASKED in show(a.args[1], 3).replace('.core', ''):
            return self.kind(a.args[0])
        if a.op == 'isnone':
            x = a.args[0]
            if never(a) is False:
                return False
        return None

    def kind(self, n, seen=()):
        """value is a masked array (True/False/None)"""
        if n in seen:
            return None
        seen = seen + (n,)
        if n.op == 'ite':
            ks = {self.kind(l, seen) for l in self.possible(n)}
            return ks.pop() if len(ks) == 1 else None
        r = self.w.masked_array(n)
        if r is not None:
            return r
        if any(m for m, v in self(n)):
            return True
        if n.op == 'ne' or n.op == 'call' and ext_of(n) in PLAIN | {'numpy.zeros', 'numpy.full', 'numpy.empty', 'numpy.ma.filled', 'numpy.einsum', 'numpy.append', 'numpy.concatenate', 'numpy.where'}:
            return False
        if n.op == 'call' and (ext_of(n).startswith('numpy.ma.masked') or ext_of(n) in MASKARR):
            return True
        if n.op == 'upd':
            return self.kind(n.args[0], seen)
        return None

    def possible(self, n):
        out, st, seen = [], [n], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                d = self.decide(B.atoms[x.args[0]])
                st += [x.args[1]] if d else [x.args[2]] if d is False else [x.args[1], x.args[2]]
            else:
                out.append(x)
        return out

    def truth(self, n):
        """set of possible truth values of a cell of a condition; None when it is not a condition"""
        if n.op == 'ite':
            out = set()
            for l in self.possible(n):
                r = self.truth(l)
                if r is None:
                    return None
                out |= r
            return out
        if n.op == 'arr':
            x = n.args[0]
            return self.truthb(x) if not isinstance(x, Node) else self.truth(x)
        if n.op == 'bool':
            return self.truthb(n.args[0])
        if is_const(n, True, False):
            return {n.args[0]}
        if n.op == 'acmp':
            return self.cmpcells(n.args[0], n.args[1], n.args[2])
        if n.op == 'un' and n.args[0] in ('~', 'not'):
            return self.negate(self.truth(n.args[1]))
        if n.op == 'bin' and n.args[0] in ('|', '&', '+', '*', '^'):
            a, b = self.truth(n.args[1]), self.truth(n.args[2])
            if a is None or b is None:
                return None
            f = {'|': lambda x, y: x or y, '+': lambda x, y: x or y, '&': lambda x, y: x and y, '*': lambda x, y: x and y, '^': lambda x, y: x != y}[n.args[0]]
            return {f(x, y) for x in a for y in b}
        if n.op == 'attr' and n.args[1] == 'T':
            return self.truth(n.args[0])
        if n.op == 'attr' and n.args[1] == 'mask':
            return {m for m, v in self(n.args[0])}
        if n.op == 'mu':
            return self.accumulate(n)
        if n.op == 'call':
            f, a = ext_of(n), n.args[1]
            if f in LOGIC_OR | LOGIC_AND and len(a) >= 2:
                x, y = self.truth(a[0]), self.truth(a[1])
                if x is None or y is None:
                    return None
                return {(p or q) if f in LOGIC_OR else (p and q) for p in x for q in y}
            if f in LOGIC_NOT:
                return self.negate(self.truth(a[0]))
            if f in ('numpy.isnan', 'math.isnan'):
                return {v is NAN for m, v in self(a[0])}
            if f == 'numpy.isfinite':
                return {v is not NAN for m, v in self(a[0])}
            if f in COMPARE:
                return self.cmpcells(COMPARE[f], a[0], a[1])
            if f in ('numpy.isclose',):
                return self.cmpcells('==', a[0], a[1])
            if f in ('numpy.ma.getmask', 'numpy.ma.getmaskarray'):
                return {m for m, v in self(a[0])}
            if f == 'numpy.isin' and len(a) == 2 and a[1].op in ('listv', 'tuple'):
                out = {False}
                for y in a[1].args[0]:
                    t = self.cmpcells('==', a[0], y)
                    if t is None:
                        return None
                    out = {p or q for p in out for q in t}
                return out
            if (f in ('numpy.broadcast_to', 'numpy.array', 'numpy.asarray', 'bool', 'numpy.ma.make_mask', 'numpy.ravel') or f in SHAPEF or f in MOVE) and a:
                return self.truth(a[0])
            if n.args[0].op == 'attr' and n.args[0].args[1] in SHAPE:
                return self.truth(n.args[0].args[0])
        return None

    def negate(self, s):
        return None if s is None else {not x for x in s}

    def cmpcells(self, op, a, b):
        out = set()
        for m1, x in self(a):
            for m2, y in self(b):
                r = self.compare(op, x, y)
                out |= {True, False} if r is None else {r}
        return out

    def truthb(self, f):
        """a condition over comparisons of arrays"""
        vals = {}
        sup = []
        for i in B.support(f):
            a = B.atoms[i] if isinstance(i, int) else i
            r = self.w.scalar(a)
            if r is None:
                if a.op in ('eq', 'lt'):
                    t = self.cmpcells({'eq': '==', 'lt': '<'}[a.op], a.args[0], a.args[1])
                elif a.op == 'truth':
                    t = self.truth(a.args[0])
                elif a.op == 'isinst':
                    k = self.decide(a)
                    t = {k} if k is not None else None
                else:
                    t = None
                r = t
            else:
                r = {r}
            vals[a] = {True, False} if r is None else r
        out = set()

        def go(f):
            sup = B.support(f) if f not in (0, 1) else ()
            if f in (0, 1):
                out.add(bool(f))
                return
            i = next(iter(sup))
            a = B.atoms[i] if isinstance(i, int) else i
            for v in vals[a]:
                go(B.restrict_map(f, lambda x: v if x is a else None))
        go(f)
        return out

    def accumulate(self, n):
        """a mask accumulated by a loop over a list of arrays"""
        return None

    # ------------------------------------------------------------ cells
    def find(self, n):
        w = self.w
        if n.op == 'ite':
            return set().union(*[self(l) for l in self.possible(n)])
        s = w.source(n)
        if s is not None:
            return set(s) if isinstance(s, (set, frozenset, list)) else {s}
        if n is NAN or n.op == 'nan':
            return {(False, NAN)}
        if n.op == 'bool' or n.op == 'arr' or n.op == 'acmp':
            t = self.truth(n)
            return {(False, const(int(x))) for x in t} if t is not None else {(False, n)}
        if is_const(n):
            if isinstance(n.args[0], float) and n.args[0] != n.args[0]:
                return {(False, NAN)}
            return {(False, n)}
        if n.op == 'ext' and n.args[0] in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
            return {(False, NAN)}
        if n.op == 'ext' and n.args[0] in ('numpy.ma.masked',):
            return {(True, NAN)}
        if n.op == 'ne':
            # the library does not know masks
            return {(False, v) for m, v in self(n.args[0])}
        if n.op in ('bin', 'aug') and n.args[0] in ('+', '-', '*', '/', '+=', '-=', '*=', '/='):
            out = set()
            for m1, x in self(n.args[1]):
                for m2, y in self(n.args[2]):
                    out.add((m1 or m2, self.arith(n.args[0][0], x, y)))
            return out
        if n.op == 'un' and n.args[0] == '-':
            return {(m, self.arith('-', const(0), v)) for m, v in self(n.args[1])}
        if n.op == 'upd':
            base, where, val = n.args[0], n.args[1], n.args[2] if len(n.args) > 2 else None
            t = self.truth(where)
            if t is None:
                raise Unknown(f'assignment to cells {show(where, 3)[:80]}')
            out = set()
            if True in t:
                # assigned cells are not masked any more
                out |= set(self(val))
            if False in t:
                out |= set(self(base))
            return out
        if n.op == 'attr' and n.args[1] in ('data',):
            return {(False, v) for m, v in self(n.args[0])}
        if n.op == 'attr' and n.args[1] == 'T':
            return self(n.args[0])
        if n.op == 'call':
            f, a, kw = ext_of(n), n.args[1], dict(n.args[2])
            if n.args[0].op == 'nefn':
                if n.args[0].args[0] == 'where':
                    return self.where(a[0], a[1], a[2])
                return {(False, n)}
            if f in ('numpy.where', 'numpy.ma.where') and len(a) == 3:
                r = self.where(a[0], a[1], a[2])
                return r if f == 'numpy.ma.where' else {(False, v) for m, v in r}
            if f == 'numpy.ma.masked_where':
                x = kw.get('a', a[1] if len(a) > 1 else None)
                return self.mask(kw.get('condition', a[0] if a else None), x)
            if f in ('numpy.ma.masked_values', 'numpy.ma.masked_equal'):
                return {(m or self.same(v, y), v) for m, v in self(a[0]) for k, y in self(a[1])}
            if f == 'numpy.ma.masked_invalid':
                return {(m or v is NAN, v) for m, v in self(a[0])}
            if f in MASKARR:
                x = a[0] if a else kw.get('data')
                m = kw.get('mask', a[1] if len(a) > 1 and f != 'numpy.ma.array' else None)
                if m is not None and not is_const(m, False):
                    return self.mask(m, x)
                return self(x)
            if (f in SHAPEF or f in MOVE) and a:
                return self(a[0])
            if f in PLAIN and a:
                return {(False, v) for m, v in self(a[0])}
            if f in OPS and len(a) == 2:
                return {(m1 or m2, self.arith(OPS[f], x, y)) for m1, x in self(a[0]) for m2, y in self(a[1])}
            if f in ('numpy.zeros', 'numpy.zeros_like', 'numpy.ma.zeros'):
                return {(False, const(0))}
            if f in ('numpy.ones', 'numpy.ones_like'):
                return {(False, const(1))}
            if f in ('numpy.full', 'numpy.full_like') and len(a) >= 2:
                return self(a[1])
            if f == 'numpy.ma.filled':
                return self.filled(a[0], kw.get('fill_value', a[1] if len(a) > 1 else None))
            if f == 'numpy.nan_to_num':
                return {(m, const(0) if v is NAN else v) for m, v in self(a[0])}
            if f in ('numpy.maximum', 'numpy.ma.maximum', 'numpy.clip') and len(a) >= 2:
                out = set()
                for m1, x in self(a[0]):
                    for m2, y in self(a[1]):
                        if x is NAN or y is NAN:
                            out.add((m1 or m2, NAN))
                            continue
                        r = self.compare('<', x, y)
                        if r is not True:
                            out.add((m1 or m2, x))
                        if r is not False:
                            out.add((m1 or m2, y))
                return out
            if n.args[0].op == 'attr':
                b, m = n.args[0].args[0], n.args[0].args[1]
                if m in SHAPE:
                    return self(b)
                if m == 'filled':
                    return self.filled(b, a[0] if a else kw.get('fill_value'))
        if n.op == 'mu':
            init, nxt = self.e.mus[n.args]
            return set(self(init)) | set(self(nxt))
        if n.op in ('param', 'cfg', 'opt', 'hole', 'sub', 'attr', 'call', 'elem', 'valof', 'unk', 'op'):
            return {(False, n)}
        raise Unknown(f'cell of {show(n, 3)[:100]}')

    def arith(self, o, x, y):
        if x is NAN or y is NAN:
            return NAN
        a, b = self.asratio(x), self.asratio(y)
        r = times(a, b) if o == '*' else over(a, b) if o == '/' else plus(a, b, 1 if o == '+' else -1)
        return self.term(r)

    def where(self, c, x, y):
        t = self.truth(c)
        t = {True, False} if t is None else t
        out = set()
        if True in t:
            out |= set(self(x))
        if False in t:
            out |= set(self(y))
        return out

    def mask(self, c, x):
        t = self.truth(c)
        if t is None:
            if is_const(c, None):
                # no mask: everything is masked by masked_where(None, x)? a condition that is not true
                t = {False}
            else:
                raise Unknown(f'mask {show(c, 3)[:80]}')
        return {(m or p, v) for m, v in self(x) for p in t}

    def filled(self, x, f):
        out = set()
        for m, v in self(x):
            if m:
                out |= {(False, y) for k, y in (self(f) if f is not None and not is_const(f, None) else {(False, N('unk', 'default fill'))})}
            else:
                out.add((False, v))
        return out
