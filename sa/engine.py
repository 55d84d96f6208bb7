"""Abstract interpreter for the Python subset pyg2p uses.

It executes the *source text* of the analysed modules over abstract values only
(no import, no call of repository code).  Branches are joined (never enumerated
as paths): a variable assigned under a condition becomes a gated value, a loop
body is summarised once with `mu` nodes for whatever it changes, calls are
inlined through the resolved callee.  Every call to code outside the package,
every raise, every in-place store is recorded as an Event with its guard, so
that rules can be stated over values and events rather than over syntax.
"""
import ast
import os
import string
import itertools
from .core import *
from . import core
from .gens import Generators, fixed


def is_true(t):
    return isinstance(t, ast.Constant) and t.value is True

PKG = 'pyg2p'


class AnalysisError(Exception):
    """the analysis could not be carried out: never a pass"""


class FuncInfo:
    def __init__(self, node, module, cls, qual, defaults, kwdefaults, env, kind, decorators):
        self.node, self.module, self.cls, self.qual = node, module, cls, qual
        self.defaults, self.kwdefaults, self.env, self.kind = defaults, kwdefaults, env, kind
        self.decorators = decorators
        self.name = getattr(node, 'name', '<lambda>')
        self.id = None

    @property
    def line(self):
        return self.node.lineno


class ClassInfo:
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.ns = {}
        self.id = None
        self.meta = None

    def __repr__(self):
        return f'<class {self.name}>'


class ModInfo:
    def __init__(self, name, path, tree, ispkg):
        self.name, self.path, self.tree, self.ispkg = name, path, tree, ispkg
        self.env = {}
        self.state = 0  # 0 new 1 loading 2 done


class HObj:
    """immutable heap record"""
    __slots__ = ('kind', 'cls', 'known', 'base')

    def __init__(self, kind, cls, known, base=None):
        self.kind, self.cls, self.known, self.base = kind, cls, known, base

    def with_(self, **kw):
        d = dict(kind=self.kind, cls=self.cls, known=self.known, base=self.base)
        d.update(kw)
        return HObj(**d)


class St:
    __slots__ = ('env', 'heap', 'cont', 'g')

    def __init__(self, env, heap, cont, g):
        self.env, self.heap, self.cont, self.g = env, heap, cont, g

    def copy(self):
        return St(dict(self.env), dict(self.heap), dict(self.cont), self.g)

    def become(self, o):
        self.env, self.heap, self.cont, self.g = o.env, o.heap, o.cont, o.g


class Frame:
    def __init__(self, fi, module, parent, site):
        self.fi, self.module, self.parent, self.site = fi, module, parent, site
        self.returns = []
        self.loops = []
        self.saved_env = None  # caller env while running
        self.selfnode = None


class Event:
    __slots__ = ('kind', 'fn', 'args', 'kw', 'g', 'loc', 'seq', 'stack', 'loops', 'heap', 'cont', 'node', 'trys', 'extra')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return f'{self.kind}@{self.where} {show(self.fn) if isinstance(self.fn, Node) else self.fn}({", ".join(show(a) for a in self.args or ())})'

    @property
    def where(self):
        return f'{self.loc[0]}:{self.loc[1]} ({self.loc[2]})'

    def arg(self, i, name=None):
        if self.args and i is not None and i < len(self.args):
            return self.args[i]
        if name:
            for k, v in self.kw or ():
                if k == name:
                    return v
        return None


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}

PURE_BUILTINS = {'int', 'float', 'str', 'bool', 'len', 'abs', 'min', 'max', 'sorted', 'tuple', 'range', 'enumerate', 'zip',
                 'sum', 'any', 'all', 'round', 'repr', 'hash', 'type', 'isinstance', 'hasattr', 'getattr', 'map', 'filter',
                 'frozenset', 'callable', 'divmod', 'reversed', 'iter', 'next', 'vars', 'id', 'ord', 'chr', 'slice', 'super'}
NONNULL_CALLS = {'int', 'float', 'str', 'bool', 'len', 'abs', 'sorted', 'tuple', 'range', 'enumerate', 'zip', 'repr', 'list',
                 'dict', 'set', 'round', 'os.path.join', 'os.path.normpath', 'os.path.abspath', 'os.path.basename'}
PURE_EXT_PREFIX = ('os.path.join', 'os.path.normpath', 'os.path.basename', 'os.path.dirname', 'os.path.abspath',
                   'os.path.splitext', 'os.path.expanduser', 're.', 'math.', 'functools.', 'operator.', 'itertools.',
                   'collections.namedtuple', 'numpy.float64', 'numpy.int32', 'numpy.float32', 'numpy.isnan', 'numpy.logical_and',
                   'numpy.logical_or', 'numpy.logical_not', 'numpy.any', 'numpy.all', 'numpy.mod', 'numpy.shape', 'numpy.isfinite',
                   'datetime.datetime.strptime', 'numpy.ma.getmask', 'numpy.ma.getmaskarray', 'numpy.issubdtype', 'numpy.dtype',
                   'os.getcwd', 'logging.getLogger', 'logging._checkLevel')
PURE_METHODS = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'replace', 'join', 'format',
                'isdigit', 'get', 'items', 'keys', 'values', 'count', 'find', 'index', 'encode', 'decode', 'as_posix', 'search', 'match',
                'findall', 'shape', 'mean', 'min', 'max', 'sum', 'any', 'all', 'item', 'isnumeric', 'zfill', 'title', 'group', 'finditer',
                'splitlines', 'rsplit', 'partition', 'isEnabledFor', 'capitalize', 'isEnabledFor', 'casefold', 'rpartition'}


def ext_name(n):
    return n.args[0] if n.op == 'ext' else None


BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__.keys())


class Engine(Generators):
    def __init__(self, root='/repo/src', overlay=None, hooks=None):
        self.root = root
        self.overlay = overlay or {}
        self.mods = {}
        self.funcs = []
        self.classes = []
        self.events = []
        self.raises = []       # stack of lists (innermost try)
        self.uncaught = []     # raise outcomes nobody caught
        self.seq = 0
        self.uid = 0
        self.nref = 0
        self.nloop = 0
        self.mus = {}
        self.loopinfo = {}
        self.frames = []
        self.active = {}
        self.loopstack = []
        self.trystack = []
        self.trace = []
        self.maxactive = 2
        self.refcls = {}
        self.ntuples = {}
        self.hooks = hooks or {}
        self.read_files = {}
        self.quiet = 0
        self.visited = {}      # qualname -> count of inlined evaluations
        self.parser_args = {}  # parser ref -> list
        self.unroll_cap = 40
        self.global_heap = {}
        self.global_cont = {}
        self.warn = []
        self._raises_root = []
        self.raises.append(self._raises_root)

    # ------------------------------------------------------------ loading
    def modpath(self, name):
        rel = name.replace('.', '/')
        for p, pk in ((rel + '/__init__.py', True), (rel + '.py', False)):
            full = os.path.join(self.root, p)
            if p in self.overlay or os.path.isfile(full):
                return p, pk
        return None, None

    def source(self, rel):
        if rel in self.overlay:
            s = self.overlay[rel]
        else:
            with open(os.path.join(self.root, rel), encoding='utf-8') as f:
                s = f.read()
        self.read_files[rel] = s
        return s

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel, pk = self.modpath(name)
        if rel is None:
            return None
        try:
            tree = ast.parse(self.source(rel), rel)
        except SyntaxError as e:
            raise AnalysisError(f'cannot parse {rel}: {e}')
        m = ModInfo(name, rel, tree, pk)
        self.mods[name] = m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        m.state = 1
        st = St(m.env, self.global_heap, self.global_cont, 1)
        fr = Frame(None, m, None, None)
        self.frames.append(fr)
        q, self.quiet = self.quiet, self.quiet + 1
        saved = self.raises
        self.raises = [[]]
        try:
            self.block(m.tree.body, st, fr)
        finally:
            self.frames.pop()
            self.quiet = q
            self.raises = saved
        if st.env is not m.env:
            m.env.update(st.env)
        if st.heap is not self.global_heap:
            self.global_heap.update(st.heap)
        if st.cont is not self.global_cont:
            self.global_cont.update(st.cont)
        m.state = 2
        return m

    def modattr(self, mod, name):
        m = self.load(mod)
        if m is not None:
            if name in m.env:
                return m.env[name]
            sub = f'{mod}.{name}'
            if self.modpath(sub)[0]:
                self.load(sub)
                return N('mod', sub)
            if m.state == 1:
                return N('lazy', mod, name)
            if name in ('__name__',):
                return const(mod)
            if name in ('__file__',):
                return const('/' + m.path)
            return None
        return N('ext', f'{mod}.{name}')

    def resolve_lazy(self, n):
        while n.op == 'lazy':
            r = self.modattr(n.args[0], n.args[1])
            if r is None or r is n:
                self.warn.append(f'unresolved import {n.args}')
                return N('ext', f'{n.args[0]}.{n.args[1]}')
            n = r
        return n

    def cls(self, mod, name):
        m = self.load(mod)
        n = m and m.env.get(name)
        if n is not None:
            n = self.resolve_lazy(n)
        if n is None or n.op != 'cls':
            raise AnalysisError(f'class {mod}.{name} not found')
        return n

    def find_class(self, name):
        """class by (public) name anywhere in the package"""
        self.load_all()
        hits = [c for c in self.classes if c.name == name]
        if not hits:
            raise AnalysisError(f'class {name} not found in the package')
        return N('cls', hits[-1].id)

    def find_func(self, name):
        self.load_all()
        hits = [f for f in self.funcs if f.name == name and f.cls is None]
        if not hits:
            raise AnalysisError(f'function {name} not found in the package')
        return N('func', hits[0].id)

    def load_all(self):
        if getattr(self, '_all', None):
            return
        self._all = True
        base = os.path.join(self.root, PKG)
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)
                    if '/profiling/' in rel:
                        continue
                    name = rel[:-3].replace('/', '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.load(name)

    def cinfo(self, n):
        return self.classes[n.args[0]]

    def finfo(self, n):
        return self.funcs[n.args[0]]

    # --------------------------------------------------------- utilities
    def newref(self, st, obj, tag=''):
        self.nref += 1
        n = N('ref', self.nref)
        st.heap[n] = obj
        self.refcls[n] = obj
        return n

    def newuid(self):
        self.uid += 1
        return self.uid

    def loc(self):
        fr = self.frames[-1] if self.frames else None
        qual = fr.fi.qual if fr and fr.fi else (fr.module.name if fr else '?')
        path = fr.module.path if fr else '?'
        return (path, self.curline, qual)

    curline = 0
    forget = False
    bdd_limit = 6000000

    def emit(self, kind, st, fn=None, args=(), kw=(), node=None, extra=None):
        if self.quiet:
            return None
        self.seq += 1
        e = Event(kind=kind, fn=fn, args=tuple(args), kw=tuple(kw), g=st.g, loc=self.loc(), seq=self.seq,
                  stack=tuple((f.fi.qual if f.fi else f.module.name) for f in self.frames), loops=tuple(self.loopstack),
                  heap=st.heap.copy(), cont=st.cont.copy(), node=node, trys=tuple(self.trystack), extra=extra)
        self.events.append(e)
        return e

    def mro(self, ci):
        out, seen = [], set()

        def go(c):
            if isinstance(c, ClassInfo):
                if c in seen:
                    return
                seen.add(c)
                out.append(c)
                for b in c.bases:
                    b = self.resolve_lazy(b)
                    if b.op == 'cls':
                        go(self.cinfo(b))
        go(ci)
        return out

    def ext_bases(self, ci):
        r = []
        for c in self.mro(ci):
            for b in c.bases:
                b = self.resolve_lazy(b)
                if b.op == 'ext' and b.args[0] not in ('object',):
                    r.append(b.args[0])
        return r

    def subclass(self, ci, other):
        return other in self.mro(ci)

    def clsattr(self, ci, name):
        for c in self.mro(ci):
            if name in c.ns:
                return self.resolve_lazy(c.ns[name])
        return None

    # ------------------------------------------------------ freeze
    def freeze(self, n, st, depth=4):
        """current content of a mutable value as an immutable node"""
        n = constrain(n, st.g) if n.op in ('ite', 'bool') else n
        if n.op == 'ite':
            return mtmap(n, lambda x: self.freeze(x, st, depth))
        if n.op == 'ref':
            o = st.heap.get(n)
            if o is None or depth <= 0:
                return n
            if o.kind == 'list':
                if o.base is not None:
                    return self._frz(o.base, st, depth)
                return N('listv', tuple(self.freeze(x, st, depth - 1) for x in o.known))
            if o.kind == 'set':
                return N('setv', tuple(self.freeze(x, st, depth - 1) for x in o.known))
            if o.kind == 'dict':
                return self.freeze_dict(o, st, depth)
            return n
        if n in st.cont:
            return st.cont[n]
        if n.op == 'tuple':
            return N('tuple', tuple(self.freeze(x, st, depth - 1) for x in n.args[0]))
        return n

    def _frz(self, n, st, depth):
        if n.op == 'append':
            return N('append', self._frz(n.args[0], st, depth), self.freeze(n.args[1], st, depth - 1))
        return n

    def freeze_dict(self, o, st, depth=4):
        items = tuple((k, self.freeze(v, st, depth - 1)) for k, v in sorted(o.known.items()))
        if not items and o.base is not None:
            return o.base
        return N('dictv', items, o.base if o.base is not None else N('empty'))

    # ------------------------------------------------------ truth etc.
    decide = None

    def decided(self, g):
        """conditions under a given state of the world, if one was given"""
        return B.restrict_map(g, self.decide) if self.decide is not None and g > 1 else g

    def truth(self, n, st):
        return self.decided(self.truth1(n, st))

    def truth1(self, n, st):
        if n.op == 'ite':
            return bmap(n, lambda x: self.truth(x, st))
        if n.op == 'bool':
            return n.args[0]
        if n.op == 'const':
            return 1 if n.args[0] else 0
        if n.op == 'absent':
            return 0
        if n.op in ('cls', 'func', 'mod', 'bound', 'partial', 'ext', 'ntupcls'):
            return 1
        if n.op == 'tuple':
            return 1 if n.args[0] else 0
        if n.op in ('listv', 'setv'):
            return 1 if n.args[0] else 0
        if n.op == 'fmt' and any(is_const(p) and p.args[0] for p in n.args[0]):
            return 1
        if n.op == 'ref':
            o = st.heap.get(n)
            if o is not None:
                if o.kind in ('list', 'set') and o.base is None:
                    return 1 if o.known else 0
                if o.kind == 'dict':
                    if o.known and all(v is not ABSENT for v in o.known.values()):
                        if any(v.op != 'ite' for v in o.known.values()):
                            return 1
                    elif o.base is None:
                        return 0
                if o.kind == 'inst':
                    if self.clsattr(o.cls, '__len__') is None and self.clsattr(o.cls, '__bool__') is None:
                        return 1
            return atom(N('truth', self.freeze(n, st)))
        n = self.freeze(n, st)
        if n.op in ('const', 'bool', 'ite', 'tuple', 'listv', 'fmt'):
            return self.truth(n, st)
        if n.op == 'call' and n.args[0].op == 'ext' and n.args[0].args[0] == 'len':
            return self.cmp('!=', n, const(0), st)
        return atom(N('truth', n))

    def isnone(self, n):
        if n.op == 'ite':
            return bmap(n, self.isnone)
        if n.op == 'const':
            return 1 if n.args[0] is None else 0
        if n.op in ('bool', 'cls', 'func', 'mod', 'bound', 'partial', 'tuple', 'listv', 'fmt', 'ref', 'setv', 'dictv', 'comp',
                    'bin', 'lidx', 'nan', 'ne', 'exc', 'ntup', 'dcomp', 'ext'):
            return 0
        if n.op == 'call' and n.args[0].op == 'ext' and n.args[0].args[0] in NONNULL_CALLS:
            return 0
        return atom(N('isnone', n))

    def eq(self, a, b, st):
        if a.op == 'ite' and (b.op == 'const' or b.op != 'ite'):
            return bmap(a, lambda x: self.eq(x, b, st))
        if b.op == 'ite' and a.op != 'ite':
            return bmap(b, lambda x: self.eq(a, x, st))
        if a.op == 'ite' and b.op == 'ite' and len(leafset(a)) * len(leafset(b)) <= 64:
            return bmap(a, lambda x: self.eq(x, b, st))
        if is_const(a, None):
            return self.isnone(b)
        if is_const(b, None):
            return self.isnone(a)
        if a.op == 'const' and b.op == 'const':
            return 1 if a.args[0] == b.args[0] else 0
        if a is b and a.op not in ('nan',):
            return 1
        if boolish(a) and boolish(b):
            return B.NOT(B.ite(tobdd(a), B.NOT(tobdd(b)), tobdd(b)))
        if is_const(b, True, False) and a.op == 'truthy':
            return tobdd(a)
        for x, y in ((a, b), (b, a)):
            if x.op == 'const' and y.op in ('ref', 'tuple', 'func', 'cls', 'listv') and not isinstance(x.args[0], (tuple, list)):
                return 0
            if x.op == 'tuple' and y.op == 'tuple':
                if len(x.args[0]) != len(y.args[0]):
                    return 0
                return B.AND(*[self.eq(p, q, st) for p, q in zip(x.args[0], y.args[0])])
            if x.op == 'const' and isinstance(x.args[0], str) and y.op == 'fmt':
                # literal fragments that cannot fit
                lits = [p.args[0] for p in y.args[0] if is_const(p)]
                if any(l not in x.args[0] for l in lits):
                    return 0
            if x.op == 'const' and x.args[0] == 0 and y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] == 'len':
                o = y.args[1][0] if y.args[1] else None
                if o is not None:
                    return B.NOT(atom(N('truth', o)))
        if a.id > b.id:
            a, b = b, a
        return atom(N('eq', a, b))

    def cmp(self, op, a, b, st):
        a = self.freeze(a, st) if a.op not in ('ref',) else a
        b = self.freeze(b, st) if b.op not in ('ref',) else b
        if op in ('==', '!='):
            # overloaded equality on analysed classes
            for x, y in ((a, b), (b, a)):
                if x.op == 'ref' and st.heap.get(x) is not None and st.heap[x].kind == 'inst' and y.op != 'const':
                    m = self.clsattr(st.heap[x].cls, '__eq__')
                    if m is not None and m.op == 'func':
                        r = self.call(N('bound', x, m), [y], {}, st)
                        t = self.truth(r, st)
                        return t if op == '==' else B.NOT(t)
            r = self.eq(a, b, st)
            return r if op == '==' else B.NOT(r)
        if op == 'is' or op == 'is not':
            if is_const(a, None) or is_const(b, None) or True:
                r = self.eq(a, b, st)
            return r if op == 'is' else B.NOT(r)
        if op in ('in', 'not in'):
            r = self.contains(a, b, st)
            return r if op == 'in' else B.NOT(r)
        if op == '>':
            a, b, op = b, a, '<'
        elif op == '>=':
            a, b, op = b, a, '<='
        if a.op == 'ite':
            if len(leafset(a)) <= 8:
                return bmap(a, lambda x: self.cmp(op, x, b, st))
        if b.op == 'ite':
            if len(leafset(b)) <= 8:
                return bmap(b, lambda x: self.cmp(op, a, x, st))
        if a.op == 'const' and b.op == 'const':
            try:
                return 1 if (a.args[0] < b.args[0] if op == '<' else a.args[0] <= b.args[0]) else 0
            except TypeError:
                return atom(N('unkcmp', a, b))
        if op == '<':
            # 0 < len(x)
            if is_const(a, 0) and b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] == 'len' and b.args[1]:
                return atom(N('truth', b.args[1][0]))
            return atom(N('lt', a, b))
        if is_const(a, 1) and b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] == 'len' and b.args[1]:
            return atom(N('truth', b.args[1][0]))
        # a <= b  ==  not (b < a)
        return B.NOT(self.cmp('<', b, a, st))

    def contains(self, a, b, st):
        if b.op == 'ite':
            return bmap(b, lambda x: self.contains(a, x, st))
        if a.op == 'ite' and len(leafset(a)) <= 24:
            return bmap(a, lambda x: self.contains(x, b, st))
        items = None
        if b.op in ('tuple', 'listv', 'setv'):
            items = b.args[0]
        elif b.op == 'ref':
            o = st.heap.get(b)
            if o is not None:
                if o.kind in ('list', 'set') and o.base is None:
                    items = o.known
                elif o.kind == 'dict':
                    r = 0
                    for k, v in o.known.items():
                        present = 1 if v.op != 'ite' else bmap(v, lambda x: 0 if x is ABSENT else 1)
                        if v is ABSENT:
                            present = 0
                        r = B.OR(r, B.AND(self.eq(a, k, st), present))
                    if o.base is not None and o.base.op == 'total':
                        return 1 if a not in o.known else r
                    if o.base is not None and not (a in o.known):
                        r = B.OR(r, atom(N('in', a, o.base)))
                    return r
        if items is not None:
            return B.OR(*[self.eq(a, x, st) for x in items]) if items else 0
        if a.op == 'const' and b.op == 'const':
            try:
                return 1 if a.args[0] in b.args[0] else 0
            except TypeError:
                pass
        fb = self.freeze(b, st)
        # membership in X.keys() / list(X) / list(X.keys()) is membership in X
        for _ in range(4):
            if fb.op == 'call' and not fb.args[2]:
                f, ar = fb.args[0], fb.args[1]
                if f.op == 'attr' and f.args[1] == 'keys' and not ar:
                    fb = f.args[0]
                    continue
                if f.op == 'ext' and f.args[0] in ('list', 'set', 'tuple', 'sorted', 'frozenset') and len(ar) == 1:
                    fb = ar[0]
                    continue
            break
        return atom(N('in', a, fb))

    # -------------------------------------------------------- merging
    def merge(self, c, s1, s2):
        """state = s1 where c else s2; either may be None"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        out = St({}, {}, {}, B.OR(s1.g, s2.g))
        out.env = self.merge_env(c, s1.env, s2.env)
        out.heap = self.merge_heap(c, s1.heap, s2.heap)
        out.cont = self.merge_cont(c, s1.cont, s2.cont)
        return out

    def merge_env(self, c, e1, e2):
        if e1 is e2:
            return e1
        out = {}
        for k in e1.keys() | e2.keys():
            a, b = e1.get(k, ABSENT), e2.get(k, ABSENT)
            out[k] = a if a is b else ite(c, a, b)
        return out

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h1)
        for k, o2 in h2.items():
            o1 = h1.get(k)
            if o1 is o2:
                continue
            if o1 is None:
                out[k] = o2
            else:
                out[k] = self.merge_obj(c, o1, o2)
        return out

    def merge_obj(self, c, a, b):
        if a.kind in ('inst', 'dict'):
            known = {}
            for k in a.known.keys() | b.known.keys():
                x, y = a.known.get(k), b.known.get(k)
                if x is None:
                    x = self.rest_value(a, k)
                if y is None:
                    y = self.rest_value(b, k)
                known[k] = x if x is y else ite(c, x, y)
            base = a.base
            if a.base is not b.base:
                base = ite(c, a.base if a.base is not None else N('empty'), b.base if b.base is not None else N('empty'))
            return HObj(a.kind, a.cls, known, base)
        if a.base is None and b.base is None:
            if a.known == b.known:
                return a
            if len(a.known) == len(b.known):
                return HObj(a.kind, a.cls, tuple(ite(c, x, y) for x, y in zip(a.known, b.known)))
            la, lb = N('listv', tuple(a.known)), N('listv', tuple(b.known))
            return HObj(a.kind, a.cls, (), ite(c, la, lb))
        la = a.base if a.base is not None else N('listv', tuple(a.known))
        lb = b.base if b.base is not None else N('listv', tuple(b.known))
        return HObj(a.kind, a.cls, (), ite(c, la, lb))

    def rest_value(self, o, k):
        if o.kind == 'inst':
            return ABSENT if o.base is None else N('attr', o.base, k)
        return self.base_lookup(o.base, k)

    def base_lookup(self, base, k):
        if base is None or base.op == 'empty':
            return ABSENT
        if base.op == 'ite':
            return mtmap(base, lambda x: self.base_lookup(x, k))
        if base.op == 'total':
            return N('cfg', base, k)
        return ite(atom(N('in', k, base)), N('sub', base, k), ABSENT)

    def merge_cont(self, c, c1, c2):
        if c1 is c2:
            return c1
        out = dict(c1)
        for k in c1.keys() | c2.keys():
            a, b = c1.get(k, k), c2.get(k, k)
            if a is not b:
                out[k] = ite(c, a, b)
            else:
                out[k] = a
        return out

    def merge_many(self, outs):
        """[(guard, St)] -> St, first match wins"""
        acc = None
        for g, s in reversed(outs):
            if s is None:
                continue
            acc = s if acc is None else self.merge(g, s, acc)
        return acc

    # -------------------------------------------------------- statements
    def block(self, body, st, fr):
        """run statements; returns True when control can fall through"""
        if len(B.nodes) > self.bdd_limit:
            raise AnalysisError('guard diagrams too large')
        for s in body:
            if st.g == 0:
                return False
            if not self.stmt(s, st, fr):
                return False
        return st.g != 0

    def stmt(self, s, st, fr):
        self.curline = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f'unsupported statement {type(s).__name__} at {fr.module.path}:{s.lineno}')
        r = m(s, st, fr)
        return r is not False and st.g != 0

    def s_Pass(self, s, st, fr):
        pass

    def s_Global(self, s, st, fr):
        pass

    s_Nonlocal = s_Global

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            if self.modpath(a.name)[0]:
                self.load(a.name)
                st.env[a.asname or top] = N('mod', a.name if a.asname else top)
            else:
                st.env[a.asname or top] = N('ext', a.name if a.asname else top)

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ''
        if s.level:
            parts = fr.module.name.split('.')
            if not fr.module.ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                m = self.load(mod)
                if m:
                    st.env.update({k: v for k, v in m.env.items() if not k.startswith('_')})
                continue
            v = self.modattr(mod, a.name) if self.modpath(mod)[0] else N('ext', f'{mod}.{a.name}')
            if v is None:
                self.warn.append(f'cannot import {a.name} from {mod}')
                self.emit('importerr', st, extra=f'{mod}.{a.name}')
                v = N('unk', f'{mod}.{a.name}')
            st.env[a.asname or a.name] = v

    def mkfunc(self, node, st, fr, qual, cls=None):
        a = node.args
        defaults = [self.ev(d, st, fr) for d in a.defaults]
        kwd = [self.ev(d, st, fr) if d is not None else None for d in a.kw_defaults]
        kind, decs = 'func', []
        for d in getattr(node, 'decorator_list', []):
            nm = ast.unparse(d)
            decs.append(nm)
            base = nm.split('(')[0]
            if base == 'staticmethod':
                kind = 'static'
            elif base == 'classmethod':
                kind = 'class'
            elif base in ('property', 'functools.cached_property', 'cached_property'):
                kind = 'prop'
        env = st.env if fr.fi is not None else None
        fi = FuncInfo(node, fr.module, cls, qual, defaults, kwd, dict(env) if env is not None else None, kind, decs)
        fi.id = len(self.funcs)
        self.funcs.append(fi)
        return N('func', fi.id)

    def s_FunctionDef(self, s, st, fr):
        pre = ''
        if fr.fi:
            pre = fr.fi.qual + '.'
        st.env[s.name] = self.mkfunc(s, st, fr, pre + s.name)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        bases = [self.ev(b, st, fr) for b in s.bases]
        ci = ClassInfo(s.name, fr.module, bases, s)
        ci.id = len(self.classes)
        self.classes.append(ci)
        cst = St(dict(st.env), st.heap, st.cont, st.g)
        before = set(cst.env)
        sub = Frame(fr.fi, fr.module, fr, None)
        names = []
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                n = self.mkfunc(b, St(dict(st.env), st.heap, st.cont, st.g) if fr.fi else cst, fr, f'{s.name}.{b.name}', ci)
                fi = self.finfo(n)
                if any(d.endswith('.setter') or d.endswith('.getter') or d.endswith('.deleter') for d in fi.decorators):
                    continue
                cst.env[b.name] = n
                names.append(b.name)
            else:
                keys0 = dict(cst.env)
                self.stmt(b, cst, sub)
                for k, v in cst.env.items():
                    if keys0.get(k) is not v:
                        names.append(k)
        for k in names:
            v = cst.env[k]
            # an empty container shared by all instances is state that outlives a run: its content is unknown
            if v.op == 'ref' and v in cst.heap and cst.heap[v].kind in ('dict', 'list') and not cst.heap[v].known and cst.heap[v].base is None:
                v = N('clsvar', s.name, k)
            ci.ns[k] = v
        st.heap, st.cont = cst.heap, cst.cont
        st.env[s.name] = N('cls', ci.id)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        if st.g == 0:
            return False
        fr.returns.append((st.g, v, St({}, dict(st.heap), dict(st.cont), st.g)))
        st.g = 0
        return False

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            exc = getattr(fr, 'cur_exc', None) or N('exc', N('ext', 'Exception'), ())
        else:
            exc = self.ev(s.exc, st, fr)
            if st.g == 0:
                return False
            exc = constrain(exc, st.g)
            if exc.op == 'cls':
                exc = self.call(exc, [], {}, st)
            elif exc.op == 'ext':
                exc = N('exc', exc, ())
        self.curline = s.lineno
        self.do_raise(exc, st)
        return False

    def do_raise(self, exc, st):
        if st.g == 0:
            return
        self.emit('raise', st, exc, (exc,))
        self.raises[-1].append((st.g, exc, St(dict(st.env), dict(st.heap), dict(st.cont), st.g), len(self.frames), self.loc()))
        st.g = 0

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        bad = st.copy()
        bad.g = B.AND(st.g, B.NOT(c))
        if bad.g:
            self.do_raise(N('exc', N('ext', 'AssertionError'), ()), bad)
        st.g = B.AND(st.g, c)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.emit('delitem', st, b, (b, self.freeze(k, st)))
                for g, x in leaves(b, 1):
                    if x.op == 'ref' and x in st.heap and st.heap[x].kind == 'dict':
                        o = st.heap[x]
                        known = dict(o.known)
                        if k in known:
                            known[k] = ABSENT
                            st.heap[x] = o.with_(known=known)
                        else:
                            st.heap[x] = HObj('dict', None, {}, N('delk', self.freeze(x, st), k))
                    else:
                        st.cont[x] = N('delk', self.freeze(x, st), k)
            elif isinstance(t, ast.Attribute):
                self.ev(t.value, st, fr)

    def s_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        if st.g == 0:
            return False
        c = bconstrain(c, st.g)
        if c == 1:
            return self.block(s.body, st, fr)
        if c == 0:
            return self.block(s.orelse, st, fr)
        s1 = st.copy()
        s1.g = B.AND(st.g, c)
        s2 = st
        g0 = st.g
        ok1 = self.block(s.body, s1, fr) if s1.g else False
        s2 = St(st.env, st.heap, st.cont, B.AND(g0, B.NOT(c)))
        ok2 = self.block(s.orelse, s2, fr) if s2.g else False
        r = self.merge(c, s1 if ok1 else None, s2 if ok2 else None)
        if r is None:
            st.g = 0
            return False
        st.become(r)

    def s_With(self, s, st, fr):
        body = self.with_statements(s, st, fr) if isinstance(s.items[0].context_expr, ast.Call) else None
        if body is not None:
            return self.block(body, st, fr)
        ids = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            self.emit('with_enter', st, v, (v,))
            ids.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        self.withs = getattr(self, 'withs', [])
        r = self.block(s.body, st, fr)
        for v in ids:
            self.emit('with_exit', st, v, (v,))
        return r

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if st.g == 0:
            return False
        for t in s.targets:
            self.curline = s.lineno
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        old = self.ev(ast.copy_location(self._load(t), t), st, fr)
        v = self.ev(s.value, st, fr)
        fo, fv = self.freeze(old, st), self.freeze(v, st)
        new = self.augop(op, old, fo, fv, st)
        if isinstance(t, ast.Name) and old.op != 'const' and self.arrayish(old, st):
            st.cont[old] = new
            self.emit('inplace', st, old, (old, fo, fv), extra=op)
            return
        if old.op == 'ref' and old in st.heap and st.heap[old].kind == 'list' and op == '+':
            self.list_extend(old, v, st)
            return
        self.assign(t, new, st, fr)

    def _load(self, t):
        t2 = ast.parse(ast.unparse(t), mode='eval').body
        for n in ast.walk(t2):
            n.lineno = t.lineno
            n.col_offset = 0
        return t2

    def arrayish(self, n, st):
        if n.op == 'ite':
            return False
        f = n
        if f.op == 'call' and f.args[0].op == 'ext' and f.args[0].args[0].startswith('numpy.') and f.args[3] != 0:
            return True
        if f.op == 'ne' or (n in st.cont):
            return True
        return False

    def augop(self, op, old, fo, fv, st):
        if self.arrayish(old, st):
            return N('aug', op, fo, fv)
        return self.binop(op, fo, fv, st)

    # assignment targets
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            g = getattr(fr, 'globals', None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, any(isinstance(e, ast.Starred) for e in t.elts), t)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            self.setitem(o, k, v, st)
        else:
            raise AnalysisError(f'assign target {ast.dump(t)}')

    def unpack(self, v, n, st, star=False, t=None):
        v = constrain(v, st.g) if v.op == 'ite' else v
        if v.op == 'ite' and all(x.op in ('tuple', 'listv') and len(x.args[0]) == n for x in leafset(v)):
            return [mtmap(v, lambda x, i=i: x.args[0][i]) for i in range(n)]
        if v.op == 'ite':
            return [mtmap(v, lambda x, i=i: self.item_at(x, i, st)) for i in range(n)]
        if star:
            return [N('sub', self.freeze(v, st), const(i)) for i in range(n)]
        items = self.known_items(v, st)
        if items is not None and len(items) != n and not self.quiet:
            self.emit('typeerr', st, extra=f'cannot unpack {len(items)} values into {n}')
        return [self.item_at(v, i, st) for i in range(n)]

    def known_items(self, v, st):
        if v.op in ('tuple', 'listv'):
            return list(v.args[0])
        if v.op == 'ref' and v in st.heap:
            o = st.heap[v]
            if o.kind in ('list', 'set') and o.base is None:
                return list(o.known)
        return None

    def item_at(self, v, i, st):
        items = self.known_items(v, st)
        if items is not None and -len(items) <= i < len(items):
            return items[i]
        return self.getitem(v, const(i), st)

    def setattr(self, o, name, v, st):
        for g, x in leaves(o, 1):
            if B.AND(g, st.g) == 0:
                continue
            if x.op == 'ref' and x in st.heap and st.heap[x].kind == 'inst':
                ob = st.heap[x]
                known = dict(ob.known)
                old = known.get(name, ABSENT)
                known[name] = v if g == 1 else ite(g, v, old)
                st.heap[x] = ob.with_(known=known)
            elif x.op == 'cls':
                self.emit('setclsattr', st, x, (x, v), extra=name)
                self.cinfo(x)
                st.cont[N('clsattr', x.args[0], name)] = v
            else:
                key = N('attr', self.freeze(x, st) if x.op != 'ref' else x, name)
                st.cont[N('attr', x, name)] = v
        if not (o.op == 'ref' and o in st.heap and st.heap[o].cls is not None and name.startswith('__')):
            self.emit('setattr', st, o, (o, self.freeze(v, st)), extra=name)

    def setitem(self, o, k, v, st):
        fk = self.freeze(k, st)
        for g, x in leaves(o, 1):
            if B.AND(g, st.g) == 0:
                continue
            if x.op == 'ref' and x in st.heap:
                ob = st.heap[x]
                if ob.kind == 'dict':
                    ks = leaves(fk, 1) if fk.op == 'ite' else [(1, fk)]
                    if all(self.const_key(kk) for _, kk in ks):
                        known = dict(ob.known)
                        for kg, kk in ks:
                            gg = B.AND(g, kg)
                            old = known.get(kk)
                            if old is None:
                                old = self.rest_value(ob, kk)
                            known[kk] = v if gg == 1 else ite(gg, v, old)
                        st.heap[x] = ob.with_(known=known)
                    else:
                        old = self.freeze(x, st)
                        new = N('upd', old, fk, self.freeze(v, st))
                        st.heap[x] = HObj('dict', None, {}, new if g == 1 else ite(g, new, old))
                elif ob.kind == 'list':
                    if is_const(fk) and isinstance(fk.args[0], int) and ob.base is None and -len(ob.known) <= fk.args[0] < len(ob.known) and g == 1:
                        l = list(ob.known)
                        l[fk.args[0]] = v
                        st.heap[x] = ob.with_(known=tuple(l))
                    else:
                        old = self.freeze(x, st)
                        new = N('upd', old, fk, self.freeze(v, st))
                        st.heap[x] = HObj('list', None, (), new if g == 1 else ite(g, new, old))
                else:
                    m = self.clsattr(ob.cls, '__setitem__') if ob.cls else None
                    if m is not None and m.op == 'func':
                        s2 = st
                        self.call(N('bound', x, m), [k, v], {}, st)
                        continue
                    st.cont[x] = N('upd', self.freeze(x, st), fk, self.freeze(v, st))
            else:
                old = self.freeze(x, st)
                new = N('upd', old, fk, self.freeze(v, st))
                st.cont[x] = new if g == 1 else ite(g, new, old)
        self.emit('setitem', st, o, (o, fk, self.freeze(v, st)))

    @staticmethod
    def const_key(k):
        return k.op in ('const', 'cls', 'ext') or (k.op == 'tuple' and all(Engine.const_key(x) for x in k.args[0]))

    def s_Match(self, s, st, fr):
        """match with constant patterns: a chain of if"""
        name = f'match {len(self.frames)} {s.lineno}'
        subject = ast.Name(name, ast.Load())

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(subject, [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(subject, [ast.Is()], [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(ast.Or(), [test(x) for x in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return ast.Constant(True)
            raise AnalysisError(f'unsupported pattern {type(p).__name__} at {fr.module.path}:{s.lineno}')
        rest = []
        for c in reversed(s.cases):
            t = test(c.pattern)
            named = [ast.Assign([ast.Name(c.pattern.name, ast.Store())], subject)] if isinstance(c.pattern, ast.MatchAs) and c.pattern.name else []
            if named and c.guard is not None:
                raise AnalysisError(f'unsupported pattern at {fr.module.path}:{s.lineno}')
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, c.guard])
            rest = named + c.body if is_true(t) else [ast.If(t, named + c.body, rest)]
        body = [ast.Assign([ast.Name(name, ast.Store())], s.subject)] + rest
        return self.block([fixed(x, s) for x in body], st, fr)

    # ---------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        body = self.for_statements(s, st, fr) if isinstance(s.iter, ast.Call) else None
        if body is not None:
            return self.block(body, st, fr)
        it = self.ev(s.iter, st, fr)
        if st.g == 0:
            return False
        it = constrain(it, st.g)
        items = self.iter_items(it, st)
        if items is not None and len(items) <= self.unroll_cap:
            return self.unrolled([(1, x) for x in items], s, st, fr)
        gitems = self.gated_items(it, st)
        if gitems is not None and len(gitems) <= self.unroll_cap:
            return self.unrolled(gitems, s, st, fr)
        return self.absloop(st, fr, lambda b, L: self.assign(s.target, self.elem(it, L, b), b, fr), s.body, s.orelse, None,
                            self.freeze(it, st), s)

    def gated_items(self, it, st):
        """[(membership guard, item)] of a filtered statically known sequence"""
        if it.op == 'ref' and it in st.heap and st.heap[it].kind == 'list' and st.heap[it].base is not None:
            it = st.heap[it].base
        if it.op == 'call' and it.args[0].op == 'ext' and it.args[0].args[0] in ('list', 'tuple', 'iter') and len(it.args[1]) == 1:
            return self.gated_items(it.args[1][0], st)
        if it.op == 'gseq':
            return [(tobdd(p.args[0]), p.args[1]) for p in it.args[1]]
        if it.op in ('listv', 'tuple') and len(it.args) == 1:
            return [(1, x) for x in it.args[0]]
        if it.op == 'ite':
            # one of two known sequences
            v = it.args[0]
            hi, lo = self.gated_items(it.args[1], st), self.gated_items(it.args[2], st)
            if hi is None or lo is None:
                return None
            k = B.var(B.atoms[v])
            out = []
            i = 0
            while i < len(hi) and i < len(lo) and hi[i][1] is lo[i][1]:
                out.append((B.ite(k, hi[i][0], lo[i][0]), hi[i][1]))
                i += 1
            out += [(B.AND(k, g), x) for g, x in hi[i:]] + [(B.AND(B.NOT(k), g), x) for g, x in lo[i:]]
            return out if len(out) <= 64 else None
        return None

    def iter_items(self, it, st):
        """statically known iteration contents"""
        k = self.known_items(it, st)
        if k is not None:
            return k
        if it.op == 'const' and isinstance(it.args[0], str):
            return [const(c) for c in it.args[0]]
        if it.op == 'ref' and it in st.heap and st.heap[it].kind == 'dict':
            o = st.heap[it]
            if o.base is None and all(v.op != 'ite' or ABSENT not in leafset(v) for v in o.known.values()):
                return [kk for kk, v in o.known.items() if v is not ABSENT]
        if it.op == 'call' and it.args[0].op == 'ext':
            nm, ar = it.args[0].args[0], it.args[1]
            if nm == 'range' and all(is_const(a) and isinstance(a.args[0], int) for a in ar) and ar:
                r = range(*[a.args[0] for a in ar])
                if len(r) <= 16:
                    return [const(i) for i in r]
            if nm == 'enumerate' and ar:
                sub = self.iter_items(ar[0], st)
                start = 0
                for kk, vv in it.args[2]:
                    if kk == 'start':
                        start = vv.args[0] if is_const(vv) else None
                if len(ar) > 1:
                    start = ar[1].args[0] if is_const(ar[1]) else None
                if sub is not None and isinstance(start, int):
                    return [N('tuple', (const(i + start), x)) for i, x in enumerate(sub)]
            if nm == 'zip' and ar:
                subs = [self.iter_items(a, st) for a in ar]
                if all(x is not None for x in subs):
                    return [N('tuple', tuple(t)) for t in zip(*subs)]
            if nm in ('list', 'tuple', 'iter') and len(ar) == 1:
                return self.iter_items(ar[0], st)
            if nm == 'reversed' and len(ar) == 1:
                r = self.iter_items(ar[0], st)
                return r[::-1] if r is not None else None
        if it.op == 'ditems':
            return [N('tuple', (k, v)) for k, v in it.args[0]]
        return None

    def elem(self, it, L, st):
        f = self.freeze(it, st)
        return mtmap(f, lambda x: self.elem1(x, L, st))

    def elem1(self, f, L, st):
        if f.op == 'call':
            fn, ar = f.args[0], f.args[1]
            if fn.op == 'ext':
                nm = fn.args[0]
                if nm == 'enumerate' and ar:
                    start = const(0)
                    for kk, vv in f.args[2]:
                        if kk == 'start':
                            start = vv
                    if len(ar) > 1:
                        start = ar[1]
                    return N('tuple', (N('lidx', L, start), self.elem(ar[0], L, st)))
                if nm == 'zip' and ar:
                    return N('tuple', tuple(self.elem(a, L, st) for a in ar))
                if nm in ('list', 'tuple', 'iter') and len(ar) == 1:
                    return self.elem(ar[0], L, st)
            if fn.op == 'attr' and not ar:
                if fn.args[1] == 'items':
                    return N('tuple', (N('keyof', L, fn.args[0]), N('valof', L, fn.args[0])))
                if fn.args[1] == 'keys':
                    return N('keyof', L, fn.args[0])
                if fn.args[1] == 'values':
                    return N('valof', L, fn.args[0])
        if f.op == 'comp' and f.args[0] in ('list', 'gen', 'set'):
            return f.args[1]
        if f.op in ('dictv',):
            return N('keyof', L, f)
        return N('elem', L, f)

    def unrolled(self, items, s, st, fr):
        breaks = []
        live = True
        for mg, x in items:
            lp = {'breaks': [], 'continues': []}
            skip = None
            if mg != 1:
                gs = B.AND(st.g, B.NOT(mg))
                gi = B.AND(st.g, mg)
                if gi == 0:
                    continue
                if gs:
                    skip = st.copy()
                    skip.g = gs
                st.g = gi
            fr.loops.append(lp)
            self.assign(s.target, x, st, fr)
            ok = self.block(s.body, st, fr)
            fr.loops.pop()
            outs = list(lp['continues'])
            if ok:
                outs.append((st.g, st.copy()))
            if skip is not None:
                outs.append((skip.g, skip))
            breaks += lp['breaks']
            nxt = self.merge_many(outs)
            if nxt is None:
                live = False
                break
            g = B.OR(*[g for g, _ in outs])
            nxt.g = g
            st.become(nxt)
        outs = list(breaks)
        if live:
            if s.orelse:
                live = self.block(s.orelse, st, fr)
            if live:
                outs.append((st.g, st.copy()))
        r = self.merge_many(outs)
        if r is None:
            st.g = 0
            return False
        r.g = B.OR(*[g for g, _ in outs])
        st.become(r)

    def s_Break(self, s, st, fr):
        fr.loops[-1]['breaks'].append((st.g, st.copy()))
        st.g = 0
        return False

    def s_Continue(self, s, st, fr):
        fr.loops[-1]['continues'].append((st.g, st.copy()))
        st.g = 0
        return False

    unroll_while = 0

    def counted(self, s, st, fr):
        """a while loop that ends within a known number of rounds; False when it does not"""
        pre = st.copy()
        mark = (len(self.events), len(fr.returns), [len(r) for r in self.raises])
        exits = []
        for _ in range(self.unroll_while + 1):
            c = bconstrain(self.truth(self.ev(s.test, st, fr), st), st.g)
            out = B.AND(st.g, B.NOT(c))
            if out:
                x = st.copy()
                x.g = out
                if not s.orelse or self.block(s.orelse, x, fr):
                    exits.append((x.g, x))
            st.g = B.AND(st.g, c)
            if not st.g:
                break
            lp = {'breaks': [], 'continues': []}
            fr.loops.append(lp)
            ok = self.block(s.body, st, fr)
            fr.loops.pop()
            exits += lp['breaks']
            outs = list(lp['continues'])
            if ok:
                outs.append((st.g, st.copy()))
            nxt = self.merge_many(outs)
            if nxt is None:
                st.g = 0
                break
            nxt.g = B.OR(*[g for g, _ in outs])
            st.become(nxt)
        if st.g:
            st.become(pre)
            del self.events[mark[0]:]
            del fr.returns[mark[1]:]
            for r, n in zip(self.raises, mark[2]):
                del r[n:]
            return False
        r = self.merge_many(exits)
        if r is not None:
            r.g = B.OR(*[g for g, _ in exits])
            st.become(r)
        return True

    def s_While(self, s, st, fr):
        if self.unroll_while and self.counted(s, st, fr):
            return None if st.g else False
        return self.absloop(st, fr, None, s.body, s.orelse, s.test, None, s)

    def absloop(self, st, fr, bind, body, orelse, test, itnode, s):
        self.nloop += 1
        L = self.nloop
        self.loopinfo[L] = dict(iter=itnode, line=s.lineno, path=fr.module.path, qual=fr.fi.qual if fr.fi else fr.module.name,
                                test=None)
        pre = st.copy()
        changed = set()
        self.loopstack.append(L)
        for rnd in range(6):
            b = pre.copy()
            for c in changed:
                self.put_loc(b, c, N('mu', L, self.locname(c)))
            mark = (len(self.events), len(fr.returns), [len(r) for r in self.raises])
            lp = {'breaks': [], 'continues': []}
            fr.loops.append(lp)
            cond = 1
            if test is not None:
                cond = self.truth(self.ev(test, b, fr), b)
                cond = bconstrain(cond, b.g)
            b.g = B.AND(pre.g, cond, atom(N('iter', L)) if test is None else 1)
            gin = b.g
            exit_heap = (b.heap, b.cont)
            ok = False
            if b.g:
                if bind:
                    bind(b, L)
                ok = self.block(body, b, fr)
            fr.loops.pop()
            outs = list(lp['continues'])
            if ok:
                outs.append((b.g, b))
            back = self.merge_many(outs)
            newc = set()
            if back is not None:
                newc = self.diff_locs(pre, back, changed, L)
            if newc <= changed:
                break
            if rnd < 5:
                changed |= newc
                del self.events[mark[0]:]
                del fr.returns[mark[1]:]
                for r, n in zip(self.raises, mark[2]):
                    del r[n:]
        self.loopstack.pop()
        # record mu equations
        for c in changed:
            init = self.get_loc(pre, c)
            nxt = self.get_loc(back, c) if back is not None else init
            self.mus[(L, self.locname(c))] = (init, nxt)
        self.loopinfo[L]['cond'] = cond
        ex = pre.copy()
        for c in changed:
            self.put_loc(ex, c, N('mu', L, self.locname(c)))
        # guards of abrupt exits from inside the loop
        gone = 0
        for g, v, _ in fr.returns[mark[1]:]:
            gone = B.OR(gone, g)
        brk = 0
        for g, _ in lp['breaks']:
            brk = B.OR(brk, g)
        for r, n in zip(self.raises, mark[2]):
            for o in r[n:]:
                gone = B.OR(gone, o[0])
        ex.g = B.AND(pre.g, B.NOT(gone), B.NOT(brk))
        endless = itnode is not None and itnode.op == 'call' and ext_name(itnode.args[0]) in ('itertools.count', 'itertools.repeat')
        # what held in the round the loop was left
        self.loopinfo[L]['brk'] = brk
        self.loopinfo[L]['exit'] = brk if endless else (1 if test is None else B.OR(brk, B.NOT(cond)))
        if test is not None and cond == 1:
            ex.g = 0
        elif test is not None:
            pass
        outs = list(lp['breaks'])
        if ex.g:
            live = True
            if orelse:
                live = self.block(orelse, ex, fr)
            if live and ex.g:
                outs.append((ex.g, ex))
        r = self.merge_many(outs)
        if r is None:
            st.g = 0
            return False
        r.g = B.OR(*[g for g, _ in outs])
        if test is not None and cond == 1:
            # an endless loop left only through break: what holds after is what held at entry
            r.g = B.OR(B.AND(pre.g, B.NOT(gone)), 0)
        st.become(r)

    def locname(self, c):
        k = c[0]
        if k == 'env':
            return c[1]
        if k == 'cont':
            return f'@cont:{c[1].id}'
        if k == 'known':
            return f'@f:{c[1].id}:{c[2] if isinstance(c[2], str) else c[2].id}'
        return f'@base:{c[1].id}'

    def get_loc(self, st, c):
        if c[0] == 'env':
            return st.env.get(c[1], ABSENT)
        if c[0] == 'cont':
            return st.cont.get(c[1], c[1])
        o = st.heap.get(c[1])
        if o is None:
            return ABSENT
        if c[0] == 'known':
            v = o.known.get(c[2])
            return v if v is not None else self.rest_value(o, c[2])
        if o.kind == 'dict':
            return self.freeze_dict(o, st) if (o.known or o.base is not None) else N('dictv', (), N('empty'))
        return o.base if o.base is not None else N('listv', tuple(o.known))

    def put_loc(self, st, c, v):
        if c[0] == 'env':
            st.env[c[1]] = v
        elif c[0] == 'cont':
            st.cont[c[1]] = v
        else:
            o = st.heap[c[1]]
            if c[0] == 'known':
                k = dict(o.known)
                k[c[2]] = v
                st.heap[c[1]] = o.with_(known=k)
            else:
                st.heap[c[1]] = HObj(o.kind, o.cls, {} if o.kind == 'dict' else (), v)

    def diff_locs(self, pre, back, changed, L):
        out = set()
        for k, v in back.env.items():
            p = pre.env.get(k)
            if ('env', k) in changed:
                out.add(('env', k))
            elif p is None:
                pass  # first defined inside the loop: recomputed on every turn
            elif p is not v:
                out.add(('env', k))
        for n, v in back.cont.items():
            if ('cont', n) in changed:
                out.add(('cont', n))
                continue
            p = pre.cont.get(n, n)
            if p is not v and self.older(n, L):
                out.add(('cont', n))
        for n, o in back.heap.items():
            p = pre.heap.get(n)
            if p is None or p is o:
                if ('base', n) in changed:
                    out.add(('base', n))
                continue
            if o.kind == 'inst':
                for f in o.known.keys() | p.known.keys():
                    a, b2 = p.known.get(f, ABSENT), o.known.get(f, ABSENT)
                    if a is not b2 or ('known', n, f) in changed:
                        out.add(('known', n, f))
            elif o.kind == 'dict' and o.base is p.base and ('base', n) not in changed:
                for f in o.known.keys() | p.known.keys():
                    a = p.known.get(f)
                    b2 = o.known.get(f)
                    if a is not b2:
                        out.add(('known', n, f))
            else:
                out.add(('base', n))
        return {c for c in out if not (c[0] == 'known' and ('base', c[1]) in out | changed)}

    def older(self, n, L):
        return True

    # ------------------------------------------------------------ try
    def s_Try(self, s, st, fr):
        tid = self.newuid()
        pre = st.copy()
        htypes = []
        for h in s.handlers:
            if h.type is None:
                htypes.append([N('ext', 'BaseException')])
            else:
                t = self.ev(h.type, st, fr)
                htypes.append(list(t.args[0]) if t.op == 'tuple' else [t])
        implicit = any(t.op == 'ext' for ts in htypes for t in ts)
        self.raises.append([])
        depth = len(self.frames)
        self.trystack.append((tid, tuple(t for ts in htypes for t in ts), bool(s.finalbody)))
        g0 = st.g
        exatom = self.decided(atom(N('exc_in', tid))) if implicit else 0
        nev = len(self.events)
        nret = len(fr.returns)
        ok = self.block(s.body, st, fr)
        self.trystack.pop()
        raised = self.raises.pop()
        # does the body contain anything able to raise implicitly?
        outs = []
        if ok:
            if implicit:
                st.g = B.AND(st.g, B.NOT(exatom))
            if s.orelse and st.g:
                ok = self.block(s.orelse, st, fr)
            if ok and st.g:
                outs.append((st.g, st.copy()))
        unc = []
        pend = []  # states entering handler i
        for (g, exc, rs, d, loc) in raised:
            for eg, el in leaves(exc, 1):
                gg = B.AND(g, eg)
                if gg == 0:
                    continue
                hit = None
                for i, ts in enumerate(htypes):
                    if any(self.exc_match(el, t, rs) for t in ts):
                        hit = i
                        break
                s2 = rs
                if d > depth:
                    env = self.frames_env_at(rs, d, depth, fr, pre)
                    s2 = St(dict(env), dict(rs.heap), dict(rs.cont), gg)
                else:
                    s2 = rs.copy()
                    s2.g = gg
                if hit is None:
                    unc.append((gg, el, s2, d, loc))
                else:
                    pend.append((hit, gg, el, s2))
        if implicit and exatom:
            for i, ts in enumerate(htypes):
                ext = [t for t in ts if t.op == 'ext']
                if ext:
                    s2 = pre.copy()
                    s2.g = B.AND(g0, exatom)
                    pend.append((i, s2.g, N('exc', ext[0], (const(f'implicit{tid}'),)), s2))
                    break
        for i, h in enumerate(s.handlers):
            mine = [(g, e, q) for (j, g, e, q) in pend if j == i]
            if not mine:
                continue
            e = mine[-1][1]
            for g, ee, q in reversed(mine[:-1]):
                e = ite(g, ee, e)
            hs = self.merge_many([(g, q) for g, _, q in mine])
            hs.g = B.OR(*[g for g, _, _ in mine])
            if h.name:
                hs.env[h.name] = e
            old = getattr(fr, 'cur_exc', None)
            fr.cur_exc = e
            self.emit('handler', hs, extra=(tid, i, [show(t) for t in htypes[i]]))
            if self.block(h.body, hs, fr):
                if h.name:
                    hs.env.pop(h.name, None)
                outs.append((hs.g, hs))
            fr.cur_exc = old
        if s.finalbody:
            # returns taken inside the try pass through finally as well
            new_rets = fr.returns[nret:]
            del fr.returns[nret:]
            keep = []
            if new_rets:
                m = self.merge_many([(g, q) for g, _, q in new_rets])
                v = new_rets[-1][1]
                for g, x, _ in reversed(new_rets[:-1]):
                    v = ite(g, x, v)
                env = dict((outs[0][1] if outs else pre).env)
                fs = St(env, dict(m.heap), dict(m.cont), B.OR(*[g for g, _, _ in new_rets]))
                if self.block(s.finalbody, fs, fr):
                    keep.append((fs.g, v, St({}, fs.heap, fs.cont, fs.g)))
            fr.returns += keep
            for (g, exc, q, d, loc) in unc:
                fs = q.copy()
                fs.g = g
                self.in_unwind = getattr(self, 'in_unwind', 0) + 1
                okf = self.block(s.finalbody, fs, fr)
                self.in_unwind -= 1
                if okf:
                    self.raises[-1].append((fs.g, exc, fs, min(d, depth), loc))
            # exceptions the handlers do not cover (external ones) also unwind through finally
            if not getattr(self, 'no_implicit_finally', False):
                us = pre.copy()
                us.g = B.AND(g0, atom(N('unwind', tid)))
                self.emit('unwind', us, extra=tid)
                sv, self.raises = self.raises, self.raises + [[]]
                nret2 = len(fr.returns)
                self.block(s.finalbody, us, fr)
                del fr.returns[nret2:]
                self.raises = sv
            r = self.merge_many(outs)
            if r is not None:
                r.g = B.OR(*[g for g, _ in outs])
                okf = self.block(s.finalbody, r, fr)
                if okf:
                    st.become(r)
                    return True
            st.g = 0
            return False
        self.raises[-1].extend(unc)
        r = self.merge_many(outs)
        if r is None:
            st.g = 0
            return False
        r.g = B.OR(*[g for g, _ in outs])
        st.become(r)

    def frames_env_at(self, rs, d, depth, fr, pre):
        return fr.saved_live_env if getattr(fr, 'saved_live_env', None) is not None else pre.env

    EXC_PARENTS = {'KeyError': ['LookupError', 'Exception', 'BaseException'], 'FileNotFoundError': ['OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException'],
                   'AssertionError': ['Exception', 'BaseException'], 'AttributeError': ['Exception', 'BaseException'], 'TypeError': ['Exception', 'BaseException']}

    def exc_match(self, e, t, st):
        if t.op == 'lazy':
            t = self.resolve_lazy(t)
        if e.op == 'ref' and e in st.heap and st.heap[e].kind == 'inst':
            ci = st.heap[e].cls
            if t.op == 'cls':
                return self.subclass(ci, self.cinfo(t))
            if t.op == 'ext':
                return t.args[0] in ('Exception', 'BaseException') or t.args[0] in self.ext_bases(ci)
            return False
        if e.op == 'exc':
            nm = e.args[0].args[0] if e.args[0].op == 'ext' else None
            if t.op == 'ext':
                return t.args[0] == nm or t.args[0] in self.EXC_PARENTS.get(nm, ['Exception', 'BaseException'])
            return False
        return t.op == 'ext' and t.args[0] in ('Exception', 'BaseException')

    # ------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f'unsupported expression {type(e).__name__} at {fr.module.path}:{e.lineno}')
        v = m(e, st, fr)
        return v

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return N('ext', 'Ellipsis')
        return const(e.value)

    def lookup(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        fi = fr.fi
        if fi is not None and fi.env is not None and name in fi.env:
            return fi.env[name]
        m = fr.module
        if name in m.env:
            return m.env[name]
        if name in BUILTINS:
            return N('ext', name)
        return None

    def e_Name(self, e, st, fr):
        v = self.lookup(e.id, st, fr)
        if v is None:
            if e.id in ('__name__',):
                return const(fr.module.name)
            if e.id == '__file__':
                return const('/' + fr.module.path)
            self.emit('unbound', st, extra=e.id)
            return N('unk', f'unbound:{e.id}')
        if v.op == 'lazy':
            v = self.resolve_lazy(v)
        if v.op in ('ite', 'bool'):
            v = constrain(v, st.g)
            if v is ABSENT or (v.op == 'ite' and ABSENT in leafset(v)):
                g = B.AND(st.g, bmap(v, lambda x: 1 if x is ABSENT else 0))
                if g:
                    self.emit('maybe_unbound', st, extra=(e.id, g))
        elif v is ABSENT:
            self.emit('unbound', st, extra=e.id)
            return N('unk', f'unbound:{e.id}')
        return v

    def e_Tuple(self, e, st, fr):
        return N('tuple', tuple(self.seq_items(e.elts, st, fr)))

    def seq_items(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                k = self.iter_items(v, st)
                if k is None:
                    out.append(N('star', self.freeze(v, st)))
                else:
                    out += k
            else:
                out.append(self.ev(x, st, fr))
        return out

    def e_List(self, e, st, fr):
        return self.newref(st, HObj('list', None, tuple(self.seq_items(e.elts, st, fr))))

    def e_Set(self, e, st, fr):
        return self.newref(st, HObj('set', None, tuple(self.seq_items(e.elts, st, fr))))

    def e_Dict(self, e, st, fr):
        r = self.newref(st, HObj('dict', None, {}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v, st, fr), st)
                continue
            kk = self.ev(k, st, fr)
            vv = self.ev(v, st, fr)
            q, self.quiet = self.quiet, self.quiet + 1
            self.setitem(r, kk, vv, st)
            self.quiet = q
        return r

    def e_Starred(self, e, st, fr):
        return N('star', self.freeze(self.ev(e.value, st, fr), st))

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return mkbool(B.NOT(self.truth(v, st)))
        f = self.freeze(v, st)
        op = {'USub': '-', 'UAdd': '+', 'Invert': '~'}[type(e.op).__name__]
        return self.unop(op, f)

    def unop(self, op, f):
        if f.op == 'const' and isinstance(f.args[0], (int, float)):
            try:
                return const({'-': lambda x: -x, '+': lambda x: +x, '~': lambda x: ~x}[op](f.args[0]))
            except TypeError:
                pass
        return N('un', op, f)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        return self._boolop(e.values, isand, st, fr)

    def _boolop(self, vals, isand, st, fr):
        v = self.ev(vals[0], st, fr)
        if len(vals) == 1 or st.g == 0:
            return v
        c = self.truth(v, st)
        c = bconstrain(c, st.g)
        go = c if isand else B.NOT(c)
        if go == 0:
            return v
        if go == 1:
            return self._boolop(vals[1:], isand, st, fr)
        s2 = st.copy()
        s2.g = B.AND(st.g, go)
        if s2.g == 0:
            return v
        w = self._boolop(vals[1:], isand, s2, fr)
        rest = st.copy()
        rest.g = B.AND(st.g, B.NOT(go))
        m = self.merge(go, s2 if s2.g else None, rest if rest.g else None)
        st.become(m)
        if boolish(v) and not boolish(w):
            # value of the short circuit side is the boolean itself
            return ite(go, w, FALSE if isand else TRUE)
        return ite(go, w, v)

    def e_IfExp(self, e, st, fr):
        c = bconstrain(self.truth(self.ev(e.test, st, fr), st), st.g)
        if c == 1:
            return self.ev(e.body, st, fr)
        if c == 0:
            return self.ev(e.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.g = B.AND(st.g, c)
        s2.g = B.AND(st.g, B.NOT(c))
        a = self.ev(e.body, s1, fr) if s1.g else NONE
        b = self.ev(e.orelse, s2, fr) if s2.g else NONE
        m = self.merge(c, s1 if s1.g else None, s2 if s2.g else None)
        if m is None:
            st.g = 0
            return NONE
        st.become(m)
        return ite(c, a, b)

    CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        r = 1
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            o = self.CMP[type(op).__name__]
            r = B.AND(r, self.cmp(o, left, right, st))
            left = right
        return mkbool(r)

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(BINOPS[type(e.op)], self.freeze(a, st), self.freeze(b, st), st)

    def binop(self, op, a, b, st):
        if op in '&|' and boolish(a) and boolish(b):
            return mkbool(B.AND(tobdd(a), tobdd(b)) if op == '&' else B.OR(tobdd(a), tobdd(b)))
        if a.op == 'bool' and op in '&|^':
            a = N('arr', a)
        if op == '+':
            if self.strish(a) or self.strish(b):
                return self.mkfmt([a, b])
            if a.op == 'listv' and b.op == 'listv':
                return N('listv', a.args[0] + b.args[0])
            if a.op == 'tuple' and b.op == 'tuple':
                return N('tuple', a.args[0] + b.args[0])
        if op == '%' and a.op == 'const' and isinstance(a.args[0], str):
            return self.percent(a.args[0], b)
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.args[0], b.args[0]
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '//': lambda: x // y, '%': lambda: x % y,
                     '**': lambda: x ** y if abs(y) < 50 else None, '&': lambda: x & y, '|': lambda: x | y}[op]()
                if v is not None:
                    return const(v)
            except Exception:
                pass
        if a.op == 'ite' and b.op == 'const' and all(x.op == 'const' for x in leafset(a)):
            return mtmap(a, lambda x: self.binop(op, x, b, st))
        if b.op == 'ite' and a.op == 'const' and all(x.op == 'const' for x in leafset(b)):
            return mtmap(b, lambda x: self.binop(op, a, x, st))
        return N('bin', op, a, b)

    def strish(self, n):
        if n.op == 'const':
            return isinstance(n.args[0], str)
        if n.op == 'fmt':
            return True
        if n.op == 'ite':
            return all(self.strish(x) for x in leafset(n))
        return n.op == 'call' and n.args[0].op == 'ext' and n.args[0].args[0] == 'str'

    def percent(self, tmpl, b):
        import re
        vals = list(b.args[0]) if b.op == 'tuple' else [b]
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%(%|[-+ #0]*\d*(?:\.\d+)?[sdifgeEGxXr])', tmpl):
            parts.append(const(tmpl[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                parts.append(const('%'))
                continue
            v = vals[i] if i < len(vals) else N('unk', 'missing%')
            i += 1
            sp = m.group(1)
            parts.append(v if sp in ('s', 'd', 'i') else N('fspec', v, sp))
        parts.append(const(tmpl[pos:]))
        return self.mkfmt(parts)

    def mkfmt(self, parts):
        # a string made of literals and of choices between literals is itself a choice between literals
        if any(p.op == 'ite' for p in parts) and all(p.op == 'const' or (p.op == 'ite' and all(x.op == 'const' for x in leafset(p))) for p in parts):
            n = 1
            for p in parts:
                n *= len(leafset(p))
            if n <= 24:
                i = next(i for i, p in enumerate(parts) if p.op == 'ite')
                return mtmap(parts[i], lambda x: self.mkfmt(parts[:i] + [x] + parts[i + 1:]))
        flat = []
        for p in parts:
            if p.op == 'fmt':
                flat += list(p.args[0])
            elif p.op == 'call' and p.args[0].op == 'ext' and p.args[0].args[0] == 'str' and len(p.args[1]) == 1:
                flat.append(p.args[1][0])
            else:
                flat.append(p)
        out = []
        for p in flat:
            if p.op == 'const':
                s = p.args[0] if isinstance(p.args[0], str) else str(p.args[0])
                if not s:
                    continue
                if out and out[-1].op == 'const':
                    out[-1] = const(out[-1].args[0] + s)
                else:
                    out.append(const(s))
            else:
                out.append(p)
        if not out:
            return const('')
        if len(out) == 1 and out[0].op == 'const':
            return out[0]
        return N('fmt', tuple(out))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.freeze(self.ev(v.value, st, fr), st)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    sp = self.e_JoinedStr(v.format_spec, st, fr) if v.format_spec is not None else const('')
                    if not (is_const(sp, '') and v.conversion in (-1, 115)):
                        if is_const(x) and is_const(sp) and v.conversion in (-1, 115) and isinstance(x.args[0], (int, float, str)):
                            try:
                                x = const(format(x.args[0], str(sp.args[0])))
                            except ValueError:
                                x = N('fspec', x, sp.args[0])
                        else:
                            x = N('fspec', x, sp.args[0] if is_const(sp) else sp)
                parts.append(x)
        return self.mkfmt(parts)

    def strformat(self, tmpl, args, kw):
        parts, auto = [], 0
        try:
            pieces = list(string.Formatter().parse(tmpl))
        except ValueError:
            return None
        for lit, field, spec, conv in pieces:
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            name = field
            if name == '':
                name = auto
                auto += 1
            elif name.isdigit():
                name = int(name)
            if isinstance(name, int):
                if name >= len(args):
                    parts.append(N('unk', f'format arg {name}'))
                    continue
                v = args[name]
            elif name in kw:
                v = kw[name]
            else:
                v = N('unk', f'format key {name}')
            if spec:
                v = N('fspec', v, spec)
            parts.append(v)
        return self.mkfmt(parts)

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        k = self.ev(e.slice, st, fr)
        self.curline = e.lineno
        return self.getitem(b, k, st)

    def e_Slice(self, e, st, fr):
        f = lambda x: self.freeze(self.ev(x, st, fr), st) if x is not None else NONE
        return N('slice', f(e.lower), f(e.upper), f(e.step))

    def getitem(self, b, k, st):
        b = constrain(b, st.g) if b.op == 'ite' else b
        k = constrain(k, st.g) if k.op == 'ite' else k
        ks = leafset(k)
        if ks and all(x.op in ('keyof', 'elem') for x in ks):
            # a key met while going over this very mapping
            here = set(leafset(self.freeze(b, st)))
            if all(x.args[1] in here and (x.op == 'keyof' or x.args[1].op in ('param', 'dupdate')) for x in ks):
                return mtmap(k, lambda x: N('valof', x.args[0], x.args[1]))
        if b.op == 'ite':
            return mtmap(b, lambda x: self.getitem1(x, k, st))
        return self.getitem1(b, k, st)

    def getitem1(self, b, k, st):
        if k.op == 'ite' and len(leafset(k)) <= 12 and b.op in ('ref', 'tuple', 'listv', 'dictv'):
            return mtmap(k, lambda x: self.getitem1(b, x, st))
        if b.op == 'ref' and b in st.heap:
            o = st.heap[b]
            if o.kind == 'dict':
                if self.const_key(k):
                    v = o.known.get(k)
                    if v is None:
                        v = self.rest_value(o, k)
                        if o.base is not None and v is not ABSENT:
                            # reading an unknown rest: value if present
                            if v.op == 'ite':
                                v = mtmap(v, lambda x: N('sub', o.base, k) if x is ABSENT and o.base.op not in ('ite', 'empty') else x)
                    miss = B.AND(st.g, bmap(v, lambda x: 1 if x is ABSENT else 0)) if (v is ABSENT or v.op == 'ite') else 0
                    if miss:
                        self.emit('keyerr', st, b, (b, k), extra=miss)
                        if v is ABSENT:
                            return N('unk', f'missing key {show(k)}')
                        v = constrain(v, B.NOT(bmap(v, lambda x: 1 if x is ABSENT else 0)))
                    return v
                if o.known and o.base is None and len(o.known) <= 24 and sum(len(leafset(x)) for x in o.known.values()) <= 64:
                    # key not known statically: a choice among the entries
                    v = N('unk', 'missing key', self.freeze(k, st))
                    none_of = 1
                    for kk, vv in sorted(o.known.items(), reverse=True):
                        c = self.eq(self.freeze(k, st), kk, st)
                        none_of = B.AND(none_of, B.NOT(c))
                        v = ite(c, vv, v)
                    miss = B.AND(st.g, none_of)
                    if miss:
                        self.emit('keymiss', st, b, (b, self.freeze(k, st)), extra=miss)
                        v = constrain(v, B.NOT(none_of))
                    return v
                return self.rd(self.freeze(b, st), self.freeze(k, st), st)
            if o.kind in ('list', 'set'):
                if o.base is None and is_const(k) and isinstance(k.args[0], int) and -len(o.known) <= k.args[0] < len(o.known):
                    return o.known[k.args[0]]
                if o.base is None and k.op == 'slice' and all(is_const(x) for x in k.args):
                    return self.newref(st, HObj('list', None, tuple(o.known[slice(*[x.args[0] for x in k.args])])))
                return self.rd(self.freeze(b, st), self.freeze(k, st), st)
            if o.kind == 'inst':
                m = self.clsattr(o.cls, '__getitem__')
                if m is not None and m.op == 'func':
                    return self.call(N('bound', b, m), [k], {}, st)
        if b.op in ('tuple', 'listv'):
            if is_const(k) and isinstance(k.args[0], int) and -len(b.args[0]) <= k.args[0] < len(b.args[0]):
                return b.args[0][k.args[0]]
            if k.op == 'slice' and all(is_const(x) for x in k.args):
                r = b.args[0][slice(*[x.args[0] for x in k.args])]
                return N(b.op, tuple(r))
        if b.op == 'const' and k.op == 'const':
            try:
                return const(b.args[0][k.args[0]])
            except Exception:
                pass
        if b.op == 'const' and k.op == 'slice' and all(is_const(x) for x in k.args):
            try:
                return const(b.args[0][slice(*[x.args[0] for x in k.args])])
            except Exception:
                pass
        if b.op == 'cliargs':
            return self.cli_arg(b, k, st)
        h = self.hooks.get('getitem')
        fb, fk = self.freeze(b, st), self.freeze(k, st)
        if h:
            r = h(self, fb, fk, st)
            if r is not None:
                return r
        return self.rd(fb, fk, st)

    def rd(self, fb, fk, st):
        if fb.op == 'ite':
            return mtmap(fb, lambda x: self.rd(x, fk, st))
        if fb.op == 'upd':
            if fb.args[1] is fk:
                return fb.args[2]
            if fb.args[1].op == 'const' and fk.op == 'const':
                return self.rd(fb.args[0], fk, st)
        if fb.op in ('tuple', 'listv') and is_const(fk) and isinstance(fk.args[0], int) and -len(fb.args[0]) <= fk.args[0] < len(fb.args[0]):
            return fb.args[0][fk.args[0]]
        return N('sub', fb, fk)

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        self.curline = e.lineno
        return self.getattr(b, e.attr, st)

    def getattr(self, b, name, st, default=None):
        b = constrain(b, st.g) if b.op == 'ite' else b
        if b.op == 'ite':
            r = NONE
            # property getters may have effects: evaluate each alternative under its own guard
            outs = []
            for g, x in leaves(b, 1):
                gg = B.AND(st.g, g)
                if gg == 0:
                    continue
                s2 = st.copy()
                s2.g = gg
                v = self.getattr1(x, name, s2, default)
                if s2.g:
                    outs.append((g, v, s2))
            return self.join(outs, st)
        return self.getattr1(b, name, st, default)

    def join(self, outs, st):
        if not outs:
            st.g = 0
            return NONE
        v = outs[-1][1]
        for g, x, _ in reversed(outs[:-1]):
            v = ite(g, x, v)
        m = self.merge_many([(g, s) for g, _, s in outs])
        m.g = B.OR(*[s.g for _, _, s in outs])
        st.become(m)
        return v

    def getattr1(self, b, name, st, default=None):
        b = self.resolve_lazy(b) if b.op == 'lazy' else b
        if b.op == 'mod':
            v = self.modattr(b.args[0], name)
            if v is None:
                self.emit('attrerr', st, b, (b,), extra=name)
                return N('unk', f'{b.args[0]}.{name}')
            return self.resolve_lazy(v)
        if b.op == 'ext':
            if name == '__name__':
                return const(b.args[0].split('.')[-1])
            full = f'{b.args[0]}.{name}'
            if full in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
                return N('nan')
            return N('ext', full)
        if b.op == 'cls':
            ci = self.cinfo(b)
            key = N('clsattr', b.args[0], name)
            if key in st.cont:
                return st.cont[key]
            v = self.clsattr(ci, name)
            if v is None:
                if name == '__name__':
                    return const(ci.name)
                if self.ext_bases(ci):
                    return N('attr', b, name)
                if default is not None:
                    return default
                self.emit('attrerr', st, b, (b,), extra=name)
                return N('unk', f'{ci.name}.{name}')
            if v.op == 'func' and self.finfo(v).kind == 'class':
                return N('bound', b, v)
            return v
        if b.op == 'ref' and b in st.heap:
            o = st.heap[b]
            if o.kind == 'inst':
                return self.instattr(b, o, name, st, default)
            return N('meth', b, name)
        if b.op == 'super':
            ci, selfn = self.classes[b.args[0]], b.args[1]
            for c in self.mro(self.classes[b.args[2]])[self.mro(self.classes[b.args[2]]).index(ci) + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], selfn, st)
            return N('extmeth', name)
        if b.op == 'ntup':
            for k, v in b.args[1]:
                if k == name:
                    return v
            return N('attr', b, name)
        if b.op in ('func', 'bound', 'partial') and name in ('__name__', '__doc__'):
            return const(self.finfo(b).name) if b.op == 'func' else N('attr', b, name)
        if b.op == 'pobj':
            return N('pmeth', b, name)
        key = N('attr', b, name)
        if key in st.cont:
            return st.cont[key]
        if b.op == 'const' or b.op in ('fmt', 'tuple', 'listv', 'dictv'):
            return N('attr', b, name)
        if is_const(b, None):
            self.emit('noneattr', st, extra=name)
        f = self.freeze(b, st)
        h = self.hooks.get('getattr')
        if h:
            r = h(self, f, name, st)
            if r is not None:
                return r
        # keep the identity for method calls that mutate
        return N('attr', b, name) if f is b else N('attr', f, name)

    def instattr(self, b, o, name, st, default=None):
        if name == '__class__':
            return N('cls', o.cls.id)
        if name == '__dict__':
            return N('attr', b, name)
        v = o.known.get(name)
        absent = v is None or v is ABSENT
        cv = self.clsattr(o.cls, name)
        if cv is not None and cv.op == 'func' and self.finfo(cv).kind == 'prop':
            return self.call(N('bound', b, cv), [], {}, st)
        if not absent:
            if v.op == 'ite':
                v = constrain(v, st.g)
                if v is ABSENT or (v.op == 'ite' and ABSENT in leafset(v)):
                    g = B.AND(st.g, bmap(v, lambda x: 1 if x is ABSENT else 0))
                    if g and cv is None:
                        self.emit('attrerr_maybe', st, b, (b,), extra=(name, g))
                    repl = self.bind(cv, b, st) if cv is not None else N('unk', f'{o.cls.name}.{name}')
                    v = mtmap(v, lambda x: repl if x is ABSENT else x)
            return v
        if cv is not None:
            key = N('clsattr', o.cls.id, name)
            if key in st.cont:
                return st.cont[key]
            return self.bind(cv, b, st)
        if o.base is not None:
            return N('attr', o.base, name)
        if default is not None:
            return default
        if self.ext_bases(o.cls) and not all(x in ('Exception', 'object', 'abc.ABC') for x in self.ext_bases(o.cls)):
            return N('attr', b, name)
        m = self.clsattr(o.cls, '__getattr__')
        if m is not None:
            return N('attr', b, name)
        if name.startswith('__'):
            return N('attr', b, name)
        self.emit('attrerr', st, b, (b,), extra=f'{o.cls.name}.{name}')
        return N('unk', f'{o.cls.name}.{name}')

    def bind(self, v, selfn, st):
        v = self.resolve_lazy(v) if v.op == 'lazy' else v
        if v.op == 'func':
            k = self.finfo(v).kind
            if k == 'static':
                return v
            if k == 'class':
                o = st.heap.get(selfn)
                return N('bound', N('cls', o.cls.id) if o is not None and o.cls else selfn, v)
            if k == 'prop':
                return self.call(N('bound', selfn, v), [], {}, st)
            return N('bound', selfn, v)
        return v

    def e_Lambda(self, e, st, fr):
        return self.mkfunc(e, st, fr, (fr.fi.qual + '.' if fr.fi else '') + '<lambda>') if fr.fi is not None else self.mkfunc(e, st, fr, '<lambda>')

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value else NONE
        ys = getattr(fr, 'yields', None)
        if ys is None:
            fr.yields = ys = []
        ys.append(self.freeze(v, st))
        return NONE

    @staticmethod
    def reordered(k, v, L, g):
        """{k: d[k] for k in sorted(d)} has the items of d in the order of their keys"""
        if k.op != 'elem' or v.op != 'sub' or v.args[1] is not k or k.args[0] != L or k.args[1].op != 'call' or k.args[1].args[0] is not N('ext', 'sorted'):
            return None
        if B.restrict_map(g, lambda a: True if a is N('iter', L) else None) != 1 or len(k.args[1].args[1]) != 1 or k.args[1].args[2]:
            return None
        d = k.args[1].args[1][0]
        if d.op == 'call' and d.args[0].op == 'attr' and d.args[0].args[1] == 'keys':
            d = d.args[0].args[0]
        if d is not v.args[0]:
            return None
        items = N('call', N('attr', d, 'items'), (), (), 0)
        return N('call', N('ext', 'dict'), (N('call', N('ext', 'sorted'), (items,), (), 0),), (), 0)

    # comprehensions
    def e_ListComp(self, e, st, fr):
        found = self.comp_statements(e, st, fr) if isinstance(e.generators[0].iter, ast.Call) else None
        if found is not None:
            self.block(found[0], st, fr)
            return st.env.get(found[1], NONE)
        return self.comp('list', e, st, fr)

    def e_SetComp(self, e, st, fr):
        return self.comp('set', e, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp('gen', e, st, fr)

    def e_DictComp(self, e, st, fr):
        found = self.comp_statements(e, st, fr) if isinstance(e.generators[0].iter, ast.Call) else None
        if found is not None:
            self.block(found[0], st, fr)
            return st.env.get(found[1], NONE)
        return self.comp('dict', e, st, fr)

    def comp(self, kind, e, st, fr):
        saved = dict(st.env)
        out = []
        absloops = []

        def rec(gens, s):
            if not gens:
                if kind == 'dict':
                    k = self.ev(e.key, s, fr)
                    v = self.ev(e.value, s, fr)
                    out.append((s.g, (k, v), tuple(absloops)))
                else:
                    v = self.ev(e.elt, s, fr)
                    out.append((s.g, v, tuple(absloops)))
                return
            g = gens[0]
            it = constrain(self.ev(g.iter, s, fr), s.g)
            items = self.iter_items(it, s)
            if items is not None and len(items) <= self.unroll_cap:
                for x in items:
                    self.assign(g.target, x, s, fr)
                    self.filt(g.ifs, gens, s, fr, rec)
            else:
                self.nloop += 1
                L = self.nloop
                self.loopinfo[L] = dict(iter=self.freeze(it, s), line=e.lineno, path=fr.module.path, qual=fr.fi.qual if fr.fi else '', test=None)
                absloops.append(L)
                self.loopstack.append(L)
                g0 = s.g
                s.g = B.AND(s.g, atom(N('iter', L)))
                self.assign(g.target, self.elem(it, L, s), s, fr)
                self.filt(g.ifs, gens, s, fr, rec)
                s.g = g0
                self.loopstack.pop()
                absloops.pop()
        s = st
        g0 = st.g
        rec(e.generators, s)
        s.env = saved
        s.g = g0
        exact = all(not ls for _, _, ls in out) and all(g == g0 for g, _, _ in out)
        if kind == 'dict':
            r = self.newref(st, HObj('dict', None, {}))
            if len(out) == 1 and len(out[0][2]) == 1:
                same = self.reordered(self.freeze(out[0][1][0], st), self.freeze(out[0][1][1], st), out[0][2][0], bconstrain(out[0][0], g0))
                if same is not None:
                    return same
            for g, (k, v), ls in out:
                if ls or not self.const_key(k):
                    L = ls[0] if ls else 0
                    st.heap[r] = HObj('dict', None, {}, N('dcomp', self.freeze(k, st), self.freeze(v, st), tuple(const(x) for x in ls), mkbool(bconstrain(g, g0))))
                elif g == g0:
                    known = dict(st.heap[r].known)
                    known[k] = v
                    st.heap[r] = st.heap[r].with_(known=known)
                else:
                    known = dict(st.heap[r].known)
                    known[k] = ite(bconstrain(g, g0), v, known.get(k, ABSENT))
                    st.heap[r] = st.heap[r].with_(known=known)
            return r
        if exact:
            if kind == 'list':
                return self.newref(st, HObj('list', None, tuple(v for _, v, _ in out)))
            if kind == 'set':
                return self.newref(st, HObj('set', None, tuple(v for _, v, _ in out)))
            return N('listv', tuple(v for _, v, _ in out))
        if len(out) == 1:
            g, v, ls = out[0]
            node = N('comp', kind, self.freeze(v, st), tuple(const(x) for x in ls), mkbool(bconstrain(g, g0)))
            if kind == 'list':
                return self.newref(st, HObj('list', None, (), node))
            return node
        # known iteration filtered: gated membership
        parts = []
        for g, v, ls in out:
            parts.append(N('opt_item', mkbool(bconstrain(g, g0)), self.freeze(v, st)))
        node = N('gseq', kind, tuple(parts))
        if kind == 'list':
            return self.newref(st, HObj('list', None, (), node))
        return node

    def filt(self, ifs, gens, s, fr, rec):
        g0 = s.g
        for c in ifs:
            t = self.truth(self.ev(c, s, fr), s)
            s.g = B.AND(s.g, t)
        if s.g:
            rec(gens[1:], s)
        s.g = g0

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted', 'set', 'dict') and e.args and isinstance(e.args[0], ast.Call) and self.generator(e.args[0], st, fr):
            e = self.over_list(e)
        line = e.lineno
        f = self.ev(e.func, st, fr)
        if st.g == 0:
            return NONE
        args, kw = [], {}
        star_unknown = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                items = self.iter_items(constrain(v, st.g), st)
                if items is None:
                    args.append(N('star', self.freeze(v, st)))
                else:
                    args += items
            else:
                args.append(self.ev(a, st, fr))
            if st.g == 0:
                return NONE
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v.op == 'ref' and v in st.heap and st.heap[v].kind == 'dict':
                    o = st.heap[v]
                    for kk, vv in o.known.items():
                        if is_const(kk) and isinstance(kk.args[0], str):
                            kw[kk.args[0]] = vv
                    if o.base is not None:
                        kw['**'] = o.base
                else:
                    kw['**'] = self.freeze(v, st)
            else:
                kw[k.arg] = v
            if st.g == 0:
                return NONE
        self.curline = line
        if f.op == 'ext' and f.args[0] == 'super' and not args:
            fi = fr.fi
            c = fi.cls
            sn = fr.selfnode
            if c is not None and sn is not None:
                oc = st.heap[sn].cls if sn.op == 'ref' and sn in st.heap else (self.cinfo(sn) if sn.op == 'cls' else c)
                return N('super', c.id, sn, oc.id)
        if f.op == 'ext' and f.args[0] in ('numexpr.evaluate',):
            return self.numexpr(args, kw, st, fr)
        if f.op == 'ext' and f.args[0] in ('locals',):
            r = self.newref(st, HObj('dict', None, {const(k): v for k, v in st.env.items() if v is not ABSENT}))
            return r
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        f = constrain(f, st.g) if f.op == 'ite' else f
        if f.op == 'ite':
            outs = []
            line = self.curline
            for g, x in leaves(f, 1):
                gg = B.AND(st.g, g)
                if gg == 0:
                    continue
                s2 = st.copy()
                s2.g = gg
                self.curline = line
                v = self.call1(x, args, kw, s2)
                if s2.g:
                    outs.append((g, v, s2))
            return self.join(outs, st)
        return self.call1(f, args, kw, st)

    def call1(self, f, args, kw, st):
        f = self.resolve_lazy(f) if f.op == 'lazy' else f
        if f.op == 'func':
            return self.invoke(f, None, args, kw, st)
        if f.op == 'bound':
            return self.call_bound(f, args, kw, st)
        if f.op == 'cls':
            return self.instantiate(f, args, kw, st)
        if f.op == 'partial':
            kw2 = dict(f.args[2])
            kw2.update(kw)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw2, st)
        if f.op == 'meth':
            return self.method(f.args[0], f.args[1], args, kw, st)
        if f.op == 'pmeth':
            return self.parser_method(f.args[0], f.args[1], args, kw, st)
        if f.op == 'ntupcls':
            fields = f.args[1]
            vals = []
            for i, n in enumerate(fields):
                if i < len(args):
                    vals.append((n, args[i]))
                elif n in kw:
                    vals.append((n, kw[n]))
                else:
                    self.emit('typeerr', st, f, extra=f'missing field {n}')
            return N('ntup', f.args[0], tuple((n, self.freeze(v, st)) for n, v in vals))
        if f.op == 'ext':
            return self.extcall(f, args, kw, st)
        if f.op == 'attr':
            return self.opaque_method(f, args, kw, st)
        if f.op == 'extmeth':
            return NONE
        if f.op == 'ref' and f in st.heap and st.heap[f].kind == 'inst':
            m = self.clsattr(st.heap[f].cls, '__call__')
            if m is not None:
                return self.call(N('bound', f, m), args, kw, st)
        if is_const(f, None) or f.op in ('const', 'bool'):
            self.emit('typeerr', st, f, extra=f'{show(f)} is not callable')
            return N('unk', 'not callable')
        return self.mkcall(f, args, kw, st, pure=False)

    def call_bound(self, f, args, kw, st):
        b, fn = f.args
        if fn.op == 'func':
            return self.invoke(fn, b, args, kw, st)
        return self.call(fn, [b] + list(args), kw, st)

    def mkcall(self, f, args, kw, st, pure, ev=True):
        fa = tuple(self.freeze(a, st) for a in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items()))
        n = N('call', f, fa, fk, 0 if pure else self.newuid())
        if ev:
            self.emit('call', st, f, fa, fk, node=n, extra=tuple(args))
        return n

    def instantiate(self, c, args, kw, st):
        ci = self.cinfo(c)
        h = self.hooks.get('instantiate')
        if h:
            r = h(self, ci, args, kw, st)
            if r is not None:
                return r
        if any(b in ('argparse.ArgumentParser',) for b in self.ext_bases(ci)):
            self.uid += 1
            return N('pobj', self.uid)
        r = self.newref(st, HObj('inst', ci, {}))
        self.emit('new', st, c, (r,) + tuple(args), tuple(kw.items()), node=r)
        init = self.clsattr(ci, '__init__')
        if init is not None and init.op == 'func':
            self.invoke(init, r, args, kw, st)
        return r

    def invoke(self, f, selfn, args, kw, st):
        fi = self.finfo(f)
        h = self.hooks.get('invoke')
        if h:
            r = h(self, fi, selfn, args, kw, st)
            if r is not None:
                return r
        if self.active.get(fi.id, 0) >= self.maxactive or len(self.frames) > 60:
            self.emit('reccall', st, f, tuple(args))
            return N('call', N('rec', fi.qual), tuple(self.freeze(a, st) for a in ([selfn] if selfn is not None else []) + list(args)), (), self.newuid())
        env = {}
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = ([selfn] if selfn is not None and fi.kind != 'static' else []) + list(args)
        kw = dict(kw)
        err = None
        starv = None
        if any(v.op == 'star' for v in vals):
            i = next(i for i, v in enumerate(vals) if v.op == 'star')
            starv = vals[i].args[0]
            vals = vals[:i]
        for i, p in enumerate(pos):
            if i < len(vals):
                env[p] = vals[i]
                if p in kw:
                    err = f'multiple values for {p}'
            elif p in kw:
                env[p] = kw.pop(p)
        extra = vals[len(pos):]
        if a.vararg:
            if starv is not None and len(vals) <= len(pos):
                env[a.vararg.arg] = N('star_rest', starv)
                if len(vals) == len(pos) and not extra:
                    env[a.vararg.arg] = starv
            else:
                env[a.vararg.arg] = N('tuple', tuple(extra))
        elif extra:
            err = f'{fi.qual}() takes {len(pos)} positional arguments but {len(vals)} were given'
        nd = len(fi.defaults)
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - nd)
                if starv is not None and i >= len(vals):
                    env[p] = N('sub', starv, const(i - len(vals)))
                elif '**' in kw:
                    d = fi.defaults[j] if j >= 0 else ABSENT
                    src = kw['**']
                    env[p] = ite(atom(N('in', const(p), src)), N('sub', src, const(p)), d) if j >= 0 else N('sub', src, const(p))
                elif j >= 0:
                    env[p] = fi.defaults[j]
                else:
                    err = f'{fi.qual}() missing required argument {p!r}'
                    env[p] = N('unk', f'missing argument {p}')
        for x, d in zip(a.kwonlyargs, fi.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = d
            else:
                err = f'{fi.qual}() missing keyword argument {x.arg!r}'
                env[x.arg] = N('unk', 'missing')
        if a.kwarg:
            base = kw.pop('**', None)
            env[a.kwarg.arg] = self.newref(st, HObj('dict', None, {const(k): v for k, v in kw.items()}, base))
        else:
            kw.pop('**', None)
            if kw:
                err = f'{fi.qual}() got an unexpected keyword argument {sorted(kw)[0]!r}'
        if err:
            self.emit('typeerr', st, f, tuple(args), extra=err)
        g_in = st.g
        fr = Frame(fi, fi.module, self.frames[-1] if self.frames else None, self.curline)
        fr.selfnode = selfn if selfn is not None else (env.get(pos[0]) if pos else None)
        self.visited[fi.qual] = self.visited.get(fi.qual, 0) + 1
        line = self.curline
        if self.frames:
            self.frames[-1].saved_live_env = st.env
        ev = self.emit('enter', st, f, tuple(env.get(p, NONE) for p in pos), tuple((k, v) for k, v in env.items()), extra=fi.qual)
        self.frames.append(fr)
        self.active[fi.id] = self.active.get(fi.id, 0) + 1
        try:
            if isinstance(fi.node, ast.Lambda):
                sub = St(env, st.heap, st.cont, st.g)
                v = self.ev(fi.node.body, sub, fr)
                st.heap, st.cont, st.g = sub.heap, sub.cont, sub.g
                return v
            sub = St(env, st.heap, st.cont, st.g)
            live = self.block(fi.node.body, sub, fr)
            outs = list(fr.returns)
            if live:
                outs.append((sub.g, NONE, sub))
        finally:
            self.frames.pop()
            self.active[fi.id] -= 1
            self.curline = line
        if getattr(fr, 'yields', None):
            v = N('gen', tuple(fr.yields))
            if live:
                st.heap, st.cont = sub.heap, sub.cont
            return v
        if not outs:
            st.g = 0
            return NONE
        v = outs[-1][1]
        for g, x, _ in reversed(outs[:-1]):
            v = ite(g, x, v)
        m = outs[-1][2]
        heap, cont = m.heap, m.cont
        for g, _, s in reversed(outs[:-1]):
            heap = self.merge_heap(g, s.heap, heap)
            cont = self.merge_cont(g, s.cont, cont)
        st.heap, st.cont = heap, cont
        st.g = B.OR(*[g for g, _, _ in outs])
        if self.forget and st.g:
            # over-approximation: what a callee's error exits excluded is not carried any further
            st.g = g_in
        self.emit('leave', st, f, (v,), extra=(fi.qual, ev.seq if ev else None))
        return v

    # built-in containers
    def method(self, b, name, args, kw, st):
        o = st.heap[b]
        if o.kind == 'dict':
            return self.dict_method(b, o, name, args, kw, st)
        if o.kind in ('list', 'set'):
            if name in ('append', 'add') and args:
                if o.base is None:
                    st.heap[b] = o.with_(known=o.known + (args[0],))
                else:
                    fz = self.freeze(args[0], st)
                    st.heap[b] = HObj(o.kind, None, (), mtmap(o.base, lambda l: N('listv', l.args[0] + (fz,)) if l.op == 'listv' else N('append', l, fz))
                                      if o.base.op == 'ite' and len(leafset(o.base)) <= 32 else N('append', o.base, fz))
                self.emit('append', st, b, (b, self.freeze(args[0], st)))
                return NONE
            if name == 'extend' and args:
                self.list_extend(b, args[0], st)
                return NONE
            if name in ('sort', 'reverse'):
                n = self.mkcall(N('ext', 'sorted' if name == 'sort' else 'reversed'), [b] + list(args), kw, st, True, ev=False)
                st.heap[b] = HObj(o.kind, None, (), n)
                return NONE
            if name == 'copy':
                return self.newref(st, o)
            if name == 'pop' and o.base is None and o.known:
                i = args[0].args[0] if args and is_const(args[0]) else -1
                if not args or is_const(args[0]):
                    l = list(o.known)
                    v = l.pop(i)
                    st.heap[b] = o.with_(known=tuple(l))
                    return v
            if name == 'insert' and o.base is None and is_const(args[0]):
                l = list(o.known)
                l.insert(args[0].args[0], args[1])
                st.heap[b] = o.with_(known=tuple(l))
                return NONE
            if name in ('clear',):
                st.heap[b] = HObj(o.kind, None, ())
                return NONE
            if name in PURE_METHODS:
                return self.mkcall(N('attr', self.freeze(b, st), name), args, kw, st, True)
            n = self.mkcall(N('attr', self.freeze(b, st), name), args, kw, st, False)
            st.heap[b] = HObj(o.kind, None, (), N('mut', name, self.freeze(b, st), tuple(self.freeze(a, st) for a in args)))
            return n
        return self.mkcall(N('attr', b, name), args, kw, st, False)

    def list_extend(self, b, v, st):
        o = st.heap[b]
        items = self.iter_items(v, st)
        if items is not None and o.base is None:
            st.heap[b] = o.with_(known=o.known + tuple(items))
        else:
            st.heap[b] = HObj(o.kind, None, (), N('extend', self.freeze(b, st), self.freeze(v, st)))
        self.emit('extend', st, b, (b, self.freeze(v, st)))

    def dict_method(self, b, o, name, args, kw, st):
        if name in ('get', 'pop', 'setdefault') and args:
            k = self.freeze(args[0], st)
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            if k.op == 'ite' and len(leafset(k)) <= 12 and name == 'get':
                return mtmap(k, lambda x: self.dict_method(b, o, 'get', [x, d], {}, st))
            if self.const_key(k):
                v = o.known.get(k)
                if v is None:
                    v = self.rest_value(o, k)
                if name == 'pop' and len(args) < 2:
                    pass
                r = mtmap(v, lambda x: d if x is ABSENT else x) if v.op == 'ite' else (d if v is ABSENT else v)
                if name == 'pop':
                    known = dict(o.known)
                    known[k] = ABSENT
                    st.heap[b] = o.with_(known=known)
                if name == 'setdefault':
                    known = dict(o.known)
                    known[k] = r
                    st.heap[b] = o.with_(known=known)
                return constrain(r, st.g)
            if o.base is None and name == 'get':
                v = d
                for kk, vv in sorted(o.known.items(), reverse=True):
                    vv2 = mtmap(vv, lambda x: d if x is ABSENT else x)
                    v = ite(self.eq(k, kk, st), vv2, v)
                return v
            n = N('call', N('attr', self.freeze(b, st), 'get'), (k, self.freeze(d, st)), (), 0)
            if name != 'get':
                st.heap[b] = HObj('dict', None, {}, N('mut', name, self.freeze(b, st), (k,)))
            return n
        if name in ('items', 'keys', 'values') and not args:
            if o.base is None and all(v.op != 'ite' or ABSENT not in leafset(v) for v in o.known.values()):
                it = [(k, v) for k, v in o.known.items() if v is not ABSENT]
                if name == 'items':
                    return N('listv', tuple(N('tuple', (k, v)) for k, v in it))
                return N('listv', tuple(k if name == 'keys' else v for k, v in it))
            return N('call', N('attr', self.freeze(b, st), name), (), (), 0)
        if name == 'update':
            for a in args:
                self.dict_update(b, a, st)
            for k, v in kw.items():
                if k != '**':
                    self.setitem(b, const(k), v, st)
            return NONE
        if name == 'copy':
            return self.newref(st, o)
        if name == 'clear':
            st.heap[b] = HObj('dict', None, {})
            return NONE
        return self.mkcall(N('attr', self.freeze(b, st), name), args, kw, st, name in PURE_METHODS)

    def dict_update(self, b, v, st):
        v = constrain(v, st.g)
        self.emit('dupdate', st, b, (b, self.freeze(v, st)))
        o = st.heap[b]
        if v.op == 'ref' and v in st.heap and st.heap[v].kind == 'dict':
            w = st.heap[v]
            if w.base is None:
                known = dict(o.known)
                for k, x in w.known.items():
                    if x.op == 'ite' and ABSENT in leafset(x):
                        old = known.get(k)
                        if old is None:
                            old = self.rest_value(o, k)
                        known[k] = mtmap(x, lambda y, old=old: old if y is ABSENT else y)
                    elif x is not ABSENT:
                        known[k] = x
                st.heap[b] = o.with_(known=known)
                return
        st.heap[b] = HObj('dict', None, {}, N('dupdate', self.freeze(b, st), self.freeze(v, st)))

    # opaque receivers
    def opaque_method(self, f, args, kw, st):
        b, name = f.args
        if b.op == 'const' and isinstance(b.args[0], str):
            if name == 'format':
                r = self.strformat(b.args[0], [self.freeze(a, st) for a in args], {k: self.freeze(v, st) for k, v in kw.items()})
                if r is not None:
                    return r
            if all(a.op == 'const' for a in args) and not kw and name in PURE_METHODS:
                try:
                    v = getattr(b.args[0], name)(*[a.args[0] for a in args])
                    if isinstance(v, (str, int, bool)):
                        return const(v)
                    if isinstance(v, list):
                        return self.newref(st, HObj('list', None, tuple(const(x) for x in v)))
                    if isinstance(v, tuple):
                        return N('tuple', tuple(const(x) for x in v))
                except Exception:
                    pass
            if name == 'join' and len(args) == 1:
                items = self.iter_items(args[0], st)
                if items is not None:
                    parts = []
                    for i, x in enumerate(items):
                        if i:
                            parts.append(b)
                        parts.append(x)
                    return self.mkfmt(parts)
        if b.op == 'ite' and name in PURE_METHODS:
            return mtmap(b, lambda x: self.call1(N('attr', x, name), args, kw, st) if x.op == 'const' else self.mkcall(N('attr', x, name), args, kw, st, True))
        if name == 'fill' and len(args) == 1:
            tgt = self.identity(b, st)
            self.emit('setitem', st, tgt, (tgt, N('slice', NONE, NONE, NONE), self.freeze(args[0], st)), extra='fill')
            st.cont[tgt] = N('upd', self.freeze(tgt, st), N('slice', NONE, NONE, NONE), self.freeze(args[0], st))
            return NONE
        if name == 'update' and len(args) == 1 and b.op not in ('const',):
            tgt = self.identity(b, st)
            self.emit('dupdate', st, tgt, (tgt, self.freeze(args[0], st)))
            st.cont[tgt] = N('dupdate', self.freeze(tgt, st), self.freeze(args[0], st))
            return NONE
        if name in ('append',) and len(args) == 1:
            tgt = self.identity(b, st)
            self.emit('append', st, tgt, (tgt, self.freeze(args[0], st)))
            st.cont[tgt] = N('append', self.freeze(tgt, st), self.freeze(args[0], st))
            return NONE
        if name == 'get' and args and b.op != 'const':
            fb = self.freeze(b, st)
            k = self.freeze(args[0], st)
            d = self.freeze(args[1], st) if len(args) > 1 else NONE
            h = self.hooks.get('getitem')
            if h:
                r = h(self, fb, k, st, d)
                if r is not None:
                    return r
            return N('call', N('attr', fb, 'get'), (k, d), (), 0)
        if name == 'copy' and not args:
            return N('call', N('attr', self.freeze(b, st), 'copy'), (), (), self.newuid())
        fb = self.freeze(b, st)
        return self.mkcall(N('attr', fb, name), args, kw, st, name in PURE_METHODS)

    def identity(self, b, st):
        """the identity whose current content is b"""
        for k, v in st.cont.items():
            if v is b:
                return k
        return b

    # numexpr: names in the string are read from the calling frame
    def numexpr(self, args, kw, st, fr):
        src = args[0] if args else kw.get('ex')
        fsrc = self.freeze(src, st)
        ldict = kw.get('local_dict')
        line = self.curline

        def one(s):
            s = N('fmt', (s,)) if s.op not in ('const', 'fmt') else s
            parts = [s] if s.op == 'const' else list(s.args[0])
            text, holes = '', []
            for p in parts:
                if p.op == 'const':
                    text += str(p.args[0])
                else:
                    text += f'(__hole{len(holes)}__)'
                    holes.append(p)
            try:
                t = ast.parse(text.strip(), mode='eval').body
                if any(isinstance(x, ast.Starred) for x in ast.walk(t)):
                    raise SyntaxError
            except SyntaxError:
                self.emit('ne_syntax', st, extra=text)
                return N('ne', N('unk', text))
            names = []

            def go(e):
                if isinstance(e, ast.Name):
                    if e.id.startswith('__hole'):
                        return N('hole', holes[int(e.id[6:-2])])
                    v = None
                    if ldict is not None and ldict.op == 'ref' and st.heap.get(ldict) is not None:
                        v = st.heap[ldict].known.get(const(e.id))
                    else:
                        v = self.lookup_ne(e.id, st, fr)
                    if v is None or v is ABSENT:
                        self.emit('ne_unbound', st, extra=(e.id, text))
                        return N('unk', f'ne:{e.id}')
                    v = constrain(v, st.g)
                    if v.op == 'ite' and ABSENT in leafset(v):
                        g = B.AND(st.g, bmap(v, lambda x: 1 if x is ABSENT else 0))
                        if g:
                            self.emit('ne_maybe_unbound', st, extra=(e.id, text, g))
                    names.append((e.id, self.freeze(v, st)))
                    return self.freeze(v, st)
                if isinstance(e, ast.Constant):
                    return const(e.value)
                if isinstance(e, ast.BinOp):
                    return N('bin', BINOPS[type(e.op)], go(e.left), go(e.right))
                if isinstance(e, ast.UnaryOp):
                    if isinstance(e.op, ast.Not):
                        return N('un', 'not', go(e.operand))
                    o = {'USub': '-', 'UAdd': '+', 'Invert': '~'}[type(e.op).__name__]
                    return self.unop(o, go(e.operand))
                if isinstance(e, ast.Compare):
                    l, r = go(e.left), go(e.comparators[0])
                    return N('acmp', self.CMP[type(e.ops[0]).__name__], l, r)
                if isinstance(e, ast.Call):
                    return N('call', N('nefn', e.func.id), tuple(go(x) for x in e.args), (), 0)
                if isinstance(e, ast.BoolOp):
                    r = go(e.values[0])
                    for x in e.values[1:]:
                        r = N('bin', '&' if isinstance(e.op, ast.And) else '|', r, go(x))
                    return r
                raise AnalysisError(f'numexpr syntax {ast.dump(e)}')
            body = go(t)
            env = tuple(sorted((k, v) for k, v in self.ne_env(st, fr, names))) if holes else ()
            return N('ne', body, env) if holes else N('ne', body)
        res = mtmap(fsrc, one)
        ev = self.emit('numexpr', st, N('ext', 'numexpr.evaluate'), (fsrc,), node=res)
        out = kw.get('out')
        if out is not None and not is_const(out, None):
            for g, x in leaves(out, 1):
                st.cont[x] = res if g == 1 else ite(g, res, self.freeze(x, st))
            self.emit('inplace', st, out, (out, self.freeze(out, st), res), extra='out=')
            return out
        # the result is a fresh array: give it an identity of its own
        if res.op == 'ne':
            u = N('ne', *res.args[:1], *(res.args[1:] or ((),)), self.newuid())
            return u
        return mtmap(res, lambda x: N('ne', x.args[0], x.args[1] if len(x.args) > 1 else (), self.newuid()) if x.op == 'ne' else x)

    def ne_env(self, st, fr, names):
        seen = set()
        for k, v in st.env.items():
            if v is ABSENT:
                continue
            if k == 'self' or v.op in ('func', 'cls', 'mod', 'ext'):
                continue
            yield k, self.freeze(v, st)

    def lookup_ne(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        if name in fr.module.env:
            return fr.module.env[name]
        return None

    # ----------------------------------------------------- external calls
    def extcall(self, f, args, kw, st):
        nm = f.args[0]
        h = self.hooks.get('ext')
        if h:
            r = h(self, nm, args, kw, st)
            if r is not None:
                return r
        m = getattr(self, 'x_' + nm.replace('.', '_'), None)
        if m is not None:
            r = m(args, kw, st)
            if r is not None:
                return r
        if '.' not in nm and nm in BUILTINS and (nm.endswith('Error') or nm.endswith('Exception')):
            return N('exc', f, tuple(self.freeze(a, st) for a in args))
        if nm == 'collections.namedtuple' or nm.endswith('.namedtuple'):
            spec = args[1] if len(args) > 1 else None
            if spec is not None and is_const(spec):
                return N('ntupcls', args[0].args[0], tuple(spec.args[0].replace(',', ' ').split()))
            items = self.known_items(spec, st)
            if items:
                return N('ntupcls', args[0].args[0], tuple(x.args[0] for x in items))
        pure = nm in PURE_BUILTINS or nm.startswith(PURE_EXT_PREFIX) or nm in PURE_EXT_PREFIX
        if nm in ('argparse.ArgumentParser',):
            self.uid += 1
            return N('pobj', self.uid)
        return self.mkcall(f, args, kw, st, pure)

    def x_isinstance(self, args, kw, st):
        v = constrain(args[0], st.g)
        t = args[1]
        ts = list(t.args[0]) if t.op == 'tuple' else [t]

        def one(x):
            r = 0
            for c in ts:
                c = self.resolve_lazy(c)
                k = c.args[0] if c.op == 'ext' else None
                if k is not None and '.' in k and k.rsplit('.', 1)[1] == 'MaskedArray':
                    c = N('ext', 'numpy.ma.MaskedArray')
                    k = c.args[0]
                if x.op == 'const':
                    py = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes}.get(k)
                    if py:
                        r = B.OR(r, 1 if isinstance(x.args[0], py) else 0)
                    continue
                if x.op == 'ref' and x in st.heap:
                    o = st.heap[x]
                    if o.kind == 'inst' and c.op == 'cls':
                        r = B.OR(r, 1 if self.subclass(o.cls, self.cinfo(c)) else 0)
                        continue
                    if o.kind in ('dict', 'list', 'set'):
                        r = B.OR(r, 1 if k == o.kind else 0)
                        continue
                    if o.kind == 'inst' and k:
                        r = B.OR(r, 1 if k in self.ext_bases(o.cls) else 0)
                        continue
                if x.op == 'tuple' and k:
                    r = B.OR(r, 1 if k == 'tuple' else 0)
                    continue
                if x.op == 'listv' and k:
                    r = B.OR(r, 1 if k == 'list' else 0)
                    continue
                if x.op == 'fmt' and k:
                    r = B.OR(r, 1 if k == 'str' else 0)
                    continue
                fx = self.freeze(x, st)
                if k == 'numpy.ma.MaskedArray':
                    q = self.maskedness(fx)
                    if q is not None:
                        r = B.OR(r, q)
                        continue
                r = B.OR(r, atom(N('isinst', fx, c)))
            return r
        return mkbool(bmap(v, one))

    def maskedness(self, n):
        """whether a value is a masked array (1/0), None when it depends on the input"""
        if n.op in ('ne',):
            return 0
        if n.op == 'ite':
            return None
        if n.op == 'upd':
            return self.maskedness(n.args[0])
        if n.op == 'call':
            f = n.args[0]
            if f.op == 'ext':
                nm = f.args[0]
                if nm in ('numpy.ma.masked_where', 'numpy.ma.masked_values', 'numpy.ma.masked_array', 'numpy.ma.array', 'numpy.ma.masked_equal',
                          'numpy.ma.masked_invalid', 'numpy.ma.append', 'numpy.ma.concatenate', 'numpy.ma.masked_less'):
                    return 1
                if nm in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full', 'numpy.append', 'numpy.array', 'numpy.asarray', 'numpy.einsum',
                          'numpy.ma.filled', 'numpy.concatenate', 'numpy.zeros_like', 'eccodes.codes_get_double_array', 'eccodes.codes_get_array'):
                    return 0 if nm != 'numpy.zeros_like' else None
            if f.op == 'attr' and f.args[1] == 'reshape':
                return self.maskedness(f.args[0])
        if n.op == 'aug':
            return self.maskedness(n.args[1])
        if n.op == 'sub' and n.args[1].op != 'const':
            return self.maskedness(n.args[0])
        return None

    def x_len(self, args, kw, st):
        v = args[0]
        if v.op == 'ref' and v in st.heap:
            o = st.heap[v]
            if o.kind in ('list', 'set') and o.base is None:
                return const(len(o.known))
            if o.kind == 'inst':
                m = self.clsattr(o.cls, '__len__')
                if m is not None:
                    return self.call(N('bound', v, m), [], {}, st)
        if v.op in ('tuple', 'listv'):
            return const(len(v.args[0]))
        if v.op == 'const' and isinstance(v.args[0], str):
            return const(len(v.args[0]))
        return None

    def x_dict(self, args, kw, st):
        if not args:
            return self.newref(st, HObj('dict', None, {const(k): v for k, v in kw.items() if k != '**'}, kw.get('**')))
        v = args[0]
        if v.op == 'ref' and v in st.heap and st.heap[v].kind == 'dict':
            r = self.newref(st, st.heap[v])
            for k, x in kw.items():
                self.setitem(r, const(k), x, st)
            return r
        items = self.iter_items(v, st)
        if items is not None and all(i.op == 'tuple' and len(i.args[0]) == 2 for i in items):
            r = self.newref(st, HObj('dict', None, {}))
            for i in items:
                self.setitem(r, i.args[0][0], i.args[0][1], st)
            return r
        return None

    def x_list(self, args, kw, st):
        if not args:
            return self.newref(st, HObj('list', None, ()))
        items = self.iter_items(args[0], st)
        if items is not None:
            return self.newref(st, HObj('list', None, tuple(items)))
        return N('call', N('ext', 'list'), (self.freeze(args[0], st),), (), 0)

    def x_set(self, args, kw, st):
        if not args:
            return self.newref(st, HObj('set', None, ()))
        items = self.iter_items(args[0], st)
        if items is not None:
            return self.newref(st, HObj('set', None, tuple(items)))

    def x_tuple(self, args, kw, st):
        if not args:
            return N('tuple', ())
        items = self.iter_items(args[0], st)
        if items is not None:
            return N('tuple', tuple(items))

    def x_bool(self, args, kw, st):
        if args:
            return mkbool(self.truth(args[0], st))
        return FALSE

    def x_all(self, args, kw, st, every=True):
        if len(args) != 1 or kw:
            return None
        items = self.iter_items(args[0], st)
        pairs = [(1, x) for x in items] if items is not None else self.gated_items(args[0], st)
        if pairs is None or len(pairs) > 64:
            return None
        r = 1 if every else 0
        for g, x in pairs:
            t = self.truth(x, st)
            r = B.AND(r, B.OR(B.NOT(g), t)) if every else B.OR(r, B.AND(g, t))
        return mkbool(r)

    def x_any(self, args, kw, st):
        return self.x_all(args, kw, st, False)

    def _fold(self, name, fn, args, st):
        if len(args) == 1:
            v = self.freeze(args[0], st)
            if v.op == 'const' or (v.op == 'ite' and any(x.op == 'const' for x in leafset(v))):
                def one(x):
                    if x.op == 'const':
                        try:
                            return const(fn(x.args[0]))
                        except Exception:
                            pass
                    return N('call', N('ext', name), (x,), (), 0)
                return mtmap(v, one)

    def x_int(self, args, kw, st):
        r = self._fold('int', int, args, st)
        if r is None and len(args) == 1:
            v = self.freeze(args[0], st)
            if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] == 'int':
                return v
        return r

    def x_str(self, args, kw, st):
        v = self.freeze(args[0], st) if args else const('')
        if self.strish(v):
            return v
        if v.op == 'ref' and v in st.heap and st.heap[v].kind == 'inst':
            m = self.clsattr(st.heap[v].cls, '__str__')
            if m is not None and m.op == 'func':
                return self.call(N('bound', v, m), [], {}, st)
        if v.op == 'ite' and any(x.op == 'ref' for x in leafset(v)):
            return N('call', N('ext', 'str'), (v,), (), 0)
        return self._fold('str', str, args, st)

    def x_float(self, args, kw, st):
        return self._fold('float', float, args, st)

    def x_getattr(self, args, kw, st):
        nm = self.freeze(args[1], st)
        d = args[2] if len(args) > 2 else None
        if nm.op == 'const':
            return self.getattr(args[0], nm.args[0], st, d)
        if nm.op == 'ite' and all(x.op == 'const' for x in leafset(nm)):
            outs = []
            for g, x in leaves(nm, 1):
                if B.AND(g, st.g) == 0:
                    continue
                s2 = st.copy()
                s2.g = B.AND(st.g, g)
                outs.append((g, self.getattr(args[0], x.args[0], s2, d), s2))
            return self.join(outs, st)
        # pattern: literal prefix/suffix with a hole -> the matching members
        if nm.op == 'fmt':
            cands = self.members(args[0], st)
            import re
            holes = [p for p in nm.args[0] if p.op != 'const']
            rx = ''.join(re.escape(p.args[0]) if p.op == 'const' else '(.+)' for p in nm.args[0])
            hits = [(c, re.fullmatch(rx, c)) for c in sorted(cands)]
            hits = [(c, m) for c, m in hits if m]
            if hits and len(holes) == 1:
                v = N('unk', 'no such member', nm)
                none = 1
                for c, m in hits:
                    cond = self.eq(holes[0], const(m.group(1)), st)
                    none = B.AND(none, B.NOT(cond))
                    v = ite(cond, self.getattr(args[0], c, st), v)
                if B.AND(st.g, none):
                    self.emit('attrmiss', st, args[0], (args[0], nm), extra=B.AND(st.g, none))
                    v = constrain(v, B.NOT(none))
                return v
        return N('call', N('ext', 'getattr'), tuple(self.freeze(a, st) for a in args), (), 0)

    def members(self, b, st):
        if b.op == 'mod':
            return set(self.load(b.args[0]).env)
        if b.op == 'ref' and b in st.heap and st.heap[b].kind == 'inst':
            o = st.heap[b]
            return set(o.known) | {k for c in self.mro(o.cls) for k in c.ns}
        if b.op == 'cls':
            return {k for c in self.mro(self.cinfo(b)) for k in c.ns}
        return set()

    def x_setattr(self, args, kw, st):
        nm = self.freeze(args[1], st)
        if nm.op == 'const':
            self.setattr(args[0], nm.args[0], args[2], st)
            return NONE

    def x_hasattr(self, args, kw, st):
        b, nm = args[0], self.freeze(args[1], st)
        if nm.op == 'const' and b.op == 'ref' and b in st.heap and st.heap[b].kind == 'inst':
            return const(nm.args[0] in self.members(b, st))
        if nm.op == 'const' and nm.args[0] == '__call__':
            def one(x):
                if x.op in ('func', 'bound', 'partial', 'cls'):
                    return 1
                if x.op in ('const', 'tuple', 'listv', 'ref', 'fmt', 'bool'):
                    return 0
                return atom(N('callable', x))
            return mkbool(bmap(constrain(b, st.g), one))

    def x_callable(self, args, kw, st):
        return self.x_hasattr([args[0], const('__call__')], {}, st)

    def x_functools_partial(self, args, kw, st):
        return N('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))

    def x_types_MethodType(self, args, kw, st):
        return N('bound', args[1], args[0])

    def x_map(self, args, kw, st):
        items = self.iter_items(args[1], st) if len(args) == 2 else None
        if items is not None:
            return N('listv', tuple(self.call(args[0], [x], {}, st) for x in items))
        if len(args) == 2:
            self.nloop += 1
            L = self.nloop
            self.loopinfo[L] = dict(iter=self.freeze(args[1], st), line=self.curline, path='', qual='map', test=None)
            self.loopstack.append(L)
            g0 = st.g
            st.g = B.AND(st.g, atom(N('iter', L)))
            v = self.call(args[0], [self.elem(args[1], L, st)], {}, st)
            st.g = g0
            self.loopstack.pop()
            return N('comp', 'gen', self.freeze(v, st), (const(L),), TRUE)

    def x_vars(self, args, kw, st):
        if args and args[0].op == 'cliargs':
            return args[0]
        v = args[0] if args else None
        if v is not None and v.op == 'ref' and v in st.heap and st.heap[v].kind == 'inst':
            return self.newref(st, HObj('dict', None, {const(k): x for k, x in st.heap[v].known.items()}))

    def x_type(self, args, kw, st):
        if args and args[0].op == 'ref' and args[0] in st.heap and st.heap[args[0]].kind == 'inst':
            return N('cls', st.heap[args[0]].cls.id)

    def x_print(self, args, kw, st):
        return NONE

    def x_gc_collect(self, args, kw, st):
        return NONE

    def x_copy_deepcopy(self, args, kw, st):
        v = args[0]
        if v.op == 'ref' and v in st.heap and st.heap[v].kind in ('dict', 'list'):
            return self.newref(st, st.heap[v])

    def x_itertools_chain(self, args, kw, st):
        items = [self.iter_items(a, st) for a in args]
        if all(i is not None for i in items):
            return N('listv', tuple(x for i in items for x in i))

    def x_collections_OrderedDict(self, args, kw, st):
        if not args and not kw:
            return self.newref(st, HObj('dict', None, {}))
        if len(args) == 1 and args[0].op == 'ref' and args[0] in st.heap and st.heap[args[0]].kind == 'dict':
            return self.newref(st, st.heap[args[0]])

    def x_numpy_copyto(self, args, kw, st):
        tgt = self.identity(args[0], st)
        st.cont[tgt] = self.freeze(args[1], st)
        self.emit('setitem', st, tgt, (tgt, N('slice', NONE, NONE, NONE), self.freeze(args[1], st)))
        return NONE

    # ---------------------------------------------------------- argparse
    def parser_method(self, p, name, args, kw, st):
        reg = self.parser_args.setdefault(p, {})
        if name == 'add_argument':
            flags = [a.args[0] for a in args if is_const(a)]
            dest = kw.get('dest')
            dest = dest.args[0] if dest is not None and is_const(dest) else None
            if dest is None:
                longs = [f for f in flags if f.startswith('--')]
                dest = (longs[0] if longs else flags[0]).lstrip('-').replace('-', '_')
            act = kw.get('action')
            act = act.args[0] if act is not None and is_const(act) else 'store'
            default = kw.get('default')
            if default is None:
                default = FALSE if act == 'store_true' else TRUE if act == 'store_false' else NONE
            ch = kw.get('choices')
            choices = None
            if ch is not None:
                items = self.iter_items(ch, st)
                choices = [x.args[0] for x in items] if items is not None and all(is_const(x) for x in items) else None
            reg[dest] = dict(flags=flags, default=default, action=act, type=kw.get('type'), choices=choices, line=self.curline,
                             nargs=kw.get('nargs'))
            self.emit('cli_option', st, extra=(dest, reg[dest]))
            return NONE
        if name in ('add_mutually_exclusive_group', 'add_argument_group'):
            return p
        if name == 'parse_args':
            self.emit('call', st, N('pmeth', p, name), tuple(self.freeze(a, st) for a in args))
            return N('cliargs', p)
        if name == 'print_help':
            return NONE
        return N('unk', name)

    def cli_arg(self, b, k, st):
        reg = self.parser_args.get(b.args[0], {})
        if not is_const(k):
            return N('unk', 'cli')
        o = reg.get(k.args[0])
        if o is None:
            self.emit('keyerr', st, b, (b, k), extra=st.g)
            return N('unk', f'option {show(k)}')
        h = self.hooks.get('opt')
        if h:
            r = h(self, k.args[0], o, st)
            if r is not None:
                return r
        if o['action'] in ('store_true', 'store_false'):
            return mkbool(atom(N('given', k.args[0]))) if o['action'] == 'store_true' else mkbool(B.NOT(atom(N('given', k.args[0]))))
        return ite(atom(N('given', k.args[0])), N('opt', k.args[0]), o['default'])

    # --------------------------------------------------------------- API
    def state(self):
        return St({}, dict(self.global_heap), dict(self.global_cont), 1)

    def run(self, f, args=(), kw=None, st=None):
        """abstractly call f; returns (value, state, uncaught raises)"""
        st = st or self.state()
        m = self.load(PKG)
        fr = Frame(None, m, None, None)
        self.frames.append(fr)
        self.raises.append([])
        try:
            v = self.call(f, list(args), dict(kw or {}), st)
        finally:
            self.frames.pop()
            r = self.raises.pop()
        return v, st, r
