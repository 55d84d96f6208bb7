"""Local names that can be read before they are assigned: path-sensitive definite assignment.

Each function is walked once; the state holds the condition of the path (a BDD over the texts of the tests met,
versioned by the assignments to the names in them) and, for each local name, the part of it under which the name
has no value yet.  Loops are taken to run at least once and exceptions to leave a try block at its begin or at its end.
"""
import ast
import builtins

from .core import B, N, atom

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__builtins__', '__package__', '__spec__', '__class__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class S:
    __slots__ = ('g', 'un', 'ver', 'truth')

    def __init__(self, g, un, ver, truth):
        self.g, self.un, self.ver, self.truth = g, un, ver, truth

    def copy(self):
        return S(self.g, dict(self.un), dict(self.ver), dict(self.truth))


class Flow:
    def __init__(self, fn, path, consts=None):
        self.fn, self.path, self.consts = fn, path, consts or {}
        self.found = {}
        self.n = 0
        self.loops = []
        self.pairs = {}
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.locals = set()
        glob = set()
        for s in fn.body:
            self.collect(s, glob)
        self.locals -= glob | self.params
        self.uses = 0

    def collect(self, n, glob):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            return
        if isinstance(n, (ast.Lambda,) + COMPS):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            self.locals |= {(x.asname or x.name).split('.')[0] for x in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.collect(c, glob)

    def run(self):
        st = S(1, {v: 1 for v in self.locals}, {}, {})
        self.block(self.fn.body, st)
        return self

    # ------------------------------------------------------------ states
    def fresh(self):
        self.n += 1
        return self.n

    def var(self, key):
        return atom(N('flow', id(self.fn), key))

    def join(self, a, b):
        if a is None or not a.g:
            return b
        if b is None or not b.g:
            return a
        r = S(B.OR(a.g, b.g), {}, {}, {})
        for v in self.locals:
            r.un[v] = B.OR(a.un[v], b.un[v])
        for v in set(a.ver) | set(b.ver):
            x, y = a.ver.get(v, 0), b.ver.get(v, 0)
            r.ver[v] = x if x == y else self.fresh()
            if x == y and v in a.truth and a.truth.get(v) == b.truth.get(v):
                r.truth[v] = a.truth[v]
            elif v.isidentifier() and x != y:
                r.truth[v] = B.OR(B.AND(a.g, self.truthof(v, a)), B.AND(b.g, self.truthof(v, b)))
        return r

    def truthof(self, v, st):
        if v in st.truth:
            return st.truth[v]
        return self.var((f'truth {v}', st.ver.get(v, 0)))

    def version(self, text, names, st):
        return (text,) + tuple((n, st.ver[n]) for n in sorted(names) if st.ver.get(n))

    def test(self, e, st):
        """condition of a test"""
        if isinstance(e, ast.BoolOp):
            r = None
            for x in e.values:
                t = self.test(x, st)
                r = t if r is None else (B.AND(r, t) if isinstance(e.op, ast.And) else B.OR(r, t))
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return B.NOT(self.test(e.operand, st))
        if isinstance(e, ast.Constant):
            return 1 if e.value else 0
        if isinstance(e, ast.NamedExpr):
            return self.test(e.value, st)
        if isinstance(e, ast.Name):
            if e.id not in self.locals and e.id not in self.params and e.id in self.consts:
                return 1 if self.consts[e.id] else 0
            return self.truthof(e.id, st)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            o, a, b = e.ops[0], e.left, e.comparators[0]
            neg = isinstance(o, (ast.NotEq, ast.IsNot, ast.NotIn))
            if isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
                r = 0
                for x in b.elts:
                    r = B.OR(r, self.equal(a, x, st))
            elif isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                r = self.equal(a, b, st)
            elif isinstance(o, (ast.In, ast.NotIn)):
                r = self.var(self.version('in ' + ast.unparse(a) + ' | ' + ast.unparse(b), self.names(e), st))
            else:
                # a < b, a >= b, b > a and b <= a are one condition
                x, y = ast.unparse(a), ast.unparse(b)
                if isinstance(o, (ast.Gt, ast.LtE)):
                    x, y = y, x
                neg = isinstance(o, (ast.GtE, ast.LtE))
                r = self.var(self.version(f'{x} < {y}', self.names(e), st))
            return B.NOT(r) if neg else r
        return self.var(self.version('truth ' + ast.unparse(e), self.names(e), st))

    def equal(self, a, b, st):
        if isinstance(a, ast.Constant) and not isinstance(b, ast.Constant):
            a, b = b, a
        if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
            return 1 if a.value == b.value else 0
        if not isinstance(b, ast.Constant) and ast.unparse(b) < ast.unparse(a):
            a, b = b, a
        if isinstance(b, ast.Constant) and b.value in (True, False) and isinstance(b.value, bool):
            t = self.test(a, st)
            return t if b.value else B.NOT(t)
        what = self.version(ast.unparse(a), self.names(a), st)
        r = self.var(('eq', what, self.version(ast.unparse(b), self.names(b), st)))
        self.pairs.setdefault(what, {})[ast.unparse(b) if isinstance(b, ast.Constant) or ast.unparse(b).split('.')[-1].isupper() else id(b)] = r
        return r

    def names(self, e):
        return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} | {ast.unparse(x) for x in ast.walk(e) if isinstance(x, ast.Attribute)}

    def possible(self, g):
        """satisfiable with one value per tested expression"""
        if not g:
            return 0
        sup = set(B.support(g))
        for what, d in self.pairs.items():
            vs = list({v for v in d.values()})
            vs = [v for v in vs if set(B.support(v)) & sup]
            for i, x in enumerate(vs):
                for y in vs[i + 1:]:
                    g = B.AND(g, B.NOT(B.AND(x, y)))
                    if not g:
                        return 0
        return g

    def assign(self, name, st, truth=None):
        if name in self.locals:
            st.un[name] = 0
        st.ver[name] = self.fresh()
        st.truth.pop(name, None)
        if truth is not None:
            st.truth[name] = truth
        for k in list(st.ver):
            if k.startswith(name + '.'):
                st.ver[k] = self.fresh()

    # ------------------------------------------------------------ expressions
    def use(self, e, st):
        if e is None:
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + e.args.kw_defaults:
                self.use(d, st)
            return
        if isinstance(e, COMPS):
            bound = set()
            self.use(e.generators[0].iter, st)
            for i, c in enumerate(e.generators):
                bound |= {x.id for x in ast.walk(c.target) if isinstance(x, ast.Name)}
            rest = [c.iter for c in e.generators[1:]] + [x for c in e.generators for x in c.ifs] + ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])
            hidden = {v: st.un[v] for v in bound if v in st.un}
            for v in hidden:
                st.un[v] = 0
            for x in rest:
                self.use(x, st)
            st.un.update(hidden)
            return
        if isinstance(e, ast.BoolOp):
            t = st
            for x in e.values:
                self.use(x, t)
                c = self.test(x, t)
                t = t.copy()
                t.g = B.AND(t.g, c if isinstance(e.op, ast.And) else B.NOT(c))
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, st)
            c = self.test(e.test, st)
            for x, k in ((e.body, c), (e.orelse, B.NOT(c))):
                t = st.copy()
                t.g = B.AND(t.g, k)
                self.use(x, t)
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, st)
            self.assign(e.target.id, st)
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            self.read(e, st)
            return
        for c in ast.iter_child_nodes(e):
            self.use(c, st)

    def read(self, e, st):
        self.uses += 1
        if e.id in self.locals:
            g = self.possible(B.AND(st.g, st.un[e.id]))
            if g:
                k = (e.id,)
                if k not in self.found:
                    self.found[k] = (e.lineno, g, st.g)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None or not st.g:
                return None
            st = self.stmt(s, st)
        return st if st is not None and st.g else None

    def stored(self, n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(ast.unparse(x))
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
        return out

    def target(self, t, st, truth=None):
        if isinstance(t, ast.Name):
            self.assign(t.id, st, truth)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, st)
        elif isinstance(t, ast.Starred):
            self.target(t.value, st)
        elif isinstance(t, ast.Attribute):
            self.use(t.value, st)
            st.ver[ast.unparse(t)] = self.fresh()
        else:
            self.use(t, st)

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list + ([] if isinstance(s, ast.ClassDef) else s.args.defaults + [x for x in s.args.kw_defaults if x]):
                self.use(d, st)
            self.assign(s.name, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                self.assign((x.asname or x.name).split('.')[0], st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, st)
            return None
        if isinstance(s, ast.Break):
            self.loops[-1].append(st)
            return None
        if isinstance(s, ast.Continue):
            self.conts[-1].append(st)
            return None
        if isinstance(s, ast.If):
            self.use(s.test, st)
            c = self.test(s.test, st)
            a, b = st.copy(), st
            a.g, b.g = B.AND(st.g, c), B.AND(st.g, B.NOT(c))
            for x in (a, b):
                for v in self.locals:
                    x.un[v] = B.AND(x.un[v], x.g)
            return self.join(self.block(s.body, a) if a.g else None, self.block(s.orelse, b) if b.g else None)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            return self.attempt(s, st)
        if isinstance(s, ast.Match):
            self.use(s.subject, st)
            out = st.copy() if not any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases) else None
            for c in s.cases:
                t = st.copy()
                t.g = B.AND(t.g, self.var(('case', self.fresh())))
                for x in ast.walk(c.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        self.assign(x.name, t)
                self.use(c.guard, t)
                out = self.join(out, self.block(c.body, t))
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                self.use(s.value, st)
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return st
            truth = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, (ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name)):
                truth = self.test(s.value, st)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.target(t, st, truth)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    if t.id in self.locals:
                        st.un[t.id] = st.g
                    st.ver[t.id] = self.fresh()
                else:
                    self.use(t, st)
            return st
        if isinstance(s, ast.Assert):
            self.use(s.test, st)
            st.g = B.AND(st.g, self.test(s.test, st))
            return st
        for c in ast.iter_child_nodes(s):
            self.use(c, st)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
            return None
        return st

    def loop(self, s, st):
        if isinstance(s, ast.While):
            endless = isinstance(s.test, ast.Constant) and s.test.value
            self.use(s.test, st)
        else:
            endless = False
            self.use(s.iter, st)
        changed = self.stored(ast.Module(s.body, [])) | (self.stored(s.target) if hasattr(s, 'target') else set())
        for v in changed:
            st.ver[v] = self.fresh()
            st.truth.pop(v, None)
        t = st.copy()
        if hasattr(s, 'target'):
            self.target(s.target, t)
        elif not endless:
            t.g = B.AND(t.g, self.test(s.test, t))
        self.loops.append([])
        self.conts = getattr(self, 'conts', [])
        self.conts.append([])
        end = self.block(s.body, t)
        for c in self.conts.pop():
            end = self.join(end, c)
        breaks = self.loops.pop()
        out = None
        if not endless:
            out = end if end is not None else st
            out = out.copy()
            # names assigned in the loop have a value after it, in some iteration
            for v in changed & self.locals:
                if not any(isinstance(x, ast.Delete) and any(isinstance(y, ast.Name) and y.id == v for y in x.targets) for x in ast.walk(s)):
                    out.un[v] = 0
                out.ver[v] = self.fresh()
                out.truth.pop(v, None)
            out.g = st.g
            if s.orelse:
                out = self.block(s.orelse, out)
        for b in breaks:
            out = self.join(out, b)
        return out

    def attempt(self, s, st):
        e = self.var(('exception', self.fresh()))
        body = st.copy()
        if s.handlers:
            body.g = B.AND(body.g, B.NOT(e))
            for v in self.locals:
                body.un[v] = B.AND(body.un[v], body.g)
        first = st.copy()
        end = self.block(s.body, body)
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        for i, h in enumerate(s.handlers):
            t = first.copy()
            c = self.var(('handler', id(h)))
            t.g = B.AND(B.AND(first.g, e), c if i < len(s.handlers) - 1 else 1)
            for v in self.locals:
                t.un[v] = B.AND(t.un[v], t.g)
            for v in self.stored(ast.Module(s.body, [])):
                t.ver[v] = self.fresh()
                t.truth.pop(v, None)
            if h.name:
                self.assign(h.name, t)
            t = self.block(h.body, t)
            if t is not None and h.name and h.name in self.locals:
                t.un[h.name] = t.g
            end = self.join(end, t)
        if s.finalbody:
            if end is None:
                fin = first.copy()
                for v in self.stored(ast.Module(s.body, [])):
                    if v in fin.un:
                        fin.un[v] = 0
                self.block(s.finalbody, fin)
                return None
            end = self.block(s.finalbody, end)
        return end


def constants(tree):
    """module names bound once, to a constant"""
    out, seen = {}, set()
    for s in ast.walk(tree):
        for t in getattr(s, 'targets', []) if isinstance(s, ast.Assign) else []:
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    if x.id in seen:
                        out.pop(x.id, None)
                    elif s in tree.body and isinstance(s.value, ast.Constant):
                        out[x.id] = s.value.value
                    seen.add(x.id)
    return out


def functions(tree):
    out = []

    def go(n, qual):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(('.'.join(qual + [c.name]), c))
                go(c, qual + [c.name])
            elif isinstance(c, ast.ClassDef):
                go(c, qual + [c.name])
            else:
                go(c, qual)
    go(tree, [])
    return out


def unbound(fn, path, consts):
    f = Flow(fn, path, consts).run()
    return f.found, f.uses


def undefined_globals(tree, path):
    """names read that no scope binds: [(line, function, name)]"""
    import symtable
    out = []
    star = any(isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names) for s in ast.walk(tree))
    if star:
        return out
    top = set()

    def bind(n, s):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            s.add(n.name)
            return
        if isinstance(n, COMPS + (ast.Lambda,)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            s |= {(x.asname or x.name).split('.')[0] for x in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        for c in ast.iter_child_nodes(n):
            bind(c, s)
    for s in tree.body:
        bind(s, top)
    for x in ast.walk(tree):
        if isinstance(x, ast.Global):
            top |= set(x.names)

    def scope(n, names, qual, cls):
        own = set(names)
        if isinstance(n, FUNCS):
            a = n.args
            own |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            body = n.body if isinstance(n.body, list) else [n.body]
            for s in body:
                bind(s, own)
                for x in ast.walk(s):
                    if isinstance(x, ast.NamedExpr):
                        own.add(x.target.id)
        else:
            body = n.body if isinstance(n, ast.ClassDef) else [n]
        inside = own
        if isinstance(n, ast.ClassDef):
            inside = set(names)
            own = set(names)
            for s in body:
                bind(s, own)
        for s in body:
            visit(s, own, inside, qual)

    def visit(n, own, inside, qual):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            name = getattr(n, 'name', '<lambda>')
            for d in getattr(n, 'decorator_list', []) + (n.bases if isinstance(n, ast.ClassDef) else n.args.defaults + [x for x in n.args.kw_defaults if x]):
                visit(d, own, inside, qual)
            scope(n, inside, qual + [name], isinstance(n, ast.ClassDef))
            return
        if isinstance(n, COMPS):
            mine = set(own)
            for c in n.generators:
                mine |= {x.id for x in ast.walk(c.target) if isinstance(x, ast.Name)}
            for c in ast.iter_child_nodes(n):
                visit(c, mine, mine, qual)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in own and n.id not in top and n.id not in BUILTINS:
            out.append((n.lineno, '.'.join(qual), n.id))
        for c in ast.iter_child_nodes(n):
            visit(c, own, inside, qual)
    for s in tree.body:
        visit(s, top, top, [])
    return out
