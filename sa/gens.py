"""Generator functions, context managers and iter(function, sentinel): rewritten into the statements they stand for"""
import ast
import copy

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def own(node):
    """nodes of a function without those of nested functions"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))


def yields(node):
    """a generator function"""
    v = getattr(node, 'is_gen_', None)
    if v is None:
        v = node.is_gen_ = isinstance(node, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(node))
    return v


def outer(body, kinds):
    """break/continue of the loop this is the body of"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, SCOPES):
            continue
        if isinstance(n, (ast.For, ast.While)):
            todo.extend(n.orelse)
        else:
            todo.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    a = node.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    for n in own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            return None
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name.split('.')[0]) for x in n.names}
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, names, pre):
        self.names, self.pre = names, pre

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(self.pre + n.id, n.ctx), n) if n.id in self.names else n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.pre + n.name
        return n

    def visit_alias(self, n):
        x = n.asname or n.name.split('.')[0]
        if x in self.names:
            n.asname = self.pre + x
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.pre + n.name
        # parameters of nested functions hide names
        for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]:
            if x.arg in self.names:
                x.arg = self.pre + x.arg
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]:
            if x.arg in self.names:
                x.arg = self.pre + x.arg
        return n


class Yields(ast.NodeTransformer):
    """statements for every yield"""

    def __init__(self, make, make_from):
        self.make, self.make_from, self.n, self.bad = make, make_from, 0, False

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            self.n += 1
            return self.make(n.value.value or ast.copy_location(ast.Constant(None), n), n)
        if isinstance(n.value, ast.YieldFrom):
            self.n += 1
            return self.make_from(n.value.value, n)
        return self.generic_visit(n)

    def visit_Yield(self, n):
        self.bad = True
        return n

    visit_YieldFrom = visit_Yield


class Returns(ast.NodeTransformer):
    """return of a generator that stands outside loops"""

    def __init__(self):
        self.bad, self.found = False, False

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        if any(isinstance(x, ast.Return) for x in own(n)):
            self.bad = True
        return n

    visit_While = visit_For

    def visit_Return(self, n):
        self.found = True
        return ast.copy_location(ast.Break(), n)


def once(body, at):
    """the statements in a loop that is run once"""
    x = ast.For(ast.Name('once ', ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()), body, [])
    return fixed(x, at)


def fixed(x, at):
    for n in ast.walk(x):
        if isinstance(n, (ast.stmt, ast.expr, ast.excepthandler)) and not hasattr(n, 'lineno'):
            n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = at.lineno, at.col_offset, at.lineno, at.col_offset
    return x


class Generators:
    """part of the engine"""

    def generator(self, call, st, fr):
        """(FuncInfo, values of its parameters) when the expression is the call of a generator function that can be inlined here"""
        if not isinstance(call, ast.Call) or not isinstance(call.func, (ast.Name, ast.Attribute)):
            return None
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        if isinstance(call.func, ast.Attribute) and not isinstance(call.func.value, ast.Name):
            return None
        f = self.ev(call.func, st, fr)
        recv = None
        if f.op == 'bound':
            recv, f = f.args[0], f.args[1]
        if f.op != 'func':
            return None
        fi = self.finfo(f)
        if not yields(fi.node) or fi.kind == 'prop' or self.active.get(fi.id, 0) or fi.module is not fr.module:
            return None
        if fi.env is not None and (fr.fi is None or not fi.qual.startswith(fr.fi.qual + '.')):
            return None
        names = local_names(fi.node)
        if names is None or any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(fi.node)):
            return None
        return fi, names, recv

    def inlined(self, call, found, make, make_from, st, fr, single=False):
        """statements of the generator, with its parameters bound; None when it cannot be written that way"""
        fi, names, recv = found
        node = fi.node
        a = node.args
        if a.vararg or a.kwarg:
            return None
        pre = f'{fi.name} {len(self.frames)} '
        tmp = copy.deepcopy(node)
        ren = Rename(names, pre)
        body = [ren.visit(x) for x in tmp.body]
        y = Yields(make, make_from)
        out = []
        for x in body:
            x = y.visit(x)
            out += x if isinstance(x, list) else [x]
        if y.bad or single and y.n != 1:
            return None
        rt = Returns()
        out = [rt.visit(x) for x in out] if not single else out
        if rt.bad or single and any(isinstance(x, ast.Return) for x in own(node)):
            return None
        if rt.found:
            out = [once(out, call)]
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = ([recv] if recv is not None and fi.kind != 'static' else []) + [self.ev(x, st, fr) for x in call.args]
        kw = {k.arg: self.ev(k.value, st, fr) for k in call.keywords}
        if len(vals) > len(pos):
            return None
        env = dict(zip(pos, vals))
        nd = len(fi.defaults)
        for i, p in enumerate(pos):
            if p in env:
                continue
            j = i - (len(pos) - nd)
            v = kw.pop(p, fi.defaults[j] if j >= 0 else None)
            if v is None:
                return None
            env[p] = v
        for x, d in zip(a.kwonlyargs, fi.kwdefaults):
            v = kw.pop(x.arg, d)
            if v is None:
                return None
            env[x.arg] = v
        if kw:
            return None
        for p, v in env.items():
            st.env[pre + p] = v
        self.visited[fi.qual] = self.visited.get(fi.qual, 0) + 1
        for x in out:
            fixed(x, call)
        return out

    def for_statements(self, s, st, fr):
        """the statements a loop over a generator or iter(function, sentinel) stands for, or None"""
        it = s.iter
        if not isinstance(it, ast.Call) or s.orelse:
            return None
        if isinstance(it.func, ast.Name) and it.func.id == 'iter' and len(it.args) == 2 and not it.keywords:
            f, end = it.args
            v = f'next {len(self.frames)} {s.lineno}'
            value = f.body if isinstance(f, ast.Lambda) and not f.args.args else ast.Call(f, [], [])
            op = ast.Is() if isinstance(end, ast.Constant) and end.value is None else ast.Eq()
            body = [ast.Assign([ast.Name(v, ast.Store())], value), ast.If(ast.Compare(ast.Name(v, ast.Load()), [op], [end]), [ast.Break()], []),
                    ast.Assign([s.target], ast.Name(v, ast.Load()))] + s.body
            return [fixed(ast.While(ast.Constant(True), body, []), s)]
        found = self.generator(it, st, fr)
        if found is None or outer(s.body, (ast.Break,)):
            return None

        def make(value, at):
            if not outer(s.body, (ast.Continue,)):
                return [fixed(ast.Assign([s.target], value), at)] + s.body
            return fixed(ast.For(s.target, ast.Tuple([value], ast.Load()), s.body, []), at)

        def make_from(value, at):
            return fixed(ast.For(s.target, value, s.body, []), at)
        return self.inlined(it, found, make, make_from, st, fr)

    def with_statements(self, s, st, fr):
        """the statements a with statement over a function of contextlib.contextmanager stands for, or None"""
        it = s.items[0]
        found = self.generator(it.context_expr, st, fr)
        if found is None or not any(d.split('(')[0].split('.')[-1] == 'contextmanager' for d in found[0].decorators):
            return None
        rest = [fixed(ast.With(s.items[1:], s.body), s)] if len(s.items) > 1 else s.body

        def make(value, at):
            return ([fixed(ast.Assign([it.optional_vars], value), at)] if it.optional_vars is not None else [fixed(ast.Expr(value), at)]) + rest
        return self.inlined(it.context_expr, found, make, lambda value, at: fixed(ast.Pass(), at), st, fr, single=True)

    def comp_statements(self, e, st, fr):
        """(statements, name) a list comprehension over a generator stands for, or None"""
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        if self.generator(g.iter, st, fr) is None:
            return None
        name = f'collected {len(self.frames)} {e.lineno} {e.col_offset}'
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        ren = Rename(names, name + ' ')
        mapping = isinstance(e, ast.DictComp)
        elt, target, ifs = (ren.visit(copy.deepcopy(x)) for x in (ast.Tuple([e.key, e.value], ast.Load()) if mapping else e.elt, g.target, ast.Tuple(list(g.ifs), ast.Load())))
        if mapping:
            body = [ast.Assign([ast.Subscript(ast.Name(name, ast.Load()), elt.elts[0], ast.Store())], elt.elts[1])]
        else:
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [elt], []))]
        for c in reversed(ifs.elts):
            body = [ast.If(c, body, [])]
        loop = fixed(ast.For(target, g.iter, body, []), e)
        first = fixed(ast.Assign([ast.Name(name, ast.Store())], ast.Dict([], []) if mapping else ast.List([], ast.Load())), e)
        return [first, loop], name

    @staticmethod
    def over_list(e):
        """the call over the list of what the generator gives"""
        x = getattr(e, 'over_list_', None)
        if x is None:
            n = [ast.Name(f'item {i}', ast.Load()) for i in (0, 1)]
            if e.func.id == 'dict':
                t = ast.Tuple([ast.Name(y.id, ast.Store()) for y in n], ast.Store())
                v = ast.DictComp(n[0], n[1], [ast.comprehension(t, e.args[0], [], 0)])
            else:
                v = ast.ListComp(ast.Name('item ', ast.Load()), [ast.comprehension(ast.Name('item ', ast.Store()), e.args[0], [], 0)])
            x = e.over_list_ = fixed(ast.Call(e.func, [v] + e.args[1:], e.keywords), e)
        return x
