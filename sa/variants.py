"""Behaviour-preserving rewrites of the analysed sources, in memory: a rule must give the same verdict on each of them."""
import ast
import copy
import os
import random

from .report import Report

ROOT = '/repo/src'


def sources(skip=('profilehooks.py',)):
    out = {}
    for d, _, fs in os.walk(os.path.join(ROOT, 'pyg2p')):
        for f in fs:
            if f.endswith('.py') and f not in skip:
                p = os.path.join(d, f)
                out[os.path.relpath(p, ROOT)] = open(p, encoding='utf-8').read()
    return out


def strings_of(fn):
    return ' '.join(n.value for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, str))


class T(ast.NodeTransformer):
    n = 0

    def fresh(self, p='_t'):
        T.n += 1
        return f'{p}{T.n}'


def block_rewriter(f):
    """applies f(stmt) -> list of statements to every statement of every block"""
    class R(T):
        def go(self, body):
            out = []
            for s in body:
                s = self.visit(s)
                out += f(self, s)
            return out

        def generic_visit(self, node):
            for name, val in ast.iter_fields(node):
                if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                    setattr(node, name, self.go(val))
                elif isinstance(val, list):
                    for x in val:
                        if isinstance(x, ast.AST):
                            self.visit(x)
                elif isinstance(val, ast.AST):
                    self.visit(val)
            return node
    return R


def P(s):
    return ast.parse(s).body


class Noop(T):
    """a statement that does nothing at the start of each function and loop"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body[i:i] = P('_nop = None')
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.append(ast.Pass())
        return node


class Rename(T):
    """other names for local variables, where no string mentions them (numexpr reads names from strings)"""

    def visit_FunctionDef(self, node):
        text = strings_of(node)
        nested = [x for x in ast.walk(node) if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if 'evaluate' in ast.unparse(node) or any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) for x in nested):
            return node
        params = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        lam = {a.arg for x in nested for a in ast.walk(x.args) if isinstance(a, ast.arg)}
        glob = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        stored = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        imported = {(a.asname or a.name).split('.')[0] for x in ast.walk(node) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        hnames = {x.name for x in ast.walk(node) if isinstance(x, ast.ExceptHandler) and x.name}
        m = {v: v + '_q' for v in stored - params - lam - glob - imported - hnames if v not in text.replace('{', ' ').replace('}', ' ').split() and v != '_'}

        class S(ast.NodeTransformer):
            def visit_Name(self, x):
                if x.id in m:
                    x.id = m[x.id]
                return x
        for i, b in enumerate(node.body):
            node.body[i] = S().visit(b)
        return node


def _invert(self, s):
    if isinstance(s, ast.If) and s.orelse:
        return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)]
    return [s]


def _ret(self, s):
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
        t = self.fresh()
        return [ast.Assign(targets=[ast.Name(t, ast.Store())], value=s.value, lineno=1), ast.Return(ast.Name(t, ast.Load()))]
    return [s]


def _hoist(self, s):
    """arguments of calls in statements go to temporaries first"""
    if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in s.value.args):
        c = s.value
        root = c.func
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and 'evaluate' not in ast.unparse(c.func) and root.id not in ('super',):
            pre = []
            for i, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda)):
                    t = self.fresh()
                    pre.append(ast.Assign(targets=[ast.Name(t, ast.Store())], value=a, lineno=1))
                    c.args[i] = ast.Name(t, ast.Load())
            return pre + [s]
    return [s]


def _dcomp(self, s):
    """comprehensions assigned to names become loops"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and isinstance(s.value, (ast.DictComp, ast.ListComp)):
        v = s.value
        names = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        t = self.fresh()
        m = {n: n + '_c' for n in names}

        class S(ast.NodeTransformer):
            def visit_Name(self, x):
                if x.id in m:
                    x.id = m[x.id]
                return x
        v = S().visit(copy.deepcopy(v))
        if isinstance(v, ast.DictComp):
            init = P(f'{t} = {{}}')
            body = [ast.Assign(targets=[ast.Subscript(ast.Name(t, ast.Load()), v.key, ast.Store())], value=v.value, lineno=1)]
        else:
            init = P(f'{t} = []')
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))]
        for g in reversed(v.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [], lineno=1)]
        s.value = ast.Name(t, ast.Load())
        return init + body + [s]
    return [s]


def _items(self, s):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == 'items' and not s.iter.args \
            and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) and isinstance(s.iter.func.value, (ast.Name, ast.Attribute)):
        d = s.iter.func.value
        k = s.target.elts[0]
        get = ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())
        body = [ast.Assign(targets=[s.target.elts[1]], value=get, lineno=1)] + s.body
        return [ast.For(target=k, iter=d, body=body, orelse=s.orelse, lineno=1)]
    return [s]


def _with(self, s):
    if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].optional_vars, ast.Name) and isinstance(s.items[0].context_expr, ast.Call) \
            and ast.unparse(s.items[0].context_expr.func) == 'open':
        n = s.items[0].optional_vars
        return [ast.Assign(targets=[n], value=s.items[0].context_expr, lineno=1),
                ast.Try(body=s.body, handlers=[], orelse=[], finalbody=P(f'{n.id}.close()'))]
    return [s]


def _nest(self, s):
    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
        a, rest = s.test.values[0], s.test.values[1:]
        inner = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
        return [ast.If(a, [ast.If(inner, s.body, [])], [])]
    return [s]


def _ifexp(self, s):
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
        v = s.value
        return [ast.If(v.test, [ast.Assign(targets=copy.deepcopy(s.targets), value=v.body, lineno=1)], [ast.Assign(targets=s.targets, value=v.orelse, lineno=1)])]
    return [s]


def _guard(self, s):
    """else after a branch that leaves becomes the rest of the block"""
    if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
        return [ast.If(s.test, s.body, [])] + s.orelse
    return [s]


class Swap(T):
    """a == b -> b == a, a < b -> b > a, not in"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.M:
            return ast.Compare(node.comparators[0], [self.M[type(node.ops[0])]()], [node.left])
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.In()], node.comparators))
        return node


class Delegate(T):
    """methods delegate to a private implementation"""

    def visit_ClassDef(self, node):
        out = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith('__') and not s.args.vararg and not s.args.kwarg \
                    and not s.args.kwonlyargs and s.args.args and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) \
                    and 'super()' not in ast.unparse(s):
                impl = copy.deepcopy(s)
                impl.name = '_impl' + s.name
                impl.args.defaults = []
                call = ', '.join(a.arg for a in s.args.args[1:])
                s.body = P(f'return self.{impl.name}({call})') if s.args.args[0].arg == 'self' else s.body
                if s.args.args[0].arg == 'self':
                    out.append(impl)
            out.append(s)
        node.body = out
        return node


class Helper(T):
    """the last statements of long methods move to a helper method"""

    def visit_ClassDef(self, node):
        out = []
        for s in node.body:
            h = None
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == 'self' and not s.decorator_list and len(s.body) >= 3 \
                    and 'evaluate' not in ast.unparse(s) and 'super()' not in ast.unparse(s) and not s.args.kwarg and not s.args.vararg:
                k = len(s.body) // 2
                tail = s.body[k:]
                head = s.body[:k]
                if not any(isinstance(x, (ast.Return, ast.Yield)) for b in head for x in ast.walk(b)) and not any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Global)) for b in s.body for x in ast.walk(b)):
                    inner = {id(y) for b in head for c in ast.walk(b) if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
                             for y in ast.walk(c)}
                    stored = {x.id for b in head for x in ast.walk(b) if id(x) not in inner and isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    stored |= {(a.asname or a.name).split('.')[0] for b in head for x in ast.walk(b) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
                    params = {a.arg for a in s.args.args[1:]}
                    used = {x.id for b in tail for x in ast.walk(b) if isinstance(x, ast.Name)}
                    # names bound on every path of the head only
                    sure = {x.id for b in head if isinstance(b, (ast.Assign, ast.AugAssign)) for x in ast.walk(b)
                            if id(x) not in inner and isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    sure |= {(a.asname or a.name).split('.')[0] for b in head if isinstance(b, (ast.Import, ast.ImportFrom)) for a in b.names}
                    need = sorted((stored | params) & used)
                    if set(need) <= sure | params:
                        h = ast.FunctionDef(name='_rest_of' + s.name, args=ast.arguments(posonlyargs=[], args=[ast.arg('self')] + [ast.arg(n) for n in need],
                                            kwonlyargs=[], kw_defaults=[], defaults=[]), body=tail, decorator_list=[], lineno=1)
                        s.body = head + P(f"return self.{h.name}({', '.join(need)})")
                        if not any(isinstance(x, ast.Return) for b in tail for x in ast.walk(b)):
                            s.body = head + P(f"self.{h.name}({', '.join(need)})")
            out.append(s)
            if h is not None:
                out.append(h)
        node.body = out
        return node


VARIANTS = {'no-op statements': Noop, 'other local names': Rename, 'inverted branches': block_rewriter(_invert), 'returns through temporaries': block_rewriter(_ret),
            'arguments through temporaries': block_rewriter(_hoist), 'comprehensions as loops': block_rewriter(_dcomp), 'iteration over keys': block_rewriter(_items),
            'with as try/finally': block_rewriter(_with), 'nested conditions': block_rewriter(_nest), 'conditional expressions as statements': block_rewriter(_ifexp),
            'else after return dropped': block_rewriter(_guard), 'swapped comparisons': Swap, 'delegating methods': Delegate, 'tails moved to helpers': Helper}


def overlay_of(cls, only=None):
    out = {}
    for p, src in sources().items():
        if only and p not in only:
            continue
        try:
            t = cls().visit(ast.parse(src))
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            ast.parse(new)
            out[p] = new
        except SyntaxError:
            continue
    return out


def one(pid, name):
    """in its own process: the evaluator keeps tables of everything it has seen"""
    import importlib
    mod = importlib.import_module('rules.' + pid.lower())
    r = Report(pid, 'variant')
    try:
        mod.check(r, overlay_of(VARIANTS[name]))
        return {'obligations': len(r.obs), 'bad': sorted(k for k, *_ in r.bad())}
    except Exception as ex:
        return {'error': f'{type(ex).__name__}: {ex}'}


def run(pid, mod, rep, seed, names=None):
    import concurrent.futures
    import json
    import subprocess
    import sys
    bad0 = {k for k, *_ in rep.bad()}
    order = list(names or VARIANTS)
    random.Random(seed).shuffle(order)

    def go(name):
        p = subprocess.run([sys.executable, '-m', 'sa.variants', pid, name], capture_output=True, text=True, timeout=1500,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        try:
            return json.loads(p.stdout.strip().split('\n')[-1])
        except ValueError:
            return {'error': p.stderr[-300:]}
    out = {}
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for name, r in zip(order, ex.map(go, order)):
            bad = set(r.pop('bad', ()))
            r['same_verdict'] = 'error' not in r and bool(bad) == bool(bad0)
            r['additional'] = sorted(bad - bad0)[:5]
            out[name] = r
    return out


if __name__ == '__main__':
    import json
    import sys
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
    print(json.dumps(one(sys.argv[1], sys.argv[2])))
