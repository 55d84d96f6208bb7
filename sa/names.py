"""What names of the package refer to: module names, imports, class members and signatures, from the syntax trees."""
import ast
import builtins
import os
import string
import warnings

SAFE_DECOS = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'lru_cache', 'cache', 'wraps', 'override', 'cached_property'}
KNOWN_BASES = {'object': object, 'ABC': object, 'Protocol': None, 'Generic': None}
for _n in dir(builtins):
    _v = getattr(builtins, _n)
    if isinstance(_v, type):
        KNOWN_BASES.setdefault(_n, _v)


class Module:
    def __init__(self, name, path, tree, package):
        self.name, self.path, self.tree, self.package = name, path, tree, package
        self.names = {}         # name -> ('class', C) | ('func', node) | ('mod', dotted) | ('from', dotted, name) | ('other', None)
        self.star = False


class Class:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.members = {}       # name -> function node or None
        self.bases = []         # Class | python type | None (not known)
        self.subs = []
        self.open = False       # members that are not visible in the text

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for x in b.mro():
                    if x not in out:
                        out.append(x)
            elif b not in out:
                out.append(b)
        return out

    def family(self):
        out = [self]
        for s in self.subs:
            out += [x for x in s.family() if x not in out]
        return out


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + '.' + n.attr
    return None


def binds(stmts):
    """names bound by statements of one scope"""
    out = []

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append((n.name, n))
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append((n.id, None))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.append((a.asname or a.name.split('.')[0], (n, a)))
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.append((n.name, None))
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return out


class Names:
    def __init__(self, root, files):
        """files: relative path -> source, below root; relative paths begin with the package name"""
        self.mods = {}
        self.classes = []
        self.errors = []
        for rel, text in sorted(files.items()):
            parts = rel[:-3].split('/')
            pkg = parts[-1] == '__init__'
            name = '.'.join(parts[:-1] if pkg else parts)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(text)
            except SyntaxError as ex:
                self.errors.append((rel, ex.lineno, f'cannot be parsed: {ex.msg}'))
                continue
            self.mods[name] = Module(name, rel, tree, pkg)
        for m in self.mods.values():
            self.fill(m)
        for c in self.classes:
            for b in c.node.bases:
                c.bases.append(self.base(c.mod, b))
            if c.node.keywords and any(k.arg != 'metaclass' or (dotted(k.value) or '').split('.')[-1] != 'ABCMeta' for k in c.node.keywords):
                c.open = True
            if c.node.decorator_list:
                c.open = True
        for c in self.classes:
            for b in c.bases:
                if isinstance(b, Class):
                    b.subs.append(c)
        self.outside = set()        # attributes given to objects that are not self
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                    if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        self.outside.add(x.args[1].value)
                    elif isinstance(x.args[0], ast.Name) and x.args[0].id == 'self':
                        continue        # the class is open
                    else:
                        self.outside.add(None)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls')):
                    self.outside.add(x.attr)
        for c in self.classes:
            self.members(c)

    def fill(self, m):
        for name, what in binds(m.tree.body):
            if isinstance(what, ast.ClassDef):
                c = Class(what, m)
                self.classes.append(c)
                new = ('class', c)
            elif isinstance(what, (ast.FunctionDef, ast.AsyncFunctionDef)):
                new = ('func', what)
            elif isinstance(what, tuple):
                n, a = what
                if isinstance(n, ast.Import):
                    new = ('mod', a.name if a.asname else a.name.split('.')[0])
                else:
                    base = n.module or ''
                    if n.level:
                        up = m.name.split('.')
                        up = up if m.package else up[:-1]
                        up = up[:len(up) - (n.level - 1)]
                        base = '.'.join(up + ([n.module] if n.module else []))
                    if a.name == '*':
                        m.star = True
                        continue
                    new = ('from', base, a.name)
            else:
                new = ('other', None)
            m.names[name] = new if name not in m.names or m.names[name] == new else ('other', None)

    def own(self, name):
        return name.split('.')[0] in {x.split('.')[0] for x in self.mods}

    def lookup(self, m, name, depth=0):
        """what a module level name refers to"""
        r = m.names.get(name)
        if r is None:
            sub = m.name + '.' + name
            if sub in self.mods and m.package:
                return ('module', self.mods[sub])
            return None
        if r[0] == 'mod':
            return ('module', self.mods[r[1]]) if r[1] in self.mods else ('other', None)
        if r[0] == 'from':
            if not self.own(r[1]):
                return ('other', r[2])
            t = self.mods.get(r[1])
            sub = f'{r[1]}.{r[2]}'
            if t is None or depth > 8:
                return ('other', None)
            got = self.lookup(t, r[2], depth + 1) if t is not m or r[2] != name else None
            if got is None and sub in self.mods:
                return ('module', self.mods[sub])
            if got is None and t.star:
                return ('other', None)
            return got
        return r

    def resolve(self, m, n):
        """what an expression of names and attributes refers to; None when a module of the package has no such name"""
        if isinstance(n, ast.Name):
            if n.id in m.names:
                return self.lookup(m, n.id) or ('other', None)
            return ('other', None)
        if isinstance(n, ast.Attribute):
            b = self.resolve(m, n.value)
            if b is None:
                return ('other', None)
            if b[0] == 'module':
                r = self.lookup(b[1], n.attr)
                if r is None and (b[1].star or n.attr in ('__name__', '__file__', '__doc__', '__path__', '__version__')):
                    return ('other', None)
                return r
            if b[0] == 'class':
                return ('member', b[1], n.attr)
        return ('other', None)

    def base(self, m, n):
        if isinstance(n, ast.Call):
            return None
        r = self.resolve(m, n)
        if r and r[0] == 'class':
            return r[1]
        t = (dotted(n) or '').split('.')[-1]
        return KNOWN_BASES.get(t)

    def members(self, c):
        for name, what in binds(c.node.body):
            c.members[name] = what if isinstance(what, (ast.FunctionDef, ast.AsyncFunctionDef)) and name not in c.members else None
        for x in ast.walk(c.node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.args.args:
                me = x.args.args[0].arg
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id in (me, 'self', c.name):
                        c.members.setdefault(y.attr, None)
                        if c.members[y.attr] is not None:
                            c.members[y.attr] = None
                    if isinstance(y, ast.Attribute) and y.attr == '__dict__' or \
                            isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('vars', 'setattr', 'exec') and \
                            (y.func.id == 'exec' or y.args and isinstance(y.args[0], ast.Name) and y.args[0].id == me):
                        c.open = True
        if '__getattr__' in c.members or '__getattribute__' in c.members or '__slots__' in c.members:
            c.open = True

    def member(self, c, name):
        """('yes', function or None) | ('no',) | ('?',)"""
        for x in c.mro():
            if x is None:
                return ('?',)
            if isinstance(x, Class):
                if name in x.members:
                    return ('yes', x.members[name], x)
                if x.open:
                    return ('?',)
            elif hasattr(x, name):
                return ('yes', None, None)
        if hasattr(object, name) or name in ('__name__', '__qualname__', '__dict__', '__doc__', '__module__', '__subclasses__', '__mro__', '__bases__'):
            return ('yes', None, None)
        return ('no',)

    # ---- obligations: (file, line, kind, ok, message)
    def check(self):
        for rel, line, msg in self.errors:
            yield rel, line, 'syntax', False, msg
        for m in self.mods.values():
            yield from self.imports(m)
            yield from self.uses(m)
            yield from self.formats(m)

    def imports(self, m):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                base = x.module or ''
                if x.level:
                    up = m.name.split('.')
                    up = up if m.package else up[:-1]
                    up = up[:len(up) - (x.level - 1)]
                    base = '.'.join(up + ([x.module] if x.module else []))
                if not self.own(base):
                    continue
                t = self.mods.get(base)
                yield m.path, x.lineno, 'import', t is not None, f'imports from {base}, which does not exist'
                for a in x.names if t is not None else []:
                    if a.name == '*':
                        continue
                    ok = a.name in t.names or f'{base}.{a.name}' in self.mods or t.star or a.name.startswith('__')
                    yield m.path, x.lineno, 'import', ok, f'imports {a.name} from {base}, which has no such name'
            elif isinstance(x, ast.Import):
                for a in x.names:
                    if self.own(a.name):
                        yield m.path, x.lineno, 'import', a.name in self.mods, f'imports {a.name}, which does not exist'

    def uses(self, m):
        yield from self.scope(m, m.tree, set(), None, None)

    def scope(self, m, node, shadow, cls, me):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                c = next((x for x in self.classes if x.node is n), None)
                yield from self.scope(m, n, shadow, c, None)
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                a = n.args
                names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
                body = n.body if isinstance(n.body, list) else [n.body]
                sh = shadow | names | {x for s in body for x in self.deep(s)}
                mine = me
                if cls is not None and isinstance(node, ast.ClassDef):
                    deco = [(dotted(d) or '').split('.')[-1] for d in n.decorator_list]
                    first = a.args[0].arg if a.args and 'staticmethod' not in deco else None
                    mine = (first, 'classmethod' in deco) if first else None
                elif me and me[0] in names:
                    mine = None
                for d in getattr(n, 'decorator_list', []):
                    yield from self.scope(m, ast.Expr(d), shadow, cls, me)
                yield from self.scope(m, n, sh, cls, mine)
                continue
            if isinstance(n, (ast.Attribute, ast.Call)):
                yield from self.one(m, n, shadow, cls, me)
            yield from self.scope(m, n, shadow, cls, me)

    @staticmethod
    def deep(s):
        out = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(y.asname or y.name).split('.')[0] for y in x.names}
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
        return out

    def one(self, m, n, shadow, cls, me):
        if isinstance(n, ast.Attribute):
            v = n.value
            if isinstance(v, ast.Name) and me and v.id == me[0] and isinstance(n.ctx, ast.Load):
                if None in self.outside or n.attr in self.outside:
                    return
                got = [self.member(c, n.attr) for c in cls.family()] if cls else [('?',)]
                if any(g[0] == '?' for g in got):
                    return
                ok = any(g[0] == 'yes' for g in got)
                yield m.path, n.lineno, 'attribute', ok, f'{cls.name} has no attribute {n.attr}, no method sets one'
                return
            root = v
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name) or root.id in shadow or isinstance(n.ctx, ast.Store):
                return
            b = self.resolve(m, v)
            if b and b[0] == 'module':
                yield m.path, n.lineno, 'attribute', self.resolve(m, n) is not None, f'{b[1].name} has no name {n.attr}'
            elif b and b[0] == 'class':
                g = self.member(b[1], n.attr)
                if g[0] != '?' and n.attr not in self.outside:
                    yield m.path, n.lineno, 'attribute', g[0] == 'yes', f'{b[1].name} has no attribute {n.attr}'
            return
        f = n.func
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        for fn, skip, what in self.targets(m, f, shadow, cls, me):
            msg = self.fits(fn, skip, n)
            yield m.path, n.lineno, 'call', msg is None, f'{what} is called {msg}'

    def targets(self, m, f, shadow, cls, me):
        """(function node or None for no parameters, parameters bound already, name)"""
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and me and f.value.id == me[0]:
            for c in cls.family() if cls else []:
                if c.subs and self.abstract(c):
                    continue
                g = self.member(c, f.attr)
                if g[0] == 'yes' and g[1] is not None and self.plain(g[1]):
                    yield g[1], 0 if self.kind(g[1]) == 'static' else 1, f'{c.name}.{f.attr}'
            return
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and cls:
            for x in cls.mro()[1:]:
                if not isinstance(x, Class) or x.open:
                    return
                if f.attr in x.members:
                    fn = x.members[f.attr]
                    if fn is not None and self.plain(fn):
                        yield fn, 0 if self.kind(fn) == 'static' else 1, f'{x.name}.{f.attr}'
                    return
            return
        root = f
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in shadow:
            return
        r = self.resolve(m, f)
        if not r:
            return
        if r[0] == 'func' and self.plain(r[1]):
            yield r[1], 0, r[1].name
        elif r[0] == 'class':
            c = r[1]
            g = self.member(c, '__init__')
            if any(x is None or isinstance(x, Class) and (x.open or '__new__' in x.members) or isinstance(x, type) and x is not object for x in c.mro()):
                return
            if g[0] == 'yes' and g[2] is None:
                yield None, 0, c.name
            elif g[0] == 'yes' and g[1] is not None and self.plain(g[1]):
                yield g[1], 1, c.name
        elif r[0] == 'member':
            g = self.member(r[1], r[2])
            if g[0] == 'yes' and g[1] is not None and self.plain(g[1]):
                yield g[1], {'static': 0, 'class': 1}.get(self.kind(g[1]), 0), f'{r[1].name}.{r[2]}'

    def abstract(self, c):
        names = {k for x in c.mro() if isinstance(x, Class) for k in x.members}
        for k in names:
            g = self.member(c, k)
            if g[0] == 'yes' and g[1] is not None and any((dotted(d) or '').split('.')[-1].startswith('abstract') for d in g[1].decorator_list):
                return True
        return False

    @staticmethod
    def kind(fn):
        d = [(dotted(x.func if isinstance(x, ast.Call) else x) or '').split('.')[-1] for x in fn.decorator_list]
        return 'static' if 'staticmethod' in d else 'class' if 'classmethod' in d else 'plain'

    @staticmethod
    def plain(fn):
        d = [(dotted(x.func if isinstance(x, ast.Call) else x) or '?').split('.')[-1] for x in fn.decorator_list]
        return all(x in SAFE_DECOS and x not in ('property', 'cached_property') for x in d)

    @staticmethod
    def fits(fn, skip, call):
        npos, kws = len(call.args), [k.arg for k in call.keywords]
        if fn is None:
            return None if not npos and not kws else 'with arguments, it takes none'
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        need = pos[:len(pos) - len(a.defaults)]
        if skip > len(pos) and not a.vararg:
            return 'on an object, it takes no parameter'
        if npos + skip > len(pos) and not a.vararg:
            return f'with {npos} arguments, it takes {len(pos) - skip}'
        given = set(pos[:npos + skip])
        for k in kws:
            if k in given:
                return f'with {k} twice'
            if k not in pos + [x.arg for x in a.kwonlyargs] and not a.kwarg:
                return f'with {k}, which is no parameter of it'
        given |= set(kws)
        miss = [x for x in need if x not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        return f'without {", ".join(miss)}' if miss else None

    def formats(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                    and isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                yield m.path, n.lineno, 'format', *self.format_ok(n.func.value.value, len(n.args), {k.arg for k in n.keywords})
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                k = len(n.right.elts) if isinstance(n.right, ast.Tuple) else None
                want = len([1 for i, c in enumerate(n.left.value.replace('%%', '')) if c == '%'])
                if k is not None and '%(' not in n.left.value and '*' not in n.left.value:
                    yield m.path, n.lineno, 'format', k == want, f'{want} values are formatted, {k} are given'

    @staticmethod
    def format_ok(text, n, kws):
        auto = 0

        def fields(t):
            nonlocal auto
            for _, f, spec, _ in string.Formatter().parse(t):
                if f is None:
                    continue
                head = f.split('.')[0].split('[')[0]
                if head == '':
                    yield auto
                    auto += 1
                else:
                    yield int(head) if head.isdigit() else head
                yield from fields(spec or '')
        try:
            for f in fields(text):
                if isinstance(f, int) and f >= n or isinstance(f, str) and f not in kws:
                    return False, f'the text needs {f!r}, {n} values are given'
        except ValueError as ex:
            return False, f'not a format: {ex}'
        return True, ''


def sources(root, overlay, top='pyg2p'):
    """relative path -> text of the package below root, with the overlay's texts"""
    out = {}
    for d, _, fs in os.walk(os.path.join(root, top)):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                out[rel] = (overlay or {}).get(rel) or open(p, encoding='utf-8').read()
    for rel, t in (overlay or {}).items():
        if rel.endswith('.py') and rel.startswith(top + '/'):
            out[rel] = t
    return out
