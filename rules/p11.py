"""Errors are raised, complete, and reach the caller."""
import ast
from sa.names import Class, Names, sources, dotted
import sa.scen as scen
from . import p10
from .pipe import *
from .p23 import code_of

EXPLAIN = ('All error constructions of the package are resolved over the syntax trees and followed to a raise; every code used is evaluated through the constructor. '
           'Handlers for errors of any kind are required to raise on each of their paths. Executions are evaluated abstractly with each stage failing in turn.')
RULE = ('each error made is raised, with its code, the text of the code and the details; a handler that catches every error raises; '
        'with a failing stage no execution ends normally and the error that leaves is the one raised; the program reports it')
ASSUME = []
BROAD = ('Exception', 'BaseException', 'ApplicationException')
STAGES = (('GRIBReader', '__init__'), ('GRIBReader', 'get_grib_info'), ('GRIBReader', 'select_messages'), ('Aggregator', 'do_manipulation'), ('Converter', 'convert'),
          ('Converter', 'cut_off_negative'), ('Interpolator', 'interpolate'), ('Corrector', 'get_instance'), ('PCRasterWriter', 'write'), ('NetCDFWriter', 'write'))
W = 'pyg2p/exceptions.py'


def check(rep, overlay=None):
    names = Names('/repo/src', sources('/repo/src', overlay))
    codes = made(rep, names)
    handlers(rep, names)
    rep.each([codes], lambda r, c: complete(r, overlay, c))
    rep.each([(en, s, k) for en in ('pcraster', 'netcdf', 'api') for s in STAGES for k in KINDS
              if not (en == 'pcraster' and s[0] == 'NetCDFWriter' or en == 'netcdf' and s[0] == 'PCRasterWriter' or en == 'api' and s[1] == 'write')],
             lambda r, it: stage(r, overlay, *it), width=8)
    rep.each(['report'], lambda r, it: reported(r, overlay))


# ---- construction

def makers(names):
    """functions that return an error they made"""
    out = {}
    for m in names.mods.values():
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef):
                for s in ast.walk(fn):
                    if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and is_error(s.value, m, names, {}):
                        out[fn.name] = fn
    return out


def is_error(c, m, names, mk):
    d = dotted(c.func) or ''
    last = d.split('.')[-1]
    if last == 'get_exc' or last in mk and last != 'get_exc':
        return True
    r = names.resolve(m, c.func)
    if r and r[0] == 'class':
        return any(x is not None and (isinstance(x, type) and issubclass(x, BaseException)) for x in r[1].mro())
    import builtins
    b = getattr(builtins, d, None)
    return isinstance(b, type) and issubclass(b, BaseException) and not issubclass(b, Warning)


def made(rep, names):
    """every error constructed is raised; codes used -> place"""
    codes, mk = {}, makers(names)
    for m in names.mods.values():
        if '/profiling/' in m.path:
            continue
        up = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                up[c] = n
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or not is_error(n, m, names, mk):
                continue
            where = f'{m.path}:{n.lineno} ({scope(n, up)})'
            p, ok = up.get(n), False
            while isinstance(p, (ast.IfExp, ast.NamedExpr, ast.BoolOp)):
                p = up.get(p)
            if isinstance(p, (ast.Raise, ast.Return)):
                ok = True
            elif isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) or isinstance(p, ast.AnnAssign):
                t = (p.targets[0] if isinstance(p, ast.Assign) else p.target)
                f = p
                while f in up and not isinstance(f, (ast.FunctionDef, ast.Module)):
                    f = up[f]
                ok = isinstance(t, ast.Name) and any(isinstance(x, (ast.Raise, ast.Return)) and isinstance(getattr(x, 'exc', None) or getattr(x, 'value', None), ast.Name)
                                                     and (getattr(x, 'exc', None) or x.value).id == t.id for x in ast.walk(f))
            elif isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('with_traceback', 'set_exception', 'throw'):
                ok = True
            rep.ob(f'raised:{where.split(" ")[0].split(":")[0]}:{scope(n, up)}:{ast.unparse(n)[:60]}', ok, where, f'the error {ast.unparse(n)[:80]} is made and not raised')
            if (dotted(n.func) or '').split('.')[-1] == 'get_exc':
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'code'), None)
                v = value(a, m, names)
                if v is not None:
                    codes.setdefault(v, where)
    rep.need(codes, 'no errors are made any more')
    return sorted(codes.items(), key=str)


def scope(n, up):
    out = []
    while n in up:
        n = up[n]
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
    return '.'.join(reversed(out))


def value(a, m, names, depth=0):
    if isinstance(a, ast.Constant):
        return a.value
    if isinstance(a, (ast.Name, ast.Attribute)) and depth < 5:
        if isinstance(a, ast.Name):
            r = m.names.get(a.id)
            if r and r[0] == 'from':
                t = names.mods.get(absolute(m, r[1]))
                return value(ast.Name(r[2]), t, names, depth + 1) if t else None
            t, nm = m, a.id
        else:
            r = names.resolve(m, a.value)
            if not r or r[0] != 'module':
                return None
            t, nm = r[1], a.attr
        for s in t.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == nm for x in s.targets):
                return value(s.value, t, names, depth + 1)
    return None


def absolute(m, name):
    return name


def complete(rep, overlay, codes):
    """get_exc(code, details): an error with that code, the text of the code and the details"""
    for code, where in codes:
        e = engine(overlay)
        st = e.state()
        cls = e.find_class('ApplicationException')
        v, st, r = e.run(e.getattr(cls, 'get_exc', st), [const(code), N('param', 'details')], {}, st)
        missing = [x for x in e.events if x.kind == 'keyerr']
        rep.ob(f'message:{code}', not missing and st.g == 1 and not r, where, f'the error {code} has no message, making it fails')
        if missing or not st.g:
            continue
        c = e.freeze(e.getattr(v, 'code', st), st)
        rep.ob(f'code:{code}', is_const(c, code), where, f'the error {code} has the code {show(c)}')
        s = e.freeze(e.call(e.getattr(v, '__str__', st), [], {}, st), st)
        rep.ob(f'details:{code}', mentions(s, lambda x: x is N('param', 'details')), where, f'the text of the error {code} does not have its details: {show(s, 4)[:100]}')
    rep.scenario(e, f'{len(codes)} error codes')


# ---- handlers

def handlers(rep, names):
    funcs = {}
    for m in names.mods.values():
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef):
                funcs.setdefault(fn.name, []).append(fn)
    base = [c for c in names.classes if c.name == 'ApplicationException']
    rep.need(base, 'ApplicationException is gone')
    rep.ob('base', all(isinstance(b, Class) or b in (Exception, BaseException, object) for b in base[0].mro()), W, 'errors of the program are instances of errors that handlers for other things catch')
    for m in names.mods.values():
        if '/profiling/' in m.path:
            continue
        top = entry_functions(m)
        for fn in [f for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef)] + [m.tree]:
            if isinstance(fn, ast.FunctionDef) and fn.name in top:
                continue
            for n in own(fn):
                name = getattr(fn, 'name', 'module')
                if isinstance(n, ast.Try):
                    for h in n.handlers:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        wide = any(t is None or (dotted(t) or '').split('.')[-1] in BROAD for t in ts)
                        if wide:
                            rep.ob(f'handler:{m.path}:{name}', raises(h.body, funcs), f'{m.path}:{h.lineno} ({name})',
                                   'a handler that catches every error does not raise on each of its paths')
                    for s in n.finalbody:
                        for x in ast.walk(s):
                            rep.ob(f'finally:{m.path}:{name}', not isinstance(x, (ast.Return, ast.Break, ast.Continue)) or inner(x, s), f'{m.path}:{getattr(x, "lineno", n.lineno)} ({name})',
                                   'a finally block is left by a jump, which drops the error on its way')
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        if isinstance(i.context_expr, ast.Call) and (dotted(i.context_expr.func) or '').split('.')[-1] == 'suppress':
                            wide = any((dotted(t) or '').split('.')[-1] in BROAD for t in i.context_expr.args)
                            rep.ob(f'suppress:{m.path}:{name}', not wide, f'{m.path}:{n.lineno} ({name})', 'every error is suppressed')


def own(fn):
    """nodes of a scope without those of functions in it"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def inner(x, s):
    """a jump that stays inside of a loop (or function) of the block"""
    for l in ast.walk(s):
        if isinstance(l, (ast.For, ast.While)) and not isinstance(x, ast.Return) and any(y is x for y in ast.walk(l)):
            return True
        if isinstance(l, (ast.FunctionDef, ast.Lambda)) and any(y is x for y in ast.walk(l)):
            return True
    return False


def entry_functions(m):
    """the entry point and the functions of its module it calls: what they return is decided by the exit status rule"""
    fs = {f.name: f for f in m.tree.body if isinstance(f, ast.FunctionDef)}
    out, todo = set(), [n for n in ('pyg2p_exe',) if n in fs]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        todo += [c.func.id for c in ast.walk(fs[n]) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in fs]
    return out


def raises(body, funcs, depth=0):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If) and s.orelse and raises(s.body, funcs, depth) and raises(s.orelse, funcs, depth):
            return True
        if isinstance(s, ast.If) and leaves_scope(s):
            return False
        if isinstance(s, ast.With) and raises(s.body, funcs, depth):
            return True
        if isinstance(s, ast.Try) and (raises(s.finalbody, funcs, depth) or raises(s.body, funcs, depth) and all(raises(h.body, funcs, depth) for h in s.handlers)):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and depth < 4:
            d = (dotted(s.value.func) or '')
            if d in ('sys.exit', 'exit', 'os._exit', 'os.abort'):
                return True
            fs = funcs.get(d.split('.')[-1])
            if fs and all(raises(f.body, funcs, depth + 1) for f in fs):
                return True
    return False


def leaves_scope(s):
    return any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s))


# ---- stages

KINDS = ('refusal', 'RuntimeError', 'ValueError', 'OSError', 'KeyError', 'IndexError', 'AssertionError')


def stage(rep, overlay, entry, op, kind):
    """an execution in which the operation fails: it does not end normally, and what leaves is what was raised"""
    failed = N('raises', 'stage')
    real = scen.engine

    def make(ov, hooks=None, **kw):
        e = real(ov, hooks, forget=False)
        e.decide = lambda a: False if a.op in ('exc_in',) else None
        return e
    at, ats = [], set()

    def call(e, fi, selfn, args, kw, st):
        if fi.cls is not None and (fi.cls.name, fi.name) == op:
            at.append(st.g)
            ats.add(f'{op[0]}.{op[1]}')
            maybe_raise(e, st, 'stage', code=N('param', 'code') if kind == 'refusal' else None, ext=kind)
            if op[1] != '__init__' and not st.g:
                return N('op', 'failed')
        return stub(e, fi, selfn, args, kw, st)
    stub = Stub(STUBS)
    scen.engine = make
    try:
        if entry == 'api':
            e, v, st, r = run_api(overlay, {}, hooks={'invoke': call})
        else:
            e, v, st, r = run_controller(overlay, {'outMaps.format': entry}, hooks={'invoke': call})
    finally:
        scen.engine = real
    tag = f'{entry}:{op[0]}.{op[1]}:{kind}'
    reach = B.OR(*at)
    fail = lambda g: B.restrict_map(g, lambda a: True if a is failed else None)
    rep.need(at, f'{tag}: the operation is never reached')
    out = 0
    for o in r:
        if is_stage(o, kind):
            out = B.OR(out, fail(o[0]))
    where = ' and '.join(sorted({x for x in ats})) or 'pyg2p/main'
    rep.ob(tag, not B.AND(reach, B.NOT(out)), where, f'{tag}: the execution does not end with this error ({showb(B.AND(reach, B.NOT(out)))[:200]})')
    rep.scenario(e, tag)


def support_of(g):
    return B.support(g)


def is_stage(o, kind):
    x = o[1]
    if kind != 'refusal':       # it may be wrapped
        return x.op == 'exc' and mentions(x, lambda n: is_const(n, 'stage')) or N('raises', 'stage') in support_of(o[0])
    h = o[2].heap.get(x) if x.op == 'ref' else None
    c = h is not None and (h.known.get('code') or h.known.get(const('code')))
    return c is N('param', 'code')


def reported(rep, overlay):
    """the program writes the text of the error to its log, as an error"""
    e, v, st, r = p10.program(overlay)
    rep.scenario(e, 'program over an arbitrary command line, anything can raise')
    where = 'pyg2p/main/__init__.py (pyg2p_exe)'
    logs = [x for x in e.events if x.kind == 'call' and isinstance(x.fn, Node) and x.fn.op == 'attr' and x.fn.args[1] in ('error', 'critical', 'exception')]
    known = [texts(overlay, c) for c in (1300, 8300, 3000)]
    for name, raised, config in (('refused request', p10.APP, None), ('error in a request', p10.CTX, None), ('failed execution', p10.OTHER, ''),
                                 ('input without messages', p10.NOMSG, ''), ('failed command', p10.CONF, 'geopotential')):
        d = p10.facts((raised,), config if config else '')
        reach = 0
        for x in logs:
            if any(is_text(a, known) for a in x.args):
                reach = B.OR(reach, B.restrict_map(x.g, d))
        rep.ob(f'reported:{name}', reach == 1, where, f'{name}: the error is not written to the log ({showb(B.NOT(reach))[:150]})')


def is_text(n, known):
    return mentions(n, lambda x: x.op in ('exc', 'ref') or x is N('param', 'code') or is_const(x) and isinstance(x.args[0], str) and any(k in x.args[0] for k in known))


def texts(overlay, code):
    e = engine(overlay)
    st = e.state()
    v, st, r = e.run(e.getattr(e.find_class('ApplicationException'), 'get_exc', st), [const(code), const('')], {}, st)
    s = e.freeze(e.call(e.getattr(v, '__str__', st), [], {}, st), st)
    return s.args[0].strip(' -') if is_const(s) and isinstance(s.args[0], str) and s.args[0].strip(' -') else '\0'
