"""Shared scenario helpers for the rules."""
from sa.core import *
from sa.engine import *
from sa.scen import *

# command line options that stand for a configuration command
CONFIG_OPTS = ('addGeopotential', 'downloadConf', 'checkConf')


def cli_context(overlay=None, given=(), absent=(), forget=True, hooks=None):
    """ExecutionContext evaluated on an argument vector: options in `given` are passed, in `absent` are not"""
    def opt(e, dest, o, st):
        if dest in absent:
            return o['default']
        if dest in given:
            if o['action'] in ('store_true', 'store_false'):
                return TRUE if o['action'] == 'store_true' else FALSE
            return N('opt', dest)
        return None
    hk = dict(hooks or {})
    hk['opt'] = opt
    e = engine(overlay, hk, forget=forget)
    st = e.state()
    v, st, r = e.run(e.find_class('ExecutionContext'), [N('param', 'argv')], {}, st)
    return e, v, st, r


def setting(e, ctx, key, st):
    """value of an execution setting, as its consumers read it; (setting, item) reads one item of it"""
    m = e.getattr(ctx, 'get', st)
    if isinstance(key, tuple):
        v = e.call(m, [const(key[0])], {}, st)
        return e.freeze(e.getitem(v, const(key[1]), st), st)
    v = e.call(m, [const(key)], {}, st)
    return e.freeze(v, st)


def mentions(n, pred):
    return any(pred(x) for x in walk(n))


def strip_conv(n):
    """value below number/string conversions and path normalisation"""
    while n.op == 'call' and len(n.args) >= 2 and ext_of(n) in ('int', 'float', 'str', 'numpy.float64'):
        a = n.args[1]
        n = a[0] if isinstance(a, tuple) else a
    return n


def ext_of(n):
    """dotted name of the called external, '' otherwise"""
    if n.op != 'call':
        return ''
    f = n.args[0]
    if isinstance(f, Node):
        return ext_name(f) or ''
    return ''


def jsonpath(n):
    """keys leading from the loaded template to this value, None for anything else"""
    if n.op == 'sub' and is_const(n.args[1]):
        p = jsonpath(n.args[0])
        return None if p is None else p + (n.args[1].args[0],)
    if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'get' and n.args[1] and is_const(n.args[1][0]):
        p = jsonpath(n.args[0].args[0])
        return None if p is None else p + (n.args[1][0].args[0],)
    if n.op == 'call' and ext_of(n) in ('ujson.load', 'json.load', 'ujson.loads', 'json.loads'):
        return ()
    return None


def apipath(n):
    """keys leading from the dictionary given to the API context to this value"""
    if n.op == 'sub' and is_const(n.args[1]):
        p = apipath(n.args[0])
        return None if p is None else p + (n.args[1].args[0],)
    if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'get' and n.args[1] and is_const(n.args[1][0]):
        p = apipath(n.args[0].args[0])
        return None if p is None else p + (n.args[1][0].args[0],)
    if n.op == 'param' and n.args[0] == 'params':
        return ()
    return None


def present(path, pathof=jsonpath, zero=False):
    """condition atoms decided by 'the template has a (non empty) value at path'"""
    def d(a):
        if a.op in ('truth', 'isnone', 'eq', 'in', 'isinst', 'exc_in'):
            ps = [pathof(x) for x in a.args if isinstance(x, Node)]
            if a.op == 'truth' and ps[0] == path:
                return None if zero else True
            if a.op == 'isnone' and ps[0] == path:
                return False
            if a.op == 'eq' and path in ps:
                o = [x for x, p in zip(a.args, ps) if p != path]
                if o and is_const(o[0]) and o[0].args[0] in (None, ''):
                    return False
            if a.op == 'in' and is_const(a.args[0]) and a.args[0].args[0] == path[-1] and pathof(a.args[1]) == path[:-1]:
                return True
            if a.op == 'in' and ps[0] == path:
                return False
        # every container on the way is there too
        if a.op == 'truth' and isinstance(a.args[0], Node):
            p = pathof(a.args[0])
            if p is not None and len(p) < len(path) and path[:len(p)] == p:
                return True
        return None
    return d


def absent_in(path, pathof=jsonpath):
    def d(a):
        if a.op in ('truth', 'isnone', 'eq', 'in'):
            ps = [pathof(x) for x in a.args if isinstance(x, Node)]
            if a.op == 'truth' and ps[0] == path:
                return False
            if a.op == 'isnone' and ps[0] == path:
                return True
            if a.op == 'in' and is_const(a.args[0]) and a.args[0].args[0] == path[-1] and pathof(a.args[1]) == path[:-1]:
                return False
            if a.op == 'eq' and path in ps:
                o = [x for x, p in zip(a.args, ps) if p != path]
                if o and is_const(o[0]):
                    return o[0].args[0] is None
        return None
    return d


def optgiven(dest, zero=True):
    """condition atoms decided by 'the option is passed with a non empty value'"""
    o = N('opt', dest)

    def d(a):
        if a.op == 'truth' and a.args[0] is o:
            return None if zero else True
        if a.op == 'isnone' and a.args[0] is o:
            return False
        if a.op == 'eq' and o in a.args:
            x = [y for y in a.args if y is not o]
            if x and is_const(x[0]) and x[0].args[0] in (None, '', 'notset'):
                return False
        if a.op == 'in' and a.args[0] is o:
            return None
        return None
    return d


def both(*ds):
    def d(a):
        for f in ds:
            r = f(a)
            if r is not None:
                return r
        return None
    return d


def restricted(n, d, g=1):
    """leaves of a gated value under decided atoms"""
    out = []
    for c, l in leaves(n, g):
        c = B.restrict_map(c, d)
        if c:
            out.append((c, l))
    return out


class Facts:
    """what is assumed about the template: path -> True (there, not empty) / False (missing) / a constant"""

    def __init__(self, pathof, facts, zero=False):
        self.pathof, self.facts, self.zero = pathof, dict(facts), zero
        self.there = set()
        for p, v in self.facts.items():
            if v is not False:
                for i in range(len(p)):
                    self.there.add(p[:i])

    def text(self, x):
        """(path, transformation) of a value read from the template, through case changes"""
        tr = []
        while True:
            p = self.pathof(x)
            if p is not None:
                return p, tr
            if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('lower', 'upper', 'strip', 'capitalize', 'title'):
                tr.append(x.args[0].args[1])
                x = x.args[0].args[0]
            elif x.op == 'call' and ext_of(x) in ('str', 'bool', 'int', 'float') and x.args[1]:
                tr.append(ext_of(x))
                x = x.args[1][0]
            else:
                return None, tr

    def concrete(self, x):
        """(known, python value)"""
        if is_const(x):
            return True, x.args[0]
        if x.op in ('tuple', 'listv', 'setv'):
            v = [self.concrete(y) for y in x.args[0]]
            return (True, tuple(y for _, y in v)) if all(k for k, _ in v) else (False, None)
        p, tr = self.text(x)
        if p is None or p not in self.facts:
            return False, None
        f = self.facts[p]
        if f is True:
            return False, None
        if f is False:
            v = None
            y = x
            while self.pathof(y) is None:
                y = y.args[0].args[0] if y.args[0].op == 'attr' else y.args[1][0]
            if y.op == 'call' and len(y.args[1]) > 1:
                if not is_const(y.args[1][1]):
                    return False, None
                v = y.args[1][1].args[0]
        else:
            v = f
        try:
            for t in reversed(tr):
                v = getattr(v, t)() if t not in ('str', 'bool', 'int', 'float') else {'str': str, 'bool': bool, 'int': int, 'float': float}[t](v)
        except Exception:
            return False, None
        return True, v

    def __call__(self, a):
        if a.op in ('truth', 'isnone'):
            x = a.args[0]
            p, tr = self.text(x)
            if p is None:
                return None
            k, v = self.concrete(x)
            if k:
                return bool(v) if a.op == 'truth' else v is None
            f = self.facts.get(p)
            if f is True and a.op == 'isnone':
                return False
            if f is True and a.op == 'truth':
                return None if self.zero else True
            if p in self.there:
                return a.op == 'truth'
            return None
        if a.op == 'in':
            if is_const(a.args[0]):
                p = self.pathof(a.args[1])
                if p is not None:
                    q = p + (a.args[0].args[0],)
                    if q in self.facts:
                        return self.facts[q] is not False
                    if q in self.there:
                        return True
            k, v = self.concrete(a.args[0])
            k2, w = self.concrete(a.args[1])
            if k and k2:
                try:
                    return v in w
                except Exception:
                    return None
            p, tr = self.text(a.args[0])
            if p is not None and self.facts.get(p) is True and k2 and isinstance(w, tuple) and all(y in (None, '') for y in w):
                return False
            return None
        if a.op == 'eq':
            k, v = self.concrete(a.args[0])
            k2, w = self.concrete(a.args[1])
            if k and k2:
                return v == w
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                p, tr = self.text(x)
                if p is not None and self.facts.get(p) is True and is_const(y) and y.args[0] in (None, ''):
                    return False
            return None
        return None

    def value(self, l):
        """leaf under the facts: constants in place of values known to be missing or constant"""
        k, v = self.concrete(l)
        if k:
            return const(v) if not isinstance(v, tuple) else l
        return l
