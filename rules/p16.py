"""Layers of the configuration and user variables."""
import re
from .pipe import *
from .p23 import code_of
from .p24 import copies, fresh
from .p34 import configuration, atoms
from .texts import *

EXPLAIN = ('The configuration is built abstractly over open user folders and global files; the merged items, the items of the user, what is saved meanwhile, the parsed lines of variables '
           'and the map paths of an execution are compared with the documented layers.')
RULE = ('item(key) = user item if there is one, else global item; saved = items of the user only, and only when the file is missing; name=value lines of all .conf files, up to the first separator; '
        'map paths = template path with variables replaced, an undefined one or an invalid file is refused')
ASSUME = ['a mapping updated with, or unpacked after, another one wins for keys of both']
W = 'pyg2p/main/config.py'
FILES = {'parameters': 'parameters.json', 'geopotentials': 'geopotentials.json', 'intertables': 'intertables.json', 'ftp': 'ftp.json'}
LOADS = ('json.load', 'json.loads', 'ujson.load', 'ujson.loads')
PATHS = ('outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap', 'correction.demMap', 'interpolation.cdd_map')


def origin(n, name):
    """'user', 'global', 'new' (no such file) for a layer of items, None for anything else"""
    n = copies(n)
    if n.op == 'call' and ext_name(n.args[0]) in LOADS:
        if not mentions(n, lambda x: is_const(x, name)):
            return None
        return 'global' if mentions(n, lambda x: is_const(x, 'configuration/', 'configuration', 'global/', 'global')) else 'user'
    if fresh(n):
        return 'new'
    return None


def layers(n):
    """layers of a merged dictionary, the last one wins"""
    n = copies(n)
    if n.op == 'dictv' and len(n.args) > 1 and isinstance(n.args[1], Node) and n.args[1].op not in ('empty', 'const'):
        return layers(n.args[1])
    if n.op == 'dupdate':
        return layers(n.args[0]) + layers(n.args[1])
    if n.op == 'call' and ext_name(n.args[0]) == 'collections.ChainMap':
        return [x for a in reversed(n.args[1]) for x in layers(a)]
    if n.op == 'bin' and n.args[0] in ('|', 'BitOr'):
        return layers(n.args[1]) + layers(n.args[2])
    if n.op == 'upd' and is_const(n.args[1]):
        return layers(n.args[0])
    return [n]


def userfile(name, there):
    """the configuration file of the user is there"""
    def d(a):
        if a.op in ('exc_in', 'unwind'):
            return False
        if a.op == 'truth' and a.args[0].op == 'call' and ext_of(a.args[0]) in ('os.path.exists', 'os.path.isfile') and mentions(a.args[0], lambda n: is_const(n, name)) \
                and mentions(a.args[0], lambda n: n.op == 'call' and ext_of(n) in ('os.path.expanduser', 'pathlib.Path.home')):
            return there
        return None
    return d


def check(rep, overlay=None):
    rep.each([built, paths, apipaths, parameters], lambda rep, job: job(rep, overlay))


def built(rep, overlay):
    e, c, st = configuration(overlay)
    rep.scenario(e, 'configuration, all user folders')
    items(rep, e, c, st)
    saved(rep, e)
    lines(rep, e, c, st)


def items(rep, e, c, st):
    for attr, name in FILES.items():
        v = e.freeze(e.getattr(e.getattr(c, attr, st), 'vars', st), st)
        for there in (True, False):
            got = restricted(v, userfile(name, there))
            rep.need(got, f'{attr} have items')
            kinds = set()
            for _, l in got:
                ls = []
                for x in layers(l):
                    ks = {origin(y, name) for _, y in restricted(x, userfile(name, there))}
                    ls.append(ks)
                for ks in ls:
                    rep.ob(f'{attr}:known', None not in ks, W, f'items of {attr} come from something else than {name}: {show(l, 4)[:150]}')
                flat = [k for ks in ls for k in ks]
                kinds |= set(flat)
                if there:
                    rep.ob(f'{attr}:user', 'user' in flat and ls[-1] == {'user'}, W, f'items of the user do not take the place of the global ones of {attr}')
                else:
                    rep.ob(f'{attr}:no user', 'user' not in flat, W, f'a missing {name} is read')
                if 'global' in flat and there:
                    rep.ob(f'{attr}:order', all('user' not in ks for ks in ls[:-1]), W, f'global items of {attr} take the place of those of the user')
            rep.ob(f'{attr}:global', 'global' in kinds, W, f'the global items of {attr} are not used')


def saved(rep, e):
    opens = [x for x in e.events if x.kind == 'call' and ext_name(x.fn) in ('open', 'io.open') and
             (len(x.args) > 1 and is_const(x.args[1]) and str(x.args[1].args[0])[:1] in 'wax' or is_const(dict(x.kw).get('mode', NONE)) and str(dict(x.kw).get('mode', NONE).args[0])[:1] in 'wax')]
    rep.need(opens, 'missing configuration files are created')
    for x in opens:
        name = next((k for k in FILES.values() if mentions(x.args[0], lambda n: is_const(n, k))), None)
        rep.ob('created:where', name is not None and not mentions(x.args[0], lambda n: is_const(n, 'configuration/', 'configuration')), x.where, 'a file which is no configuration file of the user is written')
        if name:
            rep.ob('created:not overwritten', B.restrict_map(x.g, userfile(name, True)) == 0, x.where, f'an existing {name} of the user is overwritten when it is read')
    for x in e.events:
        if x.kind == 'call' and ext_name(x.fn) in ('json.dump', 'json.dumps', 'ujson.dump', 'ujson.dumps'):
            for _, l in leaves(x.args[0], x.g):
                name = next((k for k in FILES.values() if any(mentions(a, lambda n: is_const(n, k)) for a in atoms(x.g))), '')
                bad = [y for y in layers(l) for z in leafset(y) if origin(z, name) == 'global']
                rep.ob('created:user only', not bad, x.where, 'global items are saved in the configuration of the user')


def is_line(n):
    """a line of a file of variables, stripped"""
    while n.op == 'call' and (n.args[0].op == 'attr' and n.args[0].args[1] in ('strip', 'rstrip', 'lstrip', 'decode') or ext_of(n) in ('str.strip', 'str.rstrip') and n.args[1]):
        n = n.args[0].args[0] if n.args[0].op == 'attr' else n.args[1][0]
    return n.op == 'elem' and mentions(n.args[1], lambda x: x.op == 'call' and ext_of(x) in ('open', 'io.open') or x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('read_text', 'read', 'readlines'))


def parts(n):
    """('name' / 'value' / 'cut value', strip characters) of a part of a line"""
    strip = []
    while n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in ('strip', 'rstrip', 'lstrip'):
        strip.append(n.args[1][0].args[0] if n.args[1] and is_const(n.args[1][0]) else None if not n.args[1] else '?')
        n = n.args[0].args[0]
    if n.op == 'sub' and n.args[0].op == 'call' and n.args[0].args[0].op == 'attr' and is_const(n.args[1]):
        f, i = n.args[0].args[0].args[1], n.args[1].args[0]
        a = n.args[0].args[1]
        if not is_line(n.args[0].args[0].args[0]) or not a or not is_const(a[0], '='):
            return None
        limit = a[1] if len(a) > 1 else dict(n.args[0].args[2]).get('maxsplit')
        if f == 'split':
            if i == 0:
                return 'name', strip
            if i in (1, -1):
                return ('value' if limit is not None and is_const(limit, 1) else 'cut value'), strip
        if f == 'rsplit':
            return ('cut value' if limit is None or not i == 0 or limit is not None else 'name'), strip
        if f == 'partition':
            return {0: 'name', 2: 'value'}.get(i, None), strip
        if f == 'rpartition':
            return 'cut value', strip
    return None


def lines(rep, e, c, st):
    def world(comment, empty=False):
        def d(a):
            if a.op in ('exc_in', 'unwind'):
                return False
            if a.op == 'truth' and is_line(a.args[0]):
                return not empty
            if a.op == 'eq' and any(is_line(x) for x in a.args) and any(is_const(x, '') for x in a.args):
                return empty
            if a.op == 'truth' and a.args[0].op == 'call' and a.args[0].args[0].op == 'attr' and a.args[0].args[0].args[1] == 'startswith' and is_line(a.args[0].args[0].args[0]):
                return comment
            if a.op == 'eq' and any(is_const(x, '#') for x in a.args):
                return comment
            if a.op == 'iter' or a.op == 'truth' and (ext_of(a.args[0]) in ('os.path.isfile', 'os.path.exists') or mentions(a.args[0], lambda n: is_const(n, '.conf'))):
                return True
            return None
        return d
    found = []
    for (L, n), (init, step) in list(e.mus.items()):
        ups = [x for x in walk(step) if x.op == 'upd' and x.args[0] is N('mu', L, n)]
        if not ups or not any(parts(k) or parts(v) for x in ups for k in leafset(x.args[1]) for v in leafset(x.args[2])):
            continue
        found.append(L)
        w = f'{e.loopinfo[L]["path"]}:{e.loopinfo[L]["line"]} ({e.loopinfo[L]["qual"]})'
        for com, emp in ((True, False), (False, True)):
            for _, l in restricted(step, world(com, emp)):
                rep.ob('variables:comments', l is N('mu', L, n) or emp and l.op == 'upd', w, 'a comment defines a variable')
        for _, l in restricted(step, world(False)):
            ok = l.op == 'upd' and l.args[0] is N('mu', L, n)
            rep.ob('variables:every line', ok, w, 'a line does not define its variable')
            if not ok:
                continue
            for k in leafset(l.args[1]):
                p = parts(k)
                rep.ob('variables:name', p is None or p[0] == 'name' and None in p[1], w, f'the name of a variable is not what is before the separator: {show(k, 4)[:120]}')
            for k in leafset(l.args[2]):
                p = parts(k)
                rep.ob('variables:value', p is None or p[0] == 'value' and all(s is None or set(s) <= set('"\' \t\r\n') for s in p[1]), w, f'the value of a variable is not all of what is after the first separator: {show(k, 4)[:120]}')
    rep.need(found, 'variables are read from lines')
    # files: every .conf file of the folder of the user
    v = e.freeze(e.getattr(e.getattr(c, 'user', st), 'vars', st), st)
    muss = [x for l in leafset(v) for x in [l] if x.op == 'mu']

    def conf(yes):
        def d(a):
            if a.op in ('exc_in', 'unwind'):
                return False
            if a.op == 'truth' and a.args[0].op == 'call':
                x = a.args[0]
                if ext_of(x) in ('os.path.isfile', 'os.path.exists'):
                    return True
                if x.args[0].op == 'attr' and x.args[0].args[1] == 'endswith' and x.args[1] and is_const(x.args[1][0], '.conf'):
                    return yes
            if a.op == 'eq' and any(is_const(x, '.conf') for x in a.args):
                return yes
            return None
        return d
    for m in muss:
        init, step = e.mus[m.args]
        i = e.loopinfo[m.args[0]]
        w = f'{i["path"]}:{i["line"]} ({i["qual"]})'
        rep.ob('variables:files', all(l is not m and mentions(l, lambda x: x is m) for _, l in restricted(step, conf(True))), w, 'the variables of a .conf file are not read, or replace those of the others')
        rep.ob('variables:other files', all(l is m for _, l in restricted(step, conf(False))), w, 'variables are read from files which are no .conf files')


def apipaths(rep, overlay):
    from .p08 import api_context
    e, ctx, st, r = api_context(overlay)
    rep.scenario(e, 'map paths of an API request, all requests and variables')
    for key in PATHS:
        ls = leafset(setting(e, ctx, key, st))
        rep.ob(f'api:{key}:replaced', any(l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] in ('format', 'format_map') for l in ls), W, f'variables are not replaced in {key} of an API request')


def paths(rep, overlay):
    e, ctx, st, r = cli_context(overlay, absent=CONFIG_OPTS, forget=False)
    rep.scenario(e, 'map paths of an execution, all templates and variables')
    uservars = None
    for key in PATHS:
        v = setting(e, ctx, key, st)
        fm = [l for l in leafset(v) if l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] in ('format', 'format_map')]
        rep.ob(f'{key}:replaced', bool(fm), W, f'variables are not replaced in {key}')
        for l in fm:
            raw = l.args[0].args[0]

            def has(yes):
                def d(a):
                    x = asked(a)
                    if x is not None and any(y is raw for y in leafset(x)):
                        return yes if a.op == 'truth' else not yes
                    if x is not None and any(y is l for y in leafset(x)):
                        return (False if a.op == 'truth' else True)
                    # other paths hold no variables
                    if x is not None:
                        return a.op != 'truth'
                    return None
                return d
            for _, y in restricted(v, has(True), st.g):
                rep.ob(f'{key}:with variables', y is l or not mentions(y, lambda z: z is raw), W, f'a path with variables is used as it is in {key}')
            rep.ob(f'{key}:user variables', mentions(l, lambda z: z.op in ('mu', 'dupdate', 'upd', 'dcomp')) , W, f'variables of {key} are not those of the user')
            rep.ob(f'{key}:no substitutes', not mentions(l, lambda z: z.op == 'call' and ext_of(z).endswith('defaultdict')), W, f'undefined variables of {key} are replaced by something else')
            # refused when a variable stays or is not defined
            def left(a):
                x = asked(a)
                if x is not None and any(y is l for y in leafset(x)):
                    return True if a.op == 'truth' else False
                if x is not None and any(y is raw for y in leafset(x)):
                    return True if a.op == 'truth' else False
                return False if a.op in ('exc_in', 'unwind') else None
            if any(asked(a) is not None and any(y is l for y in leafset(asked(a))) for o in r for a in atoms(o[0])):
                rep.ob(f'{key}:undefined', B.restrict_map(st.g, left) == 0, W, f'an undefined variable of {key} is not refused')
    codes = {code_of(o) for o in r}
    rep.ob('undefined:error', 8000 in codes, W, 'an undefined variable is not reported as such')
    rep.ob('invalid file:error', 8200 in codes, W, 'an invalid configuration file is not reported as such')
    # names of variables that are recognised
    for x in {y for o in r for a in atoms(o[0]) for y in walk(a) if asked(a) is not None and y.op == 'call' and ext_name(y.args[0]) in ('re.compile', 're.search', 're.findall')}:
        p = x.args[1][0] if x.args[1] else NONE
        if is_const(p) and isinstance(p.args[0], str):
            try:
                rx = re.compile(p.args[0])
            except re.error:
                rep.ob('pattern', False, W, 'the pattern of variables is invalid')
                continue
            for t in ('A', 'a', '_', 'EFAS_MAPS', 'maps_', 'MAPS2', 'M1_A', 'x9'):
                rep.ob('pattern:' + t, rx.search('{' + t + '}/lat.map') is not None, W, f'a variable {t} is not recognised in a path')


def asked(a):
    """path searched for variables"""
    if a.op not in ('truth', 'isnone'):
        return None
    x = a.args[0]
    if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('search', 'findall', 'finditer') and x.args[1]:
        return x.args[1][0]
    if x.op == 'call' and ext_name(x.args[0]) in ('re.search', 're.findall', 're.finditer') and len(x.args[1]) > 1:
        return x.args[1][1]
    return None


def parameters(rep, overlay):
    """lookup of parameters and of their conversions"""
    e, c, st = configuration(overlay)
    rep.scenario(e, 'lookup of parameters and conversions')
    o = e.getattr(c, 'parameters', st)
    items = e.freeze(e.getattr(o, 'vars', st), st)
    k = N('param', 'name')
    v, st2, r = e.run(e.getattr(o, 'get', st), [k], {}, st)
    v = e.freeze(v, st2)

    def known(yes):
        def d(a):
            if a.op in ('exc_in', 'unwind'):
                return False
            if a.op in ('truth', 'isnone') and any(is_item(x, k) for x in leafset(a.args[0])):
                return yes if a.op == 'truth' else not yes
            if a.op == 'in' and a.args[0] is k:
                return yes
            return None
        return d
    for _, l in restricted(v, known(True), st2.g):
        rep.ob('parameter:item', is_item(l, k), W, f'a parameter is not the one of its name: {show(l, 3)[:120]}')
    rep.ob('parameter:unknown', {code_of(x) for x in r if B.restrict_map(x[0], known(False))} == {1100} and not restricted(v, known(False), st2.g), W, 'an unknown parameter is not refused as such')
    rep.ob('parameter:known', not [x for x in r if B.restrict_map(x[0], known(True))], W, 'a known parameter is refused')
    p, i = N('param', 'parameter'), N('param', 'id')
    v, st3, r = e.run(e.getattr(o, 'get_conversion', st), [p, i], {}, st)
    v = e.freeze(v, st3)
    for g, l in leaves(v, st3.g):
        # found by its id
        def other(a):
            return False if a.op == 'eq' and i in a.args else False if a.op in ('exc_in', 'unwind') else None
        rep.ob('conversion:by id', B.restrict_map(g, other) == 0, W, f'a conversion is used whose id is not the one of the template: {show(l, 3)[:120]}')
    rep.ob('conversion:unknown', 1200 in {code_of(x) for x in r}, W, 'an unknown conversion is not refused as such')


def is_item(l, k):
    return (l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] == 'get' and l.args[1] and l.args[1][0] is k) or (l.op == 'sub' and l.args[1] is k)
