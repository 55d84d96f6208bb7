"""Registry of geopotential files."""
from .pipe import *
from .p23 import code_of
from .p24 import variable, exists, copies, fresh

EXPLAIN = ('Registering a file, removing one and looking one up are evaluated abstractly on open configurations (user, global) and file systems; conditions of copying, saving and refusing are compared with what '
           'is registered, and the file that is read with the documented order of folders. The source of the geopotential of an execution is evaluated for the controller and the API.')
RULE = ('grid or file name already registered, no folder or no permission => refused, nothing copied or saved; otherwise copied, then saved as {grid of the file: its name} next to the entries of the user; '
        'lookup = input file if it has a geopotential, else first of (given folder, user folder, global folder) having the registered file, else error')
ASSUME = ['files are regular files and folders are folders']
W = 'pyg2p/main/config.py'
F = N('param', 'filepath')


def configuration(overlay, hooks=None):
    def call(e, fi, selfn, args, kw, st):
        cl = fi.cls.name if fi.cls is not None else None
        if cl == 'GRIBReader' and fi.name == 'get_id':
            vals = tuple(e.freeze(x, st) for x in list(args) + list(kw.values()))
            return N('op', 'get_id', vals)
        if hooks:
            return hooks(e, fi, selfn, args, kw, st)
        return None
    e = engine(overlay, {'invoke': call}, forget=False)
    st = e.state()
    c, st, r = e.run(e.find_class('Configuration'), [], {}, st)
    return e, c, st


def is_id(n):
    return n.op == 'op' and n.args[0] == 'get_id'


def atoms(g):
    out = set()
    for a in B.support(g):
        out.add(a if isinstance(a, Node) else B.atoms[a])
    return out


def loads(n):
    """configuration files a dictionary is made of: 'user' and 'global'"""
    out = set()
    for x in walk(n):
        if x.op == 'call' and ext_name(x.args[0]) in ('json.load', 'json.loads', 'ujson.load', 'ujson.loads') and mentions(x, lambda y: is_const(y, 'geopotentials.json')):
            out.add('global' if mentions(x, lambda y: is_const(y, 'configuration/', 'configuration', 'global/', 'global')) else 'user')
    return out


def knows(a, what):
    """(dictionary,) when the atom asks whether `what` (id / name) is registered"""
    pick = is_id if what == 'id' else (lambda n: n.op == 'call' and ext_of(n).endswith(('basename', 'split')) and mentions(n, lambda x: x is F)
                                       or n.op == 'attr' and n.args[1] == 'name' and mentions(n, lambda x: x is F))
    if a.op == 'in' and pick(a.args[0]):
        m = a.args[1]
    elif a.op in ('truth', 'isnone') and a.args[0].op == 'call' and a.args[0].args[0].op == 'attr' and a.args[0].args[0].args[1] == 'get' and a.args[0].args[1] and pick(a.args[0].args[1][0]):
        m = a.args[0].args[0].args[0]
    elif a.op in ('truth', 'isnone') and a.args[0].op == 'sub' and pick(a.args[0].args[1]):
        m = a.args[0].args[0]
    elif what == 'name' and a.op == 'eq' and any(pick(x) for x in a.args):
        m = a.args[0] if pick(a.args[1]) else a.args[1]
    else:
        return None
    if what == 'name' and not mentions(m, lambda x: x.op == 'attr' and x.args[1] in ('values', 'items') or x.op in ('valof', 'comp', 'gseq', 'elem', 'setv')):
        return None
    return m


def root(n):
    if mentions(n, lambda x: x is N('param', 'folder')):
        return 'given'
    if any(variable(x) == 'GEOPOTENTIALS' for x in walk(n)):
        return 'user'
    if mentions(n, lambda x: is_const(x, 'geopotentials')) and mentions(n, lambda x: is_const(x, 'global_conf.json')):
        return 'global'
    return None


def normal(a):
    if a.op in ('exc_in', 'unwind'):
        return False
    return None


def folder_world(there=True, folder=True, write=True):
    """state of the user's folder for geopotentials"""
    def d(a):
        if a.op == 'in' and is_const(a.args[0], 'GEOPOTENTIALS'):
            return there
        if a.op in ('truth', 'isnone') and a.args[0].op in ('sub', 'call', 'elem') and variable(a.args[0]) == 'GEOPOTENTIALS':
            x = a.args[0]
            if ext_of(x) in ('os.path.exists', 'os.path.isdir', 'os.path.isfile'):
                return folder and ext_of(x) != 'os.path.isfile'
            if ext_of(x) == 'os.access':
                return write if mentions(x.args[1][1], lambda n: n.op == 'ext' and n.args[0] == 'os.W_OK') else True
            if x.op in ('sub', 'elem') or x.args[0].op == 'attr':
                return there if a.op == 'truth' else not there
        return None
    return d


def check(rep, overlay=None):
    register(rep, overlay)
    removal(rep, overlay)
    lookup(rep, overlay)
    source(rep, overlay)


def sinks(e, d, n0=0):
    cs = [x for x in e.events[n0:] if x.kind == 'call' and (ext_name(x.fn) or '').startswith(('shutil.copy', 'shutil.move')) and B.restrict_map(x.g, d)]
    ws = [x for x in e.events[n0:] if x.kind == 'call' and ext_name(x.fn) in ('json.dump', 'json.dumps', 'ujson.dump', 'ujson.dumps') and B.restrict_map(x.g, d)]
    return cs, ws


def register(rep, overlay):
    e, c, st = configuration(overlay)
    n0 = len(e.events)
    v, st2, r = e.run(e.getattr(c, 'add_geopotential', st), [F], {}, st)
    rep.scenario(e, 'registering a geopotential file, all configurations')
    cs, ws = sinks(e, normal, n0)
    rep.need(cs and ws, 'geopotential files are copied and the configuration saved')
    w = cs[0].where
    all_atoms = set()
    for x in cs + ws:
        all_atoms |= atoms(x.g)

    def world(idk, namek, **kw):
        fw = folder_world(**kw)

        def d(a):
            b = normal(a)
            if b is not None:
                return b
            if a.op == 'isinst' and variable(a.args[0]) == 'GEOPOTENTIALS':
                return 'str' in show(a.args[1], 3)
            if a.op == 'iter':
                # a loop over a container with known elements
                i = e.loopinfo[a.args[0]]['iter']
                if i is not None and variable(i) == 'GEOPOTENTIALS':
                    ls = [l for _, l in restricted(i, lambda x: d(x) if x.op != 'iter' else None)]
                    return True if ls and all(l.op in ('listv', 'tuple') and l.args[0] for l in ls) else None
            if knows(a, 'id') is not None:
                return idk if a.op != 'isnone' else not idk
            if knows(a, 'name') is not None:
                return namek if a.op != 'isnone' else not namek
            return fw(a)
        return d
    for what in ('id', 'name'):
        ds = [knows(a, what) for a in all_atoms]
        ds = [x for x in ds if x is not None]
        for m in ds:
            have = loads(m)
            tests = loads_needed(m)
            for t in tests:
                rep.ob(f'{what}:{t}', t in have, w, f'whether the {"grid" if what == "id" else "file name"} is registered is not looked up in the {t} configuration')
        rep.ob(f'{what}:looked up', bool(ds), w, f'nothing refuses a geopotential whose {"grid" if what == "id" else "file name"} is registered')
    cases = [('grid registered', world(True, False), 8300), ('name registered', world(False, True), 8300), ('no folder defined', world(False, False, there=False), 8000),
             ('folder missing', world(False, False, folder=False), 8600), ('no permission', world(False, False, write=False), 8500)]
    for name, d, code in cases:
        for x in cs:
            rep.ob(f'{name}:not copied', B.restrict_map(x.g, d) == 0, x.where, f'a geopotential is copied although: {name}')
        for x in ws:
            rep.ob(f'{name}:not saved', B.restrict_map(x.g, d) == 0, x.where, f'a geopotential is saved in the configuration although: {name}')
        codes = {code_of(o) for o in r if B.restrict_map(o[0], d)}
        rep.ob(f'{name}:refused', codes == {code}, w, f'with {name} the errors are {sorted(map(str, codes))}, expected {code}')
    d = world(False, False)
    gc, gw = (B.restrict_map(B.OR(*[x.g for x in y]), d) for y in (cs, ws))
    rep.ob('copied', gc == 1, w, 'a new geopotential is not always copied')
    rep.ob('saved', gw == 1, ws[0].where, 'a new geopotential is not always saved in the configuration')
    rep.ob('accepted', not [o for o in r if B.restrict_map(o[0], d)], w, 'a new geopotential is refused')
    for x in cs:
        rep.ob('order', all(e.events.index(x) < e.events.index(y) for y in ws), x.where, 'the configuration is saved before the file is copied')
        for l in leafset(constrain(x.args[0], x.g)):
            rep.ob('copied file', l is F, x.where, 'another file is copied')
        for l in leafset(constrain(x.args[1], x.g)):
            ok = variable(l) == 'GEOPOTENTIALS' and (not (l.op == 'call' and ext_of(l) == 'os.path.join') or is_name(l.args[1][-1]))
            rep.ob('copied to', ok, x.where, f'the geopotential is not copied under its name into the folder of the user: {show(l, 3)[:120]}')
    for x in ws:
        for c, l in restricted(x.args[0], d, x.g):
            entry(rep, l, x)
    # where it is saved
    for y in [y for y in e.events[n0:] if y.kind == 'call' and ext_name(y.fn) in ('open', 'io.open') and B.restrict_map(y.g, d)
              and (len(y.args) > 1 and is_const(y.args[1], 'w', 'wt', 'w+') or is_const(dict(y.kw).get('mode', NONE), 'w', 'wt', 'w+'))]:
        rep.ob('saved where', mentions(y.args[0], lambda n: is_const(n, 'geopotentials.json')) and not mentions(y.args[0], lambda n: is_const(n, 'configuration/')), y.where,
               'the registry is not saved in the geopotentials.json of the user')


def loads_needed(m):
    """user and global entries, except in variants of the dictionary where one of the files is missing"""
    out = set()
    m = next((x for x in walk(m) if x.op == 'dupdate' and loads(x)), m)
    base, over = (m.args[0], m.args[1]) if m.op == 'dupdate' else (None, None)
    if base is None:
        return ('user', 'global')
    bs, os_ = set(), set()
    for l in leafset(base):
        bs.add(l.op == 'dictv')
    for l in leafset(over):
        os_.add(fresh(l))
    if False in bs:
        out.add('global')
    if False in os_:
        out.add('user')
    return sorted(out)


def is_name(n):
    return any(x is F for x in walk(n)) and (n.op == 'call' and ext_of(n) in ('os.path.basename',) or n.op == 'attr' and n.args[1] == 'name'
                                             or n.op == 'sub' and n.args[0].op == 'call' and ext_of(n.args[0]) == 'os.path.split' and is_const(n.args[1], 1, -1))


def entry(rep, l, x):
    """saved = entries of the user + {grid id: name}"""
    n = l
    found = False
    while True:
        if n.op == 'upd':
            key, val = n.args[1], n.args[2]
            if is_id(key):
                found = True
                rep.ob('entry:file', key.args[1] and key.args[1][0] is F, x.where, 'the entry is for the grid of another file')
                rep.ob('entry:name', all(is_name(v) for v in leafset(val)), x.where, f'the entry does not hold the name of the file: {show(val, 3)[:100]}')
            elif not is_const(key):
                rep.ob('entry:others', False, x.where, f'another entry is changed: {show(key, 3)[:100]}')
            n = n.args[0]
        elif n.op == 'dupdate':
            for y in leafset(n.args[1]):
                if y.op == 'dictv' and len(y.args[0]) == 1 and is_id(y.args[0][0][0] if isinstance(y.args[0][0], tuple) else N('none')):
                    k, v = y.args[0][0]
                    found = True
                    rep.ob('entry:name', all(is_name(z) for z in leafset(v)), x.where, 'the entry does not hold the name of the file')
                else:
                    rep.ob('entry:others', loads(y) <= {'user'}, x.where, 'other entries are saved')
            n = n.args[0]
        elif n.op == 'dictv' and any(isinstance(p, tuple) and is_id(p[0]) for p in n.args[0]):
            for p in n.args[0]:
                if is_id(p[0]):
                    found = True
                    rep.ob('entry:name', all(is_name(z) for z in leafset(p[1])), x.where, 'the entry does not hold the name of the file')
            rest = [b for b in n.args[1:] if isinstance(b, Node) and b.op != 'empty']
            if not rest:
                rep.ob('entry:kept', False, x.where, 'entries of the user are lost')
                break
            n = rest[0]
        elif n.op == 'ite':
            for z in leafset(n):
                base(rep, z, x)
            break
        else:
            base(rep, n, x)
            break
    rep.ob('entry', found, x.where, 'the saved registry does not hold the grid of the file')


def base(rep, n, x):
    rep.ob('entry:kept', loads(n) == {'user'} and n.op == 'call' or fresh(n), x.where, f'the saved registry is not the one of the user with a new entry: {show(n, 3)[:120]}')


def removal(rep, overlay):
    e, c, st = configuration(overlay)
    n0 = len(e.events)
    name = N('param', 'name')
    v, st2, r = e.run(e.getattr(c, 'remove_geopotential', st), [name], {}, st)
    rep.scenario(e, 'removing a geopotential file, all configurations')
    dels = [x for x in e.events[n0:] if x.kind == 'delitem' or x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'pop']

    def same(value):
        def d(a):
            if a.op == 'eq' and name in a.args:
                return value
            if a.op in ('exc_in', 'unwind'):
                return False
            return None
        return d
    for x in dels:
        rep.ob('removal:others', B.restrict_map(x.g, same(False)) == 0, x.where, 'the entry of another file is removed')
    for x in e.events[n0:]:
        if x.kind == 'call' and ext_name(x.fn) in ('os.unlink', 'os.remove', 'shutil.rmtree'):
            rep.ob('removal:file', False, x.where, 'removing an entry removes files')


def lookup(rep, overlay):
    opened = []

    def call(e, fi, selfn, args, kw, st):
        if fi.cls is not None and fi.cls.name == 'GRIBReader' and fi.name == '__init__':
            opened.append((st.g, e.freeze(args[0] if args else list(kw.values())[0], st)))
            raise_here.append(1)
        return None
    raise_here = []
    e, c, st = configuration(overlay, call)
    ctx = make_ctx(e, st, {'geopotential.dirs': N('param', 'dirs')})
    e.setattr(ctx, 'configuration', c, st)
    gid = N('param', 'grid_id')
    v, st2, r = e.run(e.getattr(ctx, 'geo_file', st), [gid], {}, st)
    rep.scenario(e, 'looking up the geopotential of a grid, all configurations and folders')
    v = e.freeze(v, st2)
    own = [l for c, l in leaves(v) if l.op == 'attr' or l.op == 'cfg']
    ids = lambda n: mentions(n, lambda x: x is gid)

    def world(reg, ex, sets):
        def d(a):
            b = normal(a)
            if b is not None:
                return b
            if a.op in ('truth', 'isnone') and a.args[0].op == 'attr' and 'geopotential' in a.args[0].args[1]:
                return a.op == 'isnone'
            if a.op == 'in' and a.args[0] is gid:
                return reg
            if a.op in ('truth', 'isnone'):
                x = a.args[0]
                if x.op == 'call' and ext_of(x) in ('os.path.exists', 'os.path.isfile', 'os.access', 'os.path.isdir'):
                    p = x.args[1][0]
                    k = place(p)
                    if k is not None:
                        return ex[k] and ext_of(x) != 'os.path.isdir'
                    return None
                if is_reg(x, gid):
                    return reg if a.op == 'truth' else not reg
                k = place(x)
                if k is not None and x.op in ('sub', 'call'):
                    return sets[k] if a.op == 'truth' else not sets[k]
            if a.op == 'in' and is_const(a.args[0], 'GEOPOTENTIALS'):
                return sets['user']
            if a.op == 'eq' and any(is_const(x, None, '') for x in a.args):
                k = place([x for x in a.args if not is_const(x)][0])
                if k is not None:
                    return not sets[k]
            return None
        return d
    order = ('given', 'user', 'global')
    import itertools as it
    for bits in it.product((True, False), repeat=6):
        ex, sets = dict(zip(order, bits[:3])), dict(zip(order, bits[3:]))
        if any(ex[k] and not sets[k] for k in order):
            continue
        d = world(True, ex, sets)
        first = next((k for k in order if ex[k]), None)
        got = restricted(v, d, st2.g)
        if first is None:
            g = B.OR(*[c for c, l in got]) if got else 0
            codes = {code_of(o) for o in r if B.restrict_map(o[0], d)}
            rep.ob('lookup:none', codes == {4200}, W, f'without the file in any folder the errors are {sorted(map(str, codes))}, expected 4200')
            rep.ob('lookup:none returned', g == 0, W, 'a file is returned which is in none of the folders')
            continue
        for c, l in got:
            ks = places(l)
            rep.ob(f'lookup:{first}', ks == {first}, W, f'the file of {sorted(map(str, ks))} is used, not the one of the {first} folder (there: {[k for k in order if ex[k]]})')
            rep.ob('lookup:name', named(l, gid), W, f'the file is not the one registered for the grid: {show(l, 3)[:150]}')
        rep.ob('lookup:accepted', not [o for o in r if B.restrict_map(o[0], d)], W, 'a registered file which exists is refused')
    d = world(False, {k: True for k in order}, {k: True for k in order})
    codes = {code_of(o) for o in r if B.restrict_map(o[0], d)}
    rep.ob('lookup:unknown grid', codes == {4000} and not restricted(v, d, st2.g), W, f'for a grid that is not registered the errors are {sorted(map(str, codes))}, expected 4000')


def is_reg(x, gid):
    return (x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and x.args[1] and x.args[1][0] is gid) or (x.op == 'sub' and x.args[1] is gid)


def place(n):
    dirs = N('param', 'dirs')
    if mentions(n, lambda x: x is dirs):
        # what was given for this execution, else the user folder
        return 'given' if mentions(n, lambda x: x.op == 'sub' and x.args[0] is dirs and is_const(x.args[1], 'user')
                                   or x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[0] is dirs and x.args[1] and is_const(x.args[1][0], 'user')) else None
    if n.op == 'call' and ext_of(n) == 'os.path.join':
        n = n.args[1][0]
    if n.op == 'bin':
        n = n.args[1]
    if n.op == 'call' and ext_of(n) == 'str':
        n = n.args[1][0]
    if any(variable(x) == 'GEOPOTENTIALS' for x in leafset(n)):
        return 'user'
    if mentions(n, lambda x: is_const(x, 'geopotentials')) and not mentions(n, lambda x: x is N('param', 'grid_id')):
        return 'global'
    return None


def places(l):
    out = set()
    if l.op == 'call' and ext_of(l) == 'os.path.join':
        for x in leafset(l.args[1][0]):
            out.add(place(x))
        return out
    return {place(l)}


def named(l, gid):
    if l.op == 'call' and ext_of(l) == 'os.path.join':
        return all(is_reg(x, gid) for x in leafset(l.args[1][-1]))
    return mentions(l, lambda x: is_reg(x, gid))


def source(rep, overlay):
    """geopotential of the input file"""
    for api in (False, True):
        def call(e, fi, selfn, args, kw, st):
            if fi.cls is not None and fi.cls.name == 'GRIBReader' and fi.name == 'has_geopotential':
                return N('op', 'has_geopotential')
            if fi.cls is not None and fi.name == 'get_filepath':
                return N('op', 'registered')
            return Stub(STUBS)(e, fi, selfn, args, kw, st)
        e = engine(overlay, {'invoke': call})
        st = e.state()
        ctx = make_ctx(e, st, None, 'ApiContext' if api else 'ExecutionContext')
        e.setattr(ctx, 'input_file_with_geopotential', NONE, st)
        c, st, r0 = e.run(e.find_class('Pyg2pApi' if api else 'Controller'), [ctx], {}, st)
        v, st, r = e.run(e.getattr(c, 'execute', st), [], {}, st)
        v, st, r = e.run(e.getattr(ctx, 'geo_file', st), [N('param', 'grid_id')], {}, st)
        rep.scenario(e, 'geopotential of an execution' + (' (API)' if api else ''))
        v = e.freeze(v, st)
        tag = 'API' if api else 'execution'

        def world(corr, geo):
            def d(a):
                if a.op in ('exc_in', 'unwind'):
                    return False
                if a.op == 'truth' and a.args[0] is cfg('execution.doCorrection'):
                    return corr
                if a.op in ('truth', 'isnone') and a.args[0] is cfg('input.file'):
                    return a.op == 'truth'
                if a.op == 'truth' and a.args[0] is N('op', 'has_geopotential'):
                    return geo
                return None
            return d
        for geo in (True, False):
            for c, l in restricted(v, world(True, geo), st.g):
                if geo:
                    rep.ob(f'{tag}:own geopotential', l is cfg('input.file'), 'pyg2p/main/controller.py', f'the geopotential of the input file is not used: {show(l, 3)[:100]}')
                else:
                    rep.ob(f'{tag}:registered', l is not cfg('input.file'), 'pyg2p/main/controller.py', f'an input file without geopotential is used for correction: {show(l, 3)[:100]}')
