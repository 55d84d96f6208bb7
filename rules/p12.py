"""GRIB messages and input files are released, once and not before their last use."""
from . import p10
from .pipe import *

EXPLAIN = ('The reader is evaluated abstractly for indexed and plain files; each message obtained from the library is followed to a release or to the list of the messages kept, '
           'and the lists kept to the loops that release them. Executions, the API, the correction and the configuration command are evaluated with the readers they open: '
           'each is closed when they end, also by an error, and none is used after that.')
RULE = ('a message is released or kept, never both; messages used only to look at are released before the operation ends, the others when the reader is closed, with index and file; '
        'every reader opened is closed; nothing is read from a reader or through a message after that')
ASSUME = ['calls of the library that release do not fail']
NEW = ('eccodes.codes_new_from_index', 'eccodes.codes_new_from_file', 'eccodes.codes_grib_new_from_file', 'eccodes.codes_clone', 'eccodes.codes_new_from_message')
RELEASE, INDEX, UNINDEX = 'eccodes.codes_release', 'eccodes.codes_index_new_from_file', 'eccodes.codes_index_release'
W = 'pyg2p/main/readers/grib.py'


def name_of(x):
    """the external function of a call event"""
    if x.kind != 'call' or not isinstance(x.fn, Node):
        return None
    return ext_of(x.node) if x.node is not None and x.node.op == 'call' else show(x.fn, 3)


def check(rep, overlay=None):
    items = [(h, p, op) for h in ('index', 'file') for p in (False, True) for op in ('select_messages', 'get_grib_info', 'has_geopotential', 'get_id')
             if not (p and op in ('has_geopotential', 'get_id'))]
    rep.each(items, lambda r, it: reader(r, overlay, *it), width=8)
    rep.each(['pcraster', 'netcdf', 'api', 'correction', 'program'], lambda r, it: users(r, overlay, it) if it != 'program' else program(r, overlay))


class Run:
    pass


def run(overlay, handler, perturb, op):
    k = Run()
    e = engine(overlay)
    k.e = e
    st = e.state()
    cls = e.find_class('GRIBReader')
    args = {'shortName': N('param', 'names'), 'level': N('param', 'level')}
    if perturb:
        args['perturbationNumber'] = N('param', 'member')
    if op == 'get_id':
        v, k.st, k.r = e.run(e.getattr(cls, 'get_id', st), [N('param', 'file'), e.newref(st, HObj('dict', None, {const(a): b for a, b in args.items()}))], {}, st)
        k.n = None
        return k
    c, st, r = e.run(cls, [N('param', 'file')], {'w_perturb': const(perturb)}, st)
    if op == 'get_grib_info':
        d = e.newref(st, HObj('dict', None, {const(a): b for a, b in args.items()}))
        v, st, r = e.run(e.getattr(c, op, st), [d], {}, st)
    else:
        v, st, r = e.run(e.getattr(c, op, st), [], args if op == 'select_messages' else {}, st)
    k.n = len(e.events)
    v, k.st, k.r = e.run(e.getattr(c, 'close', st), [], {}, st)
    return k


def world(k, handler):
    """the input can be indexed, or is read as a plain file"""
    e = k.e
    first = next((x for x in e.events if name_of(x) == INDEX), None)
    fopen = [x.node for x in e.events if name_of(x) == 'open']

    def d(a):
        if a.op == 'exc_in':
            return handler == 'file' if a in k.index_exc else False
        if a.op == 'unwind':
            return False
        if a.op == 'truth':
            n = a.args[0]
            if first is not None and n is first.node:
                return handler == 'index'
            if n in fopen:
                return handler == 'file'
        return None
    return d


def reader(rep, overlay, handler, perturb, op):
    k = run(overlay, handler, perturb, op)
    e = k.e
    tag = f'{op}{" of a member" if perturb else ""}, {"indexed file" if handler == "index" else "plain file"}'
    rep.scenario(e, tag)
    fallback = [x for x in e.events if name_of(x) == 'open']
    k.index_exc = {a for x in fallback for a in B.support(x.g) if a.op == 'exc_in'}
    d = world(k, handler)
    R = lambda g: B.restrict_map(g, d)
    ev = [(x, R(x.g)) for x in e.events if x.kind in ('call', 'append')]
    ev = [(x, g) for x, g in ev if g]
    news = [(x, g) for x, g in ev if name_of(x) in NEW]
    rep.need(news, f'{tag}: no messages are read')
    rel = [(x, g) for x, g in ev if name_of(x) == RELEASE]
    kept = [(x, g) for x, g in ev if x.kind == 'append' or x.kind == 'call' and isinstance(x.fn, Node) and x.fn.op == 'attr' and x.fn.args[1] == 'append']
    lists = set()
    for x, g in news:
        n = x.node
        live = B.AND(g, B.NOT(R(isnone(e, n))))
        here = [(y, B.AND(h, R(when(y.args[0], n)))) for y, h in rel if mine(y.args[0], n)]
        keep = [(y, B.AND(h, R(when(y.args[-1], n)))) for y, h in kept if mine(y.args[-1], n)]
        all_ = B.OR(*[h for y, h in here + keep])
        rep.ob(f'{tag}:accounted', not B.AND(live, B.NOT(all_)), x.where, f'{tag}: a message is neither released nor kept when {showb(B.AND(live, B.NOT(all_)))[:160]}')
        for i, (y, h) in enumerate(here + keep):
            for z, w in (here + keep)[i + 1:]:
                if y in [q for q, _ in here] or z in [q for q, _ in here]:
                    rep.ob(f'{tag}:once', not B.AND(h, w), z.where, f'{tag}: a message is released twice, or released and kept')
        for y, h in here:
            rep.ob(f'{tag}:something', not B.AND(h, B.NOT(live)), y.where, f'{tag}: what is released is no message')
            # looked at afterwards
            for z, w in ev:
                if z.seq > y.seq and z.kind == 'call' and name_of(z) not in (RELEASE,) and (name_of(z) or '').startswith('eccodes.') \
                        and z.loops[:len(y.loops)] == y.loops and any(a is n for a in z.args):
                    rep.ob(f'{tag}:after', not B.AND(h, w), z.where, f'{tag}: a message is used after its release')
        if keep:
            lists.add(n)
    if op == 'has_geopotential':
        rep.ob(f'{tag}:kept', not lists, W, f'{tag}: messages that are only looked at are kept')
    # the loops that release what was kept
    for n in lists:
        full = []
        for y, h in rel:
            for c, l in leaves(y.args[0], h):
                c = R(c)
                if not c or l.op != 'elem' or not holds(e, l.args[1], n):
                    continue
                full.append((y, l, c))
        part = [(y, l, c) for y, l, c in full if (y.seq > e.events[k.n].seq if k.n is not None and k.n < len(e.events) else True) == (op in ('select_messages',))] \
            if op != 'get_id' else full
        total = 0
        for y, l, c in part:
            for m in y.loops:
                info = e.loopinfo.get(m)
                if info is not None and not R(info.get('brk') or 0) and entire(e, info['iter']) and (m == l.args[0] or from_comp(e, info['iter'], l.args[0])):
                    total = B.OR(total, B.restrict_map(c, lambda a: True if a.op == 'iter' and a.args[0] == m else None))
        total = B.restrict_map(total, lambda a: nonempty(e, a, n))
        when_ = {'select_messages': 'when the reader is closed', 'get_grib_info': 'after they were looked at', 'get_id': 'when the grid was read'}[op]
        rep.ob(f'{tag}:released', total == 1, W, f'{tag}: the messages kept are not all released {when_} (released when {showb(total)[:160]})')
        loops = {}
        for y, l, c in full:
            loops.setdefault(l.args[0], []).append((y, c))
        ks = [B.restrict_map(B.OR(*[c for y, c in v]), lambda a: True if a.op == 'iter' else nonempty(e, a, n)) for v in loops.values()]
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                rep.ob(f'{tag}:once', not B.AND(a, b), W, f'{tag}: the messages kept are released twice')
    # index and file
    want = (UNINDEX, INDEX) if handler == 'index' else ('close', 'open')
    src = {x.node for x, g in ev if name_of(x) == want[1]}
    rep.need(src, f'{tag}: the input is not opened')
    got = 0
    last = None
    for x, g in ev:
        nm = name_of(x)
        if handler == 'index' and nm == UNINDEX or handler == 'file' and x.kind == 'call' and isinstance(x.fn, Node) and x.fn.op == 'attr' and x.fn.args[1] == 'close':
            o = x.args[0] if handler == 'index' else x.fn.args[0]
            for c, l in leaves(o, g):
                if l in src and R(c):
                    rep.ob(f'{tag}:input:once', not B.AND(got, R(c)), x.where, f'{tag}: the input is closed twice')
                    got = B.OR(got, R(c))
                    last = x.seq if last is None else min(last, x.seq)
    rep.ob(f'{tag}:input', got == 1, W, f'{tag}: the {"index" if handler == "index" else "file"} is not closed with the reader (closed when {showb(got)[:160]})')
    for x, g in news:
        rep.ob(f'{tag}:input:order', last is None or x.seq < last, x.where, f'{tag}: messages are read after the input was closed')


def entire(e, t):
    """the loop runs over the list, not over a part of it"""
    for c, l in leaves(t, 1):
        while l.op == 'call' and ext_of(l) in ('list', 'tuple', 'iter', 'sorted', 'reversed') and l.args[1]:
            l = l.args[1][0]
        if l.op == 'sub' and isinstance(l.args[1], Node) and l.args[1].op == 'slice' and not all(is_const(x, None) for x in l.args[1].args[:2]):
            return False
        if l.op in ('comp', 'gseq') and (B.restrict_map(tobdd(l.args[3]), lambda a: True if a.op == 'iter' else None) != 1
                                         or not all(v.op == 'elem' and entire(e, v.args[1]) for _, v in leaves(l.args[1], 1))):
            return False
    return True


def from_comp(e, t, L):
    return any(y.op in ('comp', 'gseq') and any(x == L or isinstance(x, Node) and x.args[0] == L for x in y.args[2]) for c, l in leaves(t, 1) for y in walk(l))


def nonempty(e, a, n):
    """a list with messages"""
    if a.op == 'truth' and isinstance(a.args[0], Node) and holds(e, a.args[0], n):
        return True
    if a.op in ('lt', 'eq') and len(a.args) == 2:
        x, y = a.args
        size = lambda t: t.op == 'call' and ext_of(t) == 'len' and t.args[1] and any(holds(e, l, n) for c, l in leaves(t.args[1][0], 1))
        if a.op == 'lt' and is_const(x, 0) and size(y):
            return True
        if a.op == 'lt' and size(x) and is_const(y, 1):
            return False
        if a.op == 'eq' and (is_const(x, 0) and size(y) or is_const(y, 0) and size(x)):
            return False
    return None


def mine(a, n):
    return any(l is n for c, l in leaves(a, 1))


def when(a, n):
    return B.OR(*[c for c, l in leaves(a, 1) if l is n])


def isnone(e, n):
    return atom(N('isnone', n))


def holds(e, t, n, seen=None):
    """a list into which n is put by the loops that fill it"""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y is n:
                return True
            if y.op == 'mu' and y not in seen and y.args in e.mus:
                seen.add(y)
                todo += [z for z in e.mus[y.args] if isinstance(z, Node)]
    return False


# ---- readers and those who open them

def users(rep, overlay, which):
    made, closes, uses = [], [], []
    base = STUBS if which != 'correction' else {}
    stub = Stub(base)

    def inst(e, ci, args, kw, st):
        if which == 'correction' and ci.name in ('PCRasterReader', 'NetCDFReader') and args:
            return N('op', 'map', args[0], const(ci.name))
        if ci.name == 'GRIBReader':
            r = e.newref(st, HObj('inst', ci, {}, N('total', 'reader', const(len(made)))))
            made.append((r, st.g, len(e.events)))
            maybe_raise(e, st, f'open{len(made) - 1}')
            return r
        return None

    def call(e, fi, selfn, args, kw, st):
        if fi.cls is not None and fi.cls.name == 'GRIBReader' and fi.name != '__init__' and selfn is not None:
            if fi.name == 'close':
                closes.append((selfn, st.g, len(e.events)))
                return NONE
            if not fi.name.startswith('_'):
                uses.append((selfn, st.g, len(e.events), fi.name))
                maybe_raise(e, st, fi.name)
            if not st.g:
                return NONE
            if fi.name == 'get_gids_for_grib_intertable':
                return N('tuple', tuple(N('op', x, (), selfn) for x in ('gid', 'values', 'gid2', 'values2')))
            return N('op', fi.name, tuple(e.freeze(a, st) for a in args), selfn)
        if which == 'correction' and fi.cls is not None and fi.cls.name == 'Interpolator' and fi.name != '__init__':
            return N('op', 'interpolated', tuple(e.freeze(a, st) for a in args))
        if fi.cls is not None and (fi.cls.name, fi.name) in base:
            uses.append((None, st.g, len(e.events), fi.name))
        return stub(e, fi, selfn, args, kw, st)
    e = engine(overlay, {'instantiate': inst, 'invoke': call}, forget=False)
    e.decide = lambda a: False if a.op == 'exc_in' else None
    st = e.state()
    ends = []       # (condition of the end, closing that follows)
    if which == 'correction':
        ctx = make_ctx(e, st, {'correction.formula': 'p+gem-dem*0.0065', 'correction.gemFormula': '(z/9.81)*0.0065', 'interpolation.mode': 'nearest'})
        c, st, r = e.run(e.getattr(e.find_class('Corrector'), 'get_instance', st), [ctx, N('param', 'grid id')], {}, st)
        if made:
            ends.append((st.g, 'when the correction is made'))
        else:
            v, st, r = e.run(e.getattr(c, 'correct', st), [N('param', 'field')], {}, st)
            ends.append((st.g, 'after the correction'))
    elif which == 'api':
        ctx = make_ctx(e, st, cls='ApiContext')
        c, st, r = e.run(e.find_class('Pyg2pApi'), [ctx], {}, st)
        v, st, r = e.run(e.getattr(c, 'execute', st), [], {}, st)
        ends.append((st.g, 'at the end of the request'))
        ends += [(o[0], 'when the request fails') for o in r]
    else:
        ctx = make_ctx(e, st, {'outMaps.format': which})
        c, st, r = e.run(e.find_class('Controller'), [ctx], {}, st)
        v, st, r = e.run(e.getattr(c, 'execute', st), [], {}, st)
        outs = [(st, 'at the end of the execution')] + [(o[2].copy(), 'when the execution fails') for o in r]
        for i, (s, what) in enumerate(outs):
            if i:
                s.g = r[i - 1][0]
            ends.append((s.g, what))
            e.run(e.getattr(c, 'close', s), [], {}, s)
    rep.scenario(e, f'readers opened by {which}')
    rep.need(made, f'{which}: no reader is opened')
    name = {'pcraster': 'an execution', 'netcdf': 'an execution', 'api': 'a request of the API', 'correction': 'a correction'}[which]
    for i, (m, g, at) in enumerate(made):
        g = B.AND(g, B.NOT(atom(N('raises', f'open{i}'))))
        mine_ = [(B.OR(*[c for c, l in leaves(s, h) if l is m]), t) for s, h, t in closes]
        total = B.OR(*[h for h, t in mine_])
        for h, what in ends:
            left = B.AND(g, h, B.NOT(total))
            rep.ob(f'{which}:closed', not left, W, f'{name} leaves an input open {what} ({showb(left)[:200]})')
        supplies = False
        for s, h, t, nm in uses:
            h = B.OR(*[c for c, l in leaves(s, h) if l is m]) if s is not None else h if supplies else 0
            supplies = supplies or s is not None and h and nm in HANDLES
            for x, w in mine_:
                rep.ob(f'{which}:order', w >= t or not B.AND(x, h), W, f'{name} uses an input ({nm}) that was closed')

    if which == 'netcdf':
        output(rep, e, ends, name)



def output(rep, e, ends, name):
    """the netCDF output is closed, else its last fields may never reach the disk"""
    calls = [x for x in e.events if x.kind == 'call' and isinstance(x.fn, Node)]
    files = [x for x in calls if ext_name(x.fn) in ('netCDF4.Dataset', 'h5netcdf.File')]
    written = [y for y in calls if y.fn.op == 'attr' and y.fn.args[1] == 'createVariable']
    files = [x for x in files if any(l is x.node for y in written for _, l in leaves(y.fn.args[0], y.g))]
    if any(f.op != 'call' for y in written for _, f in leaves(y.fn.args[0], y.g)):
        return
    for x in files:
        total = B.OR(*[c for y in calls if y.fn.op == 'attr' and y.fn.args[1] in ('close', '__exit__') and y.seq > x.seq for c, l in leaves(y.fn.args[0], y.g) if l is x.node])
        for h, what in ends:
            left = B.restrict_map(B.AND(x.g, h, B.NOT(total)), lambda a: {'isnone': False, 'truth': True}.get(a.op) if a.args[0] is x.node else None)
            rep.ob('netcdf:output', not left, x.where, f'{name} leaves the netCDF output open {what} ({showb(left)[:200]})')
        for y in written:
            for z in calls:
                if z.fn.op == 'attr' and z.fn.args[1] == 'close' and z.seq < y.seq and z.seq > x.seq:
                    both_ = B.AND(*[B.OR(*[c for c, l in leaves(q.fn.args[0], q.g) if l is x.node]) for q in (y, z)])
                    rep.ob('netcdf:output order', not both_, y.where, f'{name} writes to a netCDF output that was closed')


def program(rep, overlay):
    """the command line program closes its execution"""
    e, v, st, r = p10.program(overlay)
    rep.scenario(e, 'program')
    ops = lambda nm: [x for x in e.events if x.kind == 'op' and ext_name(x.fn) == nm]
    runs, closes = ops('execute'), ops('close')
    rep.need(runs, 'the program runs no execution')
    for x in runs:
        after = B.OR(*[y.g for y in closes if y.seq > x.seq])
        left = B.AND(x.g, B.NOT(after))
        rep.ob('program:closed', not left, 'pyg2p/main/__init__.py', f'the program does not close the inputs of an execution ({showb(left)[:200]})')
        for y in closes:
            rep.ob('program:order', y.seq > x.seq or not B.AND(x.g, y.g), y.where, 'the program closes the execution before it runs')


HANDLES = ('get_gids_for_grib_intertable', 'get_main_aux')
