"""Change of spatial resolution: coordinates, grid id, geodetic details and second resolution flag switch together, at the right field, and stay."""
from .pipe import *

EXPLAIN = ('The three executions are evaluated over messages of two resolutions (in one file, and in two files); every argument of the interpolation is a gated value whose '
           'leaves come from the first grid, from the second grid or are carried over from the previous field, and the conditions of the three are compared.')
RULE = ('the arguments of an interpolation come from the second grid under one and the same condition, which is equality of the current step with the first step of the second resolution '
        'fields that are processed; otherwise they are carried over, from an initial value of the first grid; correction asks for the same grid as the interpolation; '
        'tables for the second grid are created from the first message of the second grid')
ASSUME = ['fields reach the loop ordered by end step (P20)']
ARGS = {0: 'latitudes', 1: 'longitudes', 3: 'grid id', 4: 'grid details', 6: 'second resolution flag'}


def grid_marks(e, flag=False):
    g = getattr(e, 'given_grids', {})

    def m(x):
        if x.op == 'param':
            if x.args[0] == 'gid_a':
                return 'first'
            if x.args[0] in ('gid_a2', 'gid_b'):
                return 'second'
        if x in g:
            return 'first' if g[x] == 'a' else 'second'
        if flag and is_const(x, True):
            return 'second'
        if flag and is_const(x, False):
            return 'first'
        return None
    return m


def split(e, n, flag, g=1):
    """{'first'|'second'|mu node|other: condition}"""
    out = {}
    mk = grid_marks(e, flag)
    for c, l in leaves(n if n.op != 'bool' else mtb(n), g):
        if l.op == 'mu':
            init, nxt = e.mus[l.args]
            if is_const(init, None):
                # a value computed once and kept
                ls = labels(e, l, mk)
                k = ls.pop() if len(ls) == 1 else 'mixed'
            else:
                k = l
        else:
            ls = labels(e, l, mk)
            k = ls.pop() if len(ls) == 1 else ('mixed' if ls else 'neither')
        out[k] = B.OR(out.get(k, 0), c)
    return out


def mtb(n):
    """boolean value as a choice between True and False"""
    return ite(n.args[0], TRUE, FALSE)


def keyed(e, a, x):
    """other side of an equality between the key of the current field and something else"""
    if a.op != 'eq':
        return None
    for p, q in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
        if is_key(e, p):
            return q
    return None


def is_key(e, n):
    return all(l.op == 'keyof' or (l.op == 'sub' and l.args[0].op == 'elem' and is_const(l.args[1], 0)) or l.op == 'elem' for l in leafset(n))


def first_step_of(e, x):
    """'read' / 'aggregated' when x is the first step of the second resolution fields as read / as aggregated"""
    if x.op == 'param' and x.args[0] == 'change_a':
        return 'read'

    def mk(y):
        if y.op == 'op' and y.args[0] == 'aggregate':
            inner = labels(e, y.args[1][0], lambda z: z.args[0] if z.op == 'param' and z.args[0].startswith('values_') else None)
            return 'aggregated' if inner and inner <= {'values_a2', 'values_b'} else 'other'
        if y.op == 'param' and y.args[0].startswith('values_'):
            return 'read' if y.args[0] in ('values_a2', 'values_b') else 'other'
        return None
    ls = labels(e, x, mk)
    if len(ls) == 1 and first_of(e, x):
        return ls.pop()
    return 'something else'


def first_of(e, x):
    """x is the smallest element of something: sorted(...)[0] by end step or natural order, min(...)"""
    if x.op == 'sub' and is_const(x.args[1], 0) and ext_of(x.args[0]) in ('sorted',):
        kw = dict(x.args[0].args[2])
        return not ('reverse' in kw and not is_const(kw['reverse'], False))
    if ext_of(x) == 'min':
        return True
    if ext_of(x) == 'next' and x.args[1] and ext_of(x.args[1][0]) == 'iter':
        return first_of(e, N('sub', x.args[1][0].args[1][0], const(0)))
    return False


def check(rep, overlay=None):
    for second in ('file', 'input2'):
        for k in run_given(rep, overlay, second):
            one(rep, k, second)
    aux(rep, overlay)
    tables(rep, overlay)


def one(rep, k, second):
    e = k.e
    evs = [x for x in e.events if x.kind == 'op' and x.fn.args[0] == 'interpolate']
    rep.need(evs, f'no interpolation in the {k.name} execution')
    corr = [x for x in e.events if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'correct']
    for x in evs:
        tag = f'{k.name}-{second}'
        sp = {i: split(e, x.args[i], i == 6, x.g) for i in ARGS}
        S = sp[3].get('second', 0)
        for i, what in ARGS.items():
            extra = [q for q in sp[i] if not (q in ('first', 'second') or isinstance(q, Node))]
            rep.ob(f'{tag}:{what}:source', not extra, x.where, f'{what} of an interpolation do not come from one of the two grids')
            rep.ob(f'{tag}:{what}:together', sp[i].get('second', 0) == S, x.where,
                   f'{what} switch to the second grid under another condition than the grid id')
            carried = [q for q in sp[i] if isinstance(q, Node)]
            rep.ob(f'{tag}:{what}:kept', bool(carried) and not sp[i].get('first', 0), x.where,
                   f'{what} do not stay on the second grid after the switch')
            for q in carried:
                init, nxt = e.mus[q.args]
                a = split(e, init, i == 6)
                rep.ob(f'{tag}:{what}:initial', set(a) == {'first'}, x.where, f'{what} do not start on the first grid')
                b = split(e, nxt, i == 6)
                back = B.OR(*[c for kk, c in b.items() if kk not in ('second', q)])
                rep.ob(f'{tag}:{what}:next', B.AND(back, x.g) == 0 and B.AND(b.get('second', 0), x.g) == B.AND(S, x.g), x.where,
                       f'{what} of the following fields are not those of the current one')
        # the decision
        key = [a for a in (B.atoms[i] if isinstance(i, int) else i for i in B.support(S)) if mentions(a, lambda y: y.op in ('keyof', 'elem'))
               and not (a.op in ('isnone', 'truth') and a.args[0].op == 'mu')]
        rep.ob(f'{tag}:decision', key and all(keyed(e, a, x) is not None for a in key), x.where,
               'the switch to the second grid is not decided by the step of the current field')
        ks = set(key)
        yes = B.restrict_map(S, lambda a: True if a in ks else None)
        no = B.restrict_map(S, lambda a: False if a in ks else None)
        rep.ob(f'{tag}:switches', B.implies(x.g, yes), x.where, 'the first field of the second resolution does not always switch to the second grid')
        rep.ob(f'{tag}:only', no == 0, x.where, 'fields before the second resolution can be interpolated with the second grid')
        kinds = set()
        for a in key:
            o = keyed(e, a, x)
            if o is None:
                continue
            for c, l in leaves(o):
                kind = first_step_of(e, l)
                c = B.AND(c, path_of(S, a), x.g)
                if c == 0:
                    continue
                kinds.add(kind)
                # the fields that are processed under this condition
                have = processed(e, x, c)
                rep.ob(f'{tag}:first-step[{kind}]', kind in have or (kind == 'read' and 'aggregated' not in have), x.where,
                       f'the switch is at the first second resolution step as {kind}, but the processed fields are {", ".join(sorted(have)) or "others"}')
        rep.ob(f'{tag}:kinds', 'something else' not in kinds and 'aggregated' in kinds, x.where, 'the switch is not at the first step of the second resolution fields')
        for y in corr:
            for l in leafset(y.fn.args[0]):
                if l.op == 'op' and l.args[0] == 'corrector':
                    gid = next((v for v in l.args[1] if labels(e, v, grid_marks(e))), None)
                    ok = gid is not None and {q: B.AND(c, y.g) for q, c in split(e, gid, False, y.g).items()} == {q: B.AND(c, y.g) for q, c in split(e, x.args[3], False, y.g).items()}
                    rep.ob(f'{tag}:correction', ok, y.where, 'a field is corrected with the geopotential of another grid than the one it was interpolated from')


def path_of(S, a):
    """conditions under which atom a decides S"""
    t = B.restrict_map(S, lambda b: True if b is a else None)
    f = B.restrict_map(S, lambda b: False if b is a else None)
    return B.AND(t, B.NOT(f))


def processed(e, x, c):
    """which second resolution fields the loop around an interpolation goes over under a condition"""
    out = set()

    def it_of(n):
        for y in walk(n):
            if y.op in ('elem', 'keyof', 'valof'):
                return y.args[1]
        return None

    def pull(n, c):
        st, seen = [n], set()
        while st:
            y = constrain(st.pop(), c)
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'op' and y.args[0] == 'aggregate':
                inner = labels(e, y.args[1][0], lambda z: z.args[0] if z.op == 'param' and z.args[0].startswith('values_') else None)
                if inner & {'values_a2', 'values_b'}:
                    out.add('aggregated')
                continue
            if y.op == 'param' and y.args[0] in ('values_a2', 'values_b'):
                out.add('read')
                continue
            if y.op == 'mu':
                st += list(e.mus[y.args])
                continue
            if y.op == 'ite':
                st += list(y.args[1:])
                continue
            st += children(y)
    it = it_of(x.args[2])
    if it is not None:
        pull(it, c)
    return out


def aux(rep, overlay):
    """messages handed over for the creation of grib tables"""
    st = {('Interpolator', 'aux_for_intertable_generation'): chain_stub('aux')}
    for second in ('file', 'input2'):
        for k in run_given(rep, overlay, second, fixed={'interpolation.mode': 'grib_nearest'}, stubs=st):
            evs = [x for x in k.e.events if x.kind == 'op' and x.fn.args[0] == 'aux']
            first = [x for x in k.e.events if x.kind == 'op' and x.fn.args[0] == 'interpolate']
            want = tuple(N('param', p) for p in ('aux_g', 'aux_v', 'aux_g2', 'aux_v2'))
            ok = any(tuple(x.args[:4]) == want and (not first or all(B.implies(y.g_out if hasattr(y, 'g_out') else 1, 1) for y in first)) for x in evs)
            rep.ob(f'{k.name}-{second}:aux', ok and all(tuple(x.args[:4]) == want for x in evs), evs[0].where if evs else 'execution',
                   'the messages for the creation of tables are not handed over to the interpolation in their order')
            if evs and first:
                e = k.e
                rep.ob(f'{k.name}-{second}:aux-before', e.events.index(evs[0]) < e.events.index(first[0]), evs[0].where, 'messages for the creation of tables come too late')
    # the second message comes from the second file
    for s in ('pcraster',):
        tab = {**STUBS, ('Interpolator', 'aux_for_intertable_generation'): chain_stub('aux')}
        e, v, s2, r = run_controller(overlay, {'outMaps.format': s, 'interpolation.mode': 'grib_nearest', 'input.two_resolution': True}, stubs=tab)
        rep.scenario(e, 'execution with two input files, reader included')
        evs = [x for x in e.events if x.kind == 'op' and x.fn.args[0] == 'aux']
        for x in evs:
            for i, f in ((0, 'input.file'), (2, 'input.file2')):
                fs = labels(e, x.args[i], lambda y: y.args[1].args[0] if y.op == 'cfg' and is_const(y.args[1]) and str(y.args[1].args[0]).startswith('input.file') else None)
                rep.ob(f'input2:aux-file[{f}]', fs == {f}, x.where, f'the message for tables of the {"first" if i == 0 else "second"} grid is read from {", ".join(sorted(fs)) or "nowhere"}')


def tables(rep, overlay):
    """which message a grib table is made from"""
    for mode in ('grib_nearest', 'grib_invdist'):
        for par in (False, True):
            for flag in (False, True):
                e = engine(overlay)
                st = e.state()
                ctx = make_ctx(e, st, {'interpolation.mode': mode, 'interpolation.parallel': par, 'interpolation.create': True})
                ip = e.find_class('Interpolator')
                o, st, _ = e.run(ip, [ctx, N('param', 'mv')], {}, st)
                f = e.getattr(o, 'aux_for_intertable_generation', st)
                _, st, _ = e.run(f, [N('param', x) for x in ('aux_g', 'aux_v', 'aux_g2', 'aux_v2')], {}, st)
                f = e.getattr(o, 'interpolate', st)
                v, st, _ = e.run(f, [N('param', x) for x in ('lats', 'longs', 'v', 'grid_id', 'details')], {'is_second_res': const(flag)}, st)
                rep.scenario(e, f'creation of a {mode} table{", parallel" if par else ""}, {"second" if flag else "first"} grid')
                ev = [x for x in e.events if x.kind == 'call' and (ext_name(x.fn) or '').endswith('codes_grib_find_nearest')]
                ev = ev or [x for x in e.events if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] in ('map', 'starmap', 'apply')]
                tag = f"{mode}{'-parallel' if par else ''}-{'second' if flag else 'first'}"
                rep.need(ev, f'no neighbour search for {tag}')
                for x in ev:
                    ls = labels(e, N('tuple', tuple(x.args)), lambda y: y.args[0] if y.op == 'param' and y.args[0].startswith('aux_') else None)
                    rep.ob(f'table:{tag}', ls == {'aux_g2' if flag else 'aux_g'}, x.where, f'the table of the {"second" if flag else "first"} grid is made from message {", ".join(sorted(ls)) or "?"}')
