"""Interpolation tables are created where and when it was asked for."""
from .tables import *

EXPLAIN = ('One interpolation is evaluated in every mode, for both resolutions and with or without a message handle, on an open registry and open folders; the conditions of every write of a table file, '
           'of every computation of a table and of every write of the registry are decided for all states of the -B option, the user folder, the registry and the files present.')
RULE = 'a write of a table => -B, user folder defined, existing and writable, the file is not there and lies in the user folder; registry written only after the table'
ASSUME = ['no other process creates table files between the test and the write']


def check(rep, overlay=None):
    rep.each([(m, s, h) for m in MODES for s in ((False, True) if m in GRIB else (False,)) for h in ((-1, N('param', 'gid')) if m in GRIB else (-1,))], lambda r, it: one(r, overlay, *it))


def computations(k, w):
    for x in k.e.events[k.n1:]:
        if x.kind in ('op', 'new', 'call') and x.fn is not None and B.restrict_map(x.g, w):
            n = ext_name(x.fn)
            if n == 'compute':
                yield x


def one(rep, overlay, mode, second, gid):
    k = interpolate(overlay, mode, gid=gid, second=second)
    what = f'{mode}{", second resolution" if second else ""}{"" if gid == -1 else ", message given"}'
    tag = what.replace(', ', ':')
    rep.scenario(k.e, what)
    fn = 'Interpolator.interpolate'
    tables = lambda w: [(l, x, w.path(l)) for l, x, m in opened(k, w) if m == 'w' and not registry(l)]
    regs = lambda w: [x for l, x, m in opened(k, w) if m == 'w' and registry(l)]
    free = Place(**OPEN).on(k)
    rep.need(any(m == 'w' and not registry(l) for l, x, m in opened(k, free)), f'{what}: no table is ever saved')

    def none(name, text, expected=None, **kw):
        for state in states():
            for user in (True, False):
                w = Place(**{**OPEN, **state, 'user': user, 'cached': False, **kw}).on(k)
                for l, x, f in tables(w):
                    rep.ob(f'{tag}:{name}:write', False, x.where, f'{what}: a table is saved {text}')
                for x in regs(w):
                    rep.ob(f'{tag}:{name}:registry', False, x.where, f'{what}: the registry of tables is written {text}')
                for x in computations(k, w):
                    rep.ob(f'{tag}:{name}:computed', False, x.where, f'{what}: a table is computed {text}')
                if expected and not state['there']:
                    w = Place(**{**OPEN, **state, 'user': user, 'create': True, 'cached': False, **kw}).on(k)
                    rep.ob(f'{tag}:{name}:error', expected in codes(k, w) and not done(k, w)[0], fn, f'{what}: creating a table {text} is not refused with error {expected}')
        rep.ob(f'{tag}:{name}', True, fn, '')
    none('no -B', 'although -B was not given', create=False)
    none('folder not defined', 'although no folder for tables is configured', '8000', defined=False)
    none('folder missing', 'although the configured folder does not exist', '8600', defined=True, folder=False)
    none('folder not writable', 'although the configured folder cannot be written', '8500', defined=True, folder=True, write=False)
    seen = set()
    for gz in (True, False):
        places = [(d, s) for d in ('user', 'global') for s in (('',) if gz else ('', '.gz'))]
        for reg in (True, False):
            for there in (subsets(places) if reg else ({}, set(places))):
                for nx in ((None,) if reg else (None, True)):
                    w = Place(**{**OPEN, 'registered': reg, 'user': True, 'there': there, 'create': True, 'named_gz': gz, 'new_exists': nx, 'defined': True, 'folder': True, 'write': True, 'cached': False}).on(k)
                    for l, x, f in tables(w):
                        seen.add((reg, nx))
                        st = f'{"registered" if reg else "not registered"}'
                        if f is None:
                            rep.ob(f'{tag}:place', False, x.where, f'{what}: a table is saved in an unknown place: {show(l, 4)[:150]}')
                            continue
                        rep.ob(f'{tag}:place', f[0] == 'user', x.where, f'{what}: a table is saved in the {f[0]} folder')
                        rep.ob(f'{tag}:kind[{st}]', f[1] == ('entry' if reg else 'new'), x.where, f'{what}: the table of a {st} grid is saved under {"a new" if reg else "a registered"} name')
                        rep.ob(f'{tag}:overwrite', not w.exists(f), x.where, f'{what}: a table file that exists is overwritten')
                        if reg:
                            rep.ob(f'{tag}:again', not there, x.where, f'{what}: a table is saved again although its file is in the {" and ".join(sorted({a for a, b in there}))} folder')
                            rep.ob(f'{tag}:packed', gz or f[2] == '.gz', x.where, f'{what}: the table is saved unpacked')
    rep.ob(f'{tag}:creates', {(True, None), (False, None)} <= seen, fn, f'{what}: with -B and a writable folder the missing table is not created')
    # registry after the table
    for x in k.e.events[k.n1:]:
        if x.kind == 'call' and ext_name(x.fn) == 'open' and x.args and registry(x.args[0]):
            w = free
            md = x.args[1] if len(x.args) > 1 else const('r')
            if is_const(md) and not set(str(md.args[0])) & set('wax+'):
                continue
            saved = [y for y in k.e.events[k.n1:] if y.seq < x.seq and y.kind == 'call' and ext_name(y.fn) == 'numpy.save']
            g = B.OR(*[y.g for y in saved]) if saved else 0
            rep.ob(f'{tag}:order', B.implies(x.g, g), x.where, f'{what}: a table is registered before, or without, being saved')
    w = Place(**{**OPEN, 'create': True, 'registered': False, 'defined': True, 'folder': True, 'write': True, 'cached': False}).on(k)
    for y in k.e.events[k.n1:]:
        if y.kind == 'call' and ext_name(y.fn) == 'numpy.save':
            after = [x for x in k.e.events[k.n1:] if x.seq > y.seq and x.kind == 'call' and ext_name(x.fn) == 'open' and x.args and registry(x.args[0])]
            g = B.restrict_map(y.g, lambda a: w(a) if a.op != 'exc_in' else False)
            h = B.OR(*[B.restrict_map(x.g, lambda a: w(a) if a.op != 'exc_in' else False) for x in after]) if after else 0
            rep.ob(f'{tag}:registered', B.implies(g, h), y.where, f'{what}: a saved table is not registered')
