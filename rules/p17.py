"""The interpolation table that is looked up."""
from .tables import *

EXPLAIN = ('One interpolation is evaluated in every mode, for both resolutions, on an open registry and open folders; then every combination of registered / file in the folder of the user / '
           'file in the shared folder / packed or not / -B given decides the conditions of every read and write of a table file.')
RULE = 'the file that is read is the registered one of the user folder if there, else of the shared folder, packed or not; without any and without -B: error 8100, nothing read, nothing written'
ASSUME = ['table files do not change between the test of their existence and their use']


def check(rep, overlay=None):
    rep.each([(m, s) for m in MODES for s in ((False, True) if m in GRIB else (False,))], lambda r, it: one(r, overlay, *it))


def one(rep, overlay, mode, second):
    k = interpolate(overlay, mode, second=second)
    rep.scenario(k.e, f'{mode}, {"second" if second else "main"} resolution')
    tag = f'{mode}{":second" if second else ""}'
    rep.need(any(x.kind == 'call' and ext_name(x.fn) == 'numpy.load' for x in k.e.events[k.n1:]), f'{mode}: no table is read')

    def state(**kw):
        return Place(**kw).on(k)

    def verdict(name, w, want, refuse):
        """want: files one of which must be read; refuse: error expected"""
        reads, writes = {}, {}
        for l, x, m in opened(k, w):
            f = w.path(l)
            if f is None:
                if m == 'w':
                    writes[show(l, 3)] = x
                elif not registry(l):
                    rep.ob(f'{tag}:{name}:file', False, x.where, f'a file of unknown place is read as a table: {show(l, 4)[:150]}')
            elif m == 'w':
                writes[f] = x
            elif w.exists(f):
                reads[f] = x
        got = {(f[0], f[2]) for f in reads}
        fn = 'Interpolator.interpolate'
        for f, x in reads.items():
            rep.ob(f'{tag}:{name}:read', (f[0], f[2]) in want, x.where, f'{name}: the table is read from the {f[0]} folder{" (packed)" if f[2] else ""}' + (' instead of ' + ', '.join(a + b for a, b in sorted(want)) if want else ', none should be'))
        if want:
            rep.ob(f'{tag}:{name}:found', bool(got & want), fn, f'{name}: the table that is there is not read')
            rep.ob(f'{tag}:{name}:ends', done(k, w)[0], fn, f'{name}: the interpolation does not complete')
            bad = codes(k, w) & {'8100', '6000', '8000', '8500', '8600'}
            rep.ob(f'{tag}:{name}:noerror', not bad, fn, f'{name}: error {", ".join(sorted(bad))} is possible although the table is there')
        if want or refuse:
            for f, x in writes.items():
                rep.ob(f'{tag}:{name}:write', False, x.where, f'{name}: {f} is written')
        if refuse:
            rep.ob(f'{tag}:{name}:refused', not done(k, w)[0] and '8100' in codes(k, w), fn, f'{name}: the missing table is not reported with error 8100')
    for gz in (True, False):
        for user in (True, False):
            places = [(d, s) for d in (('user', 'global') if user else ('global',)) for s in (('',) if gz else ('', '.gz'))]
            for there in subsets(places):
                for create in (False, True):
                    first = next((d for d in ('user', 'global') if any(f[0] == d for f in there)), None)
                    want = {f for f in there if f[0] == first}
                    name = f'registered as {"x.npy.gz" if gz else "x.npy"}, {"there: " + " ".join(sorted(a + b for a, b in there)) if there else "no file"}' + ('' if user else ', no user folder') + (', -B' if create else '')
                    verdict(name, state(registered=True, user=user, there=there, create=create, named_gz=gz), want, not there and not create)
    for user in (True, False):
        verdict('not registered' + ('' if user else ', no user folder'), state(registered=False, user=user, there=(), new_exists=None), set(), True)
    for nx in (True, False):
        w = state(registered=False, there={('user', ''), ('user', '.gz'), ('global', ''), ('global', '.gz')}, create=True, new_exists=nx)
        for l, x, m in opened(k, w):
            f = w.path(l)
            if m == 'r' and not registry(l):
                rep.ob(f'{tag}:not registered, -B:read', False, x.where, 'a table file is read for a grid that has no registered table')
    rep.ob(f'{tag}:not registered', True, 'Interpolator.interpolate', '')
