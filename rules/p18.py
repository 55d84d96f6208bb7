"""What executions create, write, move and delete."""
from .pipe import *
from . import tables, p22, p25
from .p34 import configuration
from .p08 import api_context
from .tables import MODES, GRIB, GID, OPEN, Place, opened, registry

EXPLAIN = ('The configuration, both contexts, executions of the three kinds, interpolation in every mode, corrections and reading are evaluated abstractly; every call that creates, writes, moves or deletes '
           'files is collected with the paths it can be given, and each path is followed to the setting or folder it starts with.')
RULE = 'paths that are created or written start with the output folder (not for the API), the tables folder of the user or the home of the user; nothing that exists is deleted; inputs and shared files are only read'
ASSUME = ['names of files put after a folder do not lead out of it', 'eccodes, GDAL and netCDF4 do not change files opened for reading']
READS = ('input.file', 'input.file2', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap', 'interpolation.cdd_map', 'correction.demMap', 'geopotential')
OPTIONS = {'inputFile': 'input', 'inputFile2': 'input', 'commandsFile': 'template', 'outDir': 'out', 'intertableDir': 'tables', 'geopotentialDir': 'geopotentials'}
NAMES = {'out': 'the output folder', 'tables': 'the tables folder of the user', 'home': 'the configuration of the user', 'input': 'an input file or map', 'shared': 'shared files', 'template': 'the template',
         'geopotentials': 'the geopotentials', 'work': 'files of the working folder', 'else': 'files elsewhere'}
OWN = ('out', 'tables', 'home')
SAME = {'os.path.normpath', 'os.path.abspath', 'os.path.realpath', 'os.path.dirname', 'str', 'pathlib.Path', 'os.fspath', 'pathlib.PurePath', 'os.path.expandvars', 'os.path.splitext'}
METHODS = ('encode', 'as_posix', 'strip', 'resolve', 'joinpath', 'with_suffix', 'with_name', 'absolute', 'lower', 'upper', 'decode', 'rstrip', 'lstrip', 'replace', 'format')


def starts(e, n, seen=None):
    """what a path starts with"""
    seen = set() if seen is None else seen
    out = set()
    for l in leafset(n):
        if l in seen:
            continue
        seen.add(l)
        if l.op == 'mu':
            for x in e.mus.get((l.args[0], l.args[1]), ()):
                if isinstance(x, Node):
                    out |= starts(e, x, seen)
            continue
        if l.op == 'fmt':
            ps = [p for p in (l.args[0] if isinstance(l.args[0], tuple) else l.args) if not (isinstance(p, Node) and is_const(p, ''))]
            out |= starts(e, ps[0], seen) if ps and isinstance(ps[0], Node) else {None}
            continue
        if l.op == 'bin' and l.args[0] in ('+', '/', '%'):
            out |= starts(e, l.args[1], seen)
            continue
        if l.op == 'attr' and l.args[1] == 'parent':
            out |= starts(e, l.args[0], seen)
            continue
        if l.op == 'call':
            f = ext_of(l)
            if f == 'os.path.join' and l.args[1]:
                a = [x for x in l.args[1] if not is_const(x, '')]
                out |= starts(e, a[0], seen) if a else {None}
                continue
            if f in SAME and l.args[1]:
                out |= starts(e, l.args[1][0], seen)
                continue
            if l.args[0].op == 'attr' and l.args[0].args[1] in METHODS:
                out |= starts(e, l.args[0].args[0], seen)
                continue
        if l.op == 'sub' and l.args[0].op == 'call' and ext_of(l.args[0]) in ('os.path.splitext', 'os.path.split'):
            out |= starts(e, l.args[0].args[1][0], seen)
            continue
        out.add(l)
    return out


def owner(l):
    """whose file this is, by what its path starts with"""
    if l is None:
        return None
    if l.op == 'cfg' and is_const(l.args[1]) or l.op == 'cfg' and isinstance(l.args[1], str):
        k = l.args[1].args[0] if isinstance(l.args[1], Node) else l.args[1]
        if k in ('outMaps.namePrefix', 'outMaps.fmap', 'outMaps.ext'):
            return 'work'
        return 'out' if k == 'outMaps.outDir' else 'input' if k in READS else 'tables' if k == 'interpolation.dir' else 'geopotentials' if k == 'geopotential.dir' else None
    if l.op == 'opt':
        return OPTIONS.get(l.args[0])
    if l.op in ('sub', 'call'):
        base, key = (l.args[0], l.args[1]) if l.op == 'sub' else (l.args[0].args[0], l.args[1][0]) if l.args[0].op == 'attr' and l.args[0].args[1] == 'get' and l.args[1] else (None, None)
        if base is not None and is_const(key):
            if mentions(base, lambda x: x.op == 'cfg' and (x.args[1] == 'interpolation.dirs' or isinstance(x.args[1], Node) and is_const(x.args[1], 'interpolation.dirs'))):
                return 'tables' if key.args[0] == 'user' else 'shared'
            if mentions(base, lambda x: x.op == 'cfg' and (x.args[1] == 'geopotential.dirs' or isinstance(x.args[1], Node) and is_const(x.args[1], 'geopotential.dirs'))):
                return 'geopotentials'
            if key.args[0] == 'INTERTABLES':
                return 'tables'
            if key.args[0] == 'GEOPOTENTIALS':
                return 'geopotentials'
            if key.args[0] in ('intertables', 'geopotentials'):
                return 'shared'
        if l.op == 'call' and ext_of(l) in ('os.path.expanduser', 'pathlib.Path.home'):
            return 'home'
    if is_const(l) and isinstance(l.args[0], str) and l.args[0].startswith('configuration'):
        return 'shared'
    if is_const(l) and isinstance(l.args[0], str) and l.args[0].startswith(('/', '~')):
        return 'else'
    if l.op == 'call' and ext_of(l) == 'os.path.basename' or l.op == 'attr' and l.args[1] in ('name', 'stem'):
        return 'work'
    return None


DELETES = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree'}
MOVES = {'os.rename', 'os.replace', 'os.renames', 'shutil.move'}
WRITES = {'os.makedirs', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.utime', 'os.mkfifo', 'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt'}
COPIES = {'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree', 'os.symlink', 'os.link'}
PROCESSES = ('subprocess.', 'os.system', 'os.popen', 'os.spawn', 'os.exec')


def argument(x, i, *names):
    kw = dict(x.kw or ())
    if len(x.args) > i:
        return x.args[i]
    return next((kw[n] for n in names if n in kw), None)


def mode(n, default='r'):
    """modes a file can be opened with"""
    if n is None:
        return {default}
    return {str(l.args[0]) if is_const(l) else None for l in leafset(n)}


def effects(x):
    """[(what is done, path)] of a call"""
    f = ext_name(x.fn) or ''
    m = x.fn.args[1] if x.fn.op == 'attr' else ''
    of = x.fn.args[0] if x.fn.op == 'attr' else None
    out = []
    if f in ('open', 'io.open', 'gzip.open', 'gzip.GzipFile', 'bz2.open', 'lzma.open', 'os.fdopen', 'codecs.open'):
        if any(k and set(k) & set('wax+') for k in mode(argument(x, 1, 'mode'))):
            out.append(('written', argument(x, 0, 'file', 'filename')))
    elif f in ('netCDF4.Dataset', 'h5netcdf.File', 'h5py.File'):
        if any(k and k[0] != 'r' or k and '+' in k for k in mode(argument(x, 1, 'mode'))):
            out.append(('written', argument(x, 0, 'filename')))
    elif f.endswith('gdal.Open') or f.endswith('gdal.OpenShared'):
        a = argument(x, 1, 'eAccess')
        if a is not None and any(is_const(l, 1) or 'GA_Update' in (ext_name(l) or '') for l in leafset(a)):
            out.append(('opened to be changed', argument(x, 0)))
    elif f in DELETES:
        out.append(('deleted', argument(x, 0, 'path')))
    elif f in MOVES:
        out += [('moved', argument(x, 0, 'src')), ('written', argument(x, 1, 'dst'))]
    elif f in COPIES:
        out.append(('written', argument(x, 1, 'dst')))
    elif f in WRITES:
        out.append(('written', argument(x, 0, 'file', 'name', 'path')))
    elif f == 'numpy.load' or f == 'numpy.memmap':
        a = argument(x, 9, 'mmap_mode', 'mode')
        if any(k and k != 'c' and ('+' in k or 'w' in k) for k in mode(a)):
            out.append(('opened to be changed', argument(x, 0, 'file', 'filename')))
    elif f.endswith('codes_index_write'):
        out.append(('written', argument(x, 1)))
    elif m == 'CreateCopy' or m == 'Create' and mentions(of, lambda n: n.op == 'call' and (ext_of(n) or '').endswith('GetDriverByName')):
        if not mentions(of, lambda n: is_const(n, 'MEM')):
            out.append(('written', argument(x, 0, 'utf8_path')))
    elif m == 'Delete' and mentions(of, lambda n: n.op == 'call' and (ext_of(n) or '').endswith('GetDriverByName')):
        out.append(('deleted', argument(x, 0)))
    elif m in ('unlink', 'rmdir'):
        out.append(('deleted', of))
    elif m in ('write_text', 'write_bytes', 'touch', 'mkdir'):
        out.append(('written', of))
    elif m == 'tofile':
        out.append(('written', argument(x, 0)))
    elif m in ('WriteArray', 'WriteRaster', 'SetNoDataValue', 'Fill', 'SetMetadata', 'SetGeoTransform', 'SetProjection'):
        for d in datasets(of):
            if d.op == 'call' and (ext_of(d) or '').endswith(('gdal.Open', 'gdal.OpenShared')):
                out.append(('changed', d.args[1][0]))
    return [(w, p) for w, p in out if p is not None]


def datasets(n):
    """the dataset of a band"""
    out = set()
    for l in leafset(n):
        out |= datasets(l.args[0].args[0]) if l.op == 'call' and l.args[0].op == 'attr' and l.args[0].args[1] == 'GetRasterBand' else {l}
    return out


def check(rep, overlay=None):
    jobs = [('files', 'configuration')] + [('files', 'context', k) for k in ('template', 'request')]
    jobs += [('files', 'execution', s, x) for s in SINKS for x in (None, 'input2')]
    jobs += [('files', 'interpolation', m, g) for m in MODES for g in ((-1, GID) if m in GRIB else (-1,))]
    jobs += [('files', 'correction', m) for m in (False, True)] + [('files', 'reading', h) for h in ('file', 'index')]
    rep.each(jobs, lambda r, a: files(r, overlay, *a[1:]), width=6)


def evaluated(rep, overlay, what, *how):
    if what == 'configuration':
        return configuration(overlay)[0], 'configuration'
    if what == 'context':
        return (cli_context(overlay, forget=False) if how[0] == 'template' else api_context(overlay))[0], f'context of a {how[0]}'
    if what == 'execution':
        return run_given(rep, overlay, how[1], (how[0],))[0].e, ('request of the API' if how[0] == 'api' else f'{how[0]} execution') + (' with two inputs' if how[1] else '')
    if what == 'interpolation':
        return tables.interpolate(overlay, how[0], gid=how[1], second=False), f'interpolation mode {how[0]}'
    if what == 'correction':
        return p25.build(overlay, 'p+gem-dem', 'z/9.81', how[0])[0], 'correction'
    return p22.reading(overlay, how[0], {'dataDate'}, 'range').e, f'reading through the {how[0]}'


def files(rep, overlay, what, *how):
    e, name = evaluated(rep, overlay, what, *how)
    k, e = (e, e.e) if what == 'interpolation' else (None, e)
    rep.scenario(e, name)
    n = set()
    for x in e.events:
        if x.kind != 'call' or not isinstance(x.fn, Node) or not x.g:
            continue
        f = ext_name(x.fn) or ''
        if f.startswith(PROCESSES):
            rep.ob(f'{name}:processes', False, x.where, f'{name}: another program is started')
        for done, path in effects(x):
            if any(l.op == 'call' and (ext_of(l) or '').split('.')[-1] in ('open', 'GzipFile', 'BytesIO') for l in leafset(path)):
                # into an open file
                continue
            for g, p in leaves(path, x.g):
                for s in starts(e, p):
                    o = owner(s)
                    n.add((done, o))
                    if o == 'shared' and done == 'written' and k and any(y is x and not registry(l) for l, y, m in opened(k, lambda a: None)):
                        # which of the folders depends on the files that are there
                        saved(rep, k, name)
                        continue
                    if done in ('opened to be changed', 'changed') or o not in OWN and o is not None or done == 'deleted':
                        rep.ob(f'{name}:{done}', o is None, x.where, f'{name}: {NAMES.get(o)} can be {done}: {show(p, 3)[:140]}')
                    else:
                        api = what == 'execution' and how[0] == 'api' or what == 'context' and how[0] == 'request'
                        rep.ob(f'{name}:{done} {o or "other"}', not (api and o == 'out'), x.where, f'{name}: files of the output folder are {done}')
    want = {'configuration': ('written', 'home'), 'interpolation': ('written', 'tables')}.get(what) or (('written', 'out') if what == 'execution' and how[0] != 'api' or what == 'context' and how[0] == 'template' else None)
    rep.need(want is None or want in n, f'{name}: writes nothing of {NAMES.get(want[1]) if want else ""} any more')
    rep.ob(f'{name}:seen', True, name, '')


def saved(rep, k, name):
    """tables are saved in the folder of the user whatever the state of the folders"""
    if getattr(k, 'judged', False):
        return
    k.judged = True
    for state in tables.states():
        for user in (True, False):
            w = Place(**{**OPEN, **state, 'user': user, 'create': True, 'cached': False, 'defined': True, 'folder': True, 'write': True}).on(k)
            for l, x, m in opened(k, w):
                f = w.path(l) if m == 'w' and not registry(l) else None
                if f:
                    rep.ob(f'{name}:written table', f[0] == 'user', x.where, f'{name}: a table is written in the shared folder')
