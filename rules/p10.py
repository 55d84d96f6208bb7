"""Exit status of the program, and of commands run through the API."""
import ast
import os
from .common import *

EXPLAIN = ('The entry point is evaluated with the construction of the context, the execution and the configuration commands as opaque operations that may raise; '
           'the returned status is a decision diagram over what was raised, compared with the documented status case by case.')
RULE = ('status 0 exactly when nothing was raised, or NO_MESSAGES by an execution; any other refusal or failure gives a non zero status or leaves the program as an exception; '
        'the controller is closed in every case; scripts and API commands hand the status over')
ASSUME = ['processing functions of libraries only raise ordinary exceptions']
APP, CTX, OTHER, NOMSG, EXT, CONF, INIT, BUG, LOG = (N('raises', t) for t in ('app', 'ctx', 'other', 'nomsg', 'ext', 'conf', 'init', 'bug', 'log'))
NO_MESSAGES = 3000


def program(overlay=None, entry='pyg2p_exe'):
    def inst(e, ci, args, kw, st):
        if ci.name != 'ExecutionContext':
            return None
        vals = tuple(e.freeze(a, st) for a in args)
        e.emit('op', st, N('ext', 'context'), vals, ())
        maybe_raise(e, st, 'app', 1300)
        maybe_raise(e, st, 'ctx', ext='ValueError')
        conf = e.newref(st, HObj('inst', e.cinfo(e.find_class('Configuration')), {}, N('total', 'conf')))
        d = e.newref(st, HObj('dict', None, {}, N('total', 'ctx')))
        r = e.newref(st, HObj('inst', ci, {'_vars': d, 'configuration': conf}, N('total', 'ctxattr')))
        return r

    def call(e, fi, selfn, args, kw, st):
        cl = fi.cls.name if fi.cls is not None else None
        if cl == 'Controller' and fi.name in ('__init__', 'execute', 'close', 'log_execution_context'):
            e.emit('op', st, N('ext', fi.name), tuple(e.freeze(a, st) for a in args), ())
            if fi.name == '__init__':
                maybe_raise(e, st, 'init', 1300)
            if fi.name == 'log_execution_context':
                maybe_raise(e, st, 'log', ext='ValueError')
            if fi.name == 'execute':
                maybe_raise(e, st, 'nomsg', NO_MESSAGES)
                maybe_raise(e, st, 'other', N('param', 'code'))
                maybe_raise(e, st, 'ext', ext='ValueError')
                maybe_raise(e, st, 'bug', ext='AttributeError')
            return NONE
        if cl == 'Configuration' and fi.name in ('add_geopotential', 'download_data', 'check_conf', 'remove_geopotential'):
            e.emit('op', st, N('ext', fi.name), tuple(e.freeze(a, st) for a in args) + tuple(e.freeze(v, st) for v in kw.values()), ())
            maybe_raise(e, st, 'conf', 8300)
            return NONE
        return None
    e = engine(overlay, {'instantiate': inst, 'invoke': call}, forget=False)
    st = e.state()
    v, st, r = e.run(e.find_func(entry), [N('param', 'argv')], {}, st)
    return e, e.freeze(v, st), st, r


def facts(raised=(), config=None):
    def d(a):
        if a.op == 'raises':
            return a in raised
        if a.op == 'eq' and any(x is N('param', 'code') for x in a.args):
            return False
        if a.op in ('exc_in', 'unwind'):
            return False
        if config is not None and a.op in ('truth', 'isnone', 'eq'):
            x = a.args[0]
            yes = None
            if x.op == 'attr' and x.args[1] == 'is_config_command':
                yes = bool(config)
            if x.op == 'attr' and x.args[1] == 'to_add_geopotential':
                yes = config == 'geopotential'
            if x.op == 'cfg' and is_const(x.args[1]):
                k = x.args[1].args[0]
                if k in ('geopotential', 'download_configuration', 'check_conf'):
                    yes = k == config
            if a.op == 'truth':
                return yes
            if a.op == 'isnone' and yes is not None:
                return not yes
        return None
    return d


def status(v, st, d):
    """('0' | 'error' | 'unknown') -> condition, under decided atoms"""
    out = {}
    for c, l in restricted(v, d, st.g):
        if is_const(l) or l.op == 'bool' and l.args[0] in (0, 1):
            x = l.args[0] if is_const(l) else bool(l.args[0])
            k = 'ok' if x in (0, None) or x is False else 'error'
        else:
            k = 'unknown'
        out[k] = B.OR(out.get(k, 0), c)
    return out


def check(rep, overlay=None):
    e, v, st, r = program(overlay)
    rep.scenario(e, 'program over an arbitrary command line, anything can raise')
    where = 'pyg2p/main/__init__.py (pyg2p_exe)'
    cases = [('execution', (), None, {'ok'}), ('no messages', (NOMSG,), None, {'ok'}), ('failed', (OTHER,), None, {'error'}), ('not started', (INIT,), None, {'error'}),
             ('refused', (APP,), None, {'error'}), ('unreadable', (CTX,), None, {'error'}),
             ('command', (), 'geopotential', {'ok'}), ('command -W', (), 'download_configuration', {'ok'}), ('command -K', (), 'check_conf', {'ok'}),
             ('failed command', (CONF,), 'geopotential', {'error'}), ('failed command -W', (CONF,), 'download_configuration', {'error'}), ('failed command -K', (CONF,), 'check_conf', {'error'})]
    text = {'ok': 'status 0', 'error': 'a status other than 0', 'unknown': 'an unknown status'}
    for name, raised, config, want in cases:
        d = facts(raised, config if config else '')
        got = status(v, st, d)
        rep.ob(f'status:{name}', set(got) == want, where, f'{name}: {" or ".join(text[k] for k in sorted(got)) or "no status"} instead of {text[min(want)]}')
    for name, raised in (('library error', (EXT,)), ('program error', (BUG,)), ('log', (LOG,))):
        got = status(v, st, facts(raised, ''))
        rep.ob(f'status:{name}', not set(got) - {'error'}, where, f'an execution that ended with a {name} returns {text[min(got)] if got else ""}')
    # the controller is closed whenever it was made
    closes = [x for x in e.events if x.kind == 'op' and x.fn.args[0] == 'close']
    rep.need(any(x.kind == 'op' and x.fn.args[0] == 'execute' for x in e.events), 'the controller is not executed any more')
    for name, raised in (('success', ()), ('no messages', (NOMSG,)), ('failure', (OTHER,)), ('library error', (EXT,)), ('log', (LOG,))):
        g = B.OR(*[B.restrict_map(x.g, facts(raised, '')) for x in closes])
        rep.ob(f'closed:{name}', g == 1, where, f'input files stay open after {name}')
    for x in e.events:
        if x.kind == 'op' and x.fn.args[0] == 'execute':
            ks = [n for n in walk(x.args[0]) if n.op == 'const'] if x.args else []
            rep.ob('writes', not any(is_const(n, False) for n in ks), x.where, 'an execution started from the command line does not write its maps')
    handed(rep, overlay)
    script(rep, '/repo/bin/pyg2p', overlay)
    script(rep, '/repo/src/pyg2p.py', overlay)


def handed(rep, overlay):
    """run_command and Command.run"""
    def call(e, fi, selfn, args, kw, st):
        if fi.name == 'pyg2p_exe' and fi.cls is None:
            vals = tuple(e.freeze(a, st) for a in args)
            e.emit('op', st, N('ext', 'exe'), vals, ())
            return N('op', 'exe', vals, NONE)
        return None
    e = engine(overlay, {'invoke': call})
    st = e.state()
    cmd = e.instantiate(e.find_class('Command'), [N('param', 'cmd')], {}, st)
    v, st2, r = e.run(e.getattr(cmd, 'run', st), [], {}, st)
    for c, l in leaves(e.freeze(v, st2), st2.g):
        rep.ob('api:run', l.op == 'op' and l.args[0] == 'exe', 'pyg2p/main/api.py (Command.run)', 'a command run through the API does not return its status')
    e2 = engine(overlay, {'invoke': call})
    st = e2.state()
    v, st2, r = e2.run(e2.find_func('run_command'), [N('param', 'cmd')], {}, st)
    for c, l in leaves(e2.freeze(v, st2), st2.g):
        rep.ob('api:run_command', l.op == 'op' and l.args[0] == 'exe', 'pyg2p/main/api.py (run_command)', 'run_command does not return the status')
    rep.scenario(e, 'commands of the API')


def script(rep, path, overlay):
    if not os.path.exists(path):
        rep.ob(f'script[{path}]', True, path, '')
        return
    src = (overlay or {}).get(path) or open(path).read()
    t = ast.parse(src)
    defs = {n.name: n for n in t.body if isinstance(n, ast.FunctionDef)}
    names = {}

    def calls(body, seen):
        """values given to sys.exit by these statements"""
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                names[s.targets[0].id] = s.value
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    f = ast.unparse(n.func)
                    if f in ('sys.exit', 'exit', 'os._exit') and n.args:
                        out.append(n.args[0])
                    elif f in defs and f not in seen:
                        out += calls(defs[f].body, seen | {f})
                if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and ast.unparse(n.exc.func) == 'SystemExit' and n.exc.args:
                    out.append(n.exc.args[0])
        return out

    def program_call(x, depth=4):
        if isinstance(x, ast.Name) and x.id in names and depth:
            return program_call(names[x.id], depth - 1)
        if isinstance(x, ast.Call):
            f = ast.unparse(x.func)
            if f.split('.')[-1] == 'pyg2p_exe':
                return bool(x.args) and ast.unparse(x.args[0]) in ('sys.argv[1:]', '*sys.argv[1:]') or any(isinstance(a, ast.Name) for a in x.args)
            if f in defs and depth:
                rs = [n.value for n in ast.walk(defs[f]) if isinstance(n, ast.Return) and n.value is not None]
                for s in defs[f].body:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                        names[s.targets[0].id] = s.value
                return bool(rs) and all(program_call(y, depth - 1) for y in rs)
            if f == 'int' and x.args:
                return program_call(x.args[0], depth)
        return False
    main = [n for n in t.body if not isinstance(n, (ast.FunctionDef, ast.Import, ast.ImportFrom))]
    vals = calls(main, set())
    rep.ob(f'script[{os.path.basename(os.path.dirname(path))}]', vals and all(program_call(x) for x in vals), path, 'the script does not exit with the status of the program')
