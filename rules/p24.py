"""Configuration commands -g, -W and -K."""
from .common import *
from . import p10

EXPLAIN = ('The program is evaluated with each of the options -g, -W and -K passed: the operations on the configuration that are reached, their arguments and what they read and write '
           'are compared with what the option documents. The effects of the operations are evaluated from the argument vector down to copy, download and dump.')
RULE = ('-g F adds F, -W D downloads D, -K checks the configuration, exactly when the option is passed; none of them needs a template or an input file or executes anything else; '
        'without them nothing of this happens')
ASSUME = []
NAMES = {'addGeopotential': 'add_geopotential', 'downloadConf': 'download_data', 'checkConf': 'check_conf'}


def run(overlay, given):
    absent = [o for o in CONFIG_OPTS if o != given]
    if given:
        absent += ['commandsFile', 'inputFile']

    def opt(e, dest, o, st):
        if dest in absent:
            return o['default']
        if dest == given or (not given and dest in ('commandsFile', 'inputFile')):
            return TRUE if o['action'] == 'store_true' else N('opt', dest)
        return None

    def call(e, fi, selfn, args, kw, st):
        cl = fi.cls.name if fi.cls is not None else None
        if cl == 'Controller' and fi.name in ('__init__', 'execute', 'close', 'log_execution_context'):
            e.emit('op', st, N('ext', fi.name), (), ())
            return NONE
        if cl == 'GRIBReader' and fi.name == 'get_id':
            return N('op', 'get_id', tuple(e.freeze(x, st) for x in list(args) + list(kw.values())), NONE)
        if cl == 'Configuration' and fi.name in NAMES.values():
            e.emit('op', st, N('ext', fi.name), tuple(e.freeze(x, st) for x in list(args) + list(kw.values())), ())
        return None
    e = engine(overlay, {'opt': opt, 'invoke': call}, forget=False)
    st = e.state()
    v, st, r = e.run(e.find_func('pyg2p_exe'), [N('param', 'argv')], {}, st)
    return e, v, st, r


def normal(given):
    """nothing is raised, and the passed option has a value"""
    def d(a):
        if a.op in ('exc_in', 'unwind'):
            return False
        if a.op in ('truth', 'isinst') and any(l is N('param', 'argv') for l in leafset(a.args[0])):
            return True
        if a.op == 'eq' and any(x.op == 'call' and ext_of(x) == 'len' for x in a.args if isinstance(x, Node)):
            return False
        if given and a.op in ('truth', 'isnone') and a.args[0] is N('opt', given):
            return a.op == 'truth'
        if given == 'addGeopotential' and a.op == 'truth' and a.args[0].op == 'call' and ext_of(a.args[0]) in ('os.path.exists', 'os.path.isfile') \
                and a.args[0].args[1][0] is N('opt', given):
            return True
        return None
    return d


def check(rep, overlay=None):
    rep.each([(None,), ('addGeopotential',), ('downloadConf',), ('checkConf',)], lambda rep, a: one(rep, overlay, *a))



def one(rep, overlay, given):
    e, v, st, r = run(overlay, given)
    rep.scenario(e, f'program with --{given}' if given else 'program without configuration commands')
    tag = given or 'execution'
    d = normal(given)
    for o, name in NAMES.items():
        evs = [x for x in e.events if x.kind == 'op' and x.fn.args[0] == name]
        g = B.restrict_map(B.OR(*[x.g for x in evs]), d)
        w = evs[0].where if evs else 'pyg2p/main/__init__.py'
        if o == given:
            rep.ob(f'{tag}:reached', g == 1, w, f'--{given} does not always reach {name}' + (f', not when {showb(B.NOT(g), 5)[:200]}' if g else ''))
            for x in evs:
                if o != 'checkConf':
                    rep.ob(f'{tag}:argument', x.args and all(l is N('opt', o) for l in leafset(constrain(x.args[0], B.restrict_map(x.g, d)))), x.where, f'{name} is not given the value of --{given}')
        else:
            rep.ob(f'{tag}:not {name}', g == 0, w, f'{name} happens without --{o}')
    ex = [x for x in e.events if x.kind == 'op' and x.fn.args[0] == 'execute']
    g = B.restrict_map(B.OR(*[x.g for x in ex]), d)
    if given:
        rep.ob(f'{tag}:nothing else', g == 0, ex[0].where if ex else '', f'with --{given} an execution is started')
        for x in e.events:
            if x.kind == 'call' and ext_name(x.fn) in ('open', 'io.open') and x.args and mentions(x.args[0], lambda n: n is N('opt', 'commandsFile')) and B.restrict_map(x.g, d):
                rep.ob(f'{tag}:no template', False, x.where, f'--{given} needs a template')
        refusals = [o for o in r if B.restrict_map(o[0], d) == 1]
        rep.ob(f'{tag}:accepted', not refusals, 'execution context', f'--{given} is refused')
        effects(rep, e, given, d)
        if given == 'checkConf':
            checked(rep, e, d)
        if given == 'downloadConf':
            for ch in find_choices(e, given):
                rep.ob('-W:choices', ch is None or set(ch) == {'geopotentials', 'intertables'}, 'pyg2p/main/context.py', f'-W accepts {ch}')
    else:
        rep.ob(f'{tag}:executed', g != 0, ex[0].where if ex else 'pyg2p/main/__init__.py', 'without configuration command nothing is executed')


def effects(rep, e, given, d):
    calls = [x for x in e.events if x.kind == 'call']
    if given == 'addGeopotential':
        cs = [x for x in calls if (ext_name(x.fn) or '').startswith('shutil.copy')]
        rep.ob('-g:copied', cs and all(x.args[0] is N('opt', given) for x in cs), cs[0].where if cs else 'pyg2p/main/config.py', 'the geopotential file is not copied')
        for x in cs:
            rep.ob('-g:folder', all(variable(l) == 'GEOPOTENTIALS' for l in leafset(constrain(x.args[1], x.g))), x.where, 'the geopotential is not copied into the user folder for geopotentials')
    if given == 'downloadConf':
        cs = [x for x in calls if x.fn.op == 'attr' and x.fn.args[1] in ('retrbinary',)]
        rep.ob('-W:retrieved', cs and all(mentions(x.args[0], lambda n: n.op == 'elem') for x in cs), cs[0].where if cs else 'pyg2p/main/config.py', 'files are not downloaded')
        cw = [x for x in calls if x.fn.op == 'attr' and x.fn.args[1] == 'cwd']
        rep.ob('-W:folder', cw and all(mentions(x.args[0], lambda n: n is N('opt', given)) for x in cw), cw[0].where if cw else 'pyg2p/main/config.py', 'files are not taken from the remote folder of the dataset')
        listed = B.OR(*[x.g for x in calls if x.fn.op == 'attr' and x.fn.args[1] in ('nlst', 'mlsd', 'dir')])
        for x in cs:
            left = B.AND(B.restrict_map(listed, d), B.NOT(B.restrict_map(x.g, both(d, missing(x.args[0])))))
            rep.ob('-W:all', not left, x.where, f'files of the remote folder are not downloaded although they are not there yet ({showb(left)[:200]})')
            if len(x.args) < 2:
                continue
            w = x.args[1]
            tgt = w.args[0] if w.op == 'attr' and w.args[1] == 'write' else w
            op = [y for y in leafset(tgt) if y.op == 'call' and ext_of(y) in ('open', 'io.open')]
            rep.ob('-W:written', op and all(is_const(y.args[1][1] if len(y.args[1]) > 1 else dict(y.args[2]).get('mode', NONE), 'wb') for y in op),
                   x.where, 'a downloaded file is not written as it is')
            names = {n for n in walk(x.args[0]) if n.op == 'elem'}
            for y in op:
                p = y.args[1][0]
                for ds, var in (('intertables', 'INTERTABLES'), ('geopotentials', 'GEOPOTENTIALS')):
                    dec = lambda a: (ds in [k.args[0] for k in a.args if is_const(k)]) if a.op == 'eq' and N('opt', given) in a.args else None
                    roots = set()
                    for c, l in restricted(p, both(dec, d), x.g):
                        for y2 in ([l.args[1][0]] if l.op == 'call' and ext_of(l) == 'os.path.join' else [l]):
                            roots |= {variable(l2) for c2, l2 in restricted(y2, both(dec, d)) if not is_const(l2)}
                    rep.ob(f'-W:{ds}', roots == {var}, x.where, f'{ds} are not downloaded into the user folder for {ds}')
                rep.ob('-W:names', any(n in names for n in walk(p)), x.where, 'downloaded files get another name')


SKIPPED = ('.', '..', 'readme.txt')


def missing(cmd):
    """the file of this command is one of the remote folder, not there yet"""
    names = {n for n in walk(cmd) if n.op in ('elem', 'sub')}

    def d(a):
        if a.op == 'iter':
            return True
        if a.op == 'eq' and any(x in names for x in a.args) and any(is_const(x, *SKIPPED) for x in a.args):
            return False
        if a.op == 'in' and a.args[0] in names and a.args[1].op in ('tuple', 'listv', 'setv') and all(is_const(x, *SKIPPED) for x in a.args[1].args[0]):
            return False
        p = exists(a)
        if p is not None and mentions(p, lambda n: n in names):
            return False
        return None
    return d


def variable(n, ds=None):
    """user variable this value comes from"""
    for x in walk(n):
        if x.op == 'sub' and is_const(x.args[1]) and str(x.args[1].args[0]).isupper():
            return x.args[1].args[0]
        if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and x.args[1] and is_const(x.args[1][0]) and str(x.args[1][0].args[0]).isupper():
            return x.args[1][0].args[0]
    return None


def exists(a):
    """this atom asks whether a file exists: its path"""
    return a.args[0].args[1][0] if a.op == 'truth' and a.args[0].op == 'call' and ext_of(a.args[0]) in ('os.path.exists', 'os.path.isfile') else None


def checked(rep, e, d):
    """-K: entries of the user's tables without a file are dropped and the configuration saved; nothing else changes"""
    calls = [x for x in e.events if x.kind == 'call']
    for x in calls:
        if ext_name(x.fn) in ('os.unlink', 'os.remove', 'shutil.rmtree', 'shutil.move', 'os.rename'):
            rep.ob('-K:no file removed', B.restrict_map(x.g, d) == 0, x.where, '-K removes files')
    dels = [x for x in e.events if x.kind == 'delitem' and x.loops]
    dels += [x for x in calls if x.fn.op == 'attr' and x.fn.args[1] == 'pop' and x.loops]
    user = [x for x in dels if mentions(x.args[-1] if x.kind == 'delitem' else x.args[0], lambda n: n.op in ('keyof', 'elem'))]
    for x in user:
        key = x.args[1] if x.kind == 'delitem' else x.args[0]

        def dec(value):
            def f(a):
                p = exists(a)
                if p is not None and mentions(p, lambda n: is_const(n, 'filename')):
                    return value if any(variable(l) == 'INTERTABLES' for l in walk(p)) else None
                return None
            return f
        rep.ob('-K:kept', B.restrict_map(x.g, both(d, dec(True))) == 0, x.where, 'an entry is dropped although its table exists in the user folder')
        rep.ob('-K:dropped', B.restrict_map(x.g, both(d, dec(False))) != 0, x.where, 'an entry whose table does not exist is not dropped')
        rep.ob('-K:key', mentions(key, lambda n: n.op in ('keyof', 'elem')), x.where, 'another entry is dropped than the one whose table was looked for')
    writes = [x for x in calls if ext_name(x.fn) in ('json.dumps', 'json.dump')]
    last = [x for x in writes if B.restrict_map(x.g, d) == 1]
    rep.ob('-K:saved', bool(last) or not user, user[0].where if user else '', 'the checked configuration of tables is not saved')
    if not user:
        rep.ob('-K:entries dropped', any(l.op == 'dcomp' for x in last for l in leafset(x.args[0])), writes[0].where if writes else '', 'no entry of the user is ever dropped')
    for x in last:
        kept_only(rep, e, x, d)
        op = [y for y in calls if ext_name(y.fn) in ('open', 'io.open') and len(y.args) > 1 and is_const(y.args[1], 'w') and B.restrict_map(y.g, d) == 1]
        rep.ob('-K:where', op and all(mentions(y.args[0], lambda n: is_const(n, 'intertables.json')) for y in op), x.where, 'the configuration of tables is saved elsewhere')


def copies(n):
    """the dictionary that is gone through, whatever copy or view of it is taken"""
    while n.op == 'call':
        f = n.args[0]
        if ext_name(f) in ('copy.deepcopy', 'copy.copy', 'list', 'tuple', 'dict', 'sorted', 'set', 'reversed', 'iter') and n.args[1]:
            n = n.args[1][0]
        elif f.op == 'attr' and f.args[1] in ('items', 'keys', 'copy') and not n.args[1]:
            n = f.args[0]
        else:
            break
    return n


def fresh(i):
    """the dictionary for a new configuration file"""
    return i.op in ('dictv', 'ref') or (i.op == 'dupdate' and all(j.op == 'dictv' for j in leafset(i.args[0])))


def kept_only(rep, e, x, d):
    """the saved dictionary is the user's, less the entries dropped in a loop over all of its entries"""
    for l in leafset(constrain(x.args[0], B.restrict_map(x.g, d))):
        if l.op != 'mu':
            continue
        init, step = e.mus[l.args]
        for i in leafset(init):
            own = i.op == 'call' and ext_name(i.args[0]) in ('json.load', 'json.loads') and mentions(i, lambda n: is_const(n, 'intertables.json'))
            rep.ob('-K:nothing added', own or fresh(i), x.where,
                   f'the saved configuration of tables is not the one of the user: {show(i, 3)[:120]}')
        for i in leafset(step):
            n = i
            while n.op == 'delk' or (n.op == 'mut' and n.args[0] == 'pop'):
                n = n.args[0] if n.op == 'delk' else n.args[1]
            rep.ob('-K:only dropped', n is l or n.op in ('mu', 'unk'), x.where, f'entries of the user are changed: {show(i, 3)[:120]}')
        it = e.loopinfo[l.args[0]]['iter']
        if it is not None:
            for i in leafset(it):
                for j in leafset(copies(i)):
                    rep.ob('-K:every entry', any(j in (leafset(e.mus[m.args][0]) if m.op == 'mu' else (m,)) for m in leafset(x.args[0])) or fresh(j), x.where,
                           f'not every entry of the user is looked at: {show(j, 3)[:120]}')


def find_choices(e, dest):
    """values accepted by an option, per parser"""
    return [reg[dest]['choices'] for reg in e.parser_args.values() if dest in reg]
