"""A command built with the API stands for the command line it shows."""
import csv
import io
import itertools
import re
from .pipe import *

EXPLAIN = ('Commands are evaluated abstractly for every sequence of up to three options of each kind (with value, without, with a negative number, written with = or with more blanks), '
           'with program name, parameters and each builder method, and followed to the arguments the program is run with; options are compared with those its parser declares.')
RULE = 'the program is run with exactly the options given, each once with its value, the options set by the methods in place of those given before, -A, and -l ERROR where no level is given; methods set options the parser knows'
ASSUME = ['values have no blanks, quotes or =']
A = 'pyg2p/main/api.py'
METHODS = {'cmdpath': '-c', 'inputfile': '-i', 'second_input_file': '-I', 'eps': '-m', 'tend': '-e', 'tstart': '-s', 'datatime': '-T', 'datadate': '-D', 'ext': '-x', 'fmap': '-f',
           'outdir': '-o', 'nameprefix': '-n', 'scaleFactor': '-S', 'offset': '-O', 'validMax': '-vM', 'validMin': '-vm', 'valueFormat': '-vf', 'log_level': '-l', 'log_dir': '-d',
           'out_format': '-F', 'outputStepUnits': '-U', 'create_intertable': '-B', 'parallel': '-X', 'intertable_dir': '-N'}
FLAGS = ('create_intertable', 'parallel')
DEST = {'-c': 'commandsFile', '-i': 'inputFile', '-I': 'inputFile2', '-m': 'perturbationNumber', '-e': 'end', '-s': 'start', '-T': 'dataTime', '-D': 'dataDate', '-x': 'ext', '-f': 'fmap', '-o': 'outDir',
        '-n': 'namePrefix', '-S': 'scaleFactor', '-O': 'offset', '-vM': 'validMax', '-vm': 'validMin', '-vf': 'valueFormat', '-l': 'loggerLevel', '-F': 'format', '-U': 'outputStepUnits',
        '-B': 'createIntertable', '-X': 'interpolationParallel', '-N': 'intertableDir'}
WORDS = {'-c a.json': {'-c': 'a.json'}, '-B': {'-B': None}, '-m   10': {'-m': '10'}, '-vm -10.5': {'-vm': '-10.5'}, '--fmap=1': {'--fmap': '1'}, '-X': {'-X': None}, '-l DEBUG': {'-l': 'DEBUG'}, '-S .5': {'-S': '.5'}, '-i eu-l-A-c.grb': {'-i': 'eu-l-A-c.grb'}}


def check(rep, overlay=None):
    words = [list(w) for k in (0, 1, 2, 3) for w in itertools.permutations(WORDS, k) if k < 3 or 'B' in w[0] + w[1] or 'X' in w[1] + w[2]]
    chunks = [words[i::6] for i in range(6)]
    rep.each([('words', c) for c in chunks] + [('methods', None), ('others', None), ('parser', None)],
             lambda r, it: {'words': by_words, 'methods': methods, 'others': others, 'parser': parser}[it[0]](r, overlay, it[1]), width=8)


def run(overlay, text, after=(), params=None, how='run'):
    """arguments the program is run with; None where they cannot be told"""
    got = []

    def text_of(e, n, st):
        """a string all of which is known"""
        n = e.freeze(n, st)
        if n.op == 'const':
            return n.args[0] if isinstance(n.args[0], str) else None
        if n.op == 'fmt':
            parts = [text_of(e, x, st) if isinstance(x, Node) else x if isinstance(x, str) else None for x in n.args[0]] if isinstance(n.args[0], tuple) else [None]
            return ''.join(parts) if None not in parts else None
        if n.op == 'bin' and n.args[0] in ('+', 'Add'):
            parts = [text_of(e, x, st) for x in n.args[1:3]]
            return ''.join(parts) if None not in parts else None
        if n.op == 'call' and n.args[0].op == 'attr':
            me, m = text_of(e, n.args[0].args[0], st), n.args[0].args[1]
            if me is not None and m in ('strip', 'rstrip', 'lstrip'):
                return getattr(me, m)(*[x.args[0] for x in n.args[1]])
            if me is not None and m == 'join' and len(n.args[1]) == 1:
                xs = n.args[1][0]
                xs = [p.args[1] for p in xs.args[1]] if xs.op == 'gseq' and all(tobdd(p.args[0]) == 1 for p in xs.args[1]) else xs.args[0] if xs.op in ('listv', 'tuple') else [xs]
                parts = [text_of(e, x, st) for x in xs]
                return me.join(parts) if None not in parts else None
        return None

    def ext(e, nm, args, kw, st):
        cs = [text_of(e, a, st) if not is_const(a) else a.args[0] for a in args]
        if nm == 're.split' and None not in cs:
            k = {a: b.args[0] for a, b in kw.items() if is_const(b)}
            return N('listv', tuple(const(x) for x in re.split(*cs, **k)))
        if nm in ('re.match', 're.fullmatch', 're.search') and None not in cs:
            return mkbool(1 if getattr(re, nm[3:])(*cs) else 0)
        if nm in ('csv.reader',):
            a = args[0]
            if a.op == 'call' and (ext_of(a) or '').endswith('StringIO'):
                t = text_of(e, a.args[1][0], st)
            else:
                a = e.freeze(a, st)
                t = text_of(e, a.args[0][0], st) if a.op in ('listv', 'tuple') and len(a.args[0]) == 1 else None
            if t is not None:
                k = {x: y.args[0] for x, y in kw.items() if is_const(y)}
                return N('listv', tuple(N('listv', tuple(const(x) for x in row)) for row in csv.reader(io.StringIO(t), **k)))
        if nm == 'shlex.split' and cs and cs[0] is not None:
            import shlex
            return N('listv', tuple(const(x) for x in shlex.split(cs[0])))
        if nm == 'sorted':
            a = e.freeze(args[0], st)
            xs = list(a.args[0]) if a.op in ('listv', 'tuple') else None
            if a.op == 'call' and a.args[0].op == 'attr' and a.args[0].args[1] in ('items', 'keys') and a.args[0].args[0].op == 'dictv' and a.args[0].args[0].args[1].op == 'empty':
                xs = [N('tuple', x) if a.args[0].args[1] == 'items' else x[0] for x in a.args[0].args[0].args[0]]
            if xs is not None:
                ks = [e.freeze(e.call(kw['key'], [x], {}, st), st) if 'key' in kw else x for x in xs]
                if all(is_const(k) or k.op == 'tuple' and all(is_const(y) for y in k.args[0]) for k in ks):
                    order = sorted(range(len(xs)), key=lambda i: ks[i].args[0] if is_const(ks[i]) else tuple(y.args[0] for y in ks[i].args[0]),
                                   reverse='reverse' in kw and is_const(kw['reverse'], True))
                    return N('listv', tuple(xs[i] for i in order))
        if nm == 'filter':
            a = e.freeze(args[1], st)
            if a.op in ('listv', 'tuple'):
                keep = [e.truth(x if is_const(args[0], None) else e.call(args[0], [x], {}, st), st) for x in a.args[0]]
                if all(k in (0, 1) for k in keep):
                    return N('listv', tuple(x for x, k in zip(a.args[0], keep) if k))
        if nm in ('collections.OrderedDict', 'dict') and len(args) == 1:
            a = e.freeze(args[0], st)
            if a.op == 'listv' and all(x.op == 'tuple' and len(x.args[0]) == 2 for x in a.args[0]):
                return e.newref(st, HObj('dict', None, {x.args[0][0]: x.args[0][1] for x in a.args[0]}))
        return None

    def call(e, fi, selfn, args, kw, st):
        if fi.cls is None and fi.name == 'pyg2p_exe':
            got.append((st.g, e.freeze(args[0], st) if args else None))
            return N('op', 'status')
        return None

    def d(a):
        if a.op == 'truth':
            n = a.args[0]
            if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in ('match', 'fullmatch', 'search') and len(n.args[1]) == 1 and is_const(n.args[1][0]):
                c = n.args[0].args[0]
                if c.op == 'call' and ext_of(c) == 're.compile' and is_const(c.args[1][0]):
                    return getattr(re.compile(c.args[1][0].args[0]), n.args[0].args[1])(n.args[1][0].args[0]) is not None
        return None
    e = engine(overlay, {'ext': ext, 'invoke': call})
    e.decide = d
    e.unroll_while = 16
    st = e.state()
    c, st, r = e.run(e.find_class('Command'), [const(text)] if text is not None else [], {k: v for k, v in (params or {}).items()}, st)
    for name, value in after:
        v, st, r = e.run(e.getattr(c, f'with_{name}', st), [] if value is None else [value], {}, st)
        if e.freeze(v, st) is not c and v is not c:
            return e, 'chain', None
    if how == 'run':
        v, st, r = e.run(e.getattr(c, 'run', st), [], {}, st)
    else:
        v, st, r = e.run(e.find_func('run_command'), [c], {}, st)
    v = e.freeze(v, st)
    return e, got, v


def given(got):
    """options and values of the argument list"""
    if len(got) != 1 or got[0][0] != 1 or got[0][1] is None:
        return None
    n = got[0][1]
    while n.op == 'call' and ext_of(n) in ('list', 'tuple'):
        n = n.args[1][0]
    if n.op == 'gseq':
        items = [p.args[1] for p in n.args[1] if tobdd(p.args[0]) == 1] if all(tobdd(p.args[0]) in (0, 1) for p in n.args[1]) else None
    elif n.op in ('listv', 'tuple'):
        items = list(n.args[0])
    else:
        return None
    if items is None or not all(is_const(x) for x in items):
        return None
    return [x.args[0] for x in items]


def options(args):
    out, i = {}, 0
    is_opt = re.compile('--?[a-zA-Z]').match
    while args is not None and i < len(args):
        if not is_opt(args[i]) or args[i] in out:
            return None
        if '=' in args[i]:
            out[args[i].split('=')[0]] = args[i].split('=', 1)[1]
            i += 1
        elif i + 1 < len(args) and not is_opt(args[i + 1]):
            out[args[i]] = args[i + 1]
            i += 2
        else:
            out[args[i]] = None
            i += 1
    return out if args is not None else None


def want(words):
    out = {}
    for w in words:
        out.update(WORDS[w])
    out.setdefault('-l', 'ERROR')
    out['-A'] = None
    return out


def judge(rep, key, overlay, expected, label, text, **kw):
    e, got, v = run(overlay, text, **kw)
    rep.scenario(e, label)
    if got == 'chain':
        rep.ob('methods:chain', False, A, f'{label}: the method does not return the command')
        return
    args = given(got)
    rep.ob(key, options(args) == expected, A, f'{label}: the program is run with {args if args is not None else show(got[0][1], 5) if got else "nothing"} for {expected}')
    rep.ob('status', v.op == 'op' and v.args[0] == 'status', A, f'{label}: running the command does not return the status of the program')


def by_words(rep, overlay, chunk):
    for w in chunk:
        judge(rep, 'options', overlay, want(w), ' '.join(w) or 'no options', ' '.join(w))


def methods(rep, overlay, _):
    for name, opt in METHODS.items():
        for text, words in (('', []), ('-c x.json -B', ['-c a.json', '-B']), (f'{opt} 7' if name not in FLAGS else opt, [])):
            ex = want(words)
            if words:
                ex['-c'] = 'x.json'
            ex[opt] = None if name in FLAGS else '5'
            judge(rep, f'method[{name}]', overlay, ex, f'with_{name} after {text or "nothing"}', text, after=[(name, None if name in FLAGS else const('5'))])
    ex = want([])
    ex.update({'-c': 'a.json', '-s': '6', '-e': '24', '-B': None})
    judge(rep, 'methods:chain', overlay, ex, 'methods one after the other', None, how='function',
          after=[('cmdpath', const('a.json')), ('tstart', const('6')), ('create_intertable', None), ('tend', const('24'))])


def others(rep, overlay, _):
    judge(rep, 'program', overlay, want(['-c a.json', '-B']), 'with the name of the program', 'pyg2p -c a.json -B', how='function')
    judge(rep, 'program', overlay, want(['-c a.json', '-B']), 'with the name of the script', 'pyg2p.py -c a.json -B')
    judge(rep, 'blanks', overlay, want(['-c a.json', '-B']), 'with blanks around', '  -c   a.json -B  ')
    judge(rep, 'params', overlay, want(['-c a.json', '-m   10']), 'with parameters', '-c {file} -m {member}', params={'file': const('a.json'), 'member': const('10')})


def parser(rep, overlay, _):
    e, ctx, st, r = cli_context(overlay)
    rep.scenario(e, 'command line parser')
    known = {}
    for x in e.events:
        if x.kind == 'cli_option':
            for f in x.extra[1]['flags']:
                known[f] = x.extra
    rep.need(known, 'the program declares no options')
    W = 'pyg2p/main/context.py'
    for name, opt in sorted(METHODS.items()):
        dest, o = known.get(opt, (None, None))
        rep.ob(f'known[{name}]', o is not None, A, f'with_{name} sets {opt}, which is no option of the program')
        if o is None:
            continue
        rep.ob(f'dest[{name}]', dest == DEST.get(opt), W, f'option {opt} set by with_{name} is {dest}')
        flag = o['action'] in ('store_true', 'store_false', 'store_const', 'count')
        rep.ob(f'value[{name}]', flag == (name in FLAGS), W, f'option {opt} set by with_{name} takes {"no" if flag else "a"} value')
    rep.ob('known[-A]', '-A' in known and known['-A'][1]['action'] == 'store_true', W, 'the program has no option -A')
