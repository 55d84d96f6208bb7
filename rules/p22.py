"""Messages of the input files an execution processes."""
import itertools
from .cells import *
from .pipe import *
from .p23 import code_of
import sa.scen as scen

EXPLAIN = ('The reading of an execution is evaluated abstractly for every combination of selection settings, with the input file opened with or without an index; the condition under which a message handle is '
           'kept is then evaluated for every kind of message (each key equal to the setting, different or not defined, steps below, at and above the bounds).')
RULE = 'a message is processed if and only if each of its keys matches the settings; it is stored once, under its own steps, with its own values and bitmap'
ASSUME = ['ecCodes delivers, between a selection on an index and the end of it, exactly the messages whose keys equal the selected ones', 'member numbers are not negative']
W = 'pyg2p/main/readers/grib.py'
FILES = {'input.file': 'first', 'input.file2': 'second'}
GETS = {'eccodes.codes_get', 'eccodes.codes_get_long', 'eccodes.codes_get_string', 'eccodes.codes_get_double', 'eccodes.codes_get_native_type'}
NEW = {'eccodes.codes_new_from_index', 'eccodes.codes_new_from_file', 'eccodes.codes_grib_new_from_file', 'eccodes.codes_grib_new_from_index'}
SETTINGS = {'level': 'level', 'dataTime': 'dataTime', 'dataDate': 'dataDate', 'perturbationNumber': 'perturbationNumber'}
NAMES = ('sn', 'SN', 'snvar')
TS, TE = N('param', 'ts'), N('param', 'te')
STARTS = (0, 5, 6, 7, 17, 18, 19, 30)
VALUE = N('param', 'value of the cell')


def P(x):
    return N('param', x)


class Reading:
    """one evaluated execution"""


def reading(overlay, handler, have, steps, two=False, api=False, zeros=False):
    start = {'range': TS, 'equal': TS, 'zero': None, 'default': None, 'open end': TS, 'step 0': TS}[steps]
    end = {'range': TE, 'equal': TE, 'zero': TE, 'default': None, 'open end': None, 'step 0': TE}[steps]
    fixed = {'outMaps.format': 'pcraster', 'execution.doAggregation': False, 'execution.doCorrection': False, 'execution.doConversion': False, 'input.two_resolution': two,
             'parameter.shortName': 'sn', 'parameter.tstart': start, 'parameter.tend': end}
    for k in SETTINGS:
        fixed['parameter.' + k] = P(k) if k in have else None
    k = Reading()
    nil = {P(x) for x in SETTINGS if x != 'dataDate'} if zeros else {TS, TE} if steps == 'step 0' else set()
    k.files = {}

    def decide(a):
        if a.op == 'isnone' and a.args[0].op == 'param':
            return False
        if a.op == 'truth' and a.args[0].op == 'param':
            return a.args[0] not in nil
        if a.op in ('lt', 'eq') and any(x in nil for x in a.args) and any(x in nil or x.op == 'const' and isinstance(x.args[0], (int, float)) for x in a.args):
            x, y = (0 if x in nil else x.args[0] if x.op == 'const' else None for x in a.args)
            if x is not None and y is not None:
                return x < y if a.op == 'lt' else x == y
        if a.op == 'isinst' and a.args[0].op in ('param', 'func', 'bound', 'partial'):
            return False
        if a.op == 'callable':
            return a.args[0].op in ('func', 'bound', 'partial')
        if a.op == 'exc_in':
            return handler == 'file'
        if a.op == 'truth' and ext_of(a.args[0]) in ('open', 'eccodes.codes_index_new_from_file'):
            return True
        if a.op == 'eq':
            s = set(a.args)
            if TS in s and TE in s:
                return steps in ('equal', 'step 0')
            if any(is_const(x, -1) for x in s) and any(x.op == 'param' for x in s):
                return False
            if (start or const(0)) in s and any(infoend(x, k.e) for x in s):
                return False
        return None
    k.messages = []

    def new(e, ci, args, kw, st):
        if ci.name == 'Messages':
            init = e.finfo(e.clsattr(ci, '__init__'))
            names = [x.arg for x in init.node.args.args[1:]]
            d = dict(zip(names, args))
            d.update(kw)
            k.messages.append((st.g, [e.freeze(d[n], st) for n in names if n in d]))
        if ci.name == 'Step':
            names = ('start_step', 'end_step', 'points_meridian', 'input_step', 'level')
            d = dict(zip(names, args))
            d.update(kw)
            return N('op', 'step', tuple(e.freeze(d.get(x, NONE), st) for x in names))
        return None
    base = scen.engine

    def engine2(*a, **kw):
        e = base(*a, **kw)
        e.decide, e.infoends = decide, {}
        k.e = e
        return e
    scen.engine = engine2
    try:
        k.e, v, k.st, k.r = (run_api if api else run_controller)(overlay, fixed, stubs=STUBS, hooks={'instantiate': new})
    finally:
        scen.engine = base
    k.handler, k.have, k.steps, k.decide, k.equal = handler, have, steps, decide, 0 if steps == 'step 0' else 12 if steps == 'equal' else None
    return k


def infoend(x, e):
    """latest end step of the messages examined first"""
    if x.op not in ('call', 'mu', 'sub', 'ite'):
        return False
    if e.infoends.get(x) is None:
        seen, todo, keys = set(), [x], set()
        while todo:
            for y in walk(todo.pop()):
                if y.op == 'mu' and y not in seen and y.args in e.mus:
                    seen.add(y)
                    todo += e.mus[y.args]
                elif y.op == 'call' and ext_of(y) in GETS and len(y.args[1]) > 1 and y not in seen:
                    seen.add(y)
                    keys.add(show(y.args[1][1]))
        e.infoends[x] = "'endStep'" in keys and "'startStep'" not in keys
    return e.infoends[x]


# ------------------------------------------------------------------ passes over the file
class Pass:
    pass


def passes(k, n):
    """the loops a list of messages is filled by (None: not such a list)"""
    out = []
    while n.op == 'mu':
        i, nx = k.e.mus[n.args]
        p = Pass()
        p.loop, p.mu, p.next = n.args[0], n, nx
        if not any(x.op == 'append' and x.args[0] is n for x in walk(nx)):
            return None
        out.append(p)
        n = i
    if n.op in ('listv', 'tuple') and not n.args[0]:
        return out[::-1]
    return None


def handle_of(k, p):
    """(message node, 'index'/'file', setting naming the file) of the pass"""
    gs = set()
    for c, l in leaves(p.next, 1):
        if l.op == 'append' and l.args[0] is p.mu:
            gs.add(l.args[1])
        elif l is not p.mu:
            raise Unknown(f'filling of the list of messages: {show(l, 4)[:150]}')
    gs = {x for g in gs for x in leafset(g)}
    if len(gs) != 1:
        raise Unknown('several messages kept at once')
    g = gs.pop()
    if ext_of(g) not in NEW:
        raise Unknown(f'the messages kept do not come from a file or an index: {show(g, 4)[:150]}')
    src = g.args[1][0] if g.args[1] else None
    fs = [x for x in walk(src) if x.op == 'cfg']
    kind = 'index' if 'index' in ext_of(g) else 'file'
    if src.op == 'call' and ext_of(src) == ('eccodes.codes_index_new_from_file' if kind == 'index' else 'open') and len(fs) == 1:
        return g, src, kind, fs[0].args[1].args[0]
    raise Unknown(f'origin of the messages: {show(src, 5)[:200]}')


def get_key(n, g):
    """key of the message read by n"""
    n = strip_conv(n)
    if ext_of(n) in GETS and len(n.args[1]) > 1 and n.args[1][0] is g and n.args[1][1].op == 'const':
        return n.args[1][1].args[0]
    return None


class State:
    """kind of message: key -> 'equal' / 'other' / 'undefined' (or the name, or the number of the step)"""

    def __init__(self, g, keys, k):
        self.g, self.keys, self.k = g, keys, k

    def number(self, n):
        n = strip_conv(n)
        if n.op == 'const' and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool):
            return n.args[0]
        if n is TS:
            return 6 if self.k.equal is None else self.k.equal
        if n is TE:
            return 18 if self.k.equal is None else self.k.equal
        key = get_key(n, self.g)
        if key in ('startStep', 'endStep'):
            return self.keys[key] if self.keys[key] != 'undefined' else None
        if key is None and infoend(n, self.k.e):
            return 18
        if n.op == 'bin' and n.args[0] in ('+', '-'):
            a, b = self.number(n.args[1]), self.number(n.args[2])
            if a is not None and b is not None:
                return a + b if n.args[0] == '+' else a - b
        return None

    def __call__(self, a):
        r = self.k.decide(a)
        if r is not None:
            return r
        if a.op == 'truth':
            x = a.args[0]
            if ext_of(x) == 'eccodes.codes_is_defined' and len(x.args[1]) > 1 and x.args[1][0] is self.g and x.args[1][1].op == 'const':
                return self.keys.get(x.args[1][1].args[0]) != 'undefined'
            if x is self.g:
                return True
            if x.op == 'call' and x.args[0].op == 'bool':
                return None
        if a.op == 'isnone':
            if a.args[0] is self.g or get_key(a.args[0], self.g):
                return False
        if a.op == 'exc_in' or a.op == 'raises':
            return False
        if a.op in ('lt', 'eq'):
            x, y = (self.number(z) for z in a.args)
            if x is not None and y is not None:
                return x < y if a.op == 'lt' else x == y
        if a.op in ('eq', 'in'):
            for u, v in (a.args, a.args[::-1]):
                key = get_key(u, self.g)
                if key is None or self.keys.get(key) == 'undefined':
                    continue
                if key == 'shortName':
                    vals = v.args[0] if v.op in ('listv', 'tuple', 'setv') and a.op == 'in' else [v]
                    if a.op == 'in' and v.op not in ('listv', 'tuple', 'setv'):
                        continue
                    if all(isinstance(z, Node) and z.op == 'const' for z in vals):
                        return self.keys[key] in [z.args[0] for z in vals]
                elif key in SETTINGS:
                    vals = v.args[0] if v.op in ('listv', 'tuple', 'setv') else [v]
                    if all(strip_conv(z) is P(key) for z in vals) and vals:
                        return self.keys[key] == 'equal'
        return None


def states(k, g):
    """every kind of message that exists, with what is wanted: {'full': bool, 'no start': bool}"""
    base = dict.fromkeys(SETTINGS, 'equal')
    lo, hi = (k.equal, k.equal) if k.equal is not None else (0 if k.steps in ('zero', 'default') else 6, 18)
    for name in NAMES + ('other', 'undefined'):
        for odd in (None,) + tuple((x, y) for x in SETTINGS for y in ('other', 'undefined')):
            ss = (12, lo, hi, 0, 30) if k.equal is None else (12, 0, 30)
            grid = itertools.product(STARTS, STARTS) if k.equal is None and odd is None and name == 'sn' else [(a, b) for a in ss for b in ss]
            if k.equal is not None:
                grid = itertools.product((0, 1, 11, 12, 13, 30), repeat=2) if odd is None and name == 'sn' else grid
            for a, b in grid:
                keys = dict(base, shortName=name, startStep=a, endStep=b)
                ok = name in NAMES and lo <= a and b <= hi if k.equal is None else name in NAMES and a == b == k.equal
                free = name in NAMES and b <= hi
                if odd:
                    keys[odd[0]] = odd[1]
                    if odd[0] in k.have:
                        ok = free = False
                yield State(g, keys, k), ok, free


def name_of(s):
    return ', '.join(f'{x} {v}' for x, v in s.keys.items() if v != 'equal')


# ------------------------------------------------------------------ checks
def kept(rep, k, p, what, where, full, tag):
    """the pass keeps exactly the messages wanted"""
    g = p.g
    cond = 0
    for c, l in leaves(p.next, 1):
        if l.op == 'append':
            cond = B.OR(cond, c)
    bad = None
    for s, ok, free in states(k, g):
        want = ok if full else free
        r = B.restrict_map(cond, s)
        if r not in (0, 1):
            bad = f'whether a message ({name_of(s)}) is kept depends on {showb(r)[:160]}'
            break
        if p.kind == 'index' and (s.keys['shortName'] not in p.names or s.keys['shortName'] == 'undefined' or 'perturbationNumber' in k.have and s.keys['perturbationNumber'] != 'equal'):
            continue        # not delivered by the selection on the index
        if (r == 1) != want:
            bad = f'a message ({name_of(s)}) is {"kept" if r == 1 else "left out"} with {what}'
            break
    rep.ob(f'{tag}/kept', bad is None, where, bad or '')
    stop = k.e.loopinfo[p.loop].get('exit')
    d = lambda a: (False if a.op == 'isnone' and a.args[0] is g else True if a.op == 'truth' and a.args[0] is g else False if a.op in ('raises', 'exc_in') else None)
    r = B.restrict_map(stop, d) if stop is not None else 0
    rep.ob(f'{tag}/to the end', not r, where, f'the reading of the file stops before its end when {showb(r)[:160]}')


def positioned(rep, k, ps, tag, where):
    """each pass starts at the begin of the file, or with the selection on every key of the index"""
    mine = {p.loop: p for p in ps}
    fresh, selected, last = {}, {}, {}
    for x in k.e.events:
        if x.kind != 'call':
            continue
        nm = ext_name(x.fn) or ''
        if nm == 'eccodes.codes_index_select' and len(x.args) > 2 and x.args[1].op == 'const':
            selected.setdefault(x.args[0], {})[x.args[1].args[0]] = (x.args[2], x.g)
        elif nm == 'open':
            fresh[x.node] = 1
        elif x.fn.op == 'attr' and x.fn.args[1] == 'seek' and x.args and is_const(x.args[0], 0):
            fresh[x.fn.args[0]] = x.g
        elif nm in NEW and x.args:
            L = x.loops[-1] if x.loops else None
            p = mine.get(L)
            h = x.args[0]
            if p is None or x.node is not p.g:
                fresh[h] = 0
                continue
            if p.kind == 'file':
                g = B.AND(x.g, B.NOT(fresh.get(h, 0)))
                rep.ob(f'{tag}/from the begin', not g or last.get(h) == L, where, 'the file is not read from its begin')
                fresh[h], last[h] = 0, L
            else:
                keys = p.src.args[1][1] if len(p.src.args[1]) > 1 else NONE
                want = [y.args[0] for y in keys.args[0]] if keys.op in ('listv', 'tuple') else []
                sel = selected.get(h, {})
                miss = [y for y in want if y not in sel or B.AND(x.g, B.NOT(sel[y][1]))]
                rep.ob(f'{tag}/selection on the index', not miss and set(sel) <= set(want), where, f'the index on {want} is read without a selection on {miss}' if miss else f'the selection on the index uses {sorted(sel)}')
                v = sel.get('shortName', (None, 0))[0]
                p.names = [v.args[0]] if v is not None and v.op == 'const' else list(NAMES)
                if v is not None and v.op != 'const':
                    raise Unknown(f'short name selected on the index: {show(v, 4)[:100]}')
                m = sel.get('perturbationNumber', (None, 0))[0]
                rep.ob(f'{tag}/member selected', m is None or strip_conv(m) is P('perturbationNumber') and 'perturbationNumber' in k.have, where,
                       f'the index is read for member {show(m, 3)[:80] if m is not None else None}')


def empties(chains, state):
    """decides whether lists of messages are empty"""
    def d(a):
        for x in a.args:
            if not isinstance(x, Node):
                continue
            y = x
            if y.op == 'call' and ext_of(y) == 'len' and y.args[1]:
                y = y.args[1][0]
            if y in chains or y.op == 'ite' and all(l in chains for l in leafset(y)):
                full = {state(l) for l in leafset(y)}
                full = full.pop() if len(full) == 1 else None
                if full is None:
                    continue
                if a.op == 'truth':
                    return full
                o = [z for z in a.args if z is not x]
                if a.op == 'eq' and o and is_const(o[0], 0):
                    return not full
                if a.op == 'lt' and a.args[1] is x and is_const(a.args[0], 0):
                    return full
                if a.op == 'lt' and a.args[0] is x and is_const(a.args[1], 1):
                    return not full
        return None
    return d


def setname(k):
    return ', '.join(sorted(k.have)) or 'no other setting'


def check_run(rep, k, tag, wants):
    e = k.e
    where = W
    rep.need(k.messages, f'{tag}: no messages are built')
    got = set()
    for g, values in k.messages:
        dicts = []
        for v in values:
            for l in leafset(v):
                if l.op == 'mu' and l.args in e.mus and any(x.op == 'upd' and x.args[0] is l and len(x.args) > 2 and any(ext_of(y) in ('eccodes.codes_get_double_array', 'eccodes.codes_get_array', 'eccodes.codes_get_values') for y in walk(x.args[2])) for x in walk(e.mus[l.args][1])):
                    dicts.append(l)
        loops = {m.args[0] for m in dicts}
        rep.need(len(loops) == 1 and 1 <= len(dicts) <= 2, f'{tag}: the values of the messages are not gathered in one loop')
        L = loops.pop()
        S = e.loopinfo[L]['iter']
        lists = [l for l in leafset(S)]
        chains = {}
        for l in lists:
            ps = passes(k, l)
            if ps is None:
                rep.need(False, f'{tag}: list of messages {show(l, 4)[:160]}')
            if ps:
                chains[l] = ps
        for l, ps in chains.items():
            for p in ps:
                p.g, p.src, p.kind, p.file = handle_of(k, p)
        fs = {p.file for ps in chains.values() for p in ps}
        rep.need(len(fs) == 1, f'{tag}: messages of several files in one list')
        f = fs.pop()
        got.add(f)
        t2 = f'{tag}/{FILES.get(f, f)} file'
        rep.ob(f'{tag}/file', f in wants, where, f'the messages of {f} are processed')
        kinds = {p.kind for ps in chains.values() for p in ps}
        rep.ob(f'{t2}/reading', kinds == {k.handler}, where, f'the file is read through {sorted(kinds)}')
        positioned(rep, k, [p for ps in chains.values() for p in ps], t2, where)
        # first list: all conditions; another one when it is empty: without the start
        order = sorted(chains, key=lambda l: min(p.loop for p in chains[l]))
        a = order[0]
        rest = order[1:]
        for p in chains[a]:
            kept(rep, k, p, setname(k), where, True, t2)
        cover(rep, k, chains[a], t2, where)
        for b in rest:
            for p in chains[b]:
                kept(rep, k, p, setname(k) + ' and no message from the start on', where, False, t2 + '/start dropped')
            cover(rep, k, chains[b], t2, where)
        some = lambda st: empties(chains, st)
        for name, s, ok in (('found', lambda y: True if y is a else None, {a}), ('none', lambda y: False if y is a else None, set(rest) or {a})):
            dec = both(some(s), positive)
            ls = {l for c, l in leaves(S, 1) if B.restrict_map(c, dec) and l in chains}
            rep.ob(f'{t2}/list {name}', ls <= ok, where, f'with {"messages" if name == "found" else "no message"} matching all settings another list is processed')
        if k.steps in ('range', 'open end'):
            rep.ob(f'{t2}/start dropped', bool(rest), where, 'an input without messages from the start step on is refused instead of being read from its first step')
        elif k.equal is not None:
            rep.ob(f'{t2}/single step', not rest, where, 'messages of other steps are processed when the single step asked for is missing')
        none = both(empties(chains, lambda y: False), positive)
        rep.ob(f'{t2}/no messages', not B.restrict_map(g, none), where, f'the execution goes on without messages when {showb(B.restrict_map(g, none))[:300]}')
        stored(rep, k, S, L, dicts, chains, t2, where)
    rep.ob(f'{tag}/files', got == wants, where, f'the execution processes the messages of {sorted(got)} instead of {sorted(wants)}')
    codes = {code_of(x) for x in k.r} if k.r else set()
    rep.ob(f'{tag}/error', 3000 in codes, where, f'no error for an input without matching messages (errors {sorted(map(str, codes))})')


def positive(a):
    if a.op == 'lt' and is_const(a.args[0], 0) and a.args[1] is TS:
        return True
    if a.op == 'lt' and a.args[0] is TS and is_const(a.args[1]):
        return False
    return None


def cover(rep, k, ps, tag, where):
    if ps[0].kind != 'index':
        return
    miss = [n for n in NAMES if not any(n in getattr(p, 'names', ()) for p in ps)]
    rep.ob(f'{tag}/names', not miss, where, f'the index is never read for the short names {miss}')


def first_message(n, chains):
    return n.op == 'ite' and all(first_message(l, chains) for l in leafset(n)) or n.op == 'sub' and n.args[0] in chains and is_const(n.args[1], 0)


def stored(rep, k, S, L, dicts, chains, tag, where):
    e = k.e
    cases = {}          # same number of points as the first message -> {dict index: guard}
    for same in (True, False):
        for j, m in enumerate(dicts):
            nxt = e.mus[m.args][1]
            yes = 0
            for c, l in leaves(nxt, 1):
                c = B.restrict_map(c, both(lambda a: points(a, same, L, chains), lambda a: k.decide(a)))
                if not c:
                    continue
                if l.op == 'upd' and l.args[0] is m:
                    yes = B.OR(yes, c)
                    entry(rep, k, l, L, chains, tag, where)
                elif l is not m:
                    raise Unknown(f'gathering of the values: {show(l, 4)[:120]}')
            cases[same, j] = yes
    n = range(len(dicts))
    for same in (True, False):
        u = 0
        for j in n:
            u = B.OR(u, cases[same, j])
        kind = 'the grid of the first one' if same else 'another grid'
        rep.ob(f'{tag}/every message stored', u == 1, where, f'a message on {kind} is dropped when {showb(B.NOT(u))[:200]}')
        if len(dicts) == 2:
            rep.ob(f'{tag}/stored once', not B.AND(cases[same, 0], cases[same, 1]), where, f'a message on {kind} is stored for both resolutions')
    if len(dicts) == 2:
        for same, j in ((True, 0), (False, 1)):
            rep.ob(f'{tag}/resolutions', cases[same, j] == 1, where, f'a message on {"the grid of the first one" if same else "another grid"} is not stored for the {("first", "second")[j]} resolution'
                   + (f' when {showb(B.NOT(cases[same, j]))[:160]}' if cases[same, j] else ''))


def is_elem(n, L, chains):
    return n.op == 'elem' and n.args[0] == L or n.op == 'ite' and all(is_elem(l, L, chains) for l in leafset(n))


def key_read(n, L, chains):
    n = strip_conv(n)
    if ext_of(n) in GETS and len(n.args[1]) > 1 and n.args[1][1].op == 'const':
        if is_elem(n.args[1][0], L, chains):
            return 'this', n.args[1][1].args[0]
        if first_message(n.args[1][0], chains):
            return 'first', n.args[1][1].args[0]
    return None


def points(a, same, L, chains):
    if a.op == 'eq':
        r = [key_read(x, L, chains) for x in a.args]
        if sorted(map(str, r)) == sorted(map(str, [('this', 'Nj'), ('first', 'Nj')])):
            return same
    if a.op == 'isnone' and key_read(a.args[0], L, chains):
        return False
    if a.op == 'truth' and ext_of(a.args[0]) == 'eccodes.codes_is_defined':
        return True
    return None


def entry(rep, k, l, L, chains, tag, where):
    e = k.e
    key, val = l.args[1], l.args[2]
    for s in leafset(key):
        if not (s.op == 'op' and s.args[0] == 'step'):
            raise Unknown(f'key of the values: {show(s, 4)[:120]}')
        a = s.args[1]
        for j, want in ((0, 'startStep'), (1, 'endStep'), (2, 'Nj'), (4, 'level')):
            got = {key_read(x, L, chains) for x in leafset(a[j])}
            rep.ob(f'{tag}/step', got == {('this', want)}, where, f'the values of a message are stored with {show(a[j], 4)[:120]} for its {want}')

    def source(bit):
        def f(n):
            nm = ext_of(n)
            if nm in ('eccodes.codes_get_double_array', 'eccodes.codes_get_values', 'eccodes.codes_get_array') and n.args[1] and is_elem(n.args[1][0], L, chains):
                what = n.args[1][1].args[0] if len(n.args[1]) > 1 and n.args[1][1].op == 'const' else 'values' if nm == 'eccodes.codes_get_values' else None
                if what == 'values':
                    return False, VALUE
                if what == 'bitmap':
                    return False, const(bit)
            return None
        return f

    def present(yes):
        def f(a):
            r = k.decide(a)
            if r is not None:
                return r
            if a.op == 'truth' and key_read(a.args[0], L, chains) == ('this', 'bitmapPresent'):
                return yes
            if a.op == 'eq' and any(key_read(x, L, chains) == ('this', 'bitmapPresent') for x in a.args):
                for x in a.args:
                    if is_const(x, 0, 1):
                        return (x.args[0] == 1) == yes
            return None
        return f
    for yes in (True, False):
        for bit in (0, 1) if yes else (0,):
            c = Cells(e, World(source(bit), masked_array=lambda n: None, scalar=present(yes), free={VALUE}))
            try:
                got = c(val)
            except Unknown as x:
                got = {(None, str(x))}
            gone = yes and bit == 0
            ok = bool(got) and all(m is True if gone else (m is False and v is VALUE) for m, v in got)
            rep.ob(f'{tag}/values', ok, where, f'a cell {"without" if gone else "with"} data in a message {"with" if yes else "without"} bitmap becomes '
                   + ' or '.join(sorted(('masked' if m else show(v, 4) if isinstance(v, Node) else str(v))[:100] for m, v in got)))


def check(rep, overlay=None):
    keys = list(SETTINGS)
    sets = [frozenset(c) for n in range(5) for c in itertools.combinations(keys, n)]
    jobs = [(h, s, st, False, False) for h in ('index', 'file') for s in sets for st in ('range', 'equal')]
    jobs += [(h, frozenset(keys[:2]), st, False, False) for h in ('index', 'file') for st in ('zero', 'default', 'open end')]
    jobs += [(h, frozenset(keys), st, False, False, True) for h in ('index', 'file') for st in ('range', 'equal')]
    jobs += [(h, frozenset(keys[:1]), 'step 0', False, False) for h in ('index', 'file')]
    jobs += [(h, frozenset(s), 'range', True, api) for h in ('index', 'file') for s in (keys, ()) for api in (False, True)]
    jobs += [(h, frozenset(s), st, False, True) for h in ('index', 'file') for s in (keys, ()) for st in ('range', 'equal')]

    def one(rep, j):
        h, s, st, two, api = j[:5]
        zeros = len(j) > 5
        tag = f'{h}/{st}' + ('/settings 0' if zeros else '')
        k = reading(overlay, h, s, st, two, api, zeros)
        rep.scenario(k.e, f'{"API" if api else "execution"} reading through {h}, settings {sorted(s)}, steps {st}{", two files" if two else ""}')
        try:
            check_run(rep, k, tag, set(FILES) if two else {'input.file'})
        except Unknown as x:
            rep.need(False, f'{tag}: {x}')
    rep.each(jobs, one, width=8)
