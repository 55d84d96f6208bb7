"""Time axis of the netCDF output."""
from .nc import *

EXPLAIN = ('The netCDF execution is evaluated abstractly for every pair of step unit of the messages and output step unit: the numbers stored on the time axis are brought to a normal form '
           '(factor times end step) and compared with the unit written in its attribute; the reference date is evaluated for the data times of messages.')
RULE = ('number * unit = end step * step unit of the messages; documented output units are used when both are seconds to days, otherwise the unit of the messages; '
        'units are "<unit> since <date and hour of the messages>"; numbers that may not be whole are not stored as integers; one number per field')
ASSUME = ['eccodes gives dataTime as hhmm number']
HOURS = {'s': 1 / 3600, 'm': 1 / 60, 'h': 1, '3h': 3, '6h': 6, '12h': 12, 'D': 24}
NAMES = {'s': 'seconds', 'm': 'minutes', 'h': 'hours', '3h': '3h steps', '6h': '6h steps', '12h': '12h steps', 'D': 'days', 'M': 'months', 'Y': 'years',
         '10Y': '10Y steps', '30Y': '30Y steps', 'C': 'centuries'}
IN, OUT = N('param', 'stepunits_a'), cfg('outMaps.outputStepUnits')


def world(i, o):
    """step unit of the messages and output unit are these"""
    val = {IN: i, OUT: o}

    def d(a):
        if a.op in ('isnone', 'truth') and a.args[0] in val:
            x = val[a.args[0]]
            return x is None if a.op == 'isnone' else bool(x)
        if a.op in ('eq', 'in'):
            xs = [val[x] if x in val else x.args[0] if is_const(x) else a for x in a.args]
            if a not in xs:
                try:
                    return xs[0] == xs[1] if a.op == 'eq' else xs[0] in xs[1]
                except TypeError:
                    return None
        if a.op == 'in' and a.args[0] in val:
            k = keys(a.args[1])
            if k is not None:
                return val[a.args[0]] in k
        if a.op == 'eq':
            # the shapes of map and clone agree
            if any(is_shape(x) for x in a.args):
                return True
        return None
    return d


def is_shape(n):
    return mentions(n, lambda x: x.op == 'attr' and x.args[1] == 'shape')


def keys(n):
    if n.op == 'dictv':
        return [k.args[0] if isinstance(k, Node) else k for k, _ in n.args[0]]
    if n.op in ('tuple', 'listv', 'setv') and all(is_const(x) for x in n.args[0]):
        return [x.args[0] for x in n.args[0]]
    return None


def resolve(n, d, g=1):
    """gated value with atoms decided everywhere inside"""
    out = []
    for c, l in restricted(n, d, g):
        out.append((c, rewrite_gates(l, d)))
    return out


def rewrite_gates(n, d, memo=None):
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    memo[n] = n
    if n.op == 'ite':
        r = restricted(n, d)
        if len(r) == 1:
            m = rewrite_gates(r[0][1], d, memo)
            memo[n] = m
            return m
        memo[n] = n
        return n

    def sub(v):
        if isinstance(v, Node):
            return rewrite_gates(v, d, memo)
        if isinstance(v, tuple):
            return tuple(sub(x) for x in v)
        return v
    if n.op in ('mu', 'cfg', 'param', 'const', 'ref'):
        return n
    a = tuple(sub(v) for v in n.args)
    m = N(n.op, *a) if any(x is not y for x, y in zip(a, n.args)) else n
    memo[n] = m
    return m


def numbers(n):
    """(array of end steps, factor) of the numbers on the axis"""
    f = 1.0
    while True:
        if n.op == 'bin' and n.args[0] in ('*', '/'):
            op, a, b = n.args
            if is_const(b):
                f = f * b.args[0] if op == '*' else f / b.args[0]
                n = a
                continue
            if is_const(a) and op == '*':
                f, n = f * a.args[0], b
                continue
            v = value(b)
            if v is not None:
                f, n = (f * v if op == '*' else f / v), a
                continue
            v = value(a)
            if v is not None and op == '*':
                f, n = f * v, b
                continue
        if n.op == 'call' and ext_of(n) in ('numpy.multiply', 'numpy.divide', 'numpy.true_divide') and len(n.args[1]) == 2:
            n = N('bin', '*' if ext_of(n) == 'numpy.multiply' else '/', *n.args[1])
            continue
        return n, f


def value(n):
    """number of a constant expression"""
    if is_const(n) and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool):
        return n.args[0]
    if n.op == 'bin' and n.args[0] in ('*', '/', '+', '-'):
        a, b = value(n.args[1]), value(n.args[2])
        if a is None or b is None or (n.args[0] == '/' and b == 0):
            return None
        return {'*': a * b, '/': a / b if b else None, '+': a + b, '-': a - b}[n.args[0]]
    if n.op == 'call' and ext_of(n) in ('float', 'numpy.float64') and n.args[1]:
        return value(n.args[1][0])
    return None


def check(rep, overlay=None):
    k = netcdf_run(rep, overlay)
    e = k.e
    rep.need(k.time, 'no time variable is created')
    t = k.time[0]
    rep.ob('time:calendar', any(is_const(l, 'proleptic_gregorian', 'standard', 'gregorian') for c, l, x in attr_leaves(t, 'calendar', lambda a: None)), t.ev.where, 'the time axis has no calendar')
    for i in NAMES:
        for o in [None, 'z'] + list(NAMES):
            tag = f'{i}->{o}'
            d = world(i, o)
            conv = o in HOURS and i in HOURS
            unit = o if conv else i
            if o is not None and o not in HOURS and o == i:
                unit = i
            factor = HOURS[i] / HOURS[unit] if conv else 1.0
            n = 0
            for c, l, x in attr_leaves(t, 'units', d):
                n += 1
                l = rewrite_gates(l, d)
                head, date = units(l)
                rep.ob(f'units:{tag}', head == NAMES[unit] + ' since ', x.where, f'steps in {i!r} with output unit {o!r}: unit of the time axis is {head!r} instead of {NAMES[unit]!r}')
                rep.ob('date', date is not None and is_date(date), x.where, 'the reference of the time axis is not the date of the messages')
            rep.ob(f'units:{tag}:there', n == 1 or n and len({l for c, l, x in attr_leaves(t, "units", d)}) == 1, t.ev.where, 'the time axis has no unit')
            m = 0
            for g, idx, val, x, _ in t.stores:
                for c, l in restricted(val, d, g):
                    m += 1
                    arr, f = numbers(rewrite_gates(l, d))
                    rep.ob(f'numbers:{tag}', abs(f - factor) <= 1e-9 * factor, x.where, f'steps in {i!r} with output unit {o!r}: numbers are multiplied by {f:g} instead of {factor:g}')
                    steps(rep, k, arr, x)
            rep.ob(f'numbers:{tag}:there', m, t.ev.where, 'no numbers are stored on the time axis')
            for c, l in restricted(t.type, d, t.ev.g):
                integer = is_const(l) and str(l.args[0])[0] in 'iu'
                if integer and abs(factor - round(factor)) > 1e-12:
                    ok = whole(c)
                    rep.ob(f'type:{tag}', ok, t.ev.where, f'steps in {i!r} with output unit {o!r} may not be whole and are stored as integers')
    dates(rep, overlay)


ROUND = {'numpy.floor', 'numpy.round', 'numpy.rint', 'numpy.trunc', 'numpy.around', 'numpy.ceil', 'numpy.fix', 'math.floor', 'round', 'int', 'numpy.int32', 'numpy.int64'}


def rounded(a, b):
    """b is a rounded to a whole number"""
    return b.op == 'call' and (ext_of(b) in ROUND and b.args[1] and b.args[1][0] is a or b.args[0].op == 'attr' and b.args[0].args[1] in ('astype', 'round') and b.args[0].args[0] is a)


def fraction(n):
    """number that is 0 for whole numbers and only for them"""
    if n.op == 'call' and ext_of(n) in ('numpy.mod', 'numpy.remainder', 'math.fmod', 'numpy.fmod') and len(n.args[1]) == 2:
        return is_const(n.args[1][1], 1)
    if n.op == 'call' and ext_of(n) in ('numpy.abs', 'abs', 'numpy.absolute', 'math.fabs') and n.args[1]:
        return fraction(n.args[1][0])
    if n.op == 'bin' and n.args[0] == '%':
        return is_const(n.args[2], 1)
    if n.op == 'bin' and n.args[0] == '-':
        return rounded(n.args[1], n.args[2]) or rounded(n.args[2], n.args[1])
    return False


def test(n):
    """True: a condition on a number that holds for whole numbers only, False: for others only, None: something else"""
    if n.op == 'bool':
        f = n.args[0]
        ats = [B.atoms[y] if isinstance(y, int) else y for y in B.support(f)]
        if len(ats) != 1:
            return None
        a = ats[0]
        r = None
        if a.op == 'eq':
            x, y = a.args
            if is_const(x, 0) and fraction(y) or is_const(y, 0) and fraction(x) or rounded(x, y) or rounded(y, x):
                r = True
        elif a.op == 'lt' and fraction(a.args[1]) and is_const(a.args[0]) and isinstance(a.args[0].args[0], (int, float)) and 0 <= a.args[0].args[0] <= 1e-5:
            r = False
        elif a.op == 'truth':
            r = test(a.args[0])
        return r if f == atom(a) else None if r is None else not r
    if n.op == 'comp':
        return test(n.args[1])
    if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] == 'is_integer':
        return True
    if n.op == 'call' and ext_of(n) in ('numpy.isclose', 'math.isclose') and len(n.args[1]) >= 2:
        x, y = n.args[1][:2]
        return True if rounded(x, y) or rounded(y, x) else None
    return False if fraction(n) else None


def whole(c):
    """all numbers are whole under c"""
    for a in [B.atoms[y] if isinstance(y, int) else y for y in B.support(c)]:
        yes, no = B.implies(c, atom(a)), B.implies(c, B.NOT(atom(a)))
        if not (yes or no) or a.op != 'truth':
            if (yes or no) and mentions(a, lambda z: z.op == 'mu' and z.args[1] != '@cont') and not mentions(a, lambda z: z.op == 'call'):
                # found in a loop over the numbers
                return True
            continue
        n = a.args[0]
        if n.op == 'call':
            f = ext_of(n)
            x = n.args[1][0] if n.args[1] else None
            if n.args[0].op == 'attr' and n.args[0].args[1] in ('any', 'all') and f not in ('numpy.any', 'numpy.all'):
                f, x = n.args[0].args[1], n.args[0].args[0]
            if f in ('numpy.any', 'any') and no and x is not None and test(x) is False:
                return True
            if f in ('numpy.all', 'all') and yes and x is not None and test(x) is True:
                return True
            if f in ('numpy.array_equal', 'numpy.allclose') and yes and len(n.args[1]) >= 2 and (rounded(*n.args[1][:2]) or rounded(*n.args[1][1::-1])):
                return True
        elif n.op == 'mu' and (yes or no):
            return True
    return False


def units(l):
    """text before the date, date"""
    parts = pieces(l)
    head = ''
    for j, p in enumerate(parts):
        if isinstance(p, str):
            head += p
        else:
            return head, p
    return head, None


def pieces(l):
    if is_const(l):
        return [str(l.args[0])]
    if l.op == 'fmt':
        out = []
        for p in l.args[0] if isinstance(l.args[0], tuple) else l.args:
            p = p[0] if isinstance(p, tuple) else p
            if isinstance(p, str):
                out.append(p)
            elif is_const(p):
                out.append(str(p.args[0]))
            else:
                out += pieces(p) if p.op in ('fmt', 'bin') else [p]
        return out
    if l.op == 'bin' and l.args[0] == '+':
        return pieces(l.args[1]) + pieces(l.args[2])
    return [l]


def is_date(n):
    """the date of the (first) messages"""
    return mentions(n, lambda x: x is N('param', 'date_a')) and mentions(n, lambda x: x is N('param', 'time_a'))


def steps(rep, k, arr, x):
    """one end step per field, in the order of the fields"""
    e = k.e
    a = arr
    while a.op == 'call' and ext_of(a) in ('numpy.array', 'numpy.asarray', 'list', 'tuple', 'numpy.int32', 'numpy.int64') and a.args[1]:
        a = a.args[1][0]
    fields = set()
    for g, v, y in k.vals:
        fields |= field_loop(e, v)
    ok = False
    if a.op == 'mu':
        L = a.args[0]
        init, nxt = e.mus[a.args]
        init_empty = all(l.op in ('listv', 'empty', 'tuple') and not (l.args and l.args[0]) for l in leafset(init))
        good = []
        for c, l in leaves(nxt):
            if l.op == 'append':
                val = l.args[1]
                good.append(l.args[0] is a and end_step(val, L))
            elif l is not a:
                good.append(False)
            else:
                good.append(False)
        ok = L in fields and init_empty and good and all(good)
    elif a.op == 'comp':
        src = [y for y in walk(a.args[1]) if y.op in ('keyof', 'valof', 'elem')]
        its = {y.args[1] for y in src}
        where = set()
        for F in fields:
            where.add(e.loopinfo[F]['iter'] if isinstance(e.loopinfo[F], dict) else e.loopinfo[F].iter)
        ok = end_step(a.args[1], None) and (not where or any(same_container(i, w) for i in its for w in where))
    rep.ob('numbers:steps', ok, x.where, 'the time axis does not hold the end step of each field')


def same_container(i, w):
    strip = lambda n: n.args[0].args[0] if n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in ('items', 'keys', 'values') else n
    def base(n):
        while True:
            m = strip(n)
            if m is n and n.op == 'call' and ext_of(n) in ('enumerate', 'list', 'tuple', 'iter') and n.args[1]:
                m = n.args[1][0]
            if m is n:
                return n
            n = m
    return base(i) is base(w)


def end_step(n, L):
    n = strip_conv(n)
    return n.op == 'attr' and n.args[1] == 'end_step' and n.args[0].op in ('keyof', 'elem') or \
        n.op == 'sub' and n.args[0].op in ('keyof', 'elem') and is_const(n.args[1], 1)


def field_loop(e, n):
    from .p20 import field_loop as f
    return f(e, n)


def dates(rep, overlay):
    """date and hour of messages of each hour of the day"""
    from datetime import datetime
    for hhmm in (0, 300, 600, 900, 1200, 1800):
        def ext(e, name, args, kw, st, hhmm=hhmm):
            if name.endswith('codes_get') and len(args) > 1:
                if is_const(args[1], 'dataTime'):
                    return const(hhmm)
                if is_const(args[1], 'dataDate'):
                    return const(20231109)
            return None
        e, got = first_date(overlay, ext)
        rep.scenario(e, f'messages of time {hhmm:04d}')
        rep.need(got, 'messages have no date any more')
        want = datetime(2023, 11, 9, hhmm // 100)
        for l, w in got:
            rep.ob(f'date:{hhmm:04d}', date_of(l) == want, w, f'the date of messages of time {hhmm:04d} is {date_of(l)}')


def date_of(l):
    from datetime import datetime
    name = ext_of(l)
    if name == 'datetime.datetime.strptime' and all(is_const(x) for x in l.args[1]):
        try:
            return datetime.strptime(*[x.args[0] for x in l.args[1]])
        except ValueError as x:
            return str(x)
    if name == 'datetime.datetime' and all(is_const(x) for x in l.args[1]):
        try:
            return datetime(*[int(x.args[0]) for x in l.args[1]])
        except (ValueError, TypeError) as x:
            return str(x)
    return show(l, 4)


def first_date(overlay, ext):
    """date of the messages a reader returns, over given GRIB keys"""
    e = engine(overlay, {'ext': ext})
    st = e.state()
    r, st, _ = e.run(e.find_class('GRIBReader'), [N('param', 'file')], {}, st)
    m = e.getattr(r, 'select_messages', st)
    v, st, _ = e.run(m, [], {'shortName': N('param', 'shortName')}, st)
    out = []
    for c, l in leaves(e.freeze(v, st), st.g):
        if l.op == 'ref':
            d = e.freeze(e.getattr(l, 'data_date', st), st)
            out += [(x, 'pyg2p/__init__.py') for x in leafset(constrain(d, B.AND(c, st.g)))]
    return e, out
