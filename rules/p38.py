"""Settings the processing steps work with."""
import itertools
from .pipe import *

EXPLAIN = ('Executions with one and two resolutions are evaluated abstractly over given messages; the aggregators and converters that process fields are collected with the arguments they were built with, '
           'and the range of the messages asked from the reader.')
RULE = 'aggregators and converters get the settings of the execution and the units of the input; the range read covers one aggregation step before the start'
ASSUME = []
W = 'pyg2p/main/controller.py'
TEXTS = {'aggr_type': {'aggregation.type'}, 'aggr_halfweights': {'aggregation.halfweights'}, 'force_zero_array': {'aggregation.forceZeroArray'}, 'unit_time': {'outMaps.unitTime'}, 'aggr_step': {'aggregation.step'},
         'mv_grib': {'info.mv'}, 'step_type': {'info.type_of_param', 'steptype_a'}, 'input_step': {'info.input_step'}}
WHAT = {'aggr_type': 'type', 'aggr_halfweights': 'half weights', 'force_zero_array': 'forced zero array', 'unit_time': 'unit time', 'aggr_step': 'step', 'mv_grib': 'missing value', 'step_type': 'step type', 'input_step': 'input step'}
SECONDS = {None: 'one resolution', 'file': 'two resolutions', 'input2': 'two files'}


def origin(n):
    n = strip_conv(n)
    if n.op == 'cfg':
        return n.args[1].args[0]
    if n.op == 'attr' and n.args[0] is N('param', 'info'):
        return 'info.' + n.args[1]
    if n.op == 'param':
        return n.args[0]
    if n.op == 'sub' and n.args[0] is N('param', 'info') and n.args[1].op == 'const':
        return {0: 'info.input_step', 3: 'info.type_of_param', 4: 'info.start', 5: 'info.end', 6: 'info.mv'}.get(n.args[1].args[0])
    return show(n, 4)[:120]


class Numbers:
    """values of terms for given numbers of the settings"""

    def __init__(self, k, vals):
        self.k, self.vals = k, vals

    def __call__(self, n):
        if n.op == 'ite':
            t = self.truth(B.atoms[n.args[0]])
            return None if t is None else self(n.args[1] if t else n.args[2])
        if n.op == 'const':
            return n.args[0]
        if n.op == 'call':
            nm = ext_of(n)
            if nm in ('int', 'float', 'str', 'abs') and len(n.args[1]) == 1:
                v = self(n.args[1][0])
                return abs(v) if nm == 'abs' and v is not None else v
            if nm in ('max', 'min') and len(n.args[1]) > 1:
                v = [self(x) for x in n.args[1]]
                return None if None in v else (max if nm == 'max' else min)(v)
        if n.op == 'bin':
            a, b = self(n.args[1]), self(n.args[2])
            if a is None or b is None:
                return None
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}.get(n.args[0], lambda: None)()
        if n.op == 'un' and n.args[0] == '-':
            v = self(n.args[1])
            return None if v is None else -v
        if n.op == 'attr' and n.args[1] in ('start_step', 'end_step') and is_change(n.args[0]):
            return self.vals['change.' + n.args[1]]
        if n.op in ('cfg', 'attr', 'param', 'sub'):
            return self.vals.get(origin(n))
        return None

    def truth(self, a):
        if a.op in ('lt', 'eq'):
            x, y = (self(z) for z in a.args)
            if a.op == 'eq' and any(is_const(z, None) for z in a.args):
                return x is None and y is None
            if x is None or y is None:
                return None
            return x < y if a.op == 'lt' else x == y
        if a.op == 'isnone' and (a.args[0].op != 'attr' or origin(a.args[0]) in self.vals):
            o = origin(a.args[0])
            return self.vals[o] is None if o in self.vals else None
        if a.op == 'truth':
            if a.args[0].op == 'param' and a.args[0].args[0].startswith('values'):
                return True
            v = self(a.args[0])
            if v is None and origin(a.args[0]) in self.vals:
                return False
            return None if v is None else bool(v)
        if a.op == 'callable':
            return a.args[0].op in ('func', 'bound', 'partial')
        if a.op in ('raises', 'exc_in'):
            return False
        return None

    def guard(self, g):
        r = B.restrict_map(g, self.truth)
        return None if r not in (0, 1) else r == 1


def is_change(n):
    """step of the first message of the second resolution"""
    if n.op == 'ite':
        return all(is_change(l) for l in leafset(n))
    if n is N('param', 'change_a'):
        return True
    return n.op == 'sub' and is_const(n.args[1], 0) and n.args[0].op == 'call' and ext_of(n.args[0]) == 'sorted' and any(x is N('param', 'values_b') for x in walk(n.args[0])) \
        or n.op == 'call' and ext_of(n) == 'min' and any(x is N('param', 'values_b') for x in walk(n))


def numbers():
    """(start, aggregation step, end, input step, first step at second resolution)"""
    out = []
    for ts, step, te, inp in itertools.product((None, 0, 6, 12, 24), (6, 24), (None, 24, 48), (0, 6)):
        for cs in ((12, 12), (12, 18), (18, 24), (24, 24), (36, 42)):
            out.append({'parameter.tstart': ts, 'aggregation.step': step, 'parameter.tend': te, 'info.input_step': inp, 'info.start': 6, 'info.end': 36, 'change.start_step': cs[0], 'change.end_step': cs[1]})
    return out


def real(v, start):
    if v['info.input_step'] == 0:
        return start
    return max(start - v['aggregation.step'], 0)


def evaluate(rep, overlay, second, sink):
    agg, sel, conv = [], [], []

    def manipulate(e, fi, selfn, args, kw, st):
        n = chain_stub('aggregate')(e, fi, selfn, args, kw, st)
        v = e.call(e.getattr(selfn, 'get_real_start_end_steps', st), [], {}, st)
        agg.append((st.g, selfn, e.freeze(args[0] if args else list(kw.values())[0], st), e.freeze(v, st), n))
        return n

    base = reader_stubs(second)[('GRIBReader', 'select_messages')]

    def select(e, fi, selfn, args, kw, st):
        d = {}
        for key in ('startStep', 'endStep'):
            v = kw.get(key)
            if v is not None:
                d[key] = [(c, l, tobdd(e.call(l, [N('param', 'step')], {}, st.copy())) if l.op in ('func', 'bound', 'partial') else None) for c, l in leaves(e.freeze(v, st), st.g)]
        sel.append((st.g, d))
        return base(e, fi, selfn, args, kw, st)
    k = run_given(rep, overlay, second, (sink,), {'execution.doAggregation': True, 'execution.doConversion': True},
                  {('Aggregator', 'do_manipulation'): manipulate, ('GRIBReader', 'select_messages'): select})[0]
    k.agg, k.sel = agg, sel
    return k


def arguments(k, ref, name):
    for x in k.e.events:
        if x.kind == 'new' and x.args[0] is ref and x.fn is not None and k.e.cinfo(x.fn).name == name:
            d = {a: k.e.freeze(b, k.st) for a, b in x.kw}
            init = k.e.clsattr(k.e.cinfo(x.fn), '__init__')
            names = [y.arg for y in k.e.finfo(init).node.args.args][1:] if init is not None else []
            d.update(zip(names, (k.e.freeze(a, k.st) for a in x.args[1:])))
            return d
    return None


def check(rep, overlay=None):
    jobs = [(s, w) for s in (None, 'file', 'input2') for w in ('pcraster', 'api')]

    def one(rep, j):
        second, sink = j
        tag = f'{sink}/{SECONDS[second]}'
        k = evaluate(rep, overlay, second, sink)
        rep.need(k.agg and k.sel, f'{tag}: no aggregation, or no selection of messages')
        steps(rep, k, tag, second)
        converters(rep, k, tag)
    rep.each(jobs, one)


def resolution(k, n):
    """which given values an aggregation works on"""
    return labels(k.e, n, lambda x: x.args[0] if x.op == 'param' and isinstance(x.args[0], str) and x.args[0].startswith('values_') else None)


def steps(rep, k, tag, second):
    firsts, seconds = [], []
    for g, ref, vals, rng, node in k.agg:
        got = resolution(k, vals)
        rep.ob(f'{tag}/values', got in ({'values_a'}, {'values_a2'}, {'values_b'}), W, f'one aggregation works on the values of {sorted(got)}')
        (firsts if got == {'values_a'} else seconds).append((g, ref, rng))
    rep.ob(f'{tag}/aggregations', bool(firsts) and (bool(seconds) == (second is not None)), W, f'{len(firsts)} aggregations of the first and {len(seconds)} of the second resolution')
    for which, group in (('first', firsts), ('second', seconds)):
        for g, ref, rng in group:
            for r in leafset(ref):
                d = arguments(k, r, 'Aggregator')
                rep.need(d is not None, f'{tag}: aggregator {show(r, 3)} is not built in the execution')
                for a, want in TEXTS.items():
                    got = {origin(l) for l in leafset(d.get(a, NONE))}
                    rep.ob(f'{tag}/{which}/{a}', bool(got) and got <= want, W, f'the aggregation of the {which} resolution gets {", ".join(map(str, sorted(map(str, got))))} as {WHAT[a]}')
    for v in numbers():
        nm = Numbers(k, v)
        start = v['parameter.tstart'] or 0
        end = v['info.end'] if v['parameter.tend'] is None else v['parameter.tend']
        if start > end or second and end < v['change.start_step']:
            continue
        told = ', '.join(f'{a} {b}' for a, b in v.items() if second or not a.startswith('change'))
        # range of the messages
        lo = real(v, start)
        for g, d in k.sel:
            if nm.guard(g) is False:
                continue
            for s in sorted({0, lo - 1, lo, lo + 1, end - 1, end, end + 1}):
                if s < 0:
                    continue
                n2 = Numbers(k, dict(v, step=s))
                for key, want in (('startStep', s >= lo if lo != end else s == lo), ('endStep', s <= end if lo != end else s == end)):
                    got = []
                    for c, l, call in d.get(key, []):
                        gc = n2.guard(c)
                        if gc is False:
                            continue
                        got.append(n2.guard(call) if call is not None else (n2(l) == s if n2(l) is not None else None))
                    ok = bool(got) and all(x is want for x in got)
                    rep.ob(f'{tag}/range', ok, W, f'a message with {key} {s} is {"" if got and got[0] else "not "}read ({told})' if None not in got and got else f'messages are read by another {key} than the range of the aggregation ({told})')
        for which, group in (('first', firsts), ('second', seconds)):
            ran = False
            for g, ref, rng in group:
                run_it = nm.guard(g)
                rep.ob(f'{tag}/{which}/condition', run_it is not None, W, f'whether the {which} resolution is aggregated depends on {showb(B.restrict_map(g, nm.truth))[:160]}')
                if not run_it:
                    continue
                ran = True
                got = [nm(x) for x in rng.args[0]] if rng.op == 'tuple' else None
                if rng.op == 'ite':
                    got = None
                if which == 'first':
                    want = [lo, v['change.start_step'] if second else end]
                else:
                    want = [real(v, v['change.end_step'] + v['aggregation.step']), end]
                rep.ob(f'{tag}/{which}/steps', got == want, W, f'the {which} resolution is aggregated from {got[0] if got else "?"} to {got[1] if got else "?"} instead of {want[0]} to {want[1]} ({told})')
            if which == 'second' and second:
                due = v['change.end_step'] + v['aggregation.step'] <= end
                rep.ob(f'{tag}/second/done', ran == due, W, f'the second resolution is {"" if ran else "not "}aggregated ({told})')
            elif which == 'first':
                rep.ob(f'{tag}/first/done', ran, W, f'the first resolution is not aggregated ({told})')


def converters(rep, k, tag):
    used = set()
    for x in k.e.events:
        if x.kind == 'op' and x.node.args[0] in ('convert', 'cut off'):
            used |= set(leafset(x.node.args[2])) if len(x.node.args) > 2 else set()
    rep.need(used, f'{tag}: no conversion')
    for r in used:
        d = arguments(k, r, 'Converter')
        rep.need(d is not None, f'{tag}: converter {show(r, 3)} is not built in the execution')
        for a, want in (('func', 'parameter.conversionFunction'), ('cut_off', 'parameter.cutoffnegative')):
            got = {origin(l) for l in leafset(d.get(a, NONE))}
            rep.ob(f'{tag}/conversion/{a}', got == {want}, W, f'the conversion gets {", ".join(map(str, got))} instead of {want}')
