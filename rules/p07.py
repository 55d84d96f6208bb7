"""Command line options overwrite the execution template."""
from .attrs import *

EXPLAIN = ('The execution context is evaluated abstractly once per command line option with the option passed, once with it left out; '
           'the resulting setting is a decision diagram over "option passed", "attribute in the template" and validity conditions. '
           'With the option passed every reachable value has to be the option itself (up to number conversion), without options the attribute of the template.')
RULE = 'option passed => the setting read by the rest of the program is the option value, whatever the template says'
ASSUME = ['an option value is not the empty string and -F is not given the internal marker "notset"']

# option -> (setting, key in it)
OPTIONS = {
    'outDir': 'outMaps.outDir', 'inputFile': 'input.file', 'inputFile2': 'input.file2', 'start': 'parameter.tstart', 'end': 'parameter.tend',
    'perturbationNumber': 'parameter.perturbationNumber', 'dataTime': 'parameter.dataTime', 'dataDate': 'parameter.dataDate',
    'fmap': 'outMaps.fmap', 'format': 'outMaps.format', 'ext': 'outMaps.ext', 'namePrefix': 'outMaps.namePrefix', 'offset': 'outMaps.offset',
    'scaleFactor': 'outMaps.scaleFactor', 'validMax': 'outMaps.validMax', 'validMin': 'outMaps.validMin',
    'valueFormat': 'outMaps.valueFormat', 'outputStepUnits': 'outMaps.outputStepUnits', 'loggerLevel': 'logger.level',
    'intertableDir': ('interpolation.dirs', 'user'), 'geopotentialDir': ('geopotential.dirs', 'user'),
    'createIntertable': 'interpolation.create', 'interpolationParallel': 'interpolation.parallel',
}
NUMBERS = {'start', 'end', 'perturbationNumber', 'dataTime', 'dataDate', 'fmap', 'ext'}

# values documented for options with a choice
CHOICES = {'format': ('netcdf', 'pcraster'), 'dataTime': (0, 1200), 'loggerLevel': ('ERROR', 'WARNING', 'INFO', 'DEBUG'), 'downloadConf': ('geopotentials', 'intertables')}


def template(rep, overlay):
    """options that are not given leave the value of the template"""
    keys = {k for d, k in OPTIONS.items() if d not in ('commandsFile', 'inputFile')}
    e, ctx, st, r = cli_context(overlay, given=('commandsFile', 'inputFile'), absent=CONFIG_OPTS + tuple(d for d in OPTIONS if d not in ('inputFile', 'loggerLevel')))
    rep.scenario(e, 'command line without options that overwrite the template')
    full = lambda p: ('Execution',) + tuple(p)
    table = [x for x in TABLE if x[1] in keys] + [(('OutMaps', '@format'), 'outMaps.format', 'raw', ...), (('@intertableDir',), ('interpolation.dirs', 'user'), 'raw', ...),
                                                  (('@geopotentialDir',), ('geopotential.dirs', 'user'), 'raw', ...)]
    for path, key, kind, default in table:
        check_value(rep, 'template:', e, ctx, st, jsonpath, path, key, kind, ..., full)


def check(rep, overlay=None):
    template(rep, overlay)
    for dest, key in OPTIONS.items():
        e, ctx, st, r = cli_context(overlay, given=(dest, 'commandsFile'), absent=CONFIG_OPTS)
        regs = [p for p in e.parser_args.values()]
        declared = any(dest in p for p in regs)
        rep.ob(f'option-{dest}', declared, 'argument parser', f'--{dest} is not declared any more')
        if not declared:
            continue
        rep.scenario(e, f'command line with --{dest}')
        v = setting(e, ctx, key, st)
        decl = [p[dest] for p in regs if dest in p][0]
        flag = decl['action'] in ('store_true', 'store_false')
        name = key if isinstance(key, str) else '/'.join(key)
        for c, l in restricted(v, optgiven(dest, zero=dest in NUMBERS), st.g):
            if flag:
                ok = is_const(l, True) or (l.op == 'bool' and l.args[0] == 1)
            else:
                x = strip_conv(l)
                # a folder may get its trailing separator
                if x.op == 'fmt' or (x.op == 'bin' and x.args[0] == '+'):
                    parts = [y for y in (x.args[0] if x.op == 'fmt' else x.args[1:]) if not is_const(y, '/')]
                    x = strip_conv(parts[0]) if len(parts) == 1 else x
                ok = x is N('opt', dest)
            rep.ob(f'{dest}->{name}', ok, 'execution context', f'with --{dest} passed, {name} can be {show(l, 6)} when {showb(c, 5)[:300]}')
        ch = decl.get('choices')
        got = decl.get('choices')
        if dest in CHOICES and got is not None:
            rep.ob(f'{dest}-choices', all(x in got for x in CHOICES[dest]), f"line {decl['line']}", f'--{dest} does not accept {[x for x in CHOICES[dest] if x not in got]}')
        if dest in NUMBERS:
            t = decl['type']
            rep.ob(f'{dest}-number', t is not None and ext_name(t) in ('int', 'float'), f"line {decl['line']}", f'--{dest} is not converted to a number')
