"""Template attributes reach the settings they document, with the documented defaults."""
from .attrs import *

EXPLAIN = ('The execution context is evaluated abstractly on a command line with only a template: every setting becomes a decision diagram over '
           'presence and validity of template attributes. Restricted to "attribute given" each reachable value has to be that attribute '
           '(up to number conversion and {VARIABLE} replacement), restricted to "attribute missing" the documented default.')
RULE = 'attribute given => setting is the attribute; attribute missing => setting is the documented default'
ASSUME = ['attribute values are not empty strings', 'command line options that stand for the same setting are not passed']
NOT_PASSED = ('outDir start end perturbationNumber dataTime dataDate fmap format ext namePrefix offset scaleFactor validMax validMin '
              'valueFormat outputStepUnits intertableDir geopotentialDir inputFile2').split()


def check(rep, overlay=None):
    e, ctx, st, r = cli_context(overlay, given=('commandsFile', 'inputFile'), absent=CONFIG_OPTS + tuple(NOT_PASSED))
    rep.scenario(e, 'command line with a template only')
    full = lambda p: ('Execution',) + tuple(p)
    table = TABLE + [(('OutMaps', '@format'), 'outMaps.format', 'raw', 'pcraster'), (('@name',), 'execution.name', 'raw', ...),
                     (('@intertableDir',), ('interpolation.dirs', 'user'), 'raw', ...),
                     (('@geopotentialDir',), ('geopotential.dirs', 'user'), 'raw', ...)]
    for path, key, kind, default in table:
        check_value(rep, '', e, ctx, st, jsonpath, path, key, kind, default, full)
    check_switches(rep, '', e, ctx, st, jsonpath, full)
    e, ctx, st, r = cli_context(overlay, given=('commandsFile', 'inputFile'), absent=CONFIG_OPTS + tuple(NOT_PASSED), forget=False)
    rep.scenario(e, 'command line with a template only, rejected executions excluded')
    check_conversion(rep, '', e, ctx, st, jsonpath, full)
    for c, l in leaves(setting(e, ctx, 'outMaps.outDir', st), st.g):
        rep.ob('outDir-default', is_const(l, './'), 'execution context', f'without -o the output folder is {show(l, 5)}')
