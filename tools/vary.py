#!/usr/bin/env python3
"""vary.py PID[,PID] [variant]: verdict of rules on behaviour-preserving rewrites; 'dump FILE variant' prints one rewrite"""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import variants as V
from sa.report import Report
if sys.argv[1] == 'dump':
    print(V.overlay_of(V.VARIANTS[sys.argv[3]])['pyg2p/' + sys.argv[2]]); sys.exit()
if sys.argv[1] == 'write':   # write all rewritten files below a directory
    for p, s in V.overlay_of(V.VARIANTS[sys.argv[3]]).items():
        open(os.path.join(sys.argv[2], p), 'w').write(s)
    sys.exit()
for pid in sys.argv[1].split(','):
    mod = importlib.import_module('rules.' + pid.lower())
    rep = Report(pid.upper(), 'quick')
    mod.check(rep, None)
    t = time.time()
    r = V.run(pid.upper(), mod, rep, 1, [sys.argv[2]] if len(sys.argv) > 2 else None)
    for k, v in r.items():
        if not v['same_verdict']:
            print(pid, k, str(v)[:400])
    print(pid, 'done', len(r), 'variants', round(time.time() - t, 1), 's')
