#!/usr/bin/env python3
"""try a change on a rule: mut.py PID path 'old' 'new' [path old new]... ; evaluates the rule on an in-memory overlay"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from check import evaluate
from sa.report import known_findings


def main(a):
    pids, ov = a[0].split(','), {}
    for i in range(1, len(a), 3):
        p, old, new = a[i:i + 3]
        p = p if p.startswith('pyg2p') else 'pyg2p/' + p
        src = ov.get(p) or open('/repo/src/' + p).read()
        old, new = old.replace('\\n', '\n'), new.replace('\\n', '\n')
        if old not in src:
            print('NOT FOUND', old)
            return
        ov[p] = src.replace(old, new, 1)
    for pid in pids:
        try:
            mod, rep = evaluate(pid.upper(), 'quick', ov)
            bad = [b for b in rep.bad() if b[0] not in known_findings(pid.upper())]
            print(pid, 'obs', len(rep.obs), 'BAD' if bad else 'quiet', [(k, m[:150]) for k, w, m in bad[:3]])
        except Exception as ex:
            print(pid, 'ERROR', type(ex).__name__, ex)


if __name__ == '__main__':
    main(sys.argv[1:])
