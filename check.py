#!/usr/bin/env python3
"""Decides one property from the current source of /repo.

usage: check.py PID [--tier quick|thorough]
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: the analysis could not be done
"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.report import Report, known_findings  # noqa: E402


def evaluate(pid, tier, overlay=None):
    mod = importlib.import_module('rules.' + pid.lower())
    rep = Report(pid, tier)
    try:
        mod.check(rep, overlay)
    except Exception as ex:
        rep.errors.append(ex)
    if rep.errors:
        # parts that could not be analysed do not hide what the others found
        known = known_findings(pid)
        if all(k in known for k, *_ in rep.bad()):
            raise rep.errors[0]
    return mod, rep


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()

    def late(s, f):
        print(f'{pid}: analysis did not finish in time')
        sys.stdout.flush()
        os._exit(3)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(800 if tier == 'quick' else 3000)
    try:
        mod, rep = evaluate(pid, tier)
        variants = None
        if tier == 'thorough':
            from sa import variants as V
            variants = V.run(pid, mod, rep, seed)
    except Exception as ex:
        traceback.print_exc()
        print(f'{pid}: analysis failed: {type(ex).__name__}: {ex}')
        return 2
    if not rep.obs:
        print(f'{pid}: no obligation found, the analysis lost its anchors')
        return 2
    known = known_findings(pid)
    bad = rep.bad()
    new = [b for b in bad if b[0] not in known]
    listed = [b for b in bad if b[0] in known]
    wall = time.time() - t0
    cov = {
        'explanation': mod.EXPLAIN,
        'rule': mod.RULE,
        'obligations': len({k for k, *_ in rep.obs}),
        'obligation_instances': len(rep.obs),
        'discharged': len({k for k, *_ in rep.obs}) - len(bad),
        'scenarios': rep.scenarios,
        'files_analysed': sorted(rep.files),
        'functions_analysed': len(rep.funcs),
        'functions': sorted(rep.funcs),
        'call_sites': rep.calls,
        'samples': [{'key': k, 'ok': ok, 'where': w, 'message': m} for k, ok, w, m in rep.obs[:40]],
        'known_findings': [k for k, *_ in listed],
    }
    cov.update(rep.notes)
    if variants is not None:
        cov['variants'] = variants
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUME', [])) + rep.assume, 'wall_s': round(wall, 3), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, w, m in listed:
        print(f'KNOWN-FINDING: property={pid} {k}: {known[k]}')
    print(f"{pid}: {cov['obligations']} obligations, {cov['discharged']} discharged, {len(listed)} known, {len(new)} violations; "
          f'{len(rep.scenarios)} scenarios, {len(rep.funcs)} functions, {wall:.1f}s')
    if new:
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}.txt')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(f'{pid}: {mod.RULE}\nre-run: python3 {VERIF}/check.py {pid}\n\n')
            for k, w, m in new:
                f.write(f'[{k}] {w}\n    {m}\n')
        for k, w, m in new[:12]:
            print(f'  [{k}] {w}: {m}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
