#!/usr/bin/env python3
"""which rules report each planted bug (evaluated on an in-memory overlay): caught.py [ID...] [-- PID...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def overlay(sid):
    tmp = tempfile.mkdtemp(prefix='caught')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
        subprocess.run(f'git -C /repo archive HEAD src | tar x -C {tmp}', shell=True, check=True)
        r = subprocess.run(['git', 'apply', f'{HERE}/seeded/{sid}/patch.diff'], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            return r.stderr
        ov = {}
        for l in open(f'{HERE}/seeded/{sid}/patch.diff'):
            if l.startswith('+++ b/src/'):
                p = l[10:].strip()
                ov[p] = open(f'{tmp}/src/{p}').read()
        return ov
    finally:
        shutil.rmtree(tmp)


def main(a):
    from check import evaluate
    ids = [x for x in a[:a.index('--')]] if '--' in a else a
    pids = a[a.index('--') + 1:] if '--' in a else []
    for sid in ids or sorted(os.listdir(HERE + '/seeded')):
        ov = overlay(sid)
        own = json.load(open(f'{HERE}/seeded/{sid}/meta.json'))['property']
        if isinstance(ov, str):
            print(sid, 'does not apply', ov[:200])
            continue
        got = []
        for pid in pids or [own]:
            # a fresh process keeps the tables small
            if os.fork() == 0:
                try:
                    mod, rep = evaluate(pid, 'quick', ov)
                    os._exit(1 if rep.bad() else 0)
                except BaseException as x:
                    print('  ', pid, type(x).__name__, str(x)[:150])
                    os._exit(2)
            c = os.waitstatus_to_exitcode(os.wait()[1])
            got.append(f'{pid}:{ {0: "-", 1: "caught"}.get(c, "?")}')
        print(sid, own, *[x for x in got if not x.endswith('-')] or ['MISSED'], flush=True)


main(sys.argv[1:])
