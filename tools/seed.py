#!/usr/bin/env python3
"""make a planted bug: seed.py ID PROPERTY FILE 'old' 'new' 'needs' 'breaks' < demo.py ; verifies the demonstration in a scratch copy; several 'FILE old new' triples are separated by '--'"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
HOME=$d PYTHONDONTWRITEBYTECODE=1 SCRATCH=$d PYTHONPATH=$PWD/src timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def main():
    sid, prop, needs, breaks = sys.argv[1:5]
    edits = sys.argv[5:]
    out = os.path.join(HERE, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    demo = sys.stdin.read()
    open(out + '/demo.py', 'w').write(demo)
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        w = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=w, capture_output=True, text=True)
        for i in range(0, len(edits), 3):
            f, old, new = (x.replace('\\n', '\n') for x in edits[i:i + 3])
            p = f'{w}/src/pyg2p/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print('OLD TEXT occurs', s.count(old))
                return
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(d)
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=w, capture_output=True, text=True)
        t = {}
        if '--test' in os.environ.get('SEED', ''):
            t = subprocess.run(['bash', '-c', 'true'])
        print(sid, 'unpatched', r0.returncode, 'patched', r1.returncode, '|', (r0.stderr or '')[-300:] if r0.returncode else '', '|', (r1.stdout + r1.stderr)[-200:])
    finally:
        shutil.rmtree(tmp)


main()
