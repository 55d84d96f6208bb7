"""Obligations, violations, evidence."""
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []          # (key, ok, where, msg)
        self.t0 = time.time()
        self.scenarios = []
        self.assume = []
        self.files = set()
        self.funcs = set()
        self.calls = 0
        self.notes = {}
        self.errors = []

    def scenario(self, e, what):
        """account for an evaluated scenario"""
        self.scenarios.append(what)
        self.files |= set(e.read_files)
        self.funcs |= set(e.visited)
        self.calls += sum(1 for x in e.events if x.kind == 'call')

    def ob(self, key, ok, where='', msg=''):
        self.obs.append((key, bool(ok), str(where), msg))
        return ok

    def need(self, cond, what):
        """an anchor the rule cannot do without"""
        if not cond:
            from .engine import AnalysisError
            raise AnalysisError(f'{self.pid}: {what}')

    def each(self, items, fn, width=6):
        """fn(report, item) for every item, each in a process of its own with fresh tables"""
        import pickle
        import sys
        import traceback
        todo, running, out = list(enumerate(items)), {}, {}

        def start(i, item):
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid:
                os.close(w)
                running[r] = (i, pid)
                return
            code = 0
            try:
                os.close(r)
                sub = type(self)(self.pid, self.tier)
                try:
                    fn(sub, item)
                    d = ('ok', sub.obs, sub.scenarios, sub.files, sub.funcs, sub.calls, [str(x) for x in sub.errors])
                except BaseException as ex:
                    d = ('ok', sub.obs, sub.scenarios, sub.files, sub.funcs, sub.calls, [str(x) for x in sub.errors] + [f'{type(ex).__name__}: {ex}\n{traceback.format_exc()}'])
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(d, f)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        while todo or running:
            while todo and len(running) < width:
                start(*todo.pop(0))
            r = next(iter(running))
            i, pid = running.pop(r)
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            out[i] = pickle.loads(data) if data else ('error', 'a part of the analysis ended without a result', '')
        for i in sorted(out):
            d = out[i]
            from .engine import AnalysisError
            if d[0] == 'error':
                self.errors.append(AnalysisError(d[1] + '\n' + d[2]))
                continue
            _, obs, sc, files, funcs, calls, errors = d
            self.errors += [AnalysisError(x) for x in errors]
            self.obs += obs
            self.scenarios += sc
            self.files |= files
            self.funcs |= funcs
            self.calls += calls

    def bad(self):
        out, seen = [], set()
        for k, ok, w, m in self.obs:
            if not ok and k not in seen:
                seen.add(k)
                out.append((k, w, m))
        return out


def known_findings(pid):
    """key -> text, entries '<known> property=P key=<k> :: text' of the committed file"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
