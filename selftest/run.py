#!/usr/bin/env python3
"""Mutation / refactoring self-test of the checks (development aid, not registered).
Each case edits a scratch copy of /repo's sources and runs one property's check on it.
  run.py [-j N] [pattern...]   patterns match case ids (default all)"""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf, importlib.util, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    cases = []
    for f in sorted(glob.glob(HERE + '/cases_*.py')):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        cases += m.CASES
    return cases


def one(c):
    cid, props, expect, edits = c
    d = tempfile.mkdtemp(prefix='hoglmut.')
    out = []
    try:
        r = os.path.join(d, 'repo')
        os.mkdir(r)
        for s in ('include', 'src', 'tools'):
            shutil.copytree('/repo/' + s, r + '/' + s)
        for fn, old, new in edits:
            p = os.path.join(r, fn)
            t = open(p).read()
            if old not in t:
                return [(cid, '-', 'BADEDIT ' + fn + ': ' + old[:50])]
            t = t.replace(old, new, 1)
            open(p, 'w').write(t)
        for pid in props:
            env = dict(os.environ, HOGL_REPO=r, HOGL_EVDIR=os.path.join(d, 'ev'))
            q = subprocess.run([VERIF + '/check', pid], capture_output=True, text=True, env=env)
            ok = q.returncode == (1 if expect == 'V' else 0)
            first = (q.stdout.strip().splitlines() or [''])[0][:230]
            if q.returncode == 2:
                first = q.stdout.strip()[-300:]
            out.append((cid, pid, ('ok  ' if ok else 'FAIL') + ' rc=%d %s' % (q.returncode, first)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    a = sys.argv[1:]
    j = 4
    if a[:1] == ['-j']:
        j = int(a[1])
        a = a[2:]
    cs = [c for c in load() if not a or any(p in c[0] or p in c[1] for p in a)]
    with cf.ThreadPoolExecutor(j) as ex:
        for res in ex.map(one, cs):
            for r in res:
                print('%-28s %s %s' % r, flush=True)


main()
