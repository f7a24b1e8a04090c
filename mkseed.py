#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]: writes seeded/ID/patch.diff and meta.json (development aid)."""
import sys, os, json, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))


def mk(sid, prop, needs, breaks, edits, demo):
    d = HERE + '/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    old = {}
    try:
        for f, o, n in edits:
            p = '/repo/' + f
            s = open(p).read()
            old.setdefault(p, s)
            assert s.count(o) == 1, (sid, f, s.count(o), o)
            open(p, 'w').write(s.replace(o, n))
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    finally:
        for p, s in old.items():
            open(p, 'w').write(s)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    src = demo.lstrip('\n')
    open(d + '/demo.cc', 'w').write(src)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build; exit 0 = property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -g -w -I include -I tools -I src "$here/demo.cc" -o "$tmp/demo" _build/src/.libs/libhogl.a -lpthread -ldl || exit 3
cd "$tmp" && timeout -k 5 120 ./demo
''')
    os.chmod(d + '/demo.sh', 0o755)
