"""Helpers to plant bugs for testing the checks (development only; no check uses it).
plant(id, prop, needs, breaks, edits, demo, defs) writes /verif/seeded/<id>/."""
import json, os, subprocess, difflib
V = '/verif/seeded'
DEMO = '''#!/bin/bash
# Compiles demo.cpp against the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
R=$PWD
SRC=$(ls %s | grep -v -E '_(Win|Apple|IOCP|kqueue|iouring)\\.cpp$')
g++ -std=gnu++20 -g %s -w -pthread -I "$R/src" -I "$D" "$D/demo.cpp" $SRC -o "$T/demo" %s || exit 2
cd "$T" && timeout -k 5 %d ./demo
'''
ALL = ['box', 'sch', 'stub']


def plant(id, prop, needs, breaks, edits, demo, mods=('box', 'stub'), flags='', libs='', limit=120):
    d = f'{V}/{id}'
    os.makedirs(d, exist_ok=True)
    out = ''
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        s = subprocess.run(['git', '-C', '/repo', 'show', f'HEAD:{f}'], capture_output=True, text=True).stdout
        n = s
        for old, new in es:
            assert n.count(old) == 1, (id, f, n.count(old), old)
            n = n.replace(old, new)
        out += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(s.splitlines(1), n.splitlines(1), 'a/' + f, 'b/' + f))
    open(f'{d}/patch.diff', 'w').write(out)
    src = ' '.join(f'$R/src/mg/{m}/*.cpp' for m in mods)
    if 'net' in mods:
        libs += ' -lssl -lcrypto'
    open(f'{d}/demo.sh', 'w').write(DEMO % (src, flags, libs, limit))
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.cpp', 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    print('planted', id)
