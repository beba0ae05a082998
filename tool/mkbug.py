#!/usr/bin/env python3
"""tool/mkbug.py ID PROP FILE <<< JSON-free format: sections separated by lines '=====': old, new, needs, breaks, demo.cpp"""
import sys, os, subprocess
bid, prop = sys.argv[1:3]
secs = sys.stdin.read().split('\n=====\n')
edits, needs, breaks, demo = secs[:-3], secs[-3], secs[-2], secs[-1]
d = '/verif/seeded/' + bid
os.makedirs(d, exist_ok=True)
# edits: "FILE\nOLD\n-----\nNEW"
for e in edits:
    e = e.strip('\n')
    f, body = e.split('\n', 1)
    old, new = (body + '\n').split('\n-----\n')
    new = new.rstrip('\n')
    p = '/tmp/rc/' + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/tmp/rc', 'diff'], capture_output=True, text=True).stdout)
subprocess.run(['git', '-C', '/tmp/rc', 'checkout', '-q', '--', '.'])
import json
json.dump({'property': prop, 'needs': needs.strip(), 'what_it_breaks': breaks.strip()}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository, built. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 3
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -g -w -I include -I _build/include "$here/demo.cpp" _build/libEdyn.a -lpthread -o "$out/demo" || exit 3
timeout 120 "$out/demo"
''')
