#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], flags, demo, needs, breaks)];
writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) using a scratch clone of /repo."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# builds the demonstration from the sources in the current directory (a checkout of the library)
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -O1 -w -DNDEBUG -DMIE_ATE_USE_GMP %s -Iinclude -Isrc -Ijava "$d/demo.cpp" src/zm.cpp src/zm2.cpp -lgmpxx -lgmp -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''
t = tempfile.mkdtemp(prefix='mkseed')
subprocess.run(['git', 'clone', '-q', '/repo', t + '/w'], check=True)
try:
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        w = t + '/w'
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
        for f, a, b in s['edits']:
            p = os.path.join(w, f); x = open(p, newline='').read()
            if '\r\n' in x: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            n = x.count(a)
            if n != 1: sys.exit('%s: %d matches in %s of %r' % (s['id'], n, f, a[:60]))
            open(p, 'w', newline='').write(x.replace(a, b))
        d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
        open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(s['id'])
finally:
    shutil.rmtree(t, ignore_errors=True)
