#!/usr/bin/env python3
# Authoring aid for seeded/: mkseed.py FILE.py (defines id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text, optional sh).
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g); d = V + '/seeded/' + g['id']; os.makedirs(d, exist_ok=True)
    w = '/tmp/mkseed'; shutil.rmtree(w, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', '-s', '/repo', w])
    for p, a, b in g['edits']:
        s = open(w + '/' + p).read(); assert s.count(a) == 1, (g['id'], p, a, s.count(a)); open(w + '/' + p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True); assert diff; open(d + '/patch.diff', 'w').write(diff); shutil.rmtree(w)
    open(d + '/demo.cc', 'w').write(g['demo'].lstrip())
    open(d + '/demo.sh', 'w').write(g.get('sh') or '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -g -w -pthread %s -I. "$d/demo.cc" -o "$t/demo" _build/kanon/lib/debug/libkanon_net.a _build/kanon/lib/debug/libkanon_base.a -lpthread || exit 3
cd "$t" && timeout %d ./demo
''' % (g.get('flags', ''), g.get('timeout', 60)))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=g['property'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(g['id'], 'written')
