"""mkseed.py ID PROPERTY FILE NEEDS BREAKS < spec   where spec is OLD, NEW and DEMO separated by lines of ====
Makes seeded/ID from a text replacement in FILE of /repo (scratch copy) and checks the demo on both trees."""
import sys, os, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, path, needs, breaks = sys.argv[1:6]
parts = [p.strip('\n') for p in sys.stdin.read().split('\n====\n')]
edits, demo = parts[:-1], parts[-1]
d = os.path.join(ROOT, 'seeded', id)
w = tempfile.mkdtemp(prefix='seed_')
r = os.path.join(w, 'repo')
subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
p = os.path.join(r, path)
s = open(p).read()
for o, n in zip(edits[::2], edits[1::2]):
    assert s.count(o) == 1, (s.count(o), o)
    s = s.replace(o, n)
open(p, 'w').write(s)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True, check=True).stdout
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.cpp', 'w').write(demo + '\n')
flags = ''
for l in demo.split('\n'):
    if l.startswith('// flags:'):
        flags = l[9:].strip()
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in the root of the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -w -I include "$d/demo.cpp" src/adevs.cpp %s -o "$t/demo" || exit 3
timeout 120 "$t/demo"
''' % flags)
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
a = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = subprocess.run([d + '/demo.sh'], cwd=r, capture_output=True, text=True)
print(id, 'unchanged:', a.returncode, 'patched:', b.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else '', (b.stdout + b.stderr)[-300:])
shutil.rmtree(w)
