"""tools/mkseed.py ID PROPERTY FILE: reads stdin: old text, a line '=====', new text, '=====', demo python,
'=====', needs, '=====', what_it_breaks; writes /verif/seeded/ID."""
import sys, os, subprocess, json, shutil, tempfile
sid, prop, fn = sys.argv[1:4]
old, new, demo, needs, what = sys.stdin.read().split('\n=====\n')
src = open('/repo/' + fn).read()
assert src.count(old) == 1, (sid, src.count(old))
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
os.makedirs(t + '/a'); os.makedirs(t + '/b')
open(t + '/a/' + fn, 'w').write(src); open(t + '/b/' + fn, 'w').write(src.replace(old, new))
out = subprocess.run(['diff', '-u', 'a/' + fn, 'b/' + fn], cwd=t, capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write('diff --git a/%s b/%s\n' % (fn, fn) + '\n'.join(l.split('\t')[0] if l.startswith(('---', '+++')) else l for l in out.split('\n')))
open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + demo.strip('\n') + '\n')
open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs.strip(), 'what_it_breaks': what.strip()}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(t)
