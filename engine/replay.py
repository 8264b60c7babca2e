#!/usr/bin/env python3-vt
"""replay.py <replay file>: compile the harness natively against /repo and run it on the recorded inputs."""
import sys, os, json, subprocess, tempfile, shutil
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import build
r=json.load(open(sys.argv[1])); root=os.path.dirname(HERE)
if not r.get('inputs') and r.get('inputs')!=[]:
    print('no failing input recorded; obligation:',r['obligation']); print(json.dumps(r.get('failed_obligations'),indent=1)); sys.exit(0)
t=tempfile.mkdtemp()
try:
    build.to_native(os.path.join(root,r['harness']),t+'/n')
    p=subprocess.run([t+'/n','replay',r['main']]+['%.17g'%v for v in r['inputs']]); sys.exit(p.returncode)
finally: shutil.rmtree(t)
