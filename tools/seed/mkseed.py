#!/usr/bin/env python3
"""mkseed.py ID...: (re)build seeded/ID from seeded/ID/edit.py-less source: the change is taken from SEEDS (tools/seed/seeds.py) and applied to a scratch copy;
confirms that it builds, passes the existing tests, fails its demonstration, and that the demonstration passes without it."""
import sys, os, subprocess, json, shutil, importlib.util
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(os.path.dirname(here))
spec = importlib.util.spec_from_file_location('seeds', here + '/seeds.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
R = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
envsh = "sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/seedenv.sh; . /tmp/seedenv.sh; " % R
if not os.path.isdir(R): subprocess.check_call(['cp', '-a', '/repo', R])
head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
sh('git checkout -q -- . && git fetch -q /repo && git checkout -q ' + head)
def build():
    r = sh(envsh + 'cargo test --workspace --no-run --offline --locked 2>&1 | tail -40')
    return r.stdout
def test():
    r = sh(envsh + "sed 's#/repo#%s#g' /opt/vp/test.sh | sed 's#^\\. /opt/vp/env.sh#. /tmp/seedenv.sh#' > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedout.json 2>&1 | tail -5" % R)
    o = json.load(open('/tmp/seedout.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in b if t not in o['passed']]
def demo(d):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout[-300:]
ok = True
for i in sys.argv[1:] or list(m.SEEDS):
    s = m.SEEDS[i]; d = verif + '/seeded/' + i; os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .')
    for f, old, new in s['edits']:
        t = open(R + '/' + f).read()
        if t.count(old) != 1: print(i, 'EDIT does not match once in', f, ':', t.count(old), old[:60]); ok = False; break
        open(R + '/' + f, 'w').write(t.replace(old, new))
    else:
        open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
        if s['js']:
            shutil.copy(here + '/nx.mjs', d + '/nx.mjs')
            open(d + '/demo.mjs', 'w').write("import { server, client, NexoClient, expect, sleep } from './nx.mjs';\n" + s['demo'].strip() + '\nprocess.exit(0);\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 250 node "$(dirname "$0")/demo.mjs"\n')
        else:
            shutil.copy(here + '/nx.py', d + '/nx.py')
            open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom nx import *\n' + s['demo'].strip() + '\n')
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = build()
        if 'error' in b and 'could not compile' in b: print(i, 'BUILD', b); ok = False; continue
        bad = [demo(d) for _ in range(2)]
        failing = test()
        sh('git checkout -q -- .'); build()
        good = [demo(d) for _ in range(2)]
        fine = all(x[0] != 0 for x in bad) and all(x[0] == 0 for x in good) and not failing
        ok &= fine
        print(i, 'OK' if fine else 'BAD', 'with:', bad[0], 'without:', good[0], 'tests failing:', failing, flush=True)
sys.exit(0 if ok else 1)
