#!/usr/bin/env python3
"""mutate.py FILE.py [name...]: try quick mutations against the checks. FILE.py defines M = [(name, checks, secs, [(path, old, new)...])].
Runs in a scratch clone (/tmp/lab) of /repo with the build and harness of this checkout; an edit list may be a commit id to run instead."""
import sys, subprocess, importlib.util, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); BASE = os.environ.get('MUT_BASE', '/repo'); LAB = os.environ.get('MUT_LAB', '/tmp/lab')
if not os.path.isdir(LAB): subprocess.check_call(['git', 'clone', '-q', BASE, LAB])
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want = sys.argv[2:]
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
HEAD = sh(f'git -C {BASE} rev-parse HEAD').strip()
def reset(ref=HEAD): print(sh(f'cd {LAB} && git checkout -q -- . && git fetch -q {BASE} && git checkout -q {ref}'), end='')
def build(): return sh(f"cd {V} && NEXO_REPO={LAB} bash -c '. ./build.sh; build_server' 2>&1")
try:
    for name, checks, secs, edits in m.M:
        if want and name not in want: continue
        ok = True; reset()
        if isinstance(edits, str): reset(edits); edits = []
        for f, old, new in edits:
            p = LAB + '/' + f; t = open(p).read()
            if t.count(old) != 1: print(name, 'NO MATCH', t.count(old), old[:70]); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if ok:
            b = build()
            if 'error' in b and 'could not compile' in b: print(name, 'BUILD', b[-1500:])
            else:
                for c in checks.split():
                    o = sh('cd %s; . ./env.sh; VERIF_ROOT=%s MON_SECS=%d NEXO_REPO=%s timeout 400 %s %s' % (V, V, secs, LAB, 'node sdk/run.mjs' if c in ('C20', 'C21') else V + '/target/mon/release/nexo-mon', c))
                    v = [l for l in o.splitlines() if l.startswith('  ') and '/' in l.split(':')[0] and ' = ' not in l]
                    print(name, c, 'CAUGHT' if 'VIOLATION' in o else 'missed', (v or [''])[0][:160], [l for l in o.splitlines() if 'wall=' in l][0].split('wall=')[1:], flush=True)
finally:
    reset(); build()
