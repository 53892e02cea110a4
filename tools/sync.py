#!/usr/bin/env python3
"""Mirror the build inputs of the repository into a scratch source tree, touching only files whose content changed
(cargo decides staleness by modification time, which a checkout does not keep meaningful)."""
import os, sys, shutil
src, dst = sys.argv[1], sys.argv[2]
want = {}
for top in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml"):
    if os.path.isfile(os.path.join(src, top)):
        want[top] = os.path.join(src, top)
for d in ("src", ".cargo"):
    for root, dirs, files in os.walk(os.path.join(src, d)):
        for f in files:
            p = os.path.join(root, f)
            want[os.path.relpath(p, src)] = p
changed = 0
for rel, p in want.items():
    q = os.path.join(dst, rel)
    with open(p, "rb") as fh:
        a = fh.read()
    try:
        with open(q, "rb") as fh:
            if fh.read() == a:
                continue
    except OSError:
        pass
    os.makedirs(os.path.dirname(q), exist_ok=True)
    with open(q, "wb") as fh:
        fh.write(a)
    changed += 1
for d in ("src", ".cargo"):
    for root, dirs, files in os.walk(os.path.join(dst, d)):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel not in want:
                os.remove(os.path.join(root, f))
                changed += 1
if changed:
    print("sync: %d file(s) changed" % changed, file=sys.stderr)
