#!/usr/bin/env python3
"""Builds an offline directory source for the harness from the crate archives already in ~/.cargo.

The repository's own dependencies and proptest sit in two different registry caches (two cargo
versions hash the index URL differently), and one cargo sees only one of them.  This extracts, for
every registry package of harness/Cargo.lock, the archive with the locked checksum.  Idempotent."""
import glob, hashlib, json, os, shutil, sys, tarfile
lock, out = sys.argv[1], sys.argv[2]
everything = len(sys.argv) > 3          # used once, to create the lock file
cache = {}
for f in glob.glob(os.path.expanduser('~/.cargo/registry/cache/*/*.crate')):
    cache.setdefault(os.path.basename(f)[:-6], []).append(f)
wanted = []
if everything:
    wanted = [(k, None) for k in cache]
else:
    name = ver = None
    for line in open(lock):
        line = line.strip()
        if line == '[[package]]': name = ver = None
        elif line.startswith('name = '): name = line.split('"')[1]
        elif line.startswith('version = "'): ver = line.split('"')[1]
        elif line.startswith('checksum = '): wanted.append((f'{name}-{ver}', line.split('"')[1]))
os.makedirs(out, exist_ok=True)
for nv, sha in wanted:
    dst = os.path.join(out, nv)
    mark = os.path.join(dst, '.cargo-checksum.json')
    if os.path.exists(mark): continue
    for f in cache.get(nv, []):
        h = hashlib.sha256(open(f, 'rb').read()).hexdigest()
        if sha is None or h == sha: break
    else:
        sys.exit(f'vendor: no cached archive for {nv} {sha}')
    shutil.rmtree(dst, ignore_errors=True)
    with tarfile.open(f) as t: t.extractall(out)
    with open(mark + '.tmp', 'w') as o: json.dump({'files': {}, 'package': h}, o)
    os.rename(mark + '.tmp', mark)
