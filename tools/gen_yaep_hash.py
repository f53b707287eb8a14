import hashlib, os, sys
C = '/repo/src/main/c'; h = hashlib.sha256()
for root, ds, fs in os.walk(C + '/yaep'):
    ds.sort()
    for f in sorted(fs):
        p = os.path.join(root, f)
        if '/src' in root or f == 'build_single_yaep_source_file.sh':
            h.update(os.path.relpath(p, C).encode()); h.update(open(p, 'rb').read())
print(h.hexdigest())
