#!/usr/bin/env python3
"""Writes the reference property ranges (checker/uax/unicode17.txt) from the
Unicode 17.0.0 data files. Run once, when the reference was pinned; no check
runs it."""
import sys, os
base = sys.argv[1]
gcb = {}
def entries(path):
    for line in open(os.path.join(base, path), encoding='utf-8'):
        line = line.split('#')[0].strip()
        if not line: continue
        f = [x.strip() for x in line.split(';')]
        if '..' in f[0]:
            a, b = f[0].split('..')
        else:
            a = b = f[0]
        yield int(a, 16), int(b, 16), f[1:]
inc = {}
for a, b, f in entries('auxiliary/GraphemeBreakProperty.txt'):
    for c in range(a, b+1):
        assert c not in gcb
        gcb[c] = f[0]
for a, b, f in entries('emoji/emoji-data.txt'):
    if f[0] == 'Extended_Pictographic':
        for c in range(a, b+1):
            assert c not in gcb
            gcb[c] = f[0]
for a, b, f in entries('DerivedCoreProperties.txt'):
    if f[0] == 'InCB':
        for c in range(a, b+1):
            assert c not in inc
            inc[c] = f[1]
out = []
prev = None
for c in range(0x110000):
    k = (gcb.get(c, '-'), inc.get(c, '-'))
    if k == ('-', '-'): prev = None; continue
    if prev is not None and out[-1][2] == k and out[-1][1] == c-1:
        out[-1][1] = c
    else:
        out.append([c, c, k])
    prev = k
for a, b, (g, i) in out:
    print('%04X %04X %s %s' % (a, b, g, i))
