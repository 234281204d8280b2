#!/usr/bin/env python3
# Writes harness/unitab.h: character classes, lower case and base letters from Python's Unicode database,
# for the characters whose properties have not changed since Unicode 3.2.
import sys, unicodedata as u
old = u.ucd_3_2_0
def flags(cp):
    c = chr(cp)
    k = u.category(c)
    if cp == 0x180e or old.category(c) != k or k in ('Cn', 'Cs', 'Co'): return 0
    f = 1
    if k[0] == 'L': f |= 2
    if k == 'Nd': f |= 4
    if k in ('Nl', 'No'): f |= 8
    if k in ('Zs', 'Zl', 'Zp') or c in '\t\n\r\f': f |= 16
    if k == 'Lu': f |= 32
    if k == 'Ll': f |= 64
    if k == 'Lo': f |= 128
    if k == 'Mn': f |= 256
    return f
r = []
for cp in range(0x20000):
    f = flags(cp)
    if r and r[-1][2] == f and r[-1][1] == cp - 1: r[-1][1] = cp
    else: r.append([cp, cp, f])
r = [x for x in r if x[2]]
low = []
for cp in range(0x10000):
    if flags(cp) & (32 | 64) or u.category(chr(cp)) == 'Lt':
        l = chr(cp).lower()
        if len(l) == 1 and ord(l) != cp and flags(ord(l)): low.append((cp, ord(l)))
base = []
for cp in list(range(0xC0, 0x250)) + list(range(0x1E00, 0x1F00)):
    d = u.normalize('NFD', chr(cp))
    if len(d) > 1 and d[0].isascii() and d[0].isalpha() and all(u.combining(x) for x in d[1:]): base.append((cp, ord(d[0])))
o = ['// Written by tools/mkunicode.py.', '#pragma once', 'namespace vf {', 'struct UniRange { unsigned lo, hi, f; };', 'enum { UK = 1, UALPHA = 2, UDIGIT = 4, UNUM = 8, USPACE = 16, UUPPER = 32, ULOWER = 64, UOTHER = 128, UMARK = 256 };']
def tab(n, t, rows):
    o.append('static const %s %s[] = {' % (t, n))
    line = ''
    for x in rows:
        s = '{' + ','.join('0x%x' % y for y in x) + '},'
        if len(line) + len(s) > 160: o.append(line); line = ''
        line += s
    o.append(line); o.append('};')
tab('uniRanges', 'UniRange', r)
o.append('struct UniPair { unsigned a, b; };')
tab('uniLower', 'UniPair', low)
tab('uniBase', 'UniPair', base)
o.append('}')
open(sys.argv[1], 'w').write('\n'.join(o) + '\n')
