#!/usr/bin/env python3
# Development aid: summarises SYM_FORKLOG (where paths fork).  forkprof.py PROG LOG
import sys, subprocess, bisect, collections
prog, log = sys.argv[1:3]
syms = []
for l in subprocess.check_output(['nm', '-C', prog]).decode(errors='replace').splitlines():
    p = l.split(' ', 2)
    if len(p) == 3 and p[0].strip(): syms.append((int(p[0], 16), p[2]))
syms.sort(); addrs = [a for a, _ in syms]
def name(a):
    i = bisect.bisect_right(addrs, a) - 1
    return syms[i][1][:90] if i >= 0 else hex(a)
c = collections.Counter()
for l in open(log):
    fs = [name(int(x, 16)) for x in l.split()]
    fs = [f for f in fs if not f.startswith('__sym')]
    c[' < '.join(fs[:3])] += 1
for k, v in c.most_common(25): print(v, k)
