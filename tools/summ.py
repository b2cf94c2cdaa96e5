#!/usr/bin/env python3
import json,sys
from collections import Counter
c=Counter();e=Counter();n=0
for x in open(sys.argv[1]):
    d=json.loads(x); c[d['ev'][-1]['e']]+=1
    for y in d['ev']: e[y['e']]+=1
    if d['ev'][-1]['e']!='end':
        n+=1
        if n<12: print(d['c'],'ranks',d['n'],d['ev'][-1],len(d['ev']))
print(dict(c),dict(e))
