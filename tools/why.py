#!/usr/bin/env python3
"""why.py <trace file> <spec> : validate and show the first rejected events."""
import json,sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import check as C
from collections import Counter
os.makedirs(os.path.join(C.B.OUT,"tmp"),exist_ok=True)
rej,g,d=C.validate(sys.argv[2],os.path.abspath(sys.argv[1]),*( [sys.argv[3]] if len(sys.argv)>3 else []))
tr={}
for x in open(sys.argv[1]):
    y=json.loads(x); tr[y['c']]=y
print(len(tr),"traces",len(rej),"rejected",g,"states")
c=Counter(); shown=0
for k,m in sorted(rej.items()):
    ev=tr[k]['ev']; e=ev[m-1] if m<=len(ev) else None; c[(e or {}).get('e')]+=1
    if shown<6: shown+=1; print("case",k,"n",tr[k]['n'],"at",m-1,"of",len(ev),json.dumps(e))
print(c)
