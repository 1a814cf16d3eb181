#!/usr/bin/env python3
"""Literals of the code under test, used only as a dictionary for input generation."""
import re,sys,os
root=sys.argv[1]; out=sys.argv[2]
fl=set(); it=set()
for d,_,fs in os.walk(root):
    for f in sorted(fs):
        if not f.endswith('.rs'): continue
        t=open(os.path.join(d,f),errors='replace').read()
        for m in re.finditer(r'hf(?:16|32|64|128)!?\(\s*"([^"]+)"\s*\)',t):
            try: fl.add(repr(float.fromhex(m.group(1))))
            except Exception: pass
        for m in re.finditer(r'"(-?0x[0-9a-fA-F.]+p[+-]?\d+)"',t):
            try: fl.add(repr(float.fromhex(m.group(1))))
            except Exception: pass
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*\.[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)(?:_?f(?:16|32|64|128))?',t):
            try: fl.add(repr(float(m.group(1).replace('_',''))))
            except Exception: pass
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:_?(?:[iu](?:8|16|32|64|128|size)))?(?![\w.])',t):
            s=m.group(1).replace('_','')
            try: v=int(s,0) if s[:2] in('0x','0b') else int(s)
            except Exception: continue
            if v<1<<128: it.add(v)
L=['f %s'%x for x in fl]+['i %d'%v for v in it]+['i %d'%(1<<v) for v in range(2,128)]
# the constants of the tree this was written for stay interesting when a change removes them
base=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'data','dict_base.txt')
if os.path.exists(base): L+=open(base).read().split('\n')
with open(out,'w') as o:
    for x in sorted(set(l for l in L if l.strip())): o.write(x+'\n')
