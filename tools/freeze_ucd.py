#!/usr/bin/env python3
"""Made data/ucd9.json once, from the Unicode 9.0 files (not run by any check)."""
import json,sys,os,unicodedata
src=sys.argv[1]
ccc=[];dec={};names={}
first=None
assigned=set()
for l in open(src+'/UnicodeData.txt'):
    f=l.rstrip('\n').split(';'); cp=int(f[0],16)
    if f[1].endswith(', First>'): first=cp; continue
    lo=first if f[1].endswith(', Last>') else cp
    first=None
    assigned.update(range(lo,cp+1))
    if f[3]!='0':
        if ccc and ccc[-1][1]==lo-1 and ccc[-1][2]==int(f[3]): ccc[-1][1]=cp
        else: ccc.append([lo,cp,int(f[3])])
    if f[5]:
        p=f[5].split(); tag=''
        if p[0][0]=='<': tag=p.pop(0)
        dec[cp]=[tag]+[int(x,16) for x in p]
gcb=[]
for l in open(src+'/GraphemeBreakProperty.txt'):
    l=l.split('#')[0].strip()
    if not l: continue
    r,c=[x.strip() for x in l.split(';')]
    a=r.split('..'); gcb.append([int(a[0],16),int(a[-1],16),c])
gcb.sort()
m=[]
for r in gcb:
    if m and m[-1][1]==r[0]-1 and m[-1][2]==r[2]: m[-1][1]=r[1]
    else: m.append(list(r))
excl=[]
for l in open(src+'/CompositionExclusions.txt'):
    l=l.split('#')[0].strip()
    if l: excl.append(int(l,16))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','data','ucd9.json')
json.dump(dict(ccc=ccc,decomp={str(k):v for k,v in dec.items()},gcb=m,excl=sorted(excl)),open(out,'w'),separators=(',',':'))
# cross-check against the stable properties of the Unicode version of Python
bad=0
for cp in assigned:
    if 0xD800<=cp<=0xDFFF: continue
    d=unicodedata.decomposition(chr(cp)); e=dec.get(cp)
    mine='' if not e else ' '.join(([e[0]] if e[0] else [])+['%04X'%x for x in e[1:]])
    if d!=mine: bad+=1; print('decomp differs %04X %r %r'%(cp,d,mine))
C={}
for lo,hi,c in ccc:
    for x in range(lo,hi+1): C[x]=c
for cp in assigned:
    if 0xD800<=cp<=0xDFFF: continue
    if unicodedata.combining(chr(cp))!=C.get(cp,0): bad+=1; print('ccc differs %04X'%cp)
print('differences',bad,'assigned',len(assigned))
