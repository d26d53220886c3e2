#!/usr/bin/env python3
"""One-off: writes harness/kanatable.inc, the frozen table of kana the harnesses
compare with (not run by any check: the table is part of the specification)."""
import re,sys
t=open('/repo/libs/kana/src/Kana.cpp').read()
t=re.sub(r'//[^\n]*','',t)
body=t[t.index('KanaList{'):t.index('} // namespace kana_lists') if '} // namespace kana_lists' in t else t.index('using kana_lists::')]
tok=re.findall(r'"[^"]*"|[A-Za-z_]+|[{},]',body)
rows=[]
pos=0
def parse():
    """value: string | name{args} | bool"""
    global pos
    x=tok[pos]; pos+=1
    if x[0]=='"': return x[1:-1]
    if x in('true','false'): return x=='true'
    name=x
    assert tok[pos]=='{',(name,tok[pos-3:pos+5]); pos+=1
    args=[]
    while tok[pos]!='}':
        if tok[pos]==',': pos+=1; continue
        args.append(parse())
    pos+=1
    return (name,args)
def add(args):
    rom,h,k=args[:3]; rest=args[3:]
    hep=kun='';var=[];kv=False
    for r in rest:
        if isinstance(r,tuple):
            var=[v for v in r[1] if isinstance(v,str)]; kv=True in r[1]
        elif not hep: hep=r
        else: kun=r
    assert len(h)==len(k)
    assert all(ord(a)+0x60==ord(b) for a,b in zip(h,k)),(h,k)
    rows.append(dict(r=rom,h=h,hep=hep,kun=kun,var=var,kv=kv,d=-1,s=-1,p=-1))
    return len(rows)-1
i=0
while pos<len(tok):
    if tok[pos] in('K','D','H') and tok[pos+1]=='{':
        n,a=parse()
        if n=='K': add(a)
        elif n=='D':
            me=add(a[1:]); d=add(a[0][1]); rows[me]['d']=d; rows[d]['p']=me
        else:
            me=add(a[2:]); s=add(a[0][1]); d=add(a[1][1])
            rows[me]['d']=d; rows[me]['s']=s; rows[d]['p']=me; rows[s]['p']=me
    else: pos+=1
q=lambda s:'"%s"'%s
with open('/verif/harness/kanatable.inc','w') as f:
    for r in rows:
        v=(r['var']+['','',''])[:3]
        h=[ord(c) for c in r['h']]+[0]
        f.write('{%s, 0x%x, 0x%x, %s, %s, {%s}, %d, %d, %d, %d},\n'%(q(r['r']),h[0],h[1],q(r['hep']),q(r['kun']),', '.join(map(q,v)),r['kv'],r['d'],r['s'],r['p']))
print(len(rows))
