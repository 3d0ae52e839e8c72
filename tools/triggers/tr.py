import re,os,subprocess,json,shutil
W='/tmp/trg/repo'
shutil.rmtree(W,ignore_errors=True); subprocess.run(['cp','-a','/repo',W])
shutil.copy('/tmp/trg/trig.rs',W+'/lib/trig.rs')
p=W+'/lib/mod.rs'; s=open(p).read(); open(p,'w').write(s.replace('pub mod i_bound;','pub mod trig;\npub mod i_bound;',1))
FN=[]
SKIP={'get_type','get_bound','cmp','fmt','index','index_mut','get_shortest_separation','default','in_layout','get_bound_data','support','pass_minkowski_origin','contains_minkowski_origin','iden','size','init_x'}
def brace(t,i):
    d=0
    while True:
        if t[i]=='{': d+=1
        if t[i]=='}':
            d-=1
            if d==0: return i
        i+=1
for f in ['mat','quat','bound','sphere','ray','plane','point','rbox','line','triprism','intersect_gjk']:
    p=f'{W}/lib/{f}.rs'; t=open(p).read()
    out='';pos=0;cur=''
    for m in re.finditer(r'^( *)(?://[^\n]*|impl[^\n]*|(?:pub )?fn (\w+)\s*\(([^{]*?)\)\s*(->\s*([^{]*?))?\s*\{)',t,re.M|re.S):
        if m.start()<pos: continue
        if m.group(2) is None:
            if m.group(0).strip().startswith('impl'):
                mm=re.search(r'(?:for )?(\w+)(?:<[^>]*>)?\s*(?:where)?\s*\{?$',m.group(0).strip()); cur=mm.group(1) if mm else cur
                ww=m.group(0).strip().rstrip('{').strip(); cur=re.sub(r'<.*','',ww.split(' for ')[-1].split()[-1])
            continue
        name,args,ret=m.group(2),m.group(3),(m.group(5) or '').strip()
        a=m.end()-1; b=brace(t,a)
        if name in SKIP or (f=='mat' and name in('mul_old',)): continue
        names=[]; selfk=None
        for x in re.split(r',(?![^\[<(]*[\]>)])',args):
            x=x.strip()
            if not x: continue
            if x in('self','&self','&mut self','mut self'): selfk=x; continue
            n,ty=x.split(':',1); names.append((n.strip().replace('mut ',''),ty.strip()))
        if not ret and selfk!='&mut self': continue
        ret2=ret.replace('Self',cur+('<$v_type>' if f in('mat','quat') else ''))
        if ret.startswith('&'): continue
        id=len(FN); FN.append((f,cur,name))
        body=t[a+1:b]
        fl=lambda ns: '|__v| { use trig::Flat; let _ = &__v; '+''.join('%s.flat(__v); '%n for n in ns)+'}'
        if selfk: A=['self']; B=[n for n,_ in names]
        else: A=[names[0][0]] if names else []; B=[n for n,_ in names[1:]]
        grab='let __i = if ::trig::on(%d) { let __g = ::trig::grab(&%s, &%s); if ::trig::hit(&__g) { Some(__g) } else { None } } else { None };'%(id,fl(A),fl(B))
        if ret: nb='{ %s let __r: %s = (|| -> %s {%s})(); ::trig::done(__i, __r) }'%(grab,ret,ret,body)
        elif name=='set_vicinity': nb='{ %s {%s} if let Some(_) = __i { self._vicinity = ::trig::done(__i, self._vicinity); } }'%(grab,body)
        else: nb='{ %s {%s} if let Some(_) = __i { *self = ::trig::done(__i, self.clone()); } }'%(grab,body)
        out+=t[pos:a]+nb; pos=b+1
    out+=t[pos:]
    open(p,'w').write(out)
json.dump(FN,open('/tmp/trg/fn.json','w'))
print(len(FN))
