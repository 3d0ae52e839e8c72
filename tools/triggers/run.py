import json,os,subprocess,sys,re,concurrent.futures as cf
FN=json.load(open('/tmp/trg/fn.json')); MON='/tmp/trg/tgt/release/mon'
sys.path.insert(0,'/verif'); import run_check
LIT=run_check.literals()
SH={'sphere':['C18','C20','C23','C16','C17','C31'],'ray':['C19','C20','C21','C22','C17','C16'],'plane':['C18','C21','C23','C16','C17','C31'],'point':['C18','C19','C24','C16','C17','C31'],'rbox':['C18','C16','C17','C31'],'line':['C25','C16','C17','C31'],'triprism':['C24','C25','C16','C17','C31']}
QM={'init_from_vals_raw':'C07','init_from_vals_normalize':'C07','init':'C07','init_from_vals_auto_w':'C13','init_from_translation':'C13','to_translation_matrix':'C13','to_rotation_matrix':'C08','to_axis_angle':'C09','init_from_axis_angle_degree':'C09','init_from_axis_angle_radian':'C09','rotate_vector':'C08','reflection_in_plane':'C12','parallel_component_of_plane':'C12','orthogonal_component_of_plane':'C12','ln':'C11','pow':'C11','interpolate_linear':'C10','interpolate_slerp':'C10'}
def props(f,c,n):
    if f=='mat':
        if n in('magnitude','normalize') and len(c)==6: return ['C02']
        if n in ('magnitude','normalize'): return ['C04']
        if n=='is_equal': return ['C06']
        if n=='inverse': return ['C05']
        if len(c)==6: return ['C04','C03'] if n.startswith('mul_mat') else ['C01']
        return ['C04','C03']
    if f=='quat': return [QM.get(n,'C07')]
    if f=='bound': return ['C15'] if n=='init' else ['C14']
    if f=='intersect_gjk': return ['C26','C16','C31']
    if n in('init','get_shape_data'): return ['C15']
    if n=='get_support': return ['C27']
    if n in('set_vicinity','within_vicinity'): return ['C28']
    return SH[f]
def mon(p,mut,log,extra,t=120):
    e=dict(os.environ,MUT=mut,MUT_LOG=log,MON_DICT=LIT)
    o='/tmp/trg/o-%s.json'%mut
    try: r=subprocess.run([MON,'run',p,'--seed','1','--tier','quick','--limit',os.environ.get('LIM','12'),'--out',o]+extra,env=e,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return None,'timeout'
    try: d=json.load(open(o)); os.remove(o)
    except Exception: return True,'crash '+(r.stdout+r.stderr)[-200:]
    return bool(d['fails'] or d['errors']), (d['fails'] or [{'label':str(d['errors'])}])[0]['label'] if d['fails'] or d['errors'] else ''
def census():
    out={}
    for i,(f,c,n) in enumerate(FN):
        if c in('Mat2x1','Mat1x2','Mat1x4','Mat1x3') and not n.startswith('mul_mat'): continue
        tot=[0]*54
        for p in props(f,c,n):
            log='/tmp/trg/cen.log'
            if os.path.exists(log): os.remove(log)
            cases={'C03':'80000','C04':'40000','C05':'100000'}.get(p,'1200000')
            mon(p,'%d,99,0'%i,log,['--cases',cases])
            if os.path.exists(log):
                for k,x in enumerate(open(log).read().split()[:54]): tot[k]+=int(x)
        out[i]=tot; print(i,f,c,n,'calls',tot[53],'never',[k for k in range(53) if tot[k]==0],'few',[(k,tot[k]) for k in range(53) if 0<tot[k]<50],flush=True)
        json.dump(out,open('/tmp/trg/census.json','w'))
def job(a):
    i,t,e=a; f,c,n=FN[i]
    log='/tmp/trg/l-%d-%d-%d'%a; fired=0
    for p in props(f,c,n):
        r,l=mon(p,'%d,%d,%d'%a,log,['--threads','3'])
        if os.path.exists(log): fired=max(fired,max(int(x) for x in open(log).read().split())); os.remove(log)
        if r: return a,p,l,fired
    return a,None,'',fired
def matrix(effs,only=None):
    cen=json.load(open('/tmp/trg/census.json')); jobs=[]
    for i,tot in cen.items():
        if only and FN[int(i)][0] not in only: continue
        if int(i)<int(os.environ.get('MIN','0')): continue
        for t in [int(x) for x in os.environ.get('TR','').split(',') if x] or range(53):
            if tot[t]>0:
                for e in effs: jobs.append((int(i),t,e))
    jobs=jobs[int(os.environ.get('FROM','0')):]; print(len(jobs),'jobs',flush=True); miss=0
    with cf.ThreadPoolExecutor(4) as ex:
        for k,(a,p,l,fired) in enumerate(ex.map(job,jobs)):
            if not p and fired: print('MISS',FN[a[0]],'trig',a[1],'eff',a[2],'fired',fired,flush=True); miss+=1
            if k%500==0: print(k,'done',miss,flush=True)
    print('done',miss)
if sys.argv[1]=='census': census()
else: matrix([int(x) for x in sys.argv[2].split(',')],sys.argv[3].split(',') if len(sys.argv)>3 else None)
