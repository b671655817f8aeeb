"""mutone.py SRCROOT BUDGET PID,PID,...: strided fail-fast; prints KILLED pid sig | SURVIVED"""
import sys,os,time,random,json
root,budget,pids=sys.argv[1],float(sys.argv[2]),sys.argv[3].split(',')
os.environ['EVOMPS_SRC']=root
sys.path.insert(0,os.environ.get('MCV','/tmp/wv'))
try:
    from mc import explore,registry
except BaseException as e:
    print('KILLED import',repr(e)[:200]); sys.exit()
kf=json.load(open('/tmp/wv/known_findings.json'))['findings']
from mc.run import match_known
for pid in pids:
    t0=time.time()
    ws=registry.REGISTRY[pid]['worlds']()
    jobs=[(w,c) for w in ws for c in w.configs('quick')]
    per={}
    for w,c in jobs: per.setdefault(w.name,[]).append((w,c))
    r=random.Random(5)
    q=[]
    for k in per:
        l=per[k]; r.shuffle(l)
        q+= [((i+0.5)/len(l),x) for i,x in enumerate(l)]
    q.sort(key=lambda t:t[0])
    k2=[k for k in kf if k['property']==pid]
    for _,(w,c) in q:
        if time.time()-t0>budget: break
        d=w.depth_for(c,'quick') if hasattr(w,'depth_for') else w.depth
        try:
            res=explore.explore_config(w,c,d,deadline=t0+budget,max_viol=1)
        except BaseException as e:
            print('KILLED',pid,'harness',repr(e)[:200]); sys.exit()
        for v in res['violations']:
            if match_known(k2,v) is None:
                print('KILLED',pid,v['sig'],str(v['path'])[:80]); sys.exit()
print('SURVIVED')
