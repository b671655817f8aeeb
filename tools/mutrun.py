"""mutrun.py OUT FRACTION SEED FILE... """
import sys,os,subprocess,json,threading,queue,shutil,time
sys.path.insert(0,'/tmp/w')
import mutgen
out,frac,seed=sys.argv[1],float(sys.argv[2]),int(sys.argv[3]); files=sys.argv[4:]
ORDER={
'core_common':'L01,F02,F06,U02,S02',
'mps_gen':'F05,F01,F02,F03,F04,F09,S01,S02,F07',
'tdvp_gen':'F06,F08,F07,F10,F12,F11,F09,S03,S04',
'tdvp_common':'L01,F06,F07,U06,U07,S03,U10',
'split_step':'F09,S05',
'dynamics':'F12,U12',
'tdvp_gen_diss':'F11',
'mps_uniform':'U01,U02,U03,U04,U05,U11',
'tdvp_uniform':'U06,U07,U08,U09,U11,U10',
'mps_uniform_excite':'U10',
'mps_uniform_pinv':'L03,U06,U10',
'nullspace':'L02,F06,U06',
'sexpmv':'L04,F09',
'matmul':'L01,L02,F01,U01',
'mps_sandwich':'S01,S02,S03',
'tdvp_sandwich':'S03,S04,S05,S01',
}
B=os.environ.get('MUTBUDGET','25')
q=queue.Queue()
for f in files:
    b,ms=mutgen.pick('/repo/evoMPS/%s.py'%f,frac,seed)
    for m in ms: q.put((f,b,m))
tot=q.qsize(); print(tot,flush=True)
lock=threading.Lock(); fo=open(out,'a')
def work(i):
    root='/tmp/mut/w%d'%i
    shutil.rmtree(root,ignore_errors=True)
    shutil.copytree('/repo',root,ignore=shutil.ignore_patterns('.git'))
    while True:
        try: f,b,m=q.get_nowait()
        except queue.Empty: break
        p=root+'/evoMPS/%s.py'%f
        open(p,'wb').write(b[:m[0]]+m[2].encode()+b[m[1]:])
        t=time.time()
        env=dict(os.environ,OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',OPENBLAS_CORETYPE='Haswell',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0')
        try:
            r=subprocess.run(['/opt/venv/bin/python','/tmp/w/mutone.py',root,B,ORDER[f]],env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=700,cwd='/tmp')
            o=[l for l in r.stdout.decode(errors='replace').split('\n') if l.startswith(('KILLED','SURVIVED'))]
            o=o[-1] if o else 'NOOUT '+r.stderr.decode(errors='replace')[-200:]
        except subprocess.TimeoutExpired: o='TIMEOUT'
        open(p,'wb').write(b)
        with lock:
            fo.write(json.dumps([f,m[4],m[5],m[3],list(m[:3]),o,round(time.time()-t)])+'\n'); fo.flush()
ths=[threading.Thread(target=work,args=(i,)) for i in range(8)]
[t.start() for t in ths];[t.join() for t in ths]
print('done')
