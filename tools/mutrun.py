#!/usr/bin/env python3
"""Development tool. mutrun.py MUTANTS.json OUT.jsonl [workers]: for each mutant, in scratch copies: build, stable tests, and for survivors the checks."""
import re,json,os,shutil,subprocess,sys,threading,queue,glob
mut=json.load(open(sys.argv[1])); out=open(sys.argv[2],'a'); W=int(sys.argv[3]) if len(sys.argv)>3 else 4
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ev={}
for f in glob.glob('/verif/evidence/*.json'):
    if 'replay' in f: continue
    e=json.load(open(f)); 
    if 'coverage' in e: ev[e['property']]=(e['wall_s'],set(e['coverage']['source_files']))
q=queue.Queue()
for m in mut: q.put(m)
lock=threading.Lock()
def sh(cmd,env=None,timeout=600,cwd=None):
    try: p=subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,timeout=timeout,cwd=cwd,text=True,start_new_session=True); return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 124,''
def work(i):
    base=f'/tmp/mut/{i}'; repo=base+'/repo'; ver=base+'/verif'
    os.makedirs(base,exist_ok=True)
    subprocess.run(f'rm -rf {repo} {ver}; cp -a /tmp/mut/base {repo}; cp -a /verif {ver}; rm -rf {ver}/.git',shell=True,check=True)
    for s in ('build','test'): open(f'{base}/{s}.sh','w').write(re.sub(r'/repo(?=[/\s]|$)',repo,open(f'/opt/vp/{s}.sh').read()).replace('/opt/vp/build.sh',base+'/build.sh'))
    env=dict(os.environ,VERIF_REPO=repo,VERIF_JOBS='2',TMPDIR=base)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=repo+'/'+m['file']; orig=open('/tmp/mut/base/'+m['file']).read()
        t=orig.encode('utf-16-le'); txt=(t[:2*m['start']]+m['rep'].encode('utf-16-le')+t[2*m['end']:]).decode('utf-16-le')
        open(p,'w').write(txt)
        r=dict(m); 
        rc,o=sh(f'bash {base}/test.sh {base}/t.json',timeout=300)
        if not os.path.exists(base+'/t.json') or 'build failed' in o: r['result']='nocompile'
        else:
            try: passed=set(json.load(open(base+'/t.json'))['passed'])
            except Exception: passed=set()
            miss=stable-passed
            if miss: r['result']='killed by tests'
            else:
                r['result']='MISSED'; r['ran']=[]
                for c,(w,fs) in sorted(ev.items(),key=lambda x:x[1][0]):
                    if m['file'] not in fs: continue
                    rc,o=sh(f'node engine/run.js {c} --first',env=env,timeout=600,cwd=ver)
                    r['ran'].append([c,rc])
                    if rc==1: r['result']='caught '+c; break
                    if rc not in (0,1): r.setdefault('inc',[]).append([c,o[-600:]])
        open(p,'w').write(orig)
        with lock: out.write(json.dumps(r)+'\n'); out.flush()
    subprocess.run(f'rm -rf {base}',shell=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
