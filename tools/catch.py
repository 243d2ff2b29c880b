"""catch.py [ids]: which checks catch each seeded bug (own property first; ALL=1 for every check)"""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf, time
sys.path.insert(0,'/verif/tools'); import mutate
allp=['C%02d'%i for i in range(1,33)]
def one(bid):
    d='/verif/seeded/'+bid; meta=json.load(open(d+'/meta.json'))
    props=allp if os.environ.get('ALL') else [meta['property']]
    tmp=tempfile.mkdtemp(prefix='cv-',dir='/tmp')
    subprocess.run('cp -a /verif %s/verif && rm -rf %s/verif/seeded %s/verif/.git'%(tmp,tmp,tmp),shell=True,check=True)
    out=[]
    try:
        for p in props:
            t=time.time()
            r=mutate.run(d+'/patch.diff',['python3-vt',tmp+'/verif/check.py',p],cwd=tmp+'/verif')
            st={0:'-',1:'CAUGHT'}.get(r.returncode,'ERR%d'%r.returncode)
            if st!='-': out.append('%s:%s(%.0fs)'%(p,st,time.time()-t))
            if p==meta['property']:
                first=[l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')][:1]
                own=(st,first)
    finally: shutil.rmtree(tmp,ignore_errors=True)
    return bid,meta['property'],own,out
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
with cf.ThreadPoolExecutor(3) as ex:
    for b,p,own,out in ex.map(one,ids): print(b,p,own[0],(own[1] or [''])[0][:160],' '.join(out) if os.environ.get('ALL') else '',flush=True)
