import sys, os, json, subprocess, shutil, importlib.util, concurrent.futures as cf
sys.path.insert(0,'/verif/tools')
import mutate
spec=importlib.util.spec_from_file_location('b',sys.argv[1]); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
only=sys.argv[2:]
DEMO='''#!/bin/bash
export JYTHONPATH= %s
exec /usr/bin/jython -B -Dpython.cachedir.skip=true "$(dirname "$0")/demo.py"
'''
base=subprocess.run('git -C /repo log --format=%H | tail -1',shell=True,capture_output=True,text=True).stdout.strip()
def one(t):
    bid,prop,needs,breaks,edits,demo=t[:6]; env=t[6] if len(t)>6 else ''
    tmp='/tmp/w/pl-'+bid; shutil.rmtree(tmp,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',tmp],check=True)
    notes=[]
    try:
        for f,o,n in edits:
            p=os.path.join(tmp,f); s=open(p,encoding='utf8').read()
            if s.count(o)!=1: return bid,'OLD COUNT %d'%s.count(o)
            open(p,'w',encoding='utf8').write(s.replace(o,n))
        diff=subprocess.run(['git','-C',tmp,'diff'],capture_output=True,text=True).stdout
        # originality
        subprocess.run(['git','-C',tmp,'stash','-q'],check=True)
        cur=None; line=0
        nonorig=0; removed=0
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur=l[6:]
            elif l.startswith('@@'): line=int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                removed+=1
                bl=subprocess.run(['git','-C',tmp,'blame','-l','-L','%d,%d'%(line,line),cur],capture_output=True,text=True).stdout
                if base[:30] not in bl.split()[0].lstrip('^') and not bl.startswith('^'): nonorig+=1
                line+=1
            elif l.startswith(' '): line+=1
        notes.append('removed %d nonorig %d'%(removed,nonorig))
        d='/verif/seeded/'+bid; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO%env); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.py','w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n'+demo.lstrip('\n'))
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
        c=mutate.run(None,['bash',d+'/demo.sh'])
        m=mutate.run(d+'/patch.diff',['bash','-c','bash /opt/vp/build.sh >/tmp/w/b.%s 2>&1 || echo BUILDFAIL; bash /opt/vp/test.sh /tmp/w/t.%s.json 2>&1 | tail -1; bash %s/demo.sh; echo demo=$?'%(bid,bid,d)])
        ok = c.returncode==0 and '63 passed' in m.stdout and 'BUILDFAIL' not in m.stdout and 'demo=0' not in m.stdout
        if nonorig==removed: ok=False
        return bid,('OK ' if ok else 'BAD ')+' '.join(notes)+' clean=%d '%c.returncode+('' if ok else c.stdout[-300:]+'|'+m.stdout[-500:])
    finally: shutil.rmtree(tmp,ignore_errors=True)
with cf.ThreadPoolExecutor(5) as ex:
    for r in ex.map(one,[t for t in b.BUGS if not only or t[0] in only]): print(*r,flush=True)
