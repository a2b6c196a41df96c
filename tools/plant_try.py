import sys,os,subprocess,shutil,importlib.util
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/tmp/pl')
mod=__import__(sys.argv[1]); only=sys.argv[2:] 
def run(b):
    name,prop,edits=b[0],b[1],b[2]
    d='/tmp/pw/'+name
    subprocess.run(['rm','-rf',d]); os.makedirs(d)
    subprocess.run(f'cp -a /repo/src {d}/src && cp -a /repo/conf {d}/conf && cp -a /repo/.git {d}/.git 2>/dev/null; true',shell=True)
    for f,old,new in edits:
        p=d+'/src/'+f if not f.startswith('conf') else d+'/'+f
        s=open(p).read()
        if s.count(old)<1: return name,'NOMATCH '+f+' '+old[:50]
        s=s.replace(old,new,1); open(p,'w').write(s)
    out=[]
    for pr in prop.split(','):
        r=subprocess.run(['python3','/verif/check.py',pr],env=dict(os.environ,VERIF_REPO=d,VERIF_EVID='/tmp/pw/ev'),capture_output=True,text=True,cwd="/verif")
        v=[l for l in (r.stdout+r.stderr).splitlines() if 'VIOLATION' in l or 'viol' in l.lower()]
        o=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
        out.append('%s rc=%d %s'%(pr,r.returncode,(o[0] if o else '')[:260]))
    subprocess.run(['rm','-rf',d])
    return name,' || '.join(out)
bs=[b for b in mod.B if not only or b[0] in only]
with ThreadPoolExecutor(5) as ex:
    for n,o in ex.map(run,bs): print(('MISS ' if 'rc=1' not in o else 'ok   ')+n,o[:420],flush=True)
