"""usage: mut.py FILE.py : MUTS = [(name, pid(s), expect, [(file, old, new),...])]"""
import sys,os,shutil,subprocess,importlib.util,tempfile
from concurrent.futures import ThreadPoolExecutor
spec=importlib.util.spec_from_file_location('m',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=sys.argv[2:]
def one(x):
    name,pids,exp,edits=x
    d=tempfile.mkdtemp(prefix='mut-',dir='/tmp')
    try:
        for s in ('include','cli','tests','benches'):
            shutil.copytree('/repo/'+s,d+'/'+s)
        for f,o,n in edits:
            p=d+'/'+f
            s=open(p).read()
            if o not in s: return name,'EDIT FAILED '+f+': '+o[:60]
            open(p,'w').write(s.replace(o,n,1))
        r=[]
        for pid in pids.split():
            env=dict(os.environ,KVF_REPO=d)
            q=subprocess.run(['/verif/check',pid,'quick'],env=env,capture_output=True,text=True)
            v=[l for l in q.stdout.split('\n') if 'violated:' in l or 'undecided:' in l]
            good={'viol':1,'quiet':0}[exp]==q.returncode
            und=sum('undecided:' in l for l in v)
            r.append(f"{'ok ' if good else 'BAD'} {pid} rc={q.returncode} exp={exp} und={und} "+(v[0].strip().replace(d+'/','')[:260] if v else '')+(q.stderr[-300:] if q.returncode not in(0,1) else ''))
        return name,' || '.join(r)
    finally:
        shutil.rmtree(d)
ms=[x for x in m.MUTS if not only or x[0] in only]
with ThreadPoolExecutor(7) as ex:
    for n,r in ex.map(one,ms): print(n,':',r,flush=True)
