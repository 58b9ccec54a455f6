"""mutants: python3 /tmp/mut.py FILE-with-list ; each: (name, file, old, new, [args for try1])"""
import sys, subprocess, shutil, os, concurrent.futures as cf
ns={}; exec(open(sys.argv[1]).read(), ns)
only=sys.argv[2:]
def run(m):
    name,f,old,new,args=m
    d='/tmp/mt.'+name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    p=d+'/lib/'+f; s=open(p).read()
    if s.count(old)<1: return name+' NOT APPLICABLE (%d)'%s.count(old)
    open(p,'w').write(s.replace(old,new,1))
    out=''
    for a in args:
        r=subprocess.run(['python3-vt','-m','vf.try1',a,'--repo='+d],cwd='/verif',capture_output=True,text=True)
        out+=''.join('     '+l+'\n' for l in r.stdout.splitlines() if not l.rstrip().endswith(' ok'))+r.stderr[-500:]
    shutil.rmtree(d, ignore_errors=True)
    return name+(' MISSED' if 'refuted' not in out else ' caught')+'\n'+out
with cf.ThreadPoolExecutor(3) as e:
    for r in e.map(run,[m for m in ns['M'] if not only or m[0] in only]): print(r,flush=True)
