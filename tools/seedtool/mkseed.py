import os, subprocess, json, tempfile, shutil
def mkseed(id, prop, edits, demo, needs, breaks, test=True):
    d=f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    w=tempfile.mkdtemp(prefix="seed"); shutil.rmtree(w)
    subprocess.run(["cp","-a","/repo",w],check=True)
    for f,old,new in edits:
        p=os.path.join(w,"src/ellalgo",f); s=open(p,newline="").read()
        if "\r\n" in s: old,new=old.replace("\n","\r\n"),new.replace("\n","\r\n")
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,"w",newline="").write(s.replace(old,new))
    diff=subprocess.run(["git","diff"],cwd=w,capture_output=True).stdout
    open(d+"/patch.diff","wb").write(diff)
    open(d+"/demo.py","w").write(demo)
    open(d+"/demo.sh","w").write('#!/bin/bash\n# exit 0: behaves; nonzero: the property is broken\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    env=dict(os.environ,PYTHONPATH=w+"/src",PYTHONDONTWRITEBYTECODE="1",OPENBLAS_NUM_THREADS="1")
    bad=subprocess.run(["bash",d+"/demo.sh"],cwd=w,capture_output=True,text=True)
    clean=subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
    t=""
    if test:
        t=subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-x","-p","no:cacheprovider","--benchmark-disable","-n","0","tests","benches"] if False else ["/opt/venv/bin/python","-m","pytest","-q","-p","no:cacheprovider","--hypothesis-profile=ci","--benchmark-disable","tests","benches"],cwd=w,capture_output=True,text=True,env=env).stdout.strip().splitlines()[-6:]
        t2=subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-p","no:cacheprovider","--doctest-modules","src"],cwd=w,capture_output=True,text=True,env=env).stdout.strip().splitlines()[-6:]
        t=t+t2
        t=" | ".join(x for x in t if "passed" in x or "FAILED" in x)
    print(id,"clean",clean.returncode,"patched",bad.returncode,t)
    if clean.returncode: print(clean.stdout[-500:],clean.stderr[-800:])
    shutil.rmtree(w)
