import os, json, subprocess, shutil, tempfile
def seed(id, prop, edits, demo, needs, breaks):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp")
    subprocess.run(["git","clone","-q","/repo",t+"/r"],check=True)
    for f, old, new in edits:
        p = f"{t}/r/strong_typing/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p,"w").write(s.replace(old,new))
    diff = subprocess.run(["git","diff"],cwd=t+"/r",capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.py","w").write(demo.lstrip("\n"))
    open(d+"/demo.sh","w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(t)
