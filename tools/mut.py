# mut.py FILE OLD NEW PROP... : run checks with a textual replacement
import sys, subprocess, tempfile, shutil, os
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix="mut-")
shutil.copytree("/repo/src", d+"/src", ignore=shutil.ignore_patterns("__pycache__")); shutil.copytree("/repo/script", d+"/script")
p = d+"/"+f
s = open(p).read()
old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
assert s.count(old)>=1, "not found"
open(p,"w").write(s.replace(old,new,1))
for prop in sys.argv[4:]:
    r = subprocess.run(["/verif/check", prop]+os.environ.get("AGAINST_ARGS","").split(), env=dict(os.environ, DST_REPO_SRC=d+"/src", DST_EVIDENCE=d+"/ev"), capture_output=True, text=True)
    print(prop, r.returncode, (r.stdout+r.stderr).strip().splitlines()[-3:][0][:250])
shutil.rmtree(d)
