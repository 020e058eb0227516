#!/usr/bin/env python3
"""bug.py <id> : in /tmp/bugwork (copy of /repo): resets to HEAD, applies seeded/<id>/edit.py if there, writes patch.diff,
builds, runs the demonstration without and with the change."""
import os, subprocess, sys, shutil
i = sys.argv[1]; d = "/verif/seeded/" + i; w = "/tmp/bugwork"
def sh(c, **k): return subprocess.run(c, shell=True, cwd=w, **k)
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
def build():
    r = sh("make -j8 build OPT='-O2 -MP' > /tmp/bugwork.log 2>&1")
    if r.returncode: print(open("/tmp/bugwork.log").read()[-1500:]); sys.exit("build failed")
def demo():
    t = "/tmp/bugdemo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(os.path.join(t, f))
    r = sh("timeout 300 bash %s/demo.sh" % t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("   ", r.stdout.strip()[-300:].replace("\n", " | ")); return r.returncode
shutil.copy("/verif/tools/demolib.py", d + "/lib.py")
build(); a = demo(); print("unchanged:", a)
r = sh("git apply %s/patch.diff" % d)
if r.returncode: sys.exit("patch does not apply")
build(); b = demo(); print("changed:", b)
bad = a != 0 or b == 0
if "-t" in sys.argv:
    for t in sorted(os.listdir(w + "/bin")):
        if t.startswith("test_"):
            r = sh("timeout 200 bin/" + t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: print("unit test", t, r.returncode, r.stdout[-300:])
sh("git checkout -q -- .")
print("BAD" if bad else "GOOD")
