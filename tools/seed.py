#!/usr/bin/env python3
"""seed.py NAME : /repo's working tree holds the planted change; DEMO is /tmp/seeds/NAME/{demo.py,meta.json}.
Records patch.diff, confirms: tests pass, demo fails with / passes without the change; then runs the property's check."""
import json, os, subprocess, sys, shutil
name = sys.argv[1]
skip_tests = "--notest" in sys.argv
build = "--build" in sys.argv
R = "/repo"
d = "/verif/seeded/" + name
src = "/tmp/seeds/" + name


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


os.makedirs(d, exist_ok=True)
if os.path.exists(src):
    for f in os.listdir(src):
        shutil.copy(os.path.join(src, f), d)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH=/repo/src exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
diff = sh("git -C %s diff" % R).stdout
if diff.strip():
    open(d + "/patch.diff", "w").write(diff)
    sh("git -C %s checkout -- ." % R)
meta = json.load(open(d + "/meta.json"))
prop = meta["property"]
ok = True
def demo():
    r = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
    return r.returncode, r.stdout[-600:]
try:
    if build and "--built" not in sys.argv:
        sh("bash /opt/vp/build.sh", cwd=R)
    a = demo()
    print("demo on the unchanged tree:", a[0], "" if a[0] == 0 else a[1])
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    assert r.returncode == 0, r.stdout
    if build:
        r = sh("bash /opt/vp/build.sh", cwd=R)
        print("build", r.returncode)
    b = demo()
    print("demo with the change:", b[0], b[1][-300:])
    if not skip_tests:
        r = sh("bash /opt/vp/test.sh /tmp/seedout.json", cwd=R)
        print(r.stdout[-300:].strip())
    r = sh("./check %s 2>/dev/null" % prop, cwd="/verif")
    print("check:", r.returncode)
    print(r.stdout[-1500:])
finally:
    sh("git -C %s apply -R %s/patch.diff" % (R, d))
    print(sh("git -C %s status --short" % R).stdout)
    if build and "--norebuild" not in sys.argv:
        sh("bash /opt/vp/build.sh", cwd=R)
