#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs (seeded/ID): builds, stable tests pass, demo 0 before / nonzero after, and whether the
property's quick check reports it.  Works on /repo's tree itself, which is restored afterwards."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def demo(d):
    sh("rm -rf /tmp/pl/demo && mkdir -p /tmp/pl && cp -a %s /tmp/pl/demo && rm -f /tmp/pl/demo/*.diff /tmp/pl/demo/meta.json" % d)
    r = sh("timeout 300 bash /tmp/pl/demo/demo.sh", cwd="/repo")
    return r.returncode, r.stdout.decode("utf-8", "replace")[-300:]


def restore():
    sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
if sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip():
    sys.exit("dirty /repo")
restore()
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = []
    try:
        a = demo(d)
        out.append("demo-before=%s" % a[0])
        if a[0]:
            print(i, out, a[1])
            continue
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout.decode()[-300:])
            continue
        r = sh("bash /opt/vp/test.sh /tmp/pl/out.json")
        ok = json.load(open("/tmp/pl/out.json"))["passed"]
        miss = sorted(STABLE - set(ok))
        out.append("tests-missing=%s" % miss[:3])
        a = demo(d)
        out.append("demo-after=%s" % a[0])
        p = meta["property"].lower()
        if os.path.exists("%s/checks/%s.py" % (V, p)):
            r = sh("timeout 900 python3 checks/%s.py" % p, cwd=V)
            o = r.stdout.decode("utf-8", "replace")
            out.append("check=%s%s" % (r.returncode, " CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % meta["property"] in o else " MISSED"))
        good = not miss and a[0] != 0
        print(i, meta["property"], "OK" if good else "BAD", *out)
    finally:
        restore()
    sys.stdout.flush()
