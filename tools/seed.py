#!/usr/bin/env python3
"""Development aid (no check uses it): tries planted bugs in a scratch copy of /repo.
  seed.py new ID PROP   takes `git diff` of /tmp/wt as seeded/ID/patch.diff (then reverts /tmp/wt)
  seed.py try ID...     applies the patch to /tmp/wt, builds, runs the stable tests, the demo, the check"""
import json, os, subprocess, sys, glob, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("WT", "/tmp/wt")
B = WT + "-build"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def sync():
    if not os.path.isdir(WT):
        subprocess.check_call("git clone -q /repo %s" % WT, shell=True)
    subprocess.check_call("cd %s && git checkout -q -- . && git clean -fdq && git fetch -q && git reset -q --hard origin/HEAD" % WT, shell=True)

def build():
    if not os.path.isdir(B):
        r = sh("cmake -S %s -B %s -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Debug -DKL_FETCH_DEPENDENCIES=OFF -DKL_TEST=ON -DKL_ENABLE_JSON=ON -DKL_ENABLE_YAML=OFF -DKL_DISABLE_CCACHE=ON -DCMAKE_PROJECT_INCLUDE=/opt/vp/support/rapidjson-target.cmake" % (WT, B))
        if r.returncode: return r.stdout[-3000:]
    r = sh("ninja -C %s" % B)
    return r.stdout[-3000:] if r.returncode else None

def tests():
    rep = B + "/rep"; shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    sh("python3 /opt/vp/support/run_catch.py %s/tests/kl-tests %s" % (B, rep))
    sh("python3 /opt/vp/results.py %s/out.json 'junit:%s/*.xml'" % (B, rep))
    got = set(json.load(open(B + "/out.json"))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)

def demo(d):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd=WT)

def attempt(i, fast=False, checks=None):
    d = V + "/seeded/" + i; meta = json.load(open(d + "/meta.json")); res = {"id": i}
    sync()
    r = demo(d)
    if r.returncode: res["clean demo"] = r.stdout[-1500:]; return res
    r = sh("git apply %s/patch.diff" % d, cwd=WT)
    if r.returncode: res["apply"] = r.stdout; return res
    if not fast:
        e = build()
        if e: res["build"] = e; return res
        res["tests lost"] = tests()
    r = demo(d); res["demo"] = (r.returncode, r.stdout[-300:])
    for p in checks or [meta["property"]]:
        t = time.time()
        c = sh("KL_REPO=%s python3 %s/run.py %s quick" % (WT, V, p))
        res["check " + p] = (c.returncode, [l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or "fail" in l.lower()][:2] or c.stdout[-400:], int(time.time() - t))
    sync()
    return res

if __name__ == "__main__":
    a = sys.argv
    if a[1] == "new":
        d = V + "/seeded/" + a[2]; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=WT).stdout)
        if not os.path.exists(d + "/meta.json"):
            json.dump({"property": a[3], "needs": "", "what_it_breaks": ""}, open(d + "/meta.json", "w"), indent=1)
        sync()
    else:
        fast = "--fast" in a
        for i in [x for x in a[2:] if x != "--fast"]:
            r = attempt(i, fast)
            print(json.dumps(r, indent=1), flush=True)
