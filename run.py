#!/usr/bin/env python3
"""Driver of the k0zmo/kl model-checking machinery.

  run.py ID [quick|thorough]      decide property ID on /repo's working tree
  run.py ID --replay FILE         re-run one recorded violation
  run.py --list                   list the properties
  run.py --warm                   (setup_cmd) check the toolchain, precompile the engine

Exit 0: held on everything explored; 1: VIOLATION line; anything else: error of the check.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KL_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, HARNESSES  # noqa: E402
from catalog import PROPS  # noqa: E402

H = os.path.join(VERIF, "harness")
CXX = "g++"
BASE = ["-std=c++17", "-g1", "-I" + os.path.join(REPO, "include"), "-I" + H,
        "-DRAPIDJSON_HAS_STDSTRING=1", "-w"]


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def compile_harness(hid, work, more=[]):
    """Builds harness `hid` from /repo's working tree into `work`; returns the binary path."""
    spec = HARNESSES[hid]
    if "py" in spec:
        return os.path.join(H, spec["py"])
    flags = BASE + spec.get("flags", ["-O1"]) + more
    jobs = []
    objs = []

    def add(src, fl):
        obj = os.path.join(work, hashlib.sha1((src + " ".join(fl)).encode()).hexdigest()[:16] + ".o")
        objs.append(obj)
        jobs.append((src, subprocess.Popen([CXX] + fl + ["-c", src, "-o", obj],
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))

    eng = ["-std=c++17", "-g1", "-O2", "-I" + H] + spec.get("engine_flags", [])
    add(os.path.join(H, "mc.cpp"), eng)
    for s in spec.get("engine", []):
        add(os.path.join(H, s), eng)
    for s in spec["src"]:
        s, extra = s if isinstance(s, tuple) else (s, [])
        add(os.path.join(H, s), flags + extra)
    for s in spec.get("repo_src", []):
        add(os.path.join(REPO, s), flags)
    bad, blame = "", False
    for src, p in jobs:
        out, _ = p.communicate()
        if p.returncode:
            text = out.decode(errors="replace")
            bad += "compiling %s failed:\n%s\n" % (src, text[-6000:])
            blame = blame or (src.startswith(H) and " error: " in text and not any(
                w in text for w in ("internal compiler error", "Killed", "No space left", "cannot allocate", "memory exhausted")))
    if bad:
        raise NoBuild(hid, bad, blame)
    exe = os.path.join(work, hid)
    r = sh([CXX] + objs + ["-o", exe] + spec.get("link", []), stdout=subprocess.PIPE,
           stderr=subprocess.STDOUT)
    if r.returncode and spec.get("repo_src"):
        # code may have moved to another source file of the library: offer the linker all of them
        lib = os.path.join(work, hid + "_rest.a")
        have = {os.path.join(REPO, x) for x in spec["repo_src"]}
        rest = []
        for src in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
            if src in have or "win32" in src:
                continue
            obj = os.path.join(work, hashlib.sha1(("rest" + src).encode()).hexdigest()[:16] + ".o")
            if not sh([CXX] + flags + ["-c", src, "-o", obj], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                rest.append(obj)
        if rest and not sh(["ar", "rcs", lib] + rest).returncode:
            r = sh([CXX] + objs + [lib, "-o", exe] + spec.get("link", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise NoBuild(hid, r.stdout.decode(errors="replace")[-6000:], False)
    return exe


class NoBuild(Exception):
    """A harness does not build.  `blame`: the compiler rejects what the harness asks of the library."""

    def __init__(self, hid, text, blame):
        super().__init__(hid)
        self.hid, self.text, self.blame = hid, text, blame


def headers_build(hid, work):
    """Do the library headers the harness uses compile on their own, with nothing asked of them?"""
    names = set()
    for f in HARNESSES[hid]["src"]:
        todo = [os.path.join(H, f if isinstance(f, str) else f[0])]
        while todo:
            for line in open(todo.pop(), errors="replace"):
                m = re.match(r'\s*#include\s+"([^"]+)"', line)
                if m and m.group(1).startswith("kl/"):
                    names.add(m.group(1))
                elif m and os.path.exists(os.path.join(H, m.group(1))):
                    todo.append(os.path.join(H, m.group(1)))
    if any("yaml" in n for n in names):
        names.add("kl/yaml.hpp")
    src = os.path.join(work, "headers.cpp")
    with open(src, "w") as f:
        for n in sorted(names):
            f.write('#include "%s"\n' % n)
    flags = [x for x in HARNESSES[hid].get("flags", []) if x.startswith("-I")]
    return not sh([CXX] + BASE + flags + ["-fsyntax-only", src], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: "):])
    return out


def san_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:"
                           "max_allocation_size_mb=1024:detect_stack_use_after_return=0:handle_abort=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=67"
    env["LC_ALL"] = "C"
    return env


def main():
    a = sys.argv[1:]
    if a and a[0] == "--list":
        for k, c in CHECKS.items():
            print(k, ",".join(c["harness"]))
        return 0
    if a and a[0] == "--warm":
        with tempfile.TemporaryDirectory(prefix="klmc.") as w:
            r = sh([CXX, "-std=c++17", "-O2", "-I" + H, "-c", os.path.join(H, "mc.cpp"), "-o",
                    os.path.join(w, "mc.o")])
            return r.returncode
    pid = a[0]
    if len(a) > 2 and a[1] == "--replay":
        return replay(pid, a[2])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="klmc.%s." % pid)
    try:
        return decide(pid, c, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, c, tier, seed, t0, work):
    total = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
             "scenarios": [], "distinct_outcomes": 0, "counters": {}, "exhaustive": True}
    violation = None
    cap = float(os.environ.get("KLMC_CAP", "520" if tier == "quick" else "6000"))
    unbuilt = None
    for hid in c["harness"]:
        tb = time.time()
        try:
            exe = compile_harness(hid, work)
        except NoBuild as e:
            try:
                exe = compile_harness(hid, work, ["-DMC_BASIC"]) if HARNESSES[hid].get("basic") else None
            except NoBuild:
                exe = None
            unbuilt = unbuilt or e
            if not exe:
                continue
        build_s = time.time() - tb
        out = os.path.join(work, hid + ".json")
        left = cap if tier != "quick" else max(20, min(cap, 780 - (time.time() - t0)))
        cmd = [exe, pid, out, "--tmp", work, "--cap", str(left), "--shards",
               os.environ.get("KLMC_SHARDS", str(max(1, os.cpu_count() or 1)))]
        if tier == "thorough":
            cmd.append("--thorough")
        scratch = os.path.join(work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        env = san_env()
        env["KLMC_SCRATCH"] = scratch
        r = sh(cmd, env=env, cwd=scratch)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("ERROR: harness %s ended with %d" % (hid, r.returncode))
            return 2
        d = json.load(open(out))
        total["states"] += d["states"]
        total["transitions"] += d["transitions"]
        total["traces_validated_against_impl"] += d["traces"]
        total["distinct_outcomes"] += d["outcomes"]
        total["samples"] += d["samples"][:12]
        for s in d["scenarios"]:
            total["scenarios"].append(s)
        for k, v in d["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        total["exhaustive"] = total["exhaustive"] and d["exhaustive"]
        print("# %s %s: built in %.1f s, %d traces, %d transitions, %d states, %d outcomes, %.1f s" %
              (pid, hid, build_s, d["traces"], d["transitions"], d["states"], d["outcomes"],
               d["wall_s"]))
        if d["counters"]:
            print("#   counters:", d["counters"])
        if d["violated"]:
            violation = d["violation"]
            violation["harness"] = hid
            break
    if not violation and unbuilt:
        print(unbuilt.text)
        if not (unbuilt.blame and headers_build(unbuilt.hid, work)):
            print("ERROR: harness %s does not build against %s" % (unbuilt.hid, REPO))
            return 2
        # The headers are fine by themselves, but programs the property speaks about are rejected.
        violation = {"harness": unbuilt.hid, "scenario": "build", "choices": [], "bounds": [], "log": unbuilt.text[-3000:],
                     "message": "programs using the public interface, accepted before, no longer compile (first errors above)"}
    # Vacuity: the exploration must have reached the situations the property is about.
    if not violation:
        for name in c.get("must_reach", []):
            if not total["counters"].get(name):
                print("ERROR: vacuous exploration: situation '%s' never reached" % name)
                return 2
    total["rule"] = PROPS[pid]["rule"]
    total["bounds"] = PROPS[pid]["bounds"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": PROPS[pid]["level"], "coverage": total,
          "assumptions": PROPS[pid]["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", pid + ".json")
        violation["property"] = pid
        violation["tier"] = tier
        violation["replay_cmd"] = "python3 %s/run.py %s --replay %s" % (VERIF, pid, path)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("violated in scenario %s: %s" % (violation["scenario"], violation["message"]))
        print(violation["log"][-3000:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def replay(pid, path):
    v = json.load(open(path))
    with tempfile.TemporaryDirectory(prefix="klmc.replay.") as work:
        try:
            exe = compile_harness(v["harness"], work)
        except NoBuild as e:
            print(e.text)
            return 1
        if v["scenario"] == "build":
            return 0
        env = san_env()
        env["KLMC_SCRATCH"] = work
        cmd = [exe, pid, os.path.join(work, "o.json"), "--tmp", work]
        if v.get("tier") == "thorough":
            cmd.append("--thorough")
        r = sh(cmd + ["--replay", v["scenario"], ",".join(map(str, v["choices"])),
                      ",".join(map(str, v["bounds"]))], env=env, cwd=work)
        return r.returncode


if __name__ == "__main__":
    sys.exit(main())
