#!/usr/bin/env python3
"""Maintain /verif/seeded.  Not used by any check.

  seed.py verify ID...   in a scratch copy of /repo: patch applies, builds, stable tests pass,
                         demo passes without and fails with it, and what the property's check says
  seed.py check ID...    only the check
  (options: --notest, --all)
A planted bug is declared with new() from a scratch script that imports this module.
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = V + "/seeded"
S = os.environ.get("SEED_DIR", "/tmp/seed")
DEMO = """#!/bin/bash
# Run with cwd = the repository.  Exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
%(cc)s -g -O1 -w -D__linux__=1 -D__amd64__=1 -D_GNU_SOURCE=1 -Isrc -Isrc/hashtable -Iinc %(fl)s \\
    -o "$t/demo" "$d/%(demo)s" %(src)s %(libs)s || exit 3
cd "$t" && timeout 120 ./demo
"""
def new(id, prop, edits, needs, breaks, demo, src="", cxx=False, fl="", libs="-lsodium -lpthread -lm"):
    """edits: [(file, old, new)...]"""
    fresh()
    for f, a, b in edits:
        p = f"{S}/repo/{f}"; s = open(p, encoding="latin-1").read()
        if s.count(a) != 1: raise SystemExit(f"{id}: {f}: text occurs {s.count(a)} times:\n{a}")
        open(p, "w", encoding="latin-1").write(s.replace(a, b))
    d = subprocess.run(["git", "diff"], cwd=S + "/repo", capture_output=True).stdout.decode("latin-1")
    os.makedirs(f"{SD}/{id}", exist_ok=True)
    open(f"{SD}/{id}/patch.diff", "w", encoding="latin-1").write(d)
    dn = "demo.cpp" if cxx else "demo.c"
    open(f"{SD}/{id}/{dn}", "w").write(demo.lstrip("\n"))
    r = []
    for x in src.split():
        r.append(x)
    open(f"{SD}/{id}/demo.sh", "w").write(DEMO % dict(cc="g++" if cxx else "gcc", fl=fl, demo=dn, src=" ".join(r), libs=libs))
    os.chmod(f"{SD}/{id}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{SD}/{id}/meta.json", "w"), indent=1)
    open(f"{SD}/{id}/meta.json", "a").write("\n")
    print("wrote", id)
def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(S + "/repo"):
        os.makedirs(S, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", S + "/repo"], check=True)
    r = S + "/repo"
    sh(["git", "fetch", "-q", "/repo", "HEAD"], cwd=r, check=True); sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], cwd=r, check=True)
def tests():
    vp = S + "/vp"
    if not os.path.isdir(vp):
        shutil.copytree("/opt/vp", vp)
        sh("sed -i 's#/opt/vp#"+S+"/vp#g; s#/repo#"+S+"/repo#g' build.sh test.sh run_tests.py results.py", shell=True, cwd=vp)
    sh(["bash", vp + "/test.sh", S + "/o.json"])
    o = json.load(open(S + "/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))
def demo(id):
    # its folder lies elsewhere when it counts
    x = S + "/demo"; shutil.rmtree(x, ignore_errors=True); shutil.copytree(f"{SD}/{id}", x)
    p = sh(["bash", x + "/demo.sh"], cwd=S + "/repo")
    return p.returncode, (p.stdout + p.stderr)[-300:]
def check(id, prop, extra=()):
    p = sh(["python3", V + "/check.py", prop, *extra], cwd=V, env=dict(os.environ, PBT_REPO=S + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    m = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
    return p.returncode, (m or p.stdout.splitlines()[-3:])[:1]
def main(a):
    notest = "--notest" in a; extra = []
    mode = a[0]; ids = [x for x in a[1:] if not x.startswith("--")]
    if "--all" in a: ids = sorted(os.listdir(SD))
    bad = 0
    for id in ids:
        meta = json.load(open(f"{SD}/{id}/meta.json"))
        fresh()
        out = [id, meta["property"]]
        if mode == "verify":
            r0, t0 = demo(id)
            if r0: out.append(f"DEMO FAILS ON CLEAN {r0} {t0}"); bad += 1
        p = sh(["git", "apply", f"{SD}/{id}/patch.diff"], cwd=S + "/repo")
        if p.returncode: print(*out, "DOES NOT APPLY", p.stderr); bad += 1; continue
        if mode == "verify":
            r1, t1 = demo(id)
            out.append(f"demo={r1}")
            if not r1 or r1 == 3: out.append(f"DEMO BAD {t1}"); bad += 1
            if not notest:
                t = tests()
                if t: out.append(f"TESTS FAIL {t}"); bad += 1
                else: out.append("tests ok")
        rc, m = check(id, meta["property"])
        out.append("CAUGHT" if rc == 1 else f"MISSED rc={rc} {m}")
        print(*out, flush=True)
    fresh()
    return bad
if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
