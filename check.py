#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--secs N] [--target T] [--replay FILE] [--seed N]
Builds the sources the property needs from /repo's working tree, searches, and reports."""
import sys, os, re, json, subprocess, shutil, time, hashlib, argparse
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
CC, CXX = "clang", "clang++"
DEFS = ["-D__linux__=1", "-D__amd64__=1", "-D_GNU_SOURCE=1"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/src/hashtable", "-I" + REPO + "/inc", "-I" + ROOT + "/fw", "-I" + ROOT + "/props"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,bounds,signed-integer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O2"],
}
SAN["nosimd"] = SAN["asan"] + ["-D__NO_SIMD__=1"]   # the portable code, without vector instructions
COV = {"asan": ["-fsanitize-coverage=inline-8bit-counters,trace-cmp"], "tsan": [], "plain": []}
COV["nosimd"] = COV["asan"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def header(pid):
    """//@ key: value lines; a key may repeat; [variant] sections by '//@ variant: NAME [share]'"""
    base, variants, cur = {}, [], None
    for line in open(os.path.join(ROOT, "props", pid + ".cpp")):
        m = re.match(r"//@\s*(\w+):\s*(.*?)\s*$", line)
        if not m:
            continue
        k, v = m.groups()
        if k == "variant":
            cur = {"variant": v.split()[0], "share": float(v.split()[1]) if len(v.split()) > 1 else 1.0}
            variants.append(cur)
        else:
            (cur if cur is not None else base).setdefault(k, []).extend(v.split())
    if not variants:
        variants = [{"variant": "asan", "share": 1.0}]
    out = []
    for v in variants:
        d = {k: list(x) for k, x in base.items()}
        for k, x in v.items():
            if k in ("variant", "share"):
                d[k] = x
            else:
                d.setdefault(k, []).extend(x)
        out.append(d)
    return out


def build(pid, h, outdir):
    v = h["variant"]
    os.makedirs(outdir, exist_ok=True)
    jobs, objs = [], []
    common = ["-g", "-w", "-pthread"] + DEFS + INC + SAN[v] + h.get("flags", [])

    def add(src, extra, cxx):
        o = os.path.join(outdir, hashlib.md5(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src) + ".o")
        objs.append(o)
        jobs.append(([CXX, "-std=c++17"] if cxx else [CC, "-std=gnu11"]) + common + extra + ["-c", src, "-o", o])

    for s in h.get("src", []):
        s, _, fl = s.partition("@")
        add(os.path.join(REPO, s), COV[v] + h.get("cflags", []) + [f for f in fl.split(",") if f], s.endswith(".cpp"))
    for s in h.get("shim", []):
        add(os.path.join(ROOT, "props", s), COV[v] + h.get("cflags", []), s.endswith(".cpp"))
    for s in h.get("aux", []):
        s, _, fl = s.partition("@")
        add(os.path.join(ROOT, "props", s), [f for f in fl.split(",") if f], s.endswith(".cpp"))
    add(os.path.join(ROOT, "props", h.get("main", [pid + ".cpp"])[0]), ["-DPBT_VARIANT_" + v + "=1"] + (COV[v] if "yes" in h.get("covmain", []) else []), True)
    add(os.path.join(ROOT, "fw", "pbt.cpp"), [], True)
    with ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                print("BUILD FAILED:", " ".join(cmd)); print(r.stdout[-4000:])
                sys.exit(2)
    exe = os.path.join(outdir, "t")
    link = [CXX, "-g", "-pthread", "-o", exe] + objs + SAN[v] + ["-Wl,--wrap=" + w for w in h.get("wrap", [])] + h.get("libs", [])
    r = sh(link)
    # a helper may have moved to a source file that is not listed: add the files that define what is missing
    for _ in range(4):
        need = set(re.findall(r"undefined reference to `([^']+)'", r.stdout)) | set(re.findall(r"undefined symbol: (\S+)", r.stdout)) if r.returncode else set()
        more = others(h, need, outdir, common + COV[v] + h.get("cflags", [])) if need else []
        more = [o for o in more if o not in link]
        if not more:
            break
        link = link[:link.index("-o") + 2 + len(objs)] + more + link[link.index("-o") + 2 + len(objs):]
        objs += more
        r = sh(link)
    if r.returncode:
        print("LINK FAILED:", " ".join(link)); print(r.stdout[-4000:])
        sys.exit(2)
    return exe


def others(h, need, outdir, flags):
    """Objects, built from the repository's sources not yet in the build, that define a symbol of 'need'."""
    have = {os.path.normpath(os.path.join(REPO, s.partition("@")[0])) for s in h.get("src", [])}
    srcs = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "src")) for f in fs if f.endswith((".c", ".cpp")) and "win32" not in d]
    srcs = sorted(s for s in srcs if os.path.normpath(s) not in have)
    names = {n.split("(")[0].split("::")[-1] for n in need}

    def one(s):
        if not any(n in open(s, errors="replace").read() for n in names):
            return None
        o = os.path.join(outdir, "x" + hashlib.md5(s.encode()).hexdigest()[:8] + ".o")
        if not os.path.exists(o) and sh([CXX if s.endswith(".cpp") else CC, "-std=c++17" if s.endswith(".cpp") else "-std=gnu11"] + flags + ["-c", s, "-o", o]).returncode:
            return None
        t = sh(["nm", "--defined-only", "-g", "-C", o]).stdout
        return o if any(re.search(r" [TDBRVW] " + re.escape(n) + r"$", t, re.M) for n in need) else None
    with ThreadPoolExecutor(8) as ex:
        return [o for o in ex.map(one, srcs) if o]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--secs", type=float)
    ap.add_argument("--target", default="")
    ap.add_argument("--variant", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in (CC, CXX):
            if not shutil.which(t):
                print("missing", t); sys.exit(2)
        r = sh([CXX, "-std=c++17", "-fsyntax-only", "-I" + ROOT + "/fw", ROOT + "/fw/pbt.cpp"])
        print(r.stdout); sys.exit(r.returncode)
    pid = a.id
    try:
        seed = int(a.seed, 0) & 0xffffffff
    except ValueError:
        seed = int(hashlib.md5(a.seed.encode()).hexdigest()[:8], 16)
    t0 = time.time()
    bdir = os.path.join(ROOT, "build", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    try:
        rc = run(a, pid, seed, bdir, t0)
    finally:
        if not a.keep:
            subprocess.run(["chmod", "-R", "u+rwx", bdir], stderr=subprocess.DEVNULL)
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, seed, bdir, t0):
    hs = header(pid)
    if a.replay and not a.variant:
        m = re.search(r"^variant=(\w+)$", open(a.replay).read(), re.M)
        a.variant = m.group(1) if m and m.group(1) in [h["variant"] for h in hs] else ""
    if a.variant:
        hs = [h for h in hs if h["variant"] == a.variant]
    total = a.secs or (float(hs[0].get("quick", ["20"])[0]) if a.tier == "quick" else float(hs[0].get("thorough", ["420"])[0]))
    share = sum(h["share"] for h in hs)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "code_edges_reached": 0, "rule": "", "targets": [], "labels": {}, "samples": []}
    rc, viol, shares = 0, 0, []
    for i, h in enumerate(hs):
        d = os.path.join(bdir, "%d-%s" % (i, h["variant"]))
        exe = build(pid, h, d)
        if a.build_only:
            continue
        tb = time.time()
        work = os.path.join(d, "work")
        os.makedirs(work)
        os.chmod(work, 0o777)
        if a.replay:
            r = subprocess.run([exe, "--replay", os.path.abspath(a.replay), "--work", work])
            if r.returncode != 3:
                return r.returncode
            continue
        out = os.path.join(d, "out.json")
        cmd = [exe, "--seed", str(seed), "--secs", "%.2f" % (total * h["share"] / share), "--out", out, "--work", work, "--tier", a.tier]
        if h.get("workers"): cmd += ["--workers", h["workers"][0]]
        if h.get("hang"): cmd += ["--hang", h["hang"][0]]
        if a.target: cmd += ["--target", a.target]
        # library diagnostics may go to stdout/stderr of workers; those are redirected to logs
        r = subprocess.run(cmd, timeout=3600)
        if not os.path.exists(out):
            print("runner ended without a report, rc", r.returncode)
            return 2
        j = json.load(open(out))
        cov["evaluations"] += j["evaluations"]; cov["discarded"] += j["discarded"]
        cov["distinct_nontrivial"] += j["distinct_nontrivial"]; cov["code_edges_reached"] += j["edges"]
        for t in j["targets"]:
            t["build"] = h["variant"]; cov["targets"].append(t)
        for k, n in j["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + n
        cov["samples"] += j["samples"]
        v = j["violation"]
        if j["rc"] == 1 and v and v["reproduced"]:
            rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True)
            body = "property=%s\nvariant=%s\ntarget=%s\nhex=%s\n" % (pid, h["variant"], v["target"], v["hex"])
            path = os.path.join(rdir, "%s-%s-%s.txt" % (pid, v["target"], hashlib.md5(body.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                f.write(body)
                if v.get("history"): f.write("history: %s\n" % v["history"])
                f.write("# replay: python3 check.py %s --replay %s\n# minimal case and verdict:\n" % (pid, path))
                f.write("".join("# " + l + "\n" for l in v["log"].splitlines()))
            print("--- minimal failing case (target %s, %s)\n%s" % (v["target"], v["kind"], v["log"][:6000]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            viol += 1; rc = 1
            cov["violation_target"] = v["target"]
            break
        if j["rc"] != 0:
            print("ERROR: harness rc %d: %s" % (j["rc"], json.dumps(v)[:3000]))
            rc = 2
            break
    if a.replay:
        print("target not found"); return 2
    if a.build_only:
        return 0
    cov["rule"] = "; ".join("%s: %s" % (t["name"], t["rule"]) for t in cov["targets"])
    if not cov["samples"]:
        cov["samples"] = ["none: the run ended at a violation"]
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": viol,
          "assumptions": hs[0].get("assume") and [" ".join(hs[0]["assume"])] or ["the host compiler, C library and sanitizer runtimes are correct"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s" % (pid, a.tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, "ok" if rc == 0 else "FAILED"))
    # known findings are declared in KNOWN_FINDINGS and printed, never added, here
    kf = os.path.join(ROOT, "KNOWN_FINDINGS")
    if rc == 0 and os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\w+) (.*)", l)
            if m and m.group(1) == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, m.group(2)))
    return rc


if __name__ == "__main__":
    main()
