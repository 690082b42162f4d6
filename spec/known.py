"""Regenerates KNOWN_FINDINGS from the table below and the fix: commits of /repo (their property is given in FIX)."""
import subprocess, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "spec"))
from findings import KNOWN, FIX
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = ["# known: property=<id> <what fails>      printed as KNOWN-FINDING on every run of that property's check",
       "# fixed: property=<id> <commit> <what failed>   suppresses nothing", ""]
out += ["known: property=%s %s" % k for k in KNOWN]
miss = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "): continue
    pid = next((p for pat, p in FIX if re.search(pat, s)), None)
    if not pid: miss.append(s); continue
    out.append("fixed: property=%s %s %s" % (pid, h, s[5:]))
open(os.path.join(ROOT, "KNOWN_FINDINGS"), "w").write("\n".join(out) + "\n")
if miss: print("no property for:", *miss, sep="\n  "); sys.exit(1)
