#!/usr/bin/env python3
"""Development aid: apply small edits to a scratch copy of /repo and run a rule.
usage: mut.py [PROP...]; edits live in tools/mutants/PROP.txt as blocks
  === kind(bug|same) [name]
  file
  <<<<
  old
  ----
  new
  >>>>
(several file/<<<< sections may follow one ===)."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
BIN = os.environ.get("RC", "/tmp/rc")
def blocks(prop):
    txt = open(os.path.join(here, "mutants", prop + ".txt")).read()
    last = None
    for b in re.split(r"^=== ", txt, flags=re.M)[1:]:
        head, rest = b.split("\n", 1)
        edits = []
        for f, old, new in re.findall(r"^(?:([^\s<>=-]\S*)\n)?<<<<\n(.*?)\n?----\n(.*?)\n?>>>>$", rest, flags=re.M | re.S):
            last = f or last  # a section without a file changes the same one
            edits.append((last, old, new))
        yield head, edits
def run(prop, i, head, edits, only=None):
    d = "/tmp/mut/%s-%d" % (prop, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules", "elm-stuff"))
    try:
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) != 1:
                return "%-5s %-60s BAD EDIT (%d matches) %s" % (prop, head, s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        b = subprocess.run(["go", "build", "./..."], cwd=d, capture_output=True, text=True)
        if b.returncode:
            return "%-5s %-60s DOES NOT BUILD %s" % (prop, head, b.stderr[:300])
        r = subprocess.run([BIN, "-repo", d, "-prop", prop, "-out", d + "/ev"], capture_output=True, text=True, timeout=900)
        hit = "VIOLATION" in r.stdout
        want = head.startswith("bug")
        keys = re.findall(r"^  (\S+: \[.*)$", r.stdout, flags=re.M)
        s = "%-5s %-60s %s %s" % (prop, head, "ok " if hit == want else "XXX", "caught" if hit else "quiet")
        if hit and (not want or os.environ.get("V")): s += "\n        " + "\n        ".join(k[:220] for k in keys[:4])
        if hit and os.environ.get("VV"): s += "\n" + r.stdout[:6000]
        if hit and want and keys: s += "  " + keys[0][:110]
        if r.returncode not in (0, 1): s += " EXIT %d %s" % (r.returncode, r.stderr[-300:])
        return s
    finally:
        shutil.rmtree(d, ignore_errors=True)
props = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(os.path.join(here, "mutants")))
jobs = []
with ThreadPoolExecutor(6) as ex:
    for p in props:
        sel = None
        if "/" in p: p, sel = p.split("/")
        for i, (h, e) in enumerate(blocks(p)):
            if sel and sel not in h: continue
            jobs.append(ex.submit(run, p, i, h, e))
    for j in jobs: print(j.result(), flush=True)
