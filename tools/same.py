#!/usr/bin/env python3
"""Development aid: python3 tools/same.py [DIR]: every edit of tools/mutants and
tools/refactors that keeps the behaviour, as many as go together in one scratch
copy of /repo, and all rules run on each copy: none may alarm."""
import os, shutil, subprocess, sys, glob, json, re
from concurrent.futures import ThreadPoolExecutor
sys.argv, args = sys.argv[:1] + ["NONE"], sys.argv[1:]
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, "mut.py")).read().split("props = sys.argv")[0]
g = {"__file__": os.path.join(here, "mut.py"), "__name__": "mut"}
exec(src, g)
BIN = g["BIN"]
base = "/tmp/same"
shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
edits = []
for d in args or ["mutants", "refactors"]:
    g["here"] = here
    for f in sorted(glob.glob(os.path.join(here, d, "*.txt"))):
        p = os.path.basename(f)[:-4]
        txt = open(f).read(); last = None
        for b in re.split(r"^=== ", txt, flags=re.M)[1:]:
            head, rest = b.split("\n", 1)
            es = []
            for fn, old, new in re.findall(r"^(?:([^\s<>=-]\S*)\n)?<<<<\n(.*?)\n?----\n(.*?)\n?>>>>$", rest, flags=re.M | re.S):
                last = fn or last
                es.append((last, old, new))
            if head.startswith("same"): edits.append((p + " " + head, es))
print(len(edits), "edits")
def copy(n):
    d = os.path.join(base, str(n))
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules", "elm-stuff"))
    return d
def apply(d, es):
    new = {}
    for f, old, nw in es:
        s = new.get(f) or open(os.path.join(d, f)).read()
        if s.count(old) != 1: return None
        new[f] = s.replace(old, nw)
    return new
groups = []
for name, es in edits:
    for gr in groups:
        if len(gr["names"]) >= int(os.environ.get("GROUP", "12")): continue
        # keep only one edit per function-ish region: the old text must still be there unchanged
        new = apply(gr["dir"], es)
        if new is None: continue
        keep = {f: open(os.path.join(gr["dir"], f)).read() for f in new}
        for f in new: open(os.path.join(gr["dir"], f), "w").write(new[f])
        if subprocess.run(["go", "build", "./..."], cwd=gr["dir"], capture_output=True).returncode:
            for f in keep: open(os.path.join(gr["dir"], f), "w").write(keep[f])
            continue
        gr["names"].append(name); break
    else:
        d = copy(len(groups)); new = apply(d, es)
        if new is None: print("BAD EDIT", name); shutil.rmtree(d); continue
        for f in new: open(os.path.join(d, f), "w").write(new[f])
        r = subprocess.run(["go", "build", "./..."], cwd=d, capture_output=True, text=True)
        if r.returncode: print("NO BUILD", name, r.stderr[:300]); shutil.rmtree(d); continue
        groups.append({"dir": d, "names": [name]})
print(len(groups), "copies", flush=True)
def one(a):
    gr, p = a
    r = subprocess.run([BIN, "-repo", gr["dir"], "-prop", p, "-out", gr["dir"] + "/ev" + p], capture_output=True, text=True, timeout=1800)
    return gr, p, r
def test(gr):
    r = subprocess.run("go test ./... 2>&1 | grep -v '^ok\\|no test files'", shell=True, cwd=gr["dir"], capture_output=True, text=True)
    return gr, "tests", r
with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
    for gr, p, r in ex.map(test, groups):
        if r.stdout.strip(): print("TESTS", gr["names"], r.stdout[:1500], flush=True)
    sel = os.environ.get("IDS", "").split() or ids
    for gr, p, r in ex.map(one, [(gr, p) for gr in groups for p in sel]):
        if r.returncode or "VIOLATION" in r.stdout:
            print("ALARM", p, os.path.basename(gr["dir"]), gr["names"], "\n    " + "\n    ".join(re.findall(r"^  (\S+: \[.*)$", r.stdout, flags=re.M)[:3])[:600], r.stderr[-200:], flush=True)
print("done")
