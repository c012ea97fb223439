#!/usr/bin/env python3
"""Development aid: python3 tools/narrow.py PROP 'P same x' 'Q same y' ...: which of
the edits makes PROP alarm, alone or together."""
import os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
prop, names = sys.argv[1], sys.argv[2:]
BIN = os.environ.get("RC", "/tmp/rc")
E = {}
for d in ("mutants", "refactors"):
    for f in sorted(glob.glob(os.path.join(here, d, "*.txt"))):
        last = None
        for b in re.split(r"^=== ", open(f).read(), flags=re.M)[1:]:
            head, rest = b.split("\n", 1)
            es = []
            for fn, old, new in re.findall(r"^(?:([^\s<>=-]\S*)\n)?<<<<\n(.*?)\n?----\n(.*?)\n?>>>>$", rest, flags=re.M | re.S):
                last = fn or last
                es.append((last, old, new))
            E[os.path.basename(f)[:-4] + " " + head] = es
def run(sel, keep=None):
    d = keep or f"/tmp/bisect/{prop}-{abs(hash(tuple(sel)))}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules", "elm-stuff"))
    for n in sel:
        for f, o, w in E[n]:
            s = open(os.path.join(d, f)).read()
            if s.count(o) != 1: return n, "edit does not apply"
            open(os.path.join(d, f), "w").write(s.replace(o, w))
    r = subprocess.run([BIN, "-repo", d, "-prop", prop, "-out", d + "/ev"], capture_output=True, text=True)
    if not keep: shutil.rmtree(d)
    return r.returncode, r.stdout
with ThreadPoolExecutor(6) as ex:
    res = list(ex.map(lambda n: run([n]), names))
bad = [n for n, r in zip(names, res) if r[0]]
for n in bad: print(prop, "ALONE", n)
if not bad:
    cur = list(names)
    for n in list(names):
        t = [x for x in cur if x != n]
        if t and run(t)[0]: cur = t
    print(prop, "TOGETHER", cur)
    bad = cur
    run(cur, keep=f"/tmp/bisect/{prop}")
else:
    run(bad[:1], keep=f"/tmp/bisect/{prop}")
print("kept in /tmp/bisect/" + prop)
