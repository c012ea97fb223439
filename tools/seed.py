"""python3 tools/seed.py: builds /verif/seeded/<id>/ from tools/seeds/<id>.txt and checks it.

A seed file holds: property, package of the demo, needs, breaks (one line each,
"key: text"), then edit blocks as in tools/mutants, then "==== demo" and the
text of the in-package test that demonstrates the bug (TestDemo)."""
import json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=readonly", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")

DEMO = '''#!/bin/bash
# exit 0 when the repository behaves, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off GOWORK=off
t=$(mktemp -d)
export TMPDIR=$t
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 %s -overlay "$t/overlay.json" -run 'TestDemo$' ./%s
rc=$?
rm -rf "$t"
exit $rc
'''

def parse(path):
    meta, edits, lines, demo = {}, [], open(path).read().split("\n"), None
    i = 0
    while i < len(lines):
        l = lines[i]
        if l == "==== demo":
            demo = "\n".join(lines[i+1:])
            break
        if i + 1 < len(lines) and lines[i+1] == "<<<<":
            j = lines.index("----", i)
            k = lines.index(">>>>", j)
            edits.append((l, "\n".join(lines[i+2:j]), "\n".join(lines[j+1:k])))
            i = k
        elif ": " in l:
            a, b = l.split(": ", 1)
            meta[a] = b
        i += 1
    return meta, edits, demo

def run(id):
    meta, edits, demo = parse(os.path.join(root, "tools/seeds", id + ".txt"))
    out = os.path.join(root, "seeded", id)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.remove(os.path.join(out, f))
    scratch = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(scratch, "repo")
        subprocess.check_call(["cp", "-a", "/repo", repo])
        pkg = meta["package"]
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % (pkg, meta.get("flags", ""), pkg))
        open(os.path.join(out, "demo.go.txt"), "w").write(demo)
        r0 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=repo, env=env, capture_output=True, text=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=meta["property"], needs=meta["needs"], what_it_breaks=meta["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        t = subprocess.run(["go", "test", "-vet=off", "-count=1", "./..."], cwd=repo, env=env, capture_output=True, text=True)
        r1 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=repo, env=env, capture_output=True, text=True)
        blame = []
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(id, "ok" if ok else "XXX", "clean", r0.returncode, "tests", t.returncode, "patched", r1.returncode, flush=True)
        if not ok:
            print(r0.stdout[-1500:], r0.stderr[-1500:], t.stdout[-800:] if t.returncode else "", t.stderr[-500:], "PATCHED:", r1.stdout[-800:])
        elif "build failed" in r1.stdout:
            print("  XXX patched demo does not build", r1.stdout[-500:])
    finally:
        shutil.rmtree(scratch)

ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(os.path.join(root, "tools/seeds")) if f.endswith(".txt"))
for i in ids:
    run(i)
