"""python3 tools/caught.py [ids]: runs the check of its property, and every other check with "all", against each planted bug (in scratch copies)."""
import json, os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "all"]
every = "all" in sys.argv[1:]
tmp = tempfile.mkdtemp(prefix="caught")
rc = os.path.join(tmp, "rc")
subprocess.check_call(["go", "build", "-o", rc, "./cmd/rothkocheck"], cwd=os.path.join(root, "checker"))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
def one(id):
    d = os.path.join(root, "seeded", id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    repo = os.path.join(tmp, id)
    subprocess.check_call(["cp", "-a", "/repo", repo])
    subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
    hit = []
    for p in props if every else [prop]:
        r = subprocess.run([rc, "-repo", repo, "-prop", p, "-tier", "quick", "-out", os.path.join(tmp, "ev" + id)], capture_output=True, text=True)
        if "VIOLATION property=" + p in r.stdout and r.returncode == 1:
            hit.append(p)
            if p == prop and os.environ.get("V"):
                print(id, "\n".join(r.stdout.split("\n")[:4]))
    shutil.rmtree(repo)
    return id, prop, hit
ids = args or sorted(os.listdir(os.path.join(root, "seeded")))
with ThreadPoolExecutor(3) as ex:
    for id, prop, hit in ex.map(one, ids):
        print("caught" if prop in hit else "MISSED", id, prop, *[h for h in hit if h != prop], flush=True)
shutil.rmtree(tmp)
