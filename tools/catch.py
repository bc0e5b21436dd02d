"""python3 tools/catch.py [id...] [--all]: run the check of the property of each planted bug (--all: every check) against a scratch copy
with the bug applied and print who notices."""
import json, os, subprocess, sys, tempfile, shutil, glob

V = "/verif/seeded"
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V))
claimed = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob("/verif/checks/p[0-9]*.py"))
for i in ids:
    d = tempfile.mkdtemp(prefix="catch")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/%s/patch.diff" % (d, d, V, i), shell=True, check=True)
        p = json.load(open("%s/%s/meta.json" % (V, i)))["property"]
        out = []
        for c in (claimed if "--all" in sys.argv else [p]):
            if c not in claimed:
                out.append(c + ":nocheck")
                continue
            r = subprocess.run(["python3", "check.py", c], cwd="/verif", env=dict(os.environ, GGG_REPO=d, EVIDENCE_DIR=d + "/ev"), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode != 0 or "--all" not in sys.argv:
                m = [l.strip() for l in r.stdout.splitlines() if l and not l.startswith("VIOLATION")]
                out.append("%s:%d%s %s" % (c, r.returncode, "(%d)" % len(v) if v else "", m[0][:150] if m and r.returncode else ""))
        print(i, p, " ; ".join(out), flush=True)
    finally:
        shutil.rmtree(d)
