"""python3 tools/plant.py SPEC.py [id...]: (re)create /verif/seeded/<id> from a spec file and try the demonstrations in a scratch copy.
SPEC.py defines BUGS = {id: dict(prop, edits=[(file, old, new)], demo=python source, needs, breaks)}.
With --tests also runs the repository's stable tests on the scratch copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = "/verif/seeded"
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/opt/vp/pytest_plugin:%s/src" % d)
    j = d + "/junit.xml"
    sh(". /opt/vp/env.sh; export PYTHONPATH=/opt/vp/pytest_plugin:%s/src; cd %s && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_slice -n 8 --timeout=600 --tb=short "
       "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s" % (d, d, j), env=env, executable="/bin/bash")
    sh("python3 /opt/vp/results.py %s/out.json junit:%s" % (d, j))
    r = json.load(open(d + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    ok = set(r.get("passed", []))
    want = base.get("passed") or base.get("stable") or base.get("tests") or next(v for v in base.values() if isinstance(v, list))
    return [t for t in want if t not in ok]


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    spec = runpy.run_path(a[0])["BUGS"]
    for i in a[1:] or spec:
        b = spec[i]
        d = tempfile.mkdtemp(prefix="plant")
        try:
            sh("git -C /repo archive HEAD | tar x -C %s" % d)
            sh("git init -q . && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x", cwd=d)
            o = V + "/" + i
            os.makedirs(o, exist_ok=True)
            open(o + "/demo.py", "w").write(b["demo"])
            open(o + "/demo.sh", "w").write(SH)
            os.chmod(o + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            r0 = sh(["bash", o + "/demo.sh"], cwd=d, timeout=300)
            bad = None
            for f, old, new in b["edits"]:
                p = d + "/" + f
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(i, "BAD", bad)
                continue
            open(o + "/patch.diff", "w").write(sh("git diff", cwd=d).stdout)
            rm = [l[1:].strip() for l in open(o + "/patch.diff") if l.startswith("-") and not l.startswith("---")]
            own = []
            for f, _, _ in b["edits"]:
                t = sh("git -C /repo show 35eff60:%s" % f).stdout
                own += [l for l in rm if l and l not in t]
            r1 = sh(["bash", o + "/demo.sh"], cwd=d, timeout=300)
            msg = "clean=%d patched=%d" % (r0.returncode, r1.returncode)
            if r0.returncode:
                msg += " CLEAN-FAILS " + r0.stderr[-300:]
            if not r1.returncode:
                msg += " NOT-SHOWN"
            elif "Error" in r1.stderr:
                msg += " | " + r1.stderr.strip().splitlines()[-1][:120]
            if own and len(set(f for f, _, _ in b["edits"])) == 1:
                msg += " OWN-LINES %r" % own[:2]
            print(i, b["prop"], msg, flush=True)
            if "--tests" in sys.argv:
                f = tests(d)
                print("   tests:", "all pass" if not f else "%d FAIL e.g. %s" % (len(f), f[:2]), flush=True)
        finally:
            shutil.rmtree(d)


main()
