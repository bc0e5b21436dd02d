"""Check runner: scenarios -> obligations -> verdict, evidence and exit status."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GGG_REPO", "/repo")


#: seconds per scenario and per check; what is not decided by then is reported as undecided
LIMIT = {"quick": 100, "thorough": 600}
TOTAL = {"quick": 780, "thorough": 6000}


class Rep:
    """what one scenario decided"""

    def __init__(self, scenario):
        self.scenario = scenario
        self.ok = 0
        self.viol = []      # (rule, construct, message)
        self.undecided = []
        self.stats = {}
        self.samples = []

    def good(self, what=None):
        self.ok += 1
        if what and len(self.samples) < 3:
            self.samples.append(what)

    def bad(self, rule, construct, msg):
        self.viol.append((rule, construct, msg))

    def unk(self, what):
        self.undecided.append(what)

    def check(self, cond, rule, construct, msg, what=None):
        """cond: True / False / None"""
        if cond is None:
            self.unk("%s: %s" % (rule, construct))
        elif cond:
            self.good(what or construct)
        else:
            self.bad(rule, construct, msg)
        return bool(cond)

    def engine(self, X):
        I = X.I
        s = self.stats
        s["functions"] = sorted(set(s.get("functions", [])) | {"%s:%s" % (x[0].replace("gggears.", ""), x[1]) for x in I.funcs_seen})
        s["calls"] = s.get("calls", 0) + I.ncalls
        s["branches"] = s.get("branches", 0) + I.nbranch
        s["steps"] = s.get("steps", 0) + I.steps


def _one(job):
    mod, name, fn, args = job
    sys.setrecursionlimit(30000)
    m = importlib.import_module(mod)
    rep = Rep(name)
    t = time.time()
    from .scen import Anchor
    from .interp import Budget, PathDead
    lim = LIMIT.get(os.environ.get("GGG_TIER", "quick"), 100)

    def late(*_):
        raise Budget()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(lim)
    try:
        getattr(m, fn)(rep, *args)
    except Anchor as e:
        rep.unk("%s: anchor not found: %s" % (name, e))
    except Budget:
        rep.unk("%s: analysis budget exhausted" % name)
    except PathDead:
        rep.unk("%s: scenario always ends in an exception" % name)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        rep.unk("%s: analysis error %s: %s" % (name, type(e).__name__, str(e)[:200]))
        rep.stats["trace"] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    rep.stats["wall"] = round(time.time() - t, 2)
    return rep


def load_known():
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> rule=<rule> construct=<construct> :: <text>
                head, _, text = line[7:].partition(" :: ")
                f = {}
                for part in head.split(" | "):
                    k, _, v = part.partition("=")
                    f[k.strip()] = v.strip()
                known[(f.get("property"), f.get("rule"), f.get("construct"))] = text
    return known


def main(pid, tier, jobs=8, only=None, verbose=False):
    t0 = time.time()
    os.environ["GGG_TIER"] = tier
    mod = "checks.%s" % pid.lower()
    m = importlib.import_module(mod)
    work = [(mod, n, f, a) for n, f, a in m.scenarios(tier) if only is None or only in n]
    reps = []
    if jobs == 1 or len(work) == 1:
        reps = [_one(w) for w in work]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(work)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_one, work, chunksize=1)
            for _ in work:
                try:
                    reps.append(it.next(timeout=max(1, t0 + TOTAL.get(tier, 780) - time.time())))
                except mp.TimeoutError:
                    done = {r.scenario for r in reps}
                    for w in work:
                        if w[1] not in done:
                            r = Rep(w[1])
                            r.unk("%s: time limit of the check" % w[1])
                            reps.append(r)
                    break
    reps.sort(key=lambda r: r.scenario)
    known = load_known()
    viol, kn = {}, {}
    for r in reps:
        for rule, con, msg in r.viol:
            k = (pid, rule, con)
            if k in known:
                kn.setdefault(k, known[k])
            else:
                viol.setdefault((rule, con), (msg, []))[1].append(r.scenario)
    und = [u for r in reps for u in r.undecided]
    ok = sum(r.ok for r in reps)
    funcs = sorted({f for r in reps for f in r.stats.get("functions", [])})
    wall = time.time() - t0
    if verbose:
        for r in reps:
            print("  %-60s ok=%d viol=%d und=%d %.1fs" % (r.scenario, r.ok, len(r.viol), len(r.undecided), r.stats.get("wall", 0)))
            for u in r.undecided[:12]:
                print("      undecided:", u)
            if "trace" in r.stats:
                print(r.stats["trace"])
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": m.EXPLAIN,
            "rule": m.RULE,
            "scenarios": len(reps),
            "obligations_decided": ok + len(viol) + len(kn),
            "obligations_held": ok,
            "undecided": len(und),
            "undecided_samples": und[:20],
            "functions_analysed": len(funcs),
            "function_names": funcs[:400],
            "calls_analysed": sum(r.stats.get("calls", 0) for r in reps),
            "branch_points": sum(r.stats.get("branches", 0) for r in reps),
            "abstract_steps": sum(r.stats.get("steps", 0) for r in reps),
            "samples": [s for r in reps for s in r.samples][:20],
            "scenario_names": [r.scenario for r in reps],
            "known_findings": ["%s %s" % (k[1], k[2]) for k in kn],
        },
        "assumptions": m.ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, text in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s: %d scenarios, %d obligations held, %d undecided, %d functions, %.1fs" % (pid, len(reps), ok, len(und), len(funcs), wall))
    if viol:
        rp = os.path.join(VERIF, "evidence", "%s.violations.txt" % pid)
        with open(rp, "w") as f:
            for (rule, con), (msg, sc) in sorted(viol.items()):
                f.write("rule: %s\nconstruct: %s\n%s\nscenarios: %s\n\n" % (rule, con, msg, "; ".join(sc[:6])))
        for (rule, con), (msg, sc) in sorted(viol.items())[:40]:
            print("  [%s] %s: %s  (scenario: %s)" % (rule, con, msg, sc[0]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if ok == 0:
        print("no obligation could be decided")
        return 2
    return 0
