"""Check runner: obligations, violations, known findings, evidence, exit codes."""
import json, os, sys, time, traceback, multiprocessing as mp
from .ir import VERIF, REPO, AnalysisBroken


class Result:
    def __init__(self):
        self.obl = 0; self.viol = []; self.facts = {}; self.samples = []; self.broken = []

    def ok(self, n=1): self.obl += n

    def check(self, cond, key, msg):
        self.obl += 1
        if not cond: self.violate(key, msg)
        return cond

    def violate(self, key, msg): self.viol.append((key, msg))

    def count(self, k, n=1): self.facts[k] = self.facts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)

    def merge(self, o):
        self.obl += o.obl; self.viol += o.viol; self.broken += o.broken
        for k, v in o.facts.items():
            if isinstance(v, (int, float)): self.facts[k] = self.facts.get(k, 0) + v
            elif isinstance(v, list): self.facts[k] = sorted(set(self.facts.get(k, [])) | set(v))
            else: self.facts[k] = v
        for s in o.samples: self.sample(s)


def _call(a):
    fn, args = a
    sys.setrecursionlimit(400000)
    t = time.time()
    try:
        r = fn(*args)
    except AnalysisBroken as e:
        r = Result(); r.broken.append("%s%r: %s" % (fn.__name__, short(args), e))
    except Exception as e:
        r = Result(); r.broken.append("%s%r: %s" % (fn.__name__, short(args), "".join(traceback.format_exception(e)[-6:])))
    if os.environ.get("PPK_TIME"): print("  %6.1fs %s%r" % (time.time() - t, fn.__name__, short(args)), file=sys.stderr, flush=True)
    return r


def short(args): return tuple(a for a in args if isinstance(a, (str, int, bool, tuple, type(None))))


def run_tasks(tasks, procs=8):
    """tasks: list of (function, args); programs must have been loaded before (workers are forked)"""
    total = Result()
    if os.environ.get("PPK_SERIAL") or len(tasks) == 1:
        for t in tasks: total.merge(_call(t))
        return total
    global _TASKS
    _TASKS = tasks
    with mp.get_context("fork").Pool(min(procs, len(tasks)), maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_idx, range(len(tasks)), chunksize=1):
            total.merge(r)
    return total


_TASKS = None
def _idx(i): return _call(_TASKS[i])


def known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line: continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status", "known") == "known": out[d["key"]] = d["what"]
    return out


def finish(prop, level, tier, t0, res, explanation, assumptions, trusted, minimum=1):
    kf = known(prop)
    real, seen = [], {}
    for key, msg in res.viol:
        if key in kf: seen.setdefault(key, msg)
        else: real.append((key, msg))
    cov = {"obligations": res.obl, "discharged": res.obl - len(res.viol),
           "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier), "trusted_base": trusted, "explanation": explanation}
    for k, v in res.facts.items(): cov[k] = v
    if res.samples: cov["samples"] = res.samples
    if seen: cov["known_findings_seen"] = sorted(seen)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": assumptions, "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", prop + ".json")
    if res.broken: ev["coverage"]["analysis_errors"] = res.broken[:20]
    with open(ep, "w") as f: json.dump(ev, f, indent=1, sort_keys=True); f.write("\n")
    print("%s: %d obligations, %d violations, %.1fs" % (prop, res.obl, len(real), time.time() - t0))
    for k in sorted(cov):
        if isinstance(cov[k], int) and k not in ("obligations", "discharged"): print("  %s: %d" % (k, cov[k]))
    for key in sorted(seen): print("KNOWN-FINDING: property=%s %s" % (prop, kf[key]))
    if real:
        rp = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        uniq = []
        for k, m in real:
            if (k, m) not in uniq: uniq.append((k, m))
        with open(rp, "w") as f:
            for k, m in uniq: f.write("[%s] %s\n" % (k, m))
        for k, m in uniq[:12]: print("  [%s] %s" % (k, m))
        if len(uniq) > 12: print("  ... %d more in %s" % (len(uniq) - 12, rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if res.broken:
        print("ANALYSIS ERROR (no answer):")
        for b in res.broken[:5]: print("  " + b)
        return 2
    if res.obl < minimum:
        print("ANALYSIS ERROR: only %d obligations found (at least %d expected); anchor vanished?" % (res.obl, minimum))
        return 2
    return 0
