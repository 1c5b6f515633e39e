"""Runs the check of one property: design model exhaustively, then generated behaviours replayed in
the real code and the recorded runs validated against the specification."""
import json, os, sys, time, random, traceback
from . import tlc, pool
from .build import Build, VERIF

class Design:
    """exhaustive exploration of a design-level specification"""
    def __init__(self, module, cfg, quick=None, thorough=None, timeout=120, tmult=5):
        self.module, self.cfg, self.quick, self.thorough, self.timeout, self.tmult = module, cfg, quick, thorough, timeout, tmult
    def run(self, tier):
        c = self.quick if tier == "quick" else (self.thorough or self.quick)
        return tlc.model_check(self.module, self.cfg, c, timeout=self.timeout * (1 if tier == "quick" else self.tmult))

SETUP = {"op": "setup failed"}
class Conf:
    """generated behaviours -> real code -> recorded traces -> trace specification"""
    def __init__(self, name, gen, gencfg, trace, tracecfg, replay, n, depth, flavour="plain", gconsts=None, tconsts=None,
                 workers=8, known=None, retries=4, fixed=None):
        self.__dict__.update(locals())
    def ops(self, seed, n):
        if not n:
            return self.fixed()
        k = max(1, min(6, n // 150 + (n % 150 > 0)))
        c = {"Depth": self.depth}
        c.update(self.gconsts or {})
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(k) as ex:
            parts = list(ex.map(lambda i: tlc.generate(self.gen, self.gencfg, (n + k - 1) // k, self.depth, seed * 1000 + i, c), range(k)))
        out = [b for p in parts for b in p]
        return (self.fixed() if self.fixed else []) + out
    def play(self, build, ops):
        return pool.pmap(lambda o: self.one(build, o), ops, self.workers)
    def one(self, build, ops):
        try:
            return self.replay(build, ops)
        except Exception:       # what every history starts with did not work
            return [SETUP], "could not be replayed:\n" + traceback.format_exc()
    def validate(self, traces):
        good = [i for i, t in enumerate(traces) if t != [SETUP]]
        v = tlc.validate(self.trace, self.tracecfg, [traces[i] for i in good], self.tconsts) if good else {"rejected": {}, "notes": {}, "states": 0, "transitions": 0, "wall": 0}
        v["rejected"] = {good[i]: at for i, at in v["rejected"].items()}
        v["notes"] = {(good[i], at): n for (i, at), n in v["notes"].items()}
        v["rejected"].update({i: 0 for i in range(len(traces)) if i not in set(good)})
        return v

def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                key, _, text = l[len("known: property=%s " % pid):].partition(" ")
                out.append((key.split("=", 1)[1], text))
    return out

def fail(pid, what, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % pid)
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    print(what[:6000])
    print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, VERIF)))

def describe(conf, trace, at, notes, problem):
    s = ["%s: step %d of the recorded run is not a step of %s" % (conf.name, at + 1, conf.trace)]
    for e in trace[max(0, at - 12):at]:
        s.append("   " + json.dumps(e)[:400])
    if at < len(trace):
        s.append("=> " + json.dumps(trace[at])[:1500])
    for n in notes or []:
        s.append("specification: " + n[:1500])
    if problem:
        s.append("problem: " + problem[:3000])
    return "\n".join(s)

def run_check(pid, level, stages, tier, seed, assumptions=()):
    t0 = time.time()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], design=[], conformance=[])
    viol = 0
    findings = dict(known_findings(pid))
    seen = {}
    for st in stages:
        if viol:
            break
        if isinstance(st, Design):
            r = st.run(tier)
            cov["states"] += r["states"]; cov["transitions"] += r["transitions"]
            cov["design"].append({"spec": r["spec"], "states": r["states"], "transitions": r["transitions"], "wall_s": round(r["wall"], 1)})
            print("design  %-14s %8d states %9d transitions  %.1fs  no error" % (r["spec"], r["states"], r["transitions"], r["wall"]))
            continue
        if not isinstance(st, Conf):       # a stage of its own
            v = st(pid, tier, seed, cov)
            viol += v
            continue
        b = Build(st.flavour)
        n = st.n[0] if tier == "quick" else st.n[1]
        t1 = time.time()
        ops = st.ops(seed, n)
        t2 = time.time()
        rs = st.play(b, ops)
        t3 = time.time()
        v = st.validate([r[0] for r in rs])
        t4 = time.time()
        steps = sum(len(r[0]) for r in rs)
        cov["states"] += v["states"]; cov["transitions"] += v["transitions"]
        acc = len(rs) - len(v["rejected"])
        cov["traces_validated_against_impl"] += acc
        cov["conformance"].append({"stage": st.name, "traces": len(rs), "steps": steps, "rejected_first_run": len(v["rejected"]),
                                   "generate_s": round(t2 - t1, 1), "replay_s": round(t3 - t2, 1), "validate_s": round(t4 - t3, 1)})
        if rs:
            mid = rs[len(rs) // 2][0]
            cov["samples"].append({"stage": st.name, "ops": ops[len(ops) // 2][:12], "recorded": mid[:12]})
        print("conform %-14s %5d traces %8d steps  gen %.1fs replay %.1fs validate %.1fs  rejected %d" %
              (st.name, len(rs), steps, t2 - t1, t3 - t2, t4 - t3, len(v["rejected"])))
        sys.stdout.flush()
        # a rejected run counts when it can be reproduced
        todo = []
        for i, at in sorted(v["rejected"].items()):
            key = st.known(rs[i][0], at, v["notes"].get((i, at), [])) if st.known else None
            if key in findings:
                seen[key] = findings[key]
                continue
            todo.append(i)
        for i in todo[:6]:
            at = v["rejected"][i]
            prob = rs[i][1]
            sure = bool(prob and ("ERROR: AddressSanitizer" in prob or "the daemon terminated" in prob))
            again = []
            if not sure:
                again = st.play(b, [ops[i]] * st.retries)
                va = st.validate([r[0] for r in again])
                if not va["rejected"]:
                    print("note: a rejected run of %s was not rejected in %d repetitions and is not counted:" % (st.name, st.retries))
                    print(describe(st, rs[i][0], at, v["notes"].get((i, at)), prob))
                    cov["conformance"][-1].setdefault("unreproduced", 0)
                    cov["conformance"][-1]["unreproduced"] += 1
                    continue
            fail(pid, describe(st, rs[i][0], at, v["notes"].get((i, at)), prob),
                 {"property": pid, "stage": st.name, "seed": seed, "ops": ops[i], "trace": rs[i][0], "rejected_at": at, "problem": prob})
            viol = 1
            break
        if not viol and len(todo) > 6 and len(todo) > len(rs) // 5:
            fail(pid, "%s: %d of %d runs rejected" % (st.name, len(todo), len(rs)), {"property": pid, "stage": st.name, "seed": seed})
            viol = 1
    for k, t in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": list(assumptions),
          "wall_s": round(time.time() - t0, 1), "violations": viol}
    if level in ("exploration", "fault_enumeration"):
        cov.setdefault("evaluations", cov["traces_validated_against_impl"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s in %.1fs" % (pid, "violated" if viol else "held on everything explored", time.time() - t0))
    return 1 if viol else 0
