"""Replays Methods histories: concurrent synchronous and asynchronous calls, late and reordered answers."""
import json, random, re, time
from .agent import AppBus, Stuck, Died
from . import values

SHORT = 1.0
class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace = ops, []
        key = json.dumps(ops)
        self.rnd = random.Random(key)
        self.o = {"o%d" % (i + 1): t for i, t in enumerate(values.table(key, 3, lambda r: values.obj(r, 1)))}
        self.o["oe"] = "o[%s;%serror_code=%s,;]".replace("error_code", values.h("error_code")) % (values.h("n"), self.rnd.choice(["", values.h("a") + "=u4:7,"]), self.rnd.choice(["s:" + values.h("E42"), "i4:77", "u4:0", "u8:5000000000"]))
        self.tok = {t: k for k, t in self.o.items()}
        self.bus = AppBus(build)
        self.ag = {n: self.bus.agent(n) for n in ("P", "Q", "K", "K2")}
        self.open = {}      # id -> dict(call, t0, cmd id)
        self.asy = {}       # id -> (agent, index)
        self.free = {n: list(range(1, 16)) for n in self.ag}
        self.log = {n: [] for n in self.ag}

    def setup(self):
        for n, a in self.ag.items():
            if a.call("open", n=n, h="h")["rc"]: raise RuntimeError("open")
            if n != "K2": a.call("timeouts", h="h", set=25000)
        self.ag["K2"].call("timeouts", h="h", set=int(SHORT * 1000))
        m = lambda n: {"n": n, "k": "m", "f": "m"}
        p, q = self.ag["P"], self.ag["Q"]
        p.call("reg", h="h", els=[m("A.s()"), m("A.a()"), {"n": "T.{i}.", "k": "t", "f": "ar"}, m("T.{i}.m()"), {"n": "A.x", "k": "p", "f": "gs"}, {"n": "A.ev!", "k": "e", "f": "e"}])
        p.call("regrow", h="h", n="T.", inst=1); p.call("regrow", h="h", n="T.", inst=2)
        q.call("reg", h="h", els=[m("B.s()"), {"n": "B.n()", "k": "m", "f": ""}])

    def owner(self, m):
        return self.ag["Q" if m.startswith("B.") else "P"]

    def outof(self, text, rc):
        """-> (token, error properties were added)"""
        err = False
        if text is None or text == "none":
            return "none", err
        if rc and rc != 0:
            m = re.search(values.h("error_code") + r"=i4:(-?\d+)," + values.h("error_string") + "=s:([0-9a-f]*),", text)
            if m:
                err = int(m.group(1)) == rc and len(m.group(2)) > 4 or "bad"
                text = text[:m.start()] + text[m.end():]
        if text in self.tok:
            return self.tok[text], err
        if re.fullmatch(r"o\[[^;]*;;\]", text): return "none", err
        return "?" + text[:300], err

    def collect(self):
        """everything that came in since: runs and results"""
        now = time.monotonic()
        runs, done, expired = [], [], []
        for n, a in self.ag.items():
            a.call("pid")
            for e in a.take():
                if e["ev"] == "method":
                    tk = self.outof(e["in"], 0)[0]
                    runs.append({"c": n, "m": e["n"], "in": tk})
                    if e["async"] >= 0 and tk.startswith("in"): self.asy[int(tk[2:])] = (a, e["async"])
                elif e["ev"] == "methodresp":
                    tk, err = self.outof(e["out"], e["rc"])
                    cand = [i for i, c in self.open.items() if c["c"]["mode"] == "async" and c["c"]["k"] == n and c["c"]["m"] == e["n"]]
                    old = [i for i in cand if self.open[i]["c"]["short"] and now - self.open[i]["t0"] >= SHORT - 0.05]
                    if e["rc"] == 20 and old and tk == "none" and err is True:
                        expired.append(old[0]); del self.open[old[0]]
                    else:
                        done.append({"k": n, "m": e["n"], "i": 0, "rc": e["rc"], "out": tk, "err": err})
                        if tk.startswith("in") and int(tk[2:]) in self.open: del self.open[int(tk[2:])]
                        else: self.unid.append((n, e["n"]))
        for i, c in list(self.open.items()):
            a = self.ag[c["c"]["k"]]
            if c["c"]["mode"] == "sync" and a.ready(c["id"]):
                x = a.wait(c["id"]); del self.open[i]; self.free[c["c"]["k"]].append(c["t"])
                tk, err = self.outof(x.get("out"), x["rc"])
                if x["rc"] == 20 and c["c"]["short"] and now - c["t0"] >= SHORT - 0.05 and tk == "none" and err is True:
                    expired.append(i)
                else:
                    done.append({"k": c["c"]["k"], "m": c["c"]["m"], "i": i, "rc": x["rc"], "out": tk, "err": err})
        return runs, done, expired

    def settle(self, r, want, limit=20.0):
        """collects until want() holds"""
        end = time.monotonic() + limit
        r["runs"], r["done"], r["expired"] = [], [], []
        n = 0
        while True:
            for k, x in zip(("runs", "done", "expired"), self.collect()):
                r[k] += x
            if want(r) or time.monotonic() > end:
                break
            n += 1
            time.sleep(0.002 if n < 50 else 0.02)
        for k, x in zip(("runs", "done", "expired"), self.collect()):     # a run is recorded before its result
            r[k] += x

    def step(self, e):
        r, op = dict(e), e["op"]
        self.unid = []
        if op == "beh":
            out = e["out"] if e["out"] == "echo" else self.o.get(e["out"])
            kw = {} if out is None else {"v": out}
            self.owner(e["m"]).call("cfg", kind="method", n=e["m"], code=21 if e["later"] else e["code"], x=0, **kw)
            self.settle(r, lambda r: True)
        elif op == "start":
            ids = []
            for c in e["calls"]:
                a = self.ag[c["k"]]
                kw = {}
                if c["in"]:
                    t = values.obj(self.rnd, 1); i = t.index(";") + 1
                    t = t[:i] + "%s=u4:%d," % (values.h("id"), c["i"]) + t[i:]
                    self.tok[t] = "in%d" % c["i"]; self.o["in%d" % c["i"]] = t
                    kw["in"] = t
                rec = {"c": c, "t0": time.monotonic(), "t": 0}
                if c["mode"] == "sync":
                    rec["t"] = self.free[c["k"]].pop(0)
                    rec["id"] = a.start("invoke", h="h", n=c["m"], t=rec["t"], **kw)
                else:
                    rec["id"] = a.start("invokeasync", h="h", n=c["m"], timeout=int(SHORT) if c["short"] else 25, t=0, **kw)
                self.open[c["i"]] = rec; ids.append(c["i"])
            for i in ids:      # the call of an asynchronous invocation returns at once
                c = self.open[i]
                if c["c"]["mode"] == "async":
                    x = self.ag[c["c"]["k"]].wait(c["id"])
                    if x["rc"] != 0: r.setdefault("bad", []).append(x["rc"])
            def enough(r):
                # every call has ended or is in the hands of a provider that answers later; an async result that
                # carries no id ends some call of that method
                left = [i for i in ids if i in self.open and i not in self.asy]
                return len(left) <= sum(1 for d in r["done"] if d["i"] == 0 and not d["out"].startswith("in"))
            self.settle(r, enough)
            for d in r["done"]:
                if d["i"] == 0 and not d["out"].startswith("in"):
                    s = [i for i in ids if i in self.open and i not in self.asy and self.open[i]["c"]["m"] == d["m"] and self.open[i]["c"]["k"] == d["k"]]
                    if s: del self.open[s[0]]
        elif op == "respond":
            for x in e["rs"]:
                if x["i"] not in self.asy: continue
                a, k = self.asy.pop(x["i"])
                out = self.o.get("in%d" % x["i"] if x["out"] == "echo" else x["out"])
                a.call("respond", k=k, code=x["code"], **({"out": out} if out else {}))
                c = self.open.get(x["i"])
                if c and c["c"]["mode"] == "async": c["answered"] = True
            ids = [x["i"] for x in e["rs"]]
            # wait for as many results as calls that were open
            n = sum(1 for i in ids if i in self.open)
            self.settle(r, lambda r: len(r["done"]) + len([i for i in r["expired"] if i in ids]) >= n)
            for i in ids:
                c = self.open.get(i)
                if c and c["c"]["mode"] == "async": del self.open[i]
        elif op == "expire":
            self.settle(r, lambda r: not any(c["c"]["short"] for c in self.open.values()), 6.0)
        elif op in ("reg", "unreg"):
            x = self.ag[e["c"]].call(op, h="h", els=[{"n": e["m"], "k": "m", "f": "m"}])
            self.settle(r, lambda r: True)
        elif op == "end":
            time.sleep(0.1)
            self.settle(r, lambda r: True)
        self.trace.append(r)

    def run(self):
        try:
            self.setup()
            for e in self.ops + [{"op": "end"}]:
                try:
                    self.step(e)
                except (Stuck, Died) as x:
                    self.trace.append(dict(e, op="lost", runs=[], done=[], expired=[]))
                    return self.trace, "%s at %s %s" % (x, json.dumps(e), self.bus.asan_report())
            return self.trace, None
        finally:
            self.bus.close()
