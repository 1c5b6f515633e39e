"""Replays AsyncSub histories: provider P (which comes and goes), consumer processes K (two handles) and L (one), an observer O; time passes SPEED times as fast."""
import json, os, random, re, time, hashlib
from .agent import AppBus, Stuck, Died
from .watch_h import Stalls, backtraces

SPEED = 4
CONSUMERS = ("Kh", "Kg", "Lh")
ELS = [{"n": "E.a", "k": "e", "f": "e"}, {"n": "E.b", "k": "e", "f": "e"}, {"n": "A.p", "k": "p", "f": "g"}]
NONE = {"E.a": -1, "E.b": -1, "E.c": -1, "A.p": -1}

class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace, self.build = ops, [], build
        self.r = random.Random(int(hashlib.sha256(json.dumps(ops).encode()).hexdigest()[:12], 16))
        self.m0, r0 = time.monotonic_ns(), time.time_ns()
        self.bus = AppBus(build, extra={"RBV_SPEED": "%d %d %d" % (SPEED, self.m0, r0)})
        self.slow = ops[0].get("slow", 0) if ops else 0
        self.codes = {"E.a": 0, "E.b": 0, "E.c": 0}
        self.lims = {}
        self.ag, self.seen = {}, []
        self.up, self.creg = False, False

    def now(self, real=None):
        n = time.monotonic_ns() if real is None else int(real * 1e9)
        return (n - self.m0) * SPEED // 1000000

    def sleep(self, ms):
        if ms > 0: time.sleep(ms / 1000.0 / SPEED)

    def at(self, e):
        return (e["at"] - self.m0 // 1000000 % 1000000000) % 1000000000

    def code(self, n):
        self.ag["P"].call("cfg", kind="sub", n=n, code=self.codes[n], x=4 if self.slow else 0)

    def start(self):
        p = self.ag["P"] = self.bus.agent("P")
        for n in self.codes: self.code(n)
        p.call("cfg", kind="val", n="A.p", v="i4:1")
        if p.call("open", n="P", h="h")["rc"]: raise RuntimeError("open P")
        rc = p.call("reg", h="h", els=ELS)["rc"]
        self.up, self.creg = True, False
        return rc

    def away(self, sec=15.0):
        end = time.monotonic() + sec
        while any(self.ag["O"].call("compname", h="o", ns=["E.a"])["names"]):
            if time.monotonic() > end: raise Stuck("the daemon still knows E.a")
            time.sleep(0.003)

    def open(self, c, lim):
        a = self.ag[c[0]]
        rc = a.call("open", n=c, h=c)["rc"]
        if rc: raise RuntimeError("open %s %d" % (c, rc))
        a.call("timeouts", h=c, sub=lim)
        self.lims[c] = lim

    def setup(self):
        o = self.ag["O"] = self.bus.agent("O")
        if o.call("open", n="O", h="o")["rc"]: raise RuntimeError("open O")
        for n in ("K", "L"): self.ag[n] = self.bus.agent(n)
        for c in CONSUMERS: self.open(c, 6000)

    def grab(self):
        for k in ("K", "L"):
            a = self.ag.get(k)
            if not a: continue
            if a.alive():
                try: a.call("pid", _wait=5)
                except (Died, Stuck): pass
            for e in a.take():
                if e["ev"] == "subresp": self.seen.append({"op": "resp", "t0": self.at(e), "c": e["h"], "tag": e["tag"], "sub": e["sub"], "rc": e["rc"]})
                elif e["ev"] == "event":
                    m = re.search(r"i4:(\d+)", e["data"])
                    self.seen.append({"op": "event", "t0": self.at(e), "c": e["h"], "tag": e["tag"], "sub": e["sub"], "n": e["n"],
                                      "k": "tick" if e["type"] == 5 else "pub", "d": int(m.group(1)) if m else -1})

    def item(self, x):
        o = {"n": x["n"], "tag": x.get("tag", 0), "interval": x["iv"] // 1000, "duration": 0}
        if x["f"]: o["filter"] = {"op": ">", "v": "i4:%d" % x["f"]}
        return o

    def step(self, e):
        op, r = e["op"], dict(e)
        a = self.ag[e["c"][0]] if "c" in e else None
        if op == "unsub" and not self.up and a.call("exists", h=e["c"], n=e["x"]["n"], subs=[self.item(e["x"])])["rc"]: return     # of an established one while P is away
        r["rc"] = 0
        r["t0"] = self.now()
        if op == "async":
            xs = e["xs"]
            t = e["lim"] // 1000 if e["lim"] else -1
            if len(xs) == 1 and not xs[0]["f"] and not xs[0]["iv"] and self.r.random() < 0.5:
                r["rc"] = a.call("subasync", h=e["c"], n=xs[0]["n"], tag=xs[0]["tag"], timeout=t)["rc"]
            else: r["rc"] = a.call("subexasync", h=e["c"], subs=[self.item(x) for x in xs], timeout=t)["rc"]
        elif op == "sync": r["rc"] = a.call("subex", h=e["c"], subs=[self.item(e["x"])], timeout=0)["rc"]
        elif op == "unsub": r["rc"] = a.call("unsub", h=e["c"], n=e["x"]["n"])["rc"] if e["how"] == "one" else a.call("unsubex", h=e["c"], subs=[self.item(e["x"])])["rc"]
        elif op == "close": r["rc"] = a.call("close", h=e["c"])["rc"]
        elif op == "open": self.open(e["c"], e["lim"])
        elif op == "kill":
            self.grab()
            self.ag[e["k"]].kill()
            self.ag[e["k"]] = self.bus.agent(e["k"])
        elif op == "pstart":
            r["rc"] = self.start()
            r["op"], r["a"] = "change", {"E.a": self.codes["E.a"], "E.b": self.codes["E.b"], "A.p": 0}
        elif op == "regc":
            r["rc"] = self.ag["P"].call("reg", h="h", els=[{"n": "E.c", "k": "e", "f": "e"}])["rc"]
            self.creg = True
            r["op"], r["a"] = "change", {"E.c": self.codes["E.c"]}
        elif op == "pkill":
            if e["how"] == "close": self.ag["P"].call("close", h="h")
            self.ag["P"].kill()
            self.away()
            self.up = False
            self.codes = {n: 0 for n in self.codes}
            r["op"], r["a"] = "change", dict(NONE)
        elif op == "refuse":
            self.codes[e["n"]] = e["v"]
            if self.up: self.code(e["n"])
            if self.up and (e["n"] != "E.c" or self.creg): r["op"], r["a"] = "change", {e["n"]: e["v"]}
            else: r["op"] = "wait"
        elif op == "publish": r["rc"] = self.ag["P"].call("publish", h="h", n=e["n"], type=3, vals=[{"n": "d", "v": "i4:%d" % e["d"]}])["rc"]
        elif op == "respslow":
            for k in ("K", "L"): self.ag[k].call("cfg", kind="onresp", n=e["n"], v="slow", code=e["x"])
            r["op"] = "wait"
        elif op == "wait": self.sleep(e["d"])
        elif op == "setup":
            for c, lim in e["lims"].items(): self.ag[c[0]].call("timeouts", h=c, sub=lim)
        r["t1"] = self.now()
        self.trace.append(r)

    def once(self):
        st = None
        try:
            self.setup()
            st = Stalls(self.now, 0.06)
            for e in self.ops + [{"op": "wait", "d": 5500}, {"op": "end"}]:
                try:
                    self.step(e)
                except Stuck as x:
                    if os.environ.get("RBV_BT"): backtraces(self.ag)
                    self.grab()
                    self.merge([{"op": "stuck", "t0": self.now(), "in": e, "what": str(x)}])
                    return None, str(x)
            self.grab()
            self.merge([])
            rep = self.bus.asan_report()
            return st.first, rep or None
        except Died as x:
            self.merge([{"op": "died", "t0": self.now(), "what": str(x)[:3000]}])
            return None, str(x)
        finally:
            if st: st.stop = True
            self.bus.close()

    def merge(self, more):
        end = [e["t0"] for e in self.trace if e["op"] == "end"]
        self.trace = sorted(self.trace + [e for e in self.seen if not end or e["t0"] <= end[0]] + more, key=lambda e: (e["t0"], 0 if e["op"] not in ("event", "resp") else 1))

def run(build, ops):
    for attempt in range(3):
        r = Replay(build, ops)
        stall, prob = r.once()
        if prob or stall is None: return r.trace, prob
    return [e for e in r.trace if e["t0"] < stall and e.get("t1", 0) < stall], None
