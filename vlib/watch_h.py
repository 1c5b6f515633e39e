"""Replays Watch histories: provider P, consumer processes K (two handles) and L (one); time passes SPEED times as fast."""
import json, os, random, re, time, hashlib, threading
from .agent import AppBus, Stuck, Died
from . import values, events_h

SPEED = 4
PROPS = ["A.p", "A.q", "A.s", "T.1.x", "T.2.x"]
ELS = [{"n": "A.p", "k": "p", "f": "gse"}, {"n": "A.q", "k": "p", "f": "g"}, {"n": "A.s", "k": "p", "f": "ge"}, {"n": "A.w", "k": "p", "f": "s"},
       {"n": "T.{i}.", "k": "t", "f": "ar"}, {"n": "T.{i}.x", "k": "p", "f": "g"}]
CONSUMERS = ("Kh", "Kg", "Lh")

def backtraces(agents):
    """for the developer: where our processes are"""
    import subprocess
    for k, a in agents.items():
        if a.alive():
            o = subprocess.run(["gdb", "-p", str(a.p.pid), "-batch", "-ex", "thread apply all bt 14"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
            open(os.environ["RBV_BT"] + k + ".%d" % os.getpid(), "w").write("\n".join(l for l in o.split("\n") if l.startswith(("#", "Thread"))))

class Stalls:
    """notices when this machine does not run us for a while (by the clock of the run)"""
    def __init__(self, now, limit):
        self.now, self.limit, self.first, self.stop = now, limit, None, False
        self.th = threading.Thread(target=self.run, daemon=True); self.th.start()
    def run(self):
        t = time.monotonic()
        while not self.stop:
            time.sleep(0.01)
            u = time.monotonic()
            if u - t > 0.01 + self.limit and self.first is None:
                self.first = self.now(t) - 300
            t = u

class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace, self.build = ops, [], build
        self.r = random.Random(int(hashlib.sha256(json.dumps(ops).encode()).hexdigest()[:12], 16))
        self.lv = [x[0] for x in events_h.levels(self.r, 0)]
        self.idx = {t: i for i, t in enumerate(self.lv)}
        self.m0, r0 = time.monotonic_ns(), time.time_ns()
        self.bus = AppBus(build, extra={"RBV_SPEED": "%d %d %d" % (SPEED, self.m0, r0)})
        self.vals = {n: 0 for n in PROPS}
        self.slow = ops[0].get("slow", 0) if ops else 0
        self.rows = set()
        self.expect = {}       # subscription with a duration -> when it should be complete
        self.ag = {}
        self.seen = []
        self.resub = {}

    def now(self, real=None):
        n = time.monotonic_ns() if real is None else int(real * 1e9)
        return (n - self.m0) * SPEED // 1000000

    def sleep(self, ms):
        if ms > 0: time.sleep(ms / 1000.0 / SPEED)

    def provider(self):
        a = self.ag["P"] = self.bus.agent("P")
        a.call("cfg", kind="sub", n="A.s", code=0, x=1)
        for n, v in self.vals.items():
            a.call("cfg", kind="val", n=n, v=self.lv[v])
            if self.slow and n == "A.p": a.call("cfg", kind="get", n=n, code=0, x=self.slow)
        if a.call("open", n="P", h="h")["rc"]: raise RuntimeError("open P")
        if self.kills and a.call("direct", h="h", n="Z.x", **{"as": "z"})["rc"]: raise RuntimeError("openDirect")
        return a.call("reg", h="h", els=ELS)["rc"]

    def failing(self, on):
        self.ag["P"].call("cfg", kind="get", n="A.q", code=5 if on else 0, x=0)

    def handle(self, c):
        rc = self.ag[c[0]].call("open", n=c, h=c)["rc"]
        if rc: raise RuntimeError("open %s %d" % (c, rc))

    def setup(self):
        self.kills = any(e["op"] == "kill" for e in self.ops)
        if self.kills:      # P hears of vanished components once it has a private connection
            z = self.ag["Z"] = self.bus.agent("Z")
            if z.call("open", n="Z", h="h")["rc"] or z.call("reg", h="h", els=[{"n": "Z.x", "k": "p", "f": "g"}])["rc"]: raise RuntimeError("Z")
        self.provider()
        self.ag["P"].call("regrow", h="h", n="T.", inst=1)
        for n in ("K", "L"): self.ag[n] = self.bus.agent(n)
        for c in CONSUMERS: self.handle(c)

    def at(self, e):
        return (e["at"] - self.m0 // 1000000 % 1000000000) % 1000000000

    def grab(self):
        for k in self.ag:
            a = self.ag[k]
            if a.alive():
                try: a.call("pid", _wait=5)
                except (Died, Stuck): pass
            for e in a.take():
                if e["ev"] == "get":
                    if k == "P" and not any(e["from"] == c for c in CONSUMERS): self.seen.append({"op": "asked", "n": e["n"], "t0": self.at(e)})
                elif e["ev"] == "event":
                    if e["type"] == 2 and e["tag"] in self.ivtags: continue
                    self.seen.append(self.event(e))

    def event(self, e):
        x = {"op": "event", "t0": self.at(e), "c": e["h"], "tag": e["tag"], "sub": e["sub"], "n": e["n"]}
        if e["type"] == 2:
            x.update(k="chg", o=self.idx.get(e.get("old"), -1), w=self.idx.get(e.get("value"), -1), by=e.get("by", "?"),
                     flt="" if "filter" not in e else "T" if e["filter"] else "F")
            if -1 in (x["o"], x["w"]): x["text"] = [e.get("old"), e.get("value")]
        elif e["type"] in (5, 6):
            d = []
            for name, v in re.findall(r"([0-9a-f]+)=([a-zA-Z][0-9]?:[^,;\]]*)", e["data"]):
                name = bytes.fromhex(name).decode("latin1")
                if name != "numberOfEntries": d.append([name, self.idx.get(v, -1)])
            x.update(k="tick" if e["type"] == 5 else "done", data=sorted(d), entries=int(e["entries"].split(":")[1]) if "entries" in e else -1)
        else: x.update(k="type%d" % e["type"])
        return x

    def item(self, x):
        o = {"n": x["n"], "tag": x.get("tag", 0), "interval": x["iv"], "duration": x["dur"]}
        def filt(f): return {"op": f[1], "v": self.lv[f[2]]} if f[0] == "rel" else {"op": "not", "l": filt(f[1])}
        if x["f"]: o["filter"] = filt(x["f"])
        return o

    def step(self, e):
        op, r = e["op"], dict(e)
        P = self.ag["P"]
        if "x" in e:        # nothing at the very time at which a subscription completes
            k = json.dumps([e["c"], e["x"]["n"], e["x"]["iv"], e["x"]["dur"]])
            while k in self.expect and abs(self.now() - self.expect[k]) < 900: self.sleep(100)
        if op == "restart": self.sleep(300)
        r["rc"] = 0
        r["t0"] = self.now()
        if op in ("sub", "unsub"):
            a, x = self.ag[e["c"][0]], e["x"]
            if not x["iv"] and not x["f"] and self.r.random() < 0.5:
                r["rc"] = a.call("sub", h=e["c"], n=x["n"], tag=x["tag"], timeout=15)["rc"] if op == "sub" else a.call("unsub", h=e["c"], n=x["n"])["rc"]
            elif op == "sub": r["rc"] = a.call("subex", h=e["c"], subs=[self.item(x)], timeout=15)["rc"]
            else: r["rc"] = a.call("unsubex", h=e["c"], subs=[self.item(x)])["rc"]
            if op == "sub" and not r["rc"] and x["dur"]:
                self.expect[k] = self.now() + (x["dur"] // x["iv"] + 1) * (x["iv"] * 1000 + self.slow)
        elif op == "val":
            self.vals[e["n"]] = e["v"]
            P.call("cfg", kind="val", n=e["n"], v=self.lv[e["v"]])
        elif op == "set":
            self.vals[e["n"]] = e["v"]
            r["rc"] = self.ag[e["c"][0]].call("set", h=e["c"], n=e["n"], v=self.lv[e["v"]])["rc"]
        elif op == "addrow": r["rc"] = P.call("regrow", h="h", n="T.", inst=e["r"])["rc"]
        elif op == "delrow": r["rc"] = P.call("unregrow", h="h", n="T.%d." % e["r"])["rc"]
        elif op == "close": r["rc"] = self.ag[e["c"][0]].call("close", h=e["c"])["rc"]
        elif op == "open": self.handle(e["c"])
        elif op == "wait": self.sleep(e["d"])
        elif op == "restart":
            self.grab()
            if e["how"] == "close": P.call("close", h="h")
            P.kill()
            self.away()
            r["rc"] = self.provider()
        elif op == "fail": self.failing(not e["on"])
        elif op == "kill":
            self.grab()
            self.ag[e["k"]].kill()
            self.sleep(200)
            self.ag[e["k"]] = self.bus.agent(e["k"])
        elif op == "end": pass
        r["t1"] = self.now()
        if "x" in r: r["x"] = dict(r["x"], iv=r["x"]["iv"] * 1000, dur=r["x"]["dur"] * 1000)
        self.trace.append(r)

    def away(self, sec=15.0):
        end = time.monotonic() + sec
        while any(self.ag["K"].call("compname", h="Kh" if "Kh" in self.open else "Kg" if "Kg" in self.open else "Lh", ns=["A.p"])["names"]):
            if time.monotonic() > end: raise Stuck("the daemon still knows A.p")
            time.sleep(0.003)

    def once(self):
        self.ivtags = {e["x"]["tag"] for e in self.ops if e["op"] == "sub" and e["x"]["iv"]}
        self.open = set(CONSUMERS)
        st = None
        try:
            self.setup()
            st = Stalls(self.now, 0.06)
            for e in self.ops + [{"op": "wait", "d": 4500}, {"op": "end"}]:
                try:
                    self.step(e)
                except Stuck as x:
                    if os.environ.get("RBV_BT"): backtraces(self.ag)
                    self.grab()
                    self.merge([{"op": "stuck", "t0": self.now(), "in": e, "what": str(x)}])
                    return None, str(x)
                if e["op"] == "close": self.open.discard(e["c"])
                if e["op"] == "kill": self.open = {c for c in self.open if c[0] != e["k"]}
                if e["op"] == "open": self.open.add(e["c"])
            self.grab()
            self.merge([])
            rep = self.bus.asan_report()
            return st.first, rep or None
        except Died as x:
            self.merge([{"op": "died", "t0": self.now(), "what": str(x)[:3000]}])
            return None, str(x)
        finally:
            if st: st.stop = True
            self.bus.close()

    def merge(self, more):
        end = [e["t0"] for e in self.trace if e["op"] == "end"]
        # what the consumers saw, in the order in which they saw it, among what was done
        self.trace = sorted(self.trace + [e for e in self.seen if not end or e["t0"] <= end[0]] + more, key=lambda e: (e["t0"], 0 if e["op"] not in ("event", "asked") else 1))

def run(build, ops):
    for attempt in range(3):
        r = Replay(build, ops)
        stall, prob = r.once()
        if prob or stall is None: return r.trace, prob
    return [e for e in r.trace if e["t0"] < stall and e.get("t1", 0) < stall], None
