"""Replays Handles histories: handles of two processes, observed by a third."""
import json, re, time
from .agent import AppBus, Stuck, Died

ELS = ("X.a", "X.b", "Y.a", "Y.b"); EVS = ("O.e", "O.f", "O.g"); TOPS = ("t.1", "t.2")
SPEED = 4      # time passes faster, because of the period at which values are polled
def proc(s): return "P" if s in "abe" else "Q"
class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace = ops, []
        self.bus = AppBus(build, extra={"RBV_SPEED": "%d %d %d" % (SPEED, time.monotonic_ns(), time.time_ns())})
        self.ag, self.n, self.open, self.tags, self.sent = {}, 0, {}, {}, 0

    def new(self, p):
        self.n += 1
        a = self.ag[p] = self.bus.agent("%s%d" % (p, self.n))
        return a

    def of(self, s): return self.ag[proc(s)]

    def sync(self, p, gone=()):
        """the daemon has handled all that the process has sent; what was made by a handle that was closed is unknown, or will remain known"""
        for s in self.open:
            if proc(s) == p and self.ag[p].call("get", h=s, n="O.p")["rc"]: raise Died("%s cannot get" % s)
        end = time.monotonic() + 3
        for x in gone:
            while self.o.call("get", h="o", n=x)["rc"] == 0 and time.monotonic() < end: time.sleep(0.01)
    def els(self, s): return [m["x"] for m in self.made if m["s"] == s and m["k"] == "el"]

    def opens(self, e, start=False):
        """-> result"""
        return self.of(e["s"]).start("open", n=e["c"], h=e["s"], t=3)
    def opened(self, s, c, tag):
        for z, y in list(self.open.items()):
            if y == c and proc(z) == proc(s): self.closed(z)
        self.open[s] = c
        a = self.of(s)
        if a.call("msgadd", h=s, n="bar." + s, sid=900, tag=0)["rc"]: raise Died("no barrier")
        a.call("timeouts", h=s, get=4000 * SPEED)
    def closed(self, s):
        self.open.pop(s, None)
        for k in [k for k in self.tags if k[0] == s]: self.tags.pop(k)

    def settle(self):
        """-> events and messages by number, of all processes"""
        ev = {"sub": [], "msg": []}
        for p in "PQ":
            z = sorted(s for s in self.open if proc(s) == p)
            if z:
                rc = self.o.call("msgsend", h="o", n="bar." + z[0], data="00", confirm=1)["rc"]
                if rc: raise Died("no answer from %s: %d" % (p, rc))
        for p in "PQ":
            self.ag[p].call("pid")
            for e in self.ag[p].take():
                if e["ev"] == "event": ev["sub"].append({"h": e["h"], "tag": e["tag"], "x": e["n"], "n": int(e["value"][3:]) - self.sent, "#": e["#"], "p": p})
                elif e["ev"] == "msg" and not e["topic"].startswith("bar."):
                    ev["msg"].append({"h": e["h"], "tag": e["tag"], "x": e["topic"], "n": int(e["data"], 16) - self.sent, "#": e["#"], "p": p})
        return ev

    def publish(self, x, i, **k):
        return self.o.start("publish", h="o", n=x, vals=[{"n": "value", "v": "i4:%d" % (self.sent + i)}], **k)
    def message(self, x, i, **k):
        return self.o.start("msgsend", h="o", n=x, data="%08x" % (self.sent + i), **k)
    def strip(self, q): return [{"h": z["h"], "tag": z["tag"], "x": z["x"], "n": z["n"]} for z in q]

    def got(self, x, r):
        """a get's outcome; values name the handle and its registration"""
        v = r["v"] if r["rc"] == 0 and r["v"].startswith("s:") else ""
        h, tag = (bytes.fromhex(v[2:]).decode() + "/0").split("/")[:2] if v else ("?", "0")
        return {"x": x, "rc": r["rc"], "h": h, "tag": int(tag)}

    def element(self, x): return [{"n": x, "k": "p", "f": "gs"}]
    def step(self, e):
        r, op = dict(e), e["op"]
        gone = self.els(e["s"]) if op in ("close", "race") else [x for z, c in self.open.items() if op == "open" and c == e["c"] and proc(z) == proc(e["s"]) for x in self.els(z)]
        if op == "open":
            r["rc"] = self.of(e["s"]).wait(self.opens(e))["rc"]
            if r["rc"] == 0:
                for z, c in list(self.open.items()):
                    if c == e["c"] and proc(z) == proc(e["s"]): self.of(z).call("forget", h=z, **{"as": z + "!"})
                self.opened(e["s"], e["c"], e["tag"])
        elif op == "close":
            r["rc"] = self.of(e["s"]).call("close", h=e["s"], **{"as": e["s"] + "!"})["rc"]
            self.closed(e["s"])
        elif op == "make":
            a, s, x = self.of(e["s"]), e["s"], e["x"]
            if e["k"] == "el":
                r["rc"] = a.call("reg", h=s, els=self.element(x))["rc"]
                if r["rc"] == 0: a.call("cfg", kind="val", n=x, v="s:" + ("%s/%d" % (s, e["tag"])).encode().hex())
            elif e["k"] == "sub": r["rc"] = a.call("sub", h=s, n=x, tag=e["tag"])["rc"]
            else: r["rc"] = a.call("msgadd", h=s, n=x, sid=1, tag=e["tag"])["rc"]
        elif op == "undo":
            a, s, x = self.of(e["s"]), e["s"], e["x"]
            if e["k"] == "el": r["rc"] = a.call("unreg", h=s, els=self.element(x))["rc"]
            elif e["k"] == "sub": r["rc"] = a.call("unsub", h=s, n=x)["rc"]
            else: r["rc"] = a.call("msgrm", h=s, n=x, sid=1)["rc"]
        elif op == "get":
            r["got"] = self.got(e["x"], self.of(e["s"]).call("get", h=e["s"], n=e["x"]))
        elif op == "probe":
            r["gets"] = [self.got(x, self.o.call("get", h="o", n=x)) for x in ELS]
            r["heard"] = []
            for k, xs in (("sub", EVS), ("msg", TOPS)):
                for x in xs:
                    if x in self.out: continue
                    rc = self.o.wait((self.publish if k == "sub" else self.message)(x, 1))["rc"]
                    g = self.settle()
                    other = g["msg" if k == "sub" else "sub"]
                    r["heard"].append({"k": k, "x": x, "rc": rc, "got": self.strip(g[k] + other)})
                    self.sent += 1
        elif op == "watch":
            a, s, x = self.of(e["s"]), e["s"], e["x"]
            a.call("cfg", kind="val", n=x, v="i4:0")
            r["rc"] = a.call("reg", h=s, els=[{"n": x, "k": "p", "f": "g"}])["rc"]
            self.sync(proc(s))
            if r["rc"] == 0: r["rc"] = self.o.call("subex", h="o", subs=[{"n": x, "tag": e["tag"], "interval": 1 if e["iv"] else 0}], timeout=15)["rc"]
            self.iv[x] = e["iv"]
        elif op == "look":
            o = self.o
            for p in "PQ": self.sync(p)
            o.call("pid"); o.take()
            self.look += 1
            r["n"] = self.look
            for p in "PQ":
                for x in self.iv: self.ag[p].call("cfg", kind="val", n=x, v="i4:%d" % self.look)
            want, seen, end = {m["x"] for m in self.made if m["k"] == "watch"}, [], time.monotonic() + 4
            while not want <= {z["x"] for z in seen} and time.monotonic() < end:
                time.sleep(0.02)
                for z in [z for z in o.take() if z["ev"] == "event"]:
                    g = {"x": z["n"], "n": int(re.search(r"=i4:(\d+)", z["data"]).group(1)) if "value" not in z else int(z["value"][3:])}
                    if g["x"] in want and g["n"] < self.look or self.iv[g["x"]] and g in seen: continue
                    seen.append(g)
            r["seen"] = seen
        elif op == "away":
            r["rc"] = self.o.call("unreg", h="o", els=[{"n": e["x"], "k": "e", "f": "e"}])["rc"]
            self.o.call("get", h="o", n="O.p"); self.out.add(e["x"])
        elif op == "use":
            a, s, w = self.of(e["s"]), e["s"] + "!", e["what"]
            kw = {"close": {}, "reg": {"els": self.element("Z.a")}, "unreg": {"els": self.element("X.a")}, "get": {"n": "X.a"}, "set": {"n": "X.a", "v": "i4:1"},
                  "sub": {"n": "O.e", "tag": 1}, "unsub": {"n": "O.e"}, "invoke": {"n": "O.m()"}}[w]
            r["rc"] = a.call(w, h=s, **kw)["rc"]
        elif op == "race":
            s, o = e["s"], self.o
            for p in "PQ":
                for x in ELS: self.ag[p].call("cfg", kind="get", n=x, code=0, x=20 if e["slow"] else 0)
            for a in (self.ag["P"], self.ag["Q"]): a.take()
            half = e["n"] // 2
            ids = [(x, o.start("get", h="o", n=x, t=i + 1)) for i, x in enumerate(e["els"][:3])]
            for i in range(half): self.publish(e["ev"], i + 1, t=8); self.message(e["t"], i + 1, t=9)
            a = self.of(s)
            if e["again"]: c = self.opens(e)
            else: c = a.start("close", h=s, t=3, **{"as": s + "!"})
            last = [self.publish(e["ev"], i + 1, t=8) for i in range(half, e["n"])] + [self.message(e["t"], i + 1, t=9) for i in range(half, e["n"])]
            ids += [(x, o.start("get", h="o", n=x, t=i + 4)) for i, x in enumerate(e["els"][3:])]
            q = a.wait(c)
            r["rc"] = q["rc"]
            mine = {m["tag"] for m in self.made if m["s"] == s}
            for i in last: o.wait(i)
            r["gets"] = [self.got(x, o.wait(i)) for x, i in ids]
            self.closed(s)
            self.sync(proc(s), gone)
            if e["again"] and q["rc"] == 0: self.opened(s, e["c"], e["tag"])
            self.sync(proc(s))
            g = self.settle()
            r["late"] = len([z for z in g["sub"] + g["msg"] if z["tag"] in mine and z["#"] > q["#"]])
            r["events"], r["msgs"] = self.strip(g["sub"]), self.strip(g["msg"])
            self.sent += e["n"]
            for p in "PQ":
                for x in ELS: self.ag[p].call("cfg", kind="get", n=x, code=0, x=0)
        elif op == "kill":
            p = e["p"]
            comps = [self.open[s] for s in list(self.open) if proc(s) == p]
            self.ag[p].kill()
            for s in [s for s in self.open if proc(s) == p]: self.closed(s)
            self.new(p)
            end = time.monotonic() + 5
            for x in [m["x"] for m in self.made if proc(m["s"]) == p and m["k"] == "el"]:
                while self.o.call("get", h="o", n=x)["rc"] == 0 and time.monotonic() < end: time.sleep(0.01)
            time.sleep(0.05)
        if op in ("make", "undo", "open", "close"): self.sync(proc(e["s"]), gone)
        if op in ("make", "watch") and r["rc"] == 0: self.made.append({"s": e["s"], "k": e["k"], "x": e["x"], "tag": e["tag"]})
        elif op == "undo": self.made = [m for m in self.made if (m["s"], m["k"], m["x"]) != (e["s"], e["k"], e["x"])]
        else: self.made = [m for m in self.made if m["s"] in self.open and not (op == "race" and m["s"] == e["s"])]
        self.trace.append(r)

    def run(self):
        try:
            o = self.o = self.bus.agent("O")
            self.made, self.out, self.iv, self.look = [], set(), {}, 0
            if o.call("open", n="obs", h="o")["rc"]: raise RuntimeError("open")
            if o.call("reg", h="o", els=[{"n": x, "k": "e", "f": "e"} for x in EVS])["rc"]: raise RuntimeError("reg")
            if o.call("reg", h="o", els=[{"n": "O.p", "k": "p", "f": "g"}])["rc"]: raise RuntimeError("reg")
            o.call("cfg", kind="val", n="O.p", v="i4:0"); o.call("quiet", x=1)
            o.call("timeouts", h="o", get=4000 * SPEED)
            for p in "PQ": self.new(p).call("quiet", x=0)
            for e in self.ops:
                try: self.step(e)
                except (Stuck, Died) as x:
                    self.trace.append({"op": "lost"})
                    return self.trace, "%s at %s %s" % (x, json.dumps(e), self.bus.asan_report())
            return self.trace, None
        finally:
            self.bus.close()

def replay(build, ops):
    return Replay(build, ops).run()
