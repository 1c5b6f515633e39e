"""Replays Session histories: requests of four client handles in three processes to the session manager."""
import json, random, re, time
from .agent import AppBus, Stuck, Died
from .bus import Proc
from . import values

SIGNAL = "currentSessionIDSignal"
KEYS = ("k1", "k2", "k3", "k4")
ID = re.compile(values.h("sessionid") + r"=i4:(-?\d+),")
class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace, self.build = ops, [], build
        self.rnd = random.Random(json.dumps(ops))
        self.bus = AppBus(build, session=True)
        self.ag, self.n = {}, 0

    def proc(self, p):
        self.n += 1
        a = self.ag[p] = self.bus.agent("%s%d" % (p, self.n))
        for k in {"K": ("k1", "k2"), "L": ("k3",), "M": ("k4",), "P": ("p",)}[p]:
            if a.call("open", n=k, h=k)["rc"]: raise RuntimeError("open")
            a.call("timeouts", h=k, set=8000)
        first = {"K": "k1", "L": "k3", "M": "k4", "P": "p"}[p]
        if a.call("reg", h=first, els=[{"n": p + ".bar", "k": "p", "f": "gs"}])["rc"]: raise RuntimeError("reg")
        a.call("cfg", kind="val", n=p + ".bar", v="i4:0")
        a.call("quiet", x=0)

    def of(self, k):
        return self.ag["K" if k in ("k1", "k2") else "L" if k == "k3" else "M"]

    def settle(self):
        """what was sent to the clients has been handled -> what they were told"""
        ann = {k: [] for k in KEYS}
        for p in "KLM":
            if self.ag["P"].call("get", h="p", n=p + ".bar")["rc"]: raise Died("no answer from " + p)
            a = self.ag[p]
            a.call("pid")
            for e in a.take():
                if e["ev"] != "event": continue
                m = ID.search(e["data"] or "")
                ann[e["h"]].append(int(m.group(1)) if m and e["n"] == SIGNAL and e["type"] == 3 and e["tag"] == KEYS.index(e["h"]) else -99)
        return ann

    def answers(self):
        """the last of the manager's methods to be registered"""
        return self.ag["P"].call("endsess", h="p", s=777)["rc"] in (0, 12)

    def until(self, ok, limit=8.0):
        end = time.monotonic() + limit
        while not ok():
            if time.monotonic() > end: return 1
            time.sleep(0.01)
        return 0

    def step(self, e):
        r, op = dict(e), e["op"]
        h = self.ag["P"]
        if op == "calls":
            ids = []
            for i, c in enumerate(e["calls"]):
                a = self.of(c["c"])
                cmd = {"create": "sess", "current": "getsess", "close": "endsess"}[c["what"]]
                ids.append((a, a.start(cmd, h=c["c"], s=c["id"], t=i + 1 if len(e["calls"]) > 1 else 0)))
            r["res"] = []
            for a, i in ids:
                x = a.wait(i)
                r["res"].append({"rc": x["rc"], "s": x.get("s", 0)})
        elif op == "sub": r["rc"] = self.of(e["c"]).call("sub", h=e["c"], n=SIGNAL, tag=KEYS.index(e["c"]))["rc"]
        elif op == "unsub": r["rc"] = self.of(e["c"]).call("unsub", h=e["c"], n=SIGNAL)["rc"]
        elif op == "stop":
            self.bus.sm.kill()
            self.until(lambda: h.call("getsess", h="p")["rc"] != 0)
        elif op == "start":
            self.bus.sm = Proc([self.build.session_mgr], self.build.env(self.bus.root), self.bus.root + "/sm.log")
            r["rc"] = self.until(self.answers)
        elif op == "again":
            self.ag[e["p"]].kill()
            self.until(lambda: h.call("get", h="p", n=e["p"] + ".bar")["rc"] != 0)
            self.proc(e["p"])
        elif op == "set":
            v, n = "i4:%d" % self.rnd.randrange(1, 1000000), "P.bar"
            a = self.of(e["c"])
            kw = dict(h=e["c"], session=e["id"] % 2**32 if e["id"] >= 0 else e["id"], commit=int(e["commit"]))
            r["rc"] = (a.call("set", n=n, v=v, **kw) if e["how"] == "set" else a.call("setm", props=[{"n": n, "v": v}], **kw))["rc"]
            h.call("pid")
            r["runs"] = [{"id": x["session"] - (2**32 if x["session"] >= 2**31 else 0), "commit": bool(x["commit"]), "same": x["v"] == v and x["n"] == n and x["from"] == e["c"]} for x in h.take() if x["ev"] == "set"]
        h.take()
        r["ann"] = self.settle()
        self.trace.append(r)

    def run(self):
        try:
            for p in "PKLM": self.proc(p)
            self.until(self.answers)
            self.settle()
            for e in self.ops:
                try:
                    self.step(e)
                except (Stuck, Died) as x:
                    self.trace.append({"op": "lost"})
                    return self.trace, "%s at %s %s" % (x, json.dumps(e), self.bus.asan_report())
                if not self.bus.sm.alive() and e["op"] != "stop" and self.trace and not self.down():
                    self.trace.append({"op": "lost"})
                    return self.trace, "the session manager died at %s %s" % (json.dumps(e), self.bus.asan_report())
            return self.trace, None
        finally:
            self.bus.close()

    def down(self):
        u = [e["op"] for e in self.trace if e["op"] in ("stop", "start")]
        return bool(u) and u[-1] == "stop"

def replay(build, ops):
    return Replay(build, ops).run()
