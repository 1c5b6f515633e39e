"""Replays Messages histories: listeners on topics of four client handles in three processes."""
import json, random, signal
from .agent import AppBus, Stuck, Died

OWN = {"K": ("k1", "k2"), "L": ("k3",), "M": ("k4",)}
class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace = ops, []
        self.rnd = random.Random(json.dumps(ops))
        self.bus = AppBus(build)
        self.ag, self.n, self.msgs = {}, 0, {}

    def proc(self, p):
        self.n += 1
        a = self.ag[p] = self.bus.agent("%s%d" % (p, self.n))
        bar = p.lower() + "bar"
        for k in (bar,) + OWN[p]: self.open(a, k)
        if a.call("reg", h=bar, els=[{"n": p + ".bar", "k": "p", "f": "g"}])["rc"]: raise RuntimeError("reg")
        a.call("cfg", kind="val", n=p + ".bar", v="i4:0")
        a.call("quiet", x=0)

    def open(self, a, k):
        rc = a.call("open", n=k, h=k)["rc"]
        if not rc: a.call("timeouts", h=k, get=8000)
        return rc

    def of(self, k):
        return self.ag["K" if k in ("k1", "k2") else "L" if k == "k3" else "M"]

    def settle(self, *senders):
        """what was sent has been handled -> what the listeners were given"""
        for s in senders or "K":
            for p in "KLM":
                if self.ag[s].call("get", h=s.lower() + "bar", n=p + ".bar")["rc"]: raise Died("no answer from " + p)
        got = {}
        for p in "KLM":
            self.ag[p].call("pid")
            got[p] = [{"h": e["h"], "tag": e["tag"], "t": e["topic"], "id": self.msgs.get(e["data"], -1)} for e in self.ag[p].take() if e["ev"] == "msg"]
        return got

    def data(self, n, sizes=(0, 1, 2, 7, 8, 40, 300, 5000)):
        """n messages that differ from all others -> ids, data"""
        ids, out = [], []
        for _ in range(n):
            i = len(self.msgs) + 1
            size = self.rnd.choice(sizes) if i % 5 or len(sizes) < 8 else self.rnd.choice((60000, 0, 20000))
            d = bytes(self.rnd.randrange(256) for _ in range(size)).hex()
            if d in self.msgs: d += "%08x" % i
            self.msgs[d] = i
            ids.append(i); out.append(d)
        return ids, out

    def procof(self, k):
        return "K" if k in ("k1", "k2") else "L" if k == "k3" else "M"

    def change(self, e, what, k, **kw):
        a = self.of(k)
        if what == "rm": return a.start("msgrm", h=k, n=e["t"], sid=e["s"], **kw)
        if what == "rmall": return a.start("msgrmall", h=k, **kw)
        if what == "close": return a.start("close", h=k, **kw)
        return a.start("msgadd", h=k, n=e["t"], sid=e["s"], tag=e["tag"], **kw)

    def step(self, e):
        r, op = dict(e), e["op"]
        who = ()
        if op in ("add", "rm", "rmall", "close"): r["rc"] = self.of(e["k"]).wait(self.change(e, op, e["k"]))["rc"]
        elif op == "has": r["rc"] = self.of(e["k"]).call("msghas", h=e["k"], n=e["t"])["rc"]
        elif op == "open": r["rc"] = self.open(self.of(e["k"]), e["k"])
        elif op == "again":
            self.ag[e["p"]].kill()
            self.bus_gone(e["p"])
            self.proc(e["p"])
        elif op == "stall":
            who = (self.procof(e["k"]),)
            a, z = self.of(e["k"]), self.ag[e["p"]].p
            r["ids"], ds = self.data(e["n"], (0, 1, 9))
            z.send_signal(signal.SIGSTOP)
            try: r["rcs"] = [a.call("msgsend", h=e["k"], n=e["t"], data=d, confirm=int(e["confirm"])) ["rc"] for d in ds]
            finally: z.send_signal(signal.SIGCONT)
        elif op in ("send", "race"):
            who = (self.procof(e["k"]),)
            a = self.of(e["k"])
            r["ids"], ds = self.data(e["n"])
            run = [a.start("msgsend", h=e["k"], n=e["t"], data=d, confirm=int(e["confirm"]), t=1) for d in ds[:len(ds) // 2]] if op == "race" else []
            if op == "race": c = self.change(e, e["what"], e["r"], t=2)
            run += [a.start("msgsend", h=e["k"], n=e["t"], data=d, confirm=int(e["confirm"]), t=1) for d in ds[len(run):]]
            r["rcs"] = [a.wait(i)["rc"] for i in run]
            if op == "race":
                r["rc"] = self.of(e["r"]).wait(c)["rc"]
                if self.procof(e["r"]) not in who: who += (self.procof(e["r"]),)
        r["got"] = self.settle(*who)
        self.trace.append(r)

    def bus_gone(self, p):
        import time
        end, o = time.monotonic() + 5, self.ag["K" if p != "K" else "L"]
        while o.call("get", h=("k" if p != "K" else "l") + "bar", n=p + ".bar")["rc"] == 0 and time.monotonic() < end: time.sleep(0.01)

    def run(self):
        try:
            for p in "KLM": self.proc(p)
            self.settle()
            for e in self.ops:
                try: self.step(e)
                except (Stuck, Died) as x:
                    self.trace.append({"op": "lost"})
                    return self.trace, "%s at %s %s" % (x, json.dumps(e), self.bus.asan_report())
            return self.trace, None
        finally:
            self.bus.close()

def replay(build, ops):
    return Replay(build, ops).run()
