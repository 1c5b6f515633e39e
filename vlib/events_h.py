"""Replays Events histories: providers P and Q, consumer processes K (two handles) and L (one)."""
import json, os, random, re, struct, time, hashlib
from .agent import AppBus, Stuck, Died
from . import values

PROPS = ["E.v", "F.v", "T.1.v", "T.2.v", "T.10.v"]
ELS = {"P": [{"n": "E.g!", "k": "e", "f": "e"}, {"n": "E.n!", "k": "e", "f": ""}, {"n": "E.v", "k": "p", "f": "ge"}, {"n": "T.{i}.", "k": "t", "f": "are"},
             {"n": "T.{i}.ev!", "k": "e", "f": "e"}, {"n": "T.{i}.v", "k": "p", "f": "ge"}, {"n": "P.bar()", "k": "m", "f": "m"}],
       "Q": [{"n": "F.g!", "k": "e", "f": "e"}, {"n": "F.v", "k": "p", "f": "ge"}, {"n": "Q.bar()", "k": "m", "f": "m"}]}
SILENT = ["E.v", "F.v", "T.*.v", "T.1.v", "T.2.v", "T.10.v", "T.9.v"]
BIG = ["i8", "u8", "i4", "u4", "i2", "u2", "i1", "u1", "c", "B"]

def levels(r, eqonly):
    """four values in increasing order: list of lists of texts that stand for the same value"""
    k = r.choice(["int", "mixed", "f", "d", "s", "y", "t", "int", "i8"] + (["O", "p", "O"] if eqonly == 2 else []))
    if k == "mixed":
        n = sorted(r.sample(range(0, 127), 4))
        return [["%s:%d" % (t, x) for t in BIG] + ["d:" + struct.pack("d", x).hex(), "f:" + struct.pack("f", x).hex()] for x in n]
    if k in ("int", "i8"):
        t = r.choice(list(values.INTS)) if k == "int" else r.choice(["i8", "u8"])
        lo, hi = values.INTS[t]
        s = {lo, hi} if r.random() < 0.4 else {hi, hi - 1} if r.random() < 0.6 else set()
        while len(s) < 4: s.add(r.choice([r.randrange(lo, hi + 1), max(lo, min(hi, r.randrange(-3, 4)))]))
        return [["%s:%d" % (t, x)] for x in sorted(s)]
    if k in "fd":
        n = sorted(r.sample([-1e30, -2.5, -0.125, 0.0, 1e-20, 0.5, 1.0, 3.25, 1e30], 4))
        return [["%s:%s" % (k, struct.pack(k, x).hex())] for x in n]
    if k == "s":
        n = sorted(set(r.sample(["", "A", "AB", "ABC", "B", "a", "aa", "b", "10", "9", "~", "long" * 80, "long" * 80 + "x"], 4)), key=lambda s: s.encode())
        return [["s:" + values.h(x)] for x in n]
    if k == "y":
        n = sorted(r.sample([b"\0", b"\0\0", b"\0\1", b"\1", b"\1\0\0", b"a", b"ab" * 300, b"ab" * 300 + b"\0", b"\x7f", b"\xff", b"\xff\xff"], 4))
        return [["y:" + x.hex()] for x in n]
    if k == "t":
        n = sorted(r.sample([(y, mo, d, h, mi, s) for y in (71, 100, 124, 125) for mo in (0, 5, 11) for d in (1, 28) for h, mi, s in ((0, 0, 0), (0, 0, 1), (23, 59, 59))], 4))
        return [["t:" + struct.pack("12i", s, mi, h, d, mo, y, 0, 0, 0, 0, 0, 0).hex()] for y, mo, d, h, mi, s in n]
    kind = (lambda r: "O[%s]" % values.obj(r, 1)) if k == "O" else (lambda r: "p[%s=%s]" % (values.h(values.name(r)), values.scalar(r)))
    return [[x] for x in values.table(str(r.random()), 4, kind)]

class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace, self.build = ops, [], build
        key = json.dumps(ops)
        self.r = random.Random(int(hashlib.sha256(key.encode()).hexdigest()[:12], 16))
        self.lv = levels(self.r, ops and ops[0].get("eq"))
        self.idx = {t: str(i) for i, x in enumerate(self.lv) for t in x}
        # the names of the components on the bus: often some begin others
        self.names = ({}, {"P": "c", "Q": "c.q", "Kh": "k", "Kg": "k.k", "Lh": "kk", "Kbar": "kkb", "Lbar": "kb"},
                      {"P": "c.pp", "Q": "c.p", "Kh": "c", "Kg": "c.", "Lh": "c.ppp", "Kbar": "cb", "Lbar": "cbb"})[len(ops) and len(str(ops)) % 3]
        self.watch = bool(ops and ops[0].get("watch"))
        self.objs = {}
        for d in ["d1", "d2", "d3"] + ["r%d" % i for i in range(1, 13)]:
            self.objs[d] = values.obj(self.r, 2)[:-1] + "o[%s;;]]" % values.h(d)
        self.tok = {t: d for d, t in self.objs.items()}
        self.raw = {d: (d.encode() + bytes(self.r.randrange(256) for _ in range(self.r.choice([0, 1, 40, 3000])))).hex() for d in self.objs}
        self.rtok = {t: d for d, t in self.raw.items()}
        self.bus = AppBus(build)
        self.vals = {n: 0 for n in PROPS}
        self.refuse = {}
        self.rows = set()
        self.up = set()
        self.open = {}
        self.ag = {}

    def level(self, i): return self.r.choice(self.lv[i])

    def agent(self, n):
        self.ag[n] = self.bus.agent(n)
        return self.ag[n]

    # ---- starting things
    def provider(self, p):
        a = self.ag.get(p)
        if a is None or not a.alive():
            a = self.agent(p)
            for n in SILENT: a.call("cfg", kind="sub", n=n, code=self.refuse.get(n, 0), x=1)
            for n, c in self.refuse.items():
                if n not in SILENT: a.call("cfg", kind="sub", n=n, code=c, x=0)
            for n, v in self.vals.items(): a.call("cfg", kind="val", n=n, v=self.level(v))
            a.call("cfg", kind="bar", n=p + ".bar()")
            a.call("quiet", x=1)
        rc = a.call("open", n=self.names.get(p, p), h="h")["rc"]
        if rc: raise RuntimeError("%s: open %d" % (p, rc))
        if self.watch:
            rc = a.call("direct", h="h", n="Z.x", **{"as": "z"})["rc"]
            if rc: raise RuntimeError("%s: openDirect %d" % (p, rc))
        # in one call or several, in the order of the list or another one that has tables before their elements
        els = list(ELS[p])
        if self.r.random() < 0.4:
            h = [e for e in els if e["n"].startswith("T.")]; o = [e for e in els if not e["n"].startswith("T.")]
            els = o + h if self.r.random() < 0.5 else h + o
        rc = 0
        for part in ([els] if self.r.random() < 0.5 else [els[:2], els[2:]]):
            rc = rc or a.call("reg", h="h", els=part)["rc"]
        self.up.add(p)
        return rc

    def consumer(self, n):
        a = self.agent(n)
        if a.call("open", n=self.names.get(n + "bar", n + "bar"), h="b")["rc"]: raise RuntimeError("open")
        a.call("reg", h="b", els=[{"n": n + ".bar()", "k": "m", "f": "m"}]); a.call("cfg", kind="bar", n=n + ".bar()")
        for h in ("h", "g") if n == "K" else ("h",):
            self.handle(n + h)

    def handle(self, c):
        rc = self.ag[c[0]].call("open", n=self.names.get(c, c), h=c)["rc"]
        if rc: raise RuntimeError("open %s %d" % (c, rc))

    def setup(self):
        z = self.agent("Z"); z.call("open", n="Z", h="h"); z.call("reg", h="h", els=[{"n": "Z.x", "k": "p", "f": "gs"}])
        self.provider("P"); self.provider("Q")
        self.ag["P"].call("regrow", h="h", n="T.", inst=1); self.rows = {1}
        self.consumer("K"); self.consumer("L")

    # ---- what happened
    def barrier(self, p):
        for k in ("K", "L"):
            rc = self.ag[p].call("invoke", h="h", n=k + ".bar()", _wait=30.0)["rc"]
            if rc: raise Stuck("%s.bar() from %s: %d" % (k, p, rc))

    def collect(self, r):
        r["told"], r["got"] = [], []
        for p in ("P", "Q"):
            a = self.ag[p]
            if not a.alive(): continue
            a.call("pid")
            for e in a.take():
                if e["ev"] == "subhandler":
                    r["told"].append({"p": p, "n": e["n"], "a": e["action"], "f": bool(e["filter"]), "rc": e["rc"] if e["action"] == 0 else 0})
        for k in ("K", "L"):
            a = self.ag[k]
            a.call("pid")
            for e in a.take():
                if e["ev"] == "event":
                    r["got"].append({"c": e["h"], "tag": e["tag"], "sub": e["sub"], "n": e["n"], "t": e["type"], "d": self.data(e)})
                elif e["ev"] == "raw":
                    n = e["n"]
                    r["got"].append({"c": e["h"], "tag": e["tag"], "sub": e["sub"], "n": n[8:] if n.startswith("rawdata.") else n, "t": -1, "d": self.rtok.get(e["data"], "?" + e["data"][:100])})

    def data(self, e):
        t = e["type"]
        if t == 3:
            return self.tok.get(e["data"], "?" + e["data"][:200])
        if t == 2:
            d = "%s>%s" % (self.idx.get(e.get("old"), "?%s" % e.get("old")), self.idx.get(e.get("value"), "?%s" % e.get("value")))
            return d + ((":T" if e["filter"] else ":F") if "filter" in e else "")
        if t == 4:
            if "entries" in e:
                n = e["entries"].split(":")[1]
                if e["n"] == "T.":
                    rows = [(int(bytes.fromhex(a)[4:]), bytes.fromhex(b).decode()) for a, b in re.findall("(70617468[0-9a-f]*)=s:([0-9a-f]*)", e["data"])]
                    if len(rows) == int(n) and all(p == "T.%d." % i for i, p in rows):
                        return "tab:" + "".join("%d," % i for i, _ in sorted(rows))
                    return "?" + e["data"][:300]
                return "num:" + n
            return "iv:" + self.idx.get(e.get("initial"), "?%s" % e.get("initial"))
        if t == 0: return "%s:%s:%s" % (e.get("row", "?"), e.get("inst", "?"), e.get("alias", "?"))
        if t == 1: return e.get("row", "?")
        return "?type%d" % t

    # ---- operations
    def filt(self, f):
        if f[0] == "obj": return {"op": self.r.choice(["=", "!=", ">"]), "v": self.r.choice(["O[%s]" % values.obj(self.r, 1), "p[%s=%s]" % (values.h(values.name(self.r)), values.scalar(self.r))])}
        if f[0] == "rel": return {"op": f[1], "v": self.level(f[2])}
        o = {"op": f[0], "l": self.filt(f[1])}
        if f[0] != "not": o["r"] = self.filt(f[2])
        return o

    def sub(self, x):
        o = {"n": x["n"], "tag": x.get("tag", 0), "pos": int(x.get("pos", False)), "raw": int(x.get("raw", False))}
        if x["f"]: o["filter"] = self.filt(x["f"])
        return o

    def publish(self, p, us):
        ids = []
        if any(u["t"] == "R" for u in us):
            # the routes of raw subscriptions are set up by one-way messages to the daemon: let it process them
            for k in ("K", "L"): self.ag[k].call("compname", h="b", ns=[k + ".bar()"])
        for u in us:
            a = self.ag[p]
            if u["t"] == "R": ids.append(a.start("publishraw", h="h", n=u["n"], data=self.raw[u["d"]]))
            elif u["t"] == "G": ids.append(a.start("publish", h="h", n=u["n"], data=self.objs[u["d"]]))
            else: ids.append(a.start("publish", h="h", n=u["n"], type=2, vals=[{"n": "value", "v": self.level(u["w"])}, {"n": "oldValue", "v": self.level(u["o"])}]))
        return ids

    def cstart(self, e, **k):
        c, xs, a = e["c"], e["xs"], self.ag[e["c"][0]]
        if e["op"] == "sub":
            to = 15 if e.get("to", True) else 0
            if e["how"] == "plain": return a.start("sub", h=c, n=xs[0]["n"], tag=xs[0]["tag"], timeout=to, **k)
            if e["how"] == "raw":
                if self.r.random() < 0.5: return a.start("sub", h=c, n=xs[0]["n"], tag=xs[0]["tag"], raw=1, timeout=to, **k)
                return a.start("subex", h=c, subs=[self.sub(x) for x in xs], raw=1, timeout=to, **k)
            return a.start("subex", h=c, subs=[self.sub(x) for x in xs], timeout=to, **k)
        if e["how"] == "plain": return a.start("unsub", h=c, n=xs[0]["n"], **k)
        if e["how"] == "raw":
            if self.r.random() < 0.5: return a.start("unsub", h=c, n=xs[0]["n"], raw=1, **k)
            return a.start("unsubex", h=c, subs=[self.sub(x) for x in xs], raw=1, **k)
        return a.start("unsubex", h=c, subs=[self.sub(x) for x in xs], **k)

    def step(self, e):
        r, op = dict(e), e["op"]
        r["rc"] = 0
        if op in ("sub", "unsub"):
            r["rc"] = self.ag[e["c"][0]].wait(self.cstart(e), 90)["rc"]
        elif op == "has":
            a = self.ag[e["c"][0]]
            if not e["x"]["f"] and self.r.random() < 0.5: r["rc"] = a.call("exist1", h=e["c"], n=e["x"]["n"])["rc"]
            else: r["rc"] = a.call("exists", h=e["c"], n=e["x"]["n"], subs=[self.sub(e["x"])])["rc"]
        elif op == "pub":
            a = self.ag[e["p"]]
            r["rcs"] = [a.wait(i)["rc"] for i in self.publish(e["p"], e["us"])]
            self.barrier(e["p"])
        elif op == "race":
            c, a = self.ag[e["c"][0]], self.ag[e["p"]]
            d = self.r.choice([0, 0, 0.0005, 0.001, 0.002])
            o = {"op": e["kind"], "c": e["c"], "how": self.r.choice(["plain", "ex"]), "xs": [e["x"]]}
            if self.r.random() < 0.5:
                i = self.cstart(o); time.sleep(d); ids = self.publish(e["p"], e["us"])
            else:
                ids = self.publish(e["p"], e["us"]); time.sleep(d); i = self.cstart(o)
            r["rcs"] = [a.wait(j)["rc"] for j in ids]
            r["rc"] = c.wait(i, 90)["rc"]
            self.barrier(e["p"])
        elif op == "addrow":
            r["rc"] = self.ag["P"].call("regrow", h="h", n="T.", inst=e["r"], **({"alias": e["alias"]} if e["alias"] else {}))["rc"]
            self.rows.add(e["r"]); self.barrier("P")
        elif op == "delrow":
            if e["how"] == "prov": r["rc"] = self.ag["P"].call("unregrow", h="h", n="T.%d." % e["r"])["rc"]
            else: r["rc"] = self.ag["L"].call("delrow", h="b", n="T.%d." % e["r"])["rc"]
            self.rows.discard(e["r"]); self.barrier("P")
        elif op == "refuse":
            if e["code"]: self.refuse[e["n"]] = e["code"]
            else: self.refuse.pop(e["n"], None)
            for p in ("P", "Q"):
                if self.ag[p].alive(): self.ag[p].call("cfg", kind="sub", n=e["n"], code=e["code"], x=1 if e["n"] in SILENT else 0)
        elif op == "val":
            self.vals[e["n"]] = e["v"]
            for p in ("P", "Q"):
                if self.ag[p].alive(): self.ag[p].call("cfg", kind="val", n=e["n"], v=self.level(e["v"]))
        elif op == "down":
            p = e["p"]
            if e["how"] == "close":
                if self.watch: self.ag[p].call("closedirect", h="z")
                r["rc"] = self.ag[p].call("close", h="h")["rc"]
            else: self.ag[p].kill()
            self.up.discard(p)
            if p == "P": self.rows = set()
            self.away([p])
        elif op == "up":
            r["rc"] = self.provider(e["p"])
        elif op == "close":
            r["rc"] = self.ag[e["c"][0]].call("close", h=e["c"])["rc"]
        elif op == "open":
            self.handle(e["c"])
        elif op == "kill":
            n = e["a"]
            self.ag[n].kill()
            self.away([n + "bar"])
            # the daemon has told the providers; they have handled it when they have answered this
            for p in sorted(self.up):
                rc = self.ag["Z"].call("invoke", h="h", n=p + ".bar()")["rc"]
                if rc: raise Stuck("%s.bar(): %d" % (p, rc))
            self.killed(n)
        elif op == "end":
            for p in sorted(self.up): self.barrier(p)
        self.collect(r)
        self.trace.append(r)

    def killed(self, n):
        a = self.agent(n)
        if a.call("open", n=self.names.get(n + "bar", n + "bar"), h="b")["rc"]: raise RuntimeError("open")
        a.call("reg", h="b", els=[{"n": n + ".bar()", "k": "m", "f": "m"}]); a.call("cfg", kind="bar", n=n + ".bar()")

    def away(self, names, sec=15.0):
        """waits until the daemon no longer knows these components"""
        end = time.monotonic() + sec
        while True:
            x = self.ag["Z"].call("compname", h="h", ns=[n + ".bar()" if len(n) == 1 else n[0] + ".bar()" for n in names])
            if not any(x["names"]): return
            if time.monotonic() > end: raise Stuck("the daemon still knows %s" % x["names"])
            time.sleep(0.003)

    def run(self):
        try:
            self.setup()
            for e in self.ops + [{"op": "end"}]:
                try:
                    t0 = time.monotonic()
                    self.step(e)
                    if os.environ.get("RBV_TIMES") and time.monotonic() - t0 > 0.5: print("%.2f" % (time.monotonic() - t0), e)
                except (Stuck, Died) as x:
                    self.trace.append(dict(e, op="lost", rc=-1, rcs=[], told=[], got=[]))
                    return self.trace, "%s at %s %s" % (x, json.dumps(e), self.bus.asan_report())
            return self.trace, None
        finally:
            self.bus.close()

def unwatched_ops():
    return [[{"op": "setup", "watch": False, "eq": 0},
             {"op": "sub", "c": "Lh", "how": "plain", "to": True, "xs": [{"n": "E.g!", "f": [], "raw": False, "tag": 1, "pos": False}]},
             {"op": "kill", "a": "L"},
             {"op": "pub", "p": "P", "us": [{"n": "E.g!", "t": "G", "d": "d1", "w": 0, "o": 0}]}]]
