"""Replays DataModel histories in applications using the real library and records what happens."""
import json
from .agent import AppBus, Stuck, Died
from . import values

H = {"a": "a", "r": "r"}
def tname(t):
    """registration name of a template"""
    return ".".join(t) + ("." if t[-1] == "{i}" else "")
def oname(p, dot):
    return ".".join(p) + ("." if dot else "")
def path(n):
    return (n[:-1] if n.endswith(".") else n).split(".")

class Replay:
    def __init__(self, build, ops, session=False):
        self.ops = ops
        self.trace = []
        key = json.dumps(ops)
        self.v = {"v%d" % (i + 1): t for i, t in enumerate(values.table(key, 8))}
        self.v["none"] = "none"
        self.back = {t: k for k, t in self.v.items()}
        self.bus = AppBus(build)
        self.ag = {n: self.bus.agent(n) for n in ("P", "Q", "K", "K2")}
        # the names the components have on the bus: often one begins another
        self.names = dict(zip(self.ag, (("P", "Q", "K", "K2"), ("c", "c.q", "cK", "cK2"), ("c.pp", "c", "c.p", "c.p2"), ("c", "cd", "cde", "b"))[len(key) % 4]))
        self.comp = {v: k for k, v in self.names.items()}

    def val(self, text):
        return self.back.get(text, "?" + str(text)[:200])

    def open(self):
        for n, a in self.ag.items():
            if a.call("open", n=self.names[n], h="h")["rc"] != 0:
                raise RuntimeError("open failed")
        self.ag["K"].call("reg", h="h", els=[{"n": "K.bar()", "k": "m", "f": "m"}])
        self.ag["K"].call("cfg", kind="bar", n="K.bar()")

    def calls(self):
        """handler invocations at the providers, in order per provider"""
        out = []
        for c in ("P", "Q"):
            self.ag[c].call("pid")
            for e in self.ag[c].take():
                if e["ev"] == "get":
                    out.append({"c": c, "ev": "get", "p": path(e["n"]), "from": self.comp.get(e["from"], e["from"])})
                elif e["ev"] == "set":
                    out.append({"c": c, "ev": "set", "p": path(e["n"]), "from": self.comp.get(e["from"], e["from"]), "v": self.val(e["v"]), "session": e["session"], "commit": bool(e["commit"]), "rc": e["rc"]})
                elif e["ev"] == "addrow":
                    out.append({"c": c, "ev": "addrow", "p": path(e["n"]), "alias": e["alias"], "rc": e["rc"]})
                elif e["ev"] == "delrow":
                    out.append({"c": c, "ev": "delrow", "p": path(e["n"]), "rc": e["rc"]})
        return out

    def notes(self):
        out = []
        self.ag["K"].call("pid")
        for e in self.ag["K"].take():
            if e["ev"] == "event":
                out.append({"type": e["type"], "n": path(e["n"]), "row": path(e.get("row", "")), "inst": e.get("inst", -1), "alias": e.get("alias", "")})
        return out

    def step(self, e):
        op = e["op"]
        a = self.ag[e.get("k") or e.get("c")]
        r = dict(e)
        name = oname(e["p"], e.get("dot", False)) if "p" in e else None
        rows = False
        if op == "reg":
            x = a.call("reg", h="h", els=[{"n": tname(q["p"]), "k": q["k"], "f": "".join(q["f"])} for q in e["els"]])
        elif op == "unreg":
            x = a.call("unreg", h="h", els=[{"n": tname(q["p"]), "k": q["k"]} for q in e["ps"]])
        elif op == "get":
            x = a.call("get", h="h", n=name)
            r["v"] = self.val(x["v"]) if x["rc"] == 0 else ""
        elif op == "set":
            x = a.call("set", h="h", n=name, v=self.v[e["v"]], session=e["session"], commit=int(e["commit"]))
        elif op in ("getm", "getw"):
            x = a.call("getm", h="h", ns=[oname(p, False) for p in e["ps"]] if op == "getm" else [name])
            r["props"] = [[path(q["n"]), self.val(q["v"])] for q in x["props"]]; r["num"] = x["num"]
        elif op == "setm":
            x = a.call("setm", h="h", props=[{"n": oname(q[0], False), "v": self.v[q[1]]} for q in e["ps"]], session=e["session"], commit=int(e["commit"]), ext=1)
            r["failed"] = path(x["failed"]) if x["failed"] else ""
        elif op == "addrow":
            x = a.call("addrow", h="h", n=name, **({"alias": e["alias"]} if e["alias"] else {}))
            r["inst"] = x["inst"]; rows = True
        elif op == "delrow":
            x = a.call("delrow", h="h", n=name); rows = True
        elif op == "regrow":
            x = a.call("regrow", h="h", n=oname(e["p"], True), inst=e["inst"], **({"alias": e["alias"]} if e["alias"] else {})); rows = True
        elif op == "unregrow":
            x = a.call("unregrow", h="h", n=name); rows = True
        elif op == "rows":
            x = a.call("rows", h="h", n=name)
            r["rows"] = [[path(q["n"]), str(q["inst"]), q["alias"]] for q in x["rows"]]
        elif op == "info":
            x = a.call("info", h="h", n=name, depth=e["depth"])
            r["els"] = [{"n": path(q["n"]), "dot": q["n"].endswith("."), "c": self.comp.get(q["comp"], q["comp"]), "k": "opTem"[q["k"]], "f": [h for i, h in enumerate("gsarem") if q["access"] >> i & 1]} for q in x["els"]]
        elif op == "store":
            x = a.call("cfg", kind="val", n=oname(e["p"], False), v=self.v[e["v"]])
        elif op == "cfg":
            x = a.call("cfg", kind=e["kind"], n=oname(e["p"], e["kind"] == "addrow"), code=e["code"], **({"v": self.v[e["v"]]} if e["v"] else {}))
            if e["kind"] == "delrow":     # a row may be named with or without a trailing dot
                a.call("cfg", kind="delrow", n=oname(e["p"], True), code=e["code"])
        elif op == "subt":
            x = a.call("sub", h="h", n=oname(e["p"], True), tag=1)
        else:
            raise ValueError(op)
        r["rc"] = x["rc"]
        if rows:
            for c in ("P", "Q"):
                self.ag[c].call("invoke", h="h", n="K.bar()")
        r["calls"] = self.calls()
        r["notes"] = self.notes()
        if op in ("set", "setm"):
            r["store"] = {c: [[path(q["n"]), self.val(q["v"])] for q in self.ag[c].call("store")["vals"]] for c in ("P", "Q")}
        self.trace.append(r)

    def run(self):
        try:
            self.open()
            for e in self.ops:
                try:
                    self.step(e)
                except (Stuck, Died) as x:
                    r = dict(e); r["op"] = "lost"
                    self.trace.append(r)
                    return self.trace, "%s at %s %s" % (x, json.dumps(e), self.bus.asan_report())
            return self.trace, None
        finally:
            self.bus.close()

def ghost_ops():
    def el(p): return {"p": p, "k": "p", "f": ["g", "s"]}
    return [[{"op": "reg", "c": "P", "els": [el(["A", "x"]), el(["A", "y"])]},
             {"op": "store", "c": "P", "p": ["A", "x"], "v": "v1"},
             {"op": "store", "c": "P", "p": ["A", "y"], "v": "v2"},
             {"op": "unreg", "c": "P", "ps": [{"p": ["A", "y"], "k": "p"}]},
             {"op": "getw", "k": "K", "p": ["A"], "dot": True}]]
