"""Replays Router behaviours against the real routing daemon over raw sockets and records what happens."""
import json
from . import wire
from .bus import Bus

REAL = {"A..B": "A..B", "LONG": "L" * 200, "DEEP": ".".join(["a"] * 40), "CTRL": "A\x01B",
        # looked up only: more tokens than a name may have, and a very long token
        "MANY": "A." * 60 + "b", "A.WIDE": "A." + "w" * 120}
SERVICE = {"components": "_registered_components", "destinations": "_RTROUTED.INBOX.QUERY",
           "elements": "_enumerate_elements", "owner": "_trace_origin_object"}
UNREAL = {v: k for k, v in REAL.items()}
SERVICES = set(SERVICE.values()) | {"_RTROUTED.INBOX.SUBSCRIBE"}

def real(n):
    return REAL.get(n["s"], n["s"])

class Replay:
    def __init__(self, build, ops):
        self.bus = Bus(build)
        self.cl = {}
        self.ops = ops
        self.nbar = 0
        self.trace = []

    def barrier(self, c):
        """everything c sent before has been handled, and its consequences delivered, when this returns"""
        self.nbar += 1
        tag = b"BAR%d" % self.nbar
        self.cl[c].send("_box." + c, tag, flags=0, seq=0)
        self.cl[c].wait_for(lambda m: m["payload"] == tag)

    def collect(self):
        out = []
        for n in sorted(self.cl):
            for m in self.cl[n].drain():
                out.append((n, m))
        return out

    def rec(self, n, m):
        topic, reply, body = UNREAL.get(m["topic"], m["topic"]), m["reply"], ""
        if m["flags"] & wire.RSP and reply in SERVICES:
            body = ""
        elif topic == "_RTROUTED.ADVISORY" and m["payload"][:1] == b"{":
            j = wire.body(m)
            body = "%d:%s" % (j["event"], j["inbox"])
        else:
            body = m["payload"].decode("latin1")
        return {"to": n, "ctl": m["ctl"], "topic": topic, "flags": m["flags"], "seq": m["seq"], "reply": reply, "body": body}

    def step(self, e):
        op, c = e["op"], e["c"]
        res = {}
        if op == "connect":
            self.cl[c] = self.bus.client(c)
        elif op == "close":
            k = self.cl.pop(c)
            if e.get("cut"):
                k.raw(wire.frame("A.B.C", b"z" * 150, reply="_box." + c, flags=wire.REQ, seq=1)[:e["cut"]])
            k.close()
            other = sorted(self.cl)[0]
            self.barrier(other); self.barrier(other)
        else:
            k = self.cl[c]
            if op == "sub" or op == "unsub":
                k.send("_RTROUTED.INBOX.SUBSCRIBE", json.dumps({"add": 1 if op == "sub" else 0, "topic": real(e["n"]), "route_id": e["rid"]}).encode() + b"\0",
                       reply=e["reply"]["s"], flags=wire.REQ, seq=e["seq"])
            elif op == "send":
                k.send(real(e["n"]), e["body"].encode(), reply=e["reply"]["s"], flags=e["flags"], seq=e["seq"])
            elif op == "query":
                q = {"expression": real(e["n"])} if e["kind"] != "owner" else {"count": 1, "items": [real(e["n"])]}
                k.send(SERVICE[e["kind"]], json.dumps(q).encode() + b"\0", reply=e["reply"]["s"], flags=wire.REQ, seq=e["seq"])
            else:
                raise ValueError(op)
            self.barrier(c)
        got = self.collect()
        if op in ("sub", "unsub", "query"):
            for n, m in got:
                if n == c and m["seq"] == e["seq"] and m["flags"] & wire.RSP and m["payload"]:
                    res = wire.body(m) or {}
            if op == "query":
                res.setdefault("items", []); res.setdefault("count", 0); res.setdefault("result", -1)
                if e["kind"] in ("elements", "destinations"):
                    res["paths"] = [i.split(".") for i in res["items"]]
        r = dict(e); r["out"] = [self.rec(n, m) for n, m in got]; r["res"] = res
        if not self.trace:
            r["clients"] = ["c1", "c2", "c3", "c4"]
        self.trace.append(r)

    def run(self):
        """-> (trace, problem or None)"""
        try:
            for e in self.ops:
                try:
                    self.step(e)
                except (wire.Lost, wire.BadFrame, ValueError) as x:
                    dead = not self.bus.router.alive()
                    r = dict(e); r["out"] = []; r["res"] = {"result": -2}; r["op"] = "lost"
                    if not self.trace:
                        r["clients"] = ["c1", "c2", "c3", "c4"]
                    self.trace.append(r)
                    return self.trace, "%s at %s%s" % (x, json.dumps(e), " (the daemon terminated) " + self.bus.asan_report() if dead else "")
            return self.trace, None
        finally:
            for k in self.cl.values():
                k.close()
            self.bus.close()
