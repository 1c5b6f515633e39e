"""Replays Stream behaviours (byte streams cut, interleaved and spoilt) against the real daemon."""
import json, select, socket, struct, time
from . import wire
from .bus import Bus

PING = "_box.w"
SUB = "_RTROUTED.INBOX.SUBSCRIBE"

def pattern(i, n):
    return (struct.pack(">I", 0x01000000 + i) * (n // 4 + 1))[:n]

JUNK = {"nowhere": ("Nowher", b"x" * 20, 0), "nowherereq": ("Nowher", b"x" * 20, wire.REQ),
        "junksub": (SUB, b'{"add":"x","topic":7', 1), "junksub2": (SUB, b'{"add":1,"topic":5}\0', 1), "emptysub": (SUB, b"{}\0" + b" " * 17, 1),
        "junkquery": ("_RTROUTED.INBOX.QUERY", b'{"expression":4444}\0', 1), "emptyquery": ("_RTROUTED.INBOX.QUERY", b"{}\0" + b" " * 17, 1),
        "junkowner": ("_trace_origin_object", b'{"count":3,"items":7', 1), "emptyowner": ("_trace_origin_object", b"{}\0" + b" " * 17, 1),
        "junkenum": ("_enumerate_elements", b'{"expression":[1,2]}', 1), "emptyenum": ("_enumerate_elements", b"{}\0" + b" " * 17, 1),
        "emptydiag": ("_RTROUTED.INBOX.DIAG", b"{}\0" + b" " * 17, 1), "junkdiag": ("_RTROUTED.INBOX.DIAG", b'{"_RTROUTED.INBOX":[', 1)}

def encode(c, e):
    f, how, size = e["f"], e["how"], e["size"]
    pay = pattern(f["id"], size)
    me = "_box." + c
    if f["kind"] == "good":
        b = wire.frame("_box." + f["to"], pay, reply=me, seq=f["id"])
    elif f["kind"] == "none":
        t, p, fl = JUNK[how]
        b = wire.frame(t, p, reply="Nobody" if fl else "", flags=fl, seq=f["id"])
    else:
        bad = {"marker": {"marker": 0xAABB}, "version": {"version": 9}, "hlen0": {"header_length": 0}, "hlen3": {"header_length": 3},
               "hlen6": {"header_length": 6}, "hlensmall": {"header_length": 20}, "hlenbig": {"header_length": 65535},
               "plenbig": {"payload_length": 0x80000000}, "plenhuge": {"payload_length": 0xFFFFFFFF}, "endmarker": {"end_marker": 0x1234},
               "topiclen": {"topic_length": 0xFFFF}, "replylen": {"reply_length": 0x7FFFFFF0}}[how]
        b = wire.frame("_box." + f["to"], pay, reply=me, seq=f["id"], **bad)
    return b

class Replay:
    def __init__(self, build, ops):
        self.bus = Bus(build)
        self.ops = ops
        self.cl = {}       # name -> RawClient
        self.buf = {}      # name -> bytes of frames not yet written
        self.trace = []
        self.sizes = {}
        self.w = self.bus.client("w")
        self.reg(self.w, PING)
        self.n = 0

    def reg(self, k, box):
        k.send(SUB, json.dumps({"add": 1, "topic": box, "route_id": 9}).encode() + b"\0", reply=box, flags=wire.REQ, seq=1)
        k.wait_for(lambda m: m["topic"] == box and m["flags"] & wire.RSP)

    def pump(self, wait=0.0):
        """reads whatever has arrived for anybody; -> something arrived"""
        by = {k.s: n for n, k in self.cl.items()}
        r, _, _ = select.select(list(by), [], [], wait)
        for s in r:
            n = by[s]; k = self.cl[n]
            try:
                d = s.recv(1 << 20)
            except BlockingIOError:
                continue
            except OSError:
                d = b""
            if not d:
                self.dropped(n)
                continue
            k.buf += d
            while True:
                m, k.buf = wire.parse(k.buf)
                if m is None:
                    break
                if m["topic"] == "_box." + n and m["flags"] == 0:
                    i = m["seq"]
                    self.trace.append({"op": "got", "from": m["reply"][5:], "to": n, "id": i,
                                       "intact": m["payload"] == pattern(i, self.sizes.get(i, -1)) and m["ctl"] == 9})
                else:
                    self.trace.append({"op": "got", "from": m["reply"][5:], "to": n, "id": 0, "intact": False, "unexpected": repr(m)[:300]})
        return bool(r)

    def dropped(self, n):
        self.trace.append({"op": "drop", "c": n})
        self.cl.pop(n).close()

    def write(self, c, data):
        k = self.cl[c]
        end = time.time() + 10
        k.s.setblocking(False)
        while data and c in self.cl:
            _, w, _ = select.select([], [k.s], [], 0)
            if w:
                try:
                    n = k.s.send(data)
                    data = data[n:]
                    continue
                except BlockingIOError:
                    pass
                except OSError:
                    self.dropped(c)
                    return
            self.pump(0.01)
            if time.time() > end:
                raise wire.Lost("the daemon does not read what %s writes" % c)

    def ping(self, n):
        for _ in range(n):
            self.n += 1
            tag = b"P%d" % self.n
            self.w.send(PING, tag)
            end = time.time() + 8
            while True:
                try:
                    self.w.wait_for(lambda m: m["payload"] == tag, 0.02)
                    break
                except wire.Lost:
                    if time.time() > end or self.w.closed:
                        raise wire.Lost("the daemon no longer answers")
                    self.pump(0.0)

    def sync(self):
        end = time.time() + 6
        while time.time() < end:
            self.ping(2)
            while self.pump(0.0):
                pass
            if self.settled():
                break
            self.pump(0.05)
        self.ping(4)
        while self.pump(0.0):
            pass
        self.trace.append({"op": "sync"})

    def settled(self):
        frames, written, got, bad = {}, {}, {}, {}
        for e in self.trace:
            o = e["op"]
            if o == "open":
                c = e["c"]
                for x in list(frames):
                    at = 0
                    for f in frames[x]:
                        at += f["len"]
                        if f["to"] == c and at <= written[x]:
                            f["dead"] = True
                frames[c] = []; written[c] = 0
                for p in list(got):
                    if c in p:
                        del got[p]
            elif o == "frame":
                frames[e["c"]].append(dict(e["f"]))
            elif o == "write":
                written[e["c"]] += e["n"]
            elif o == "got":
                got.setdefault((e["from"], e["to"]), []).append(e["id"])
        for c in self.cl:
            at = 0
            for f in frames.get(c, []):
                at += f["len"]
                if at > written[c] or f["kind"] == "bad":
                    break
                if f["kind"] == "good" and not f.get("dead") and f["to"] in self.cl and f["id"] not in got.get((c, f["to"]), []):
                    return False
        return True

    def step(self, e):
        op, c = e["op"], e.get("c")
        if op == "sync":
            self.sync()
            return
        if op == "open":
            if c in self.cl:
                return
            self.sync()
            self.cl[c] = self.bus.client(c)
            self.buf[c] = b""
            self.reg(self.cl[c], "_box." + c)
            self.trace.append({"op": "open", "c": c})
            return
        if c not in self.cl:
            return
        if op == "frame":
            b = encode(c, e)
            f = dict(e["f"]); f["len"] = len(b)
            self.sizes[f["id"]] = e["size"]
            self.buf[c] += b
            self.trace.append({"op": "frame", "c": c, "f": f, "how": e["how"]})
        elif op == "write":
            d, self.buf[c] = self.buf[c][:e["n"]], self.buf[c][e["n"]:]
            if d:
                self.trace.append({"op": "write", "c": c, "n": len(d)})
                self.write(c, d)
        elif op == "close":
            self.sync()
            if c in self.cl:
                self.trace.append({"op": "close", "c": c})
                self.cl.pop(c).close()
        self.pump(0.0)

    def run(self):
        try:
            try:
                for e in self.ops:
                    self.step(e)
                for c in sorted(self.cl):
                    if self.buf.get(c) and c in self.cl:
                        self.trace.append({"op": "write", "c": c, "n": len(self.buf[c])})
                        self.write(c, self.buf[c])
                self.sync()
            except (wire.Lost, wire.BadFrame) as x:
                dead = not self.bus.router.alive()
                self.trace.append({"op": "lost"})
                return self.trace, "%s%s" % (x, " (the daemon terminated) " + self.bus.asan_report() if dead else "")
            return self.trace, None
        finally:
            for k in list(self.cl.values()) + [self.w]:
                k.close()
            self.bus.close()
