"""Replays Conn histories: one connection of the library against a scripted routing daemon."""
import heapq, json, os, random, select, shutil, socket, time
from .agent import Agent, Stuck, Died
from .bus import scratch
from . import wire
from .wire import frame, parse, REQ, RSP, UNDELIV, RAW

SPEED = 4.0
BAR = 5000
class Router:
    """accepts the connection and keeps what it receives"""
    def __init__(self, path):
        self.path, self.s, self.buf, self.got = path, None, b"", []
        self.up()
    def up(self):
        if os.path.exists(self.path): os.unlink(self.path)
        self.l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.l.bind(self.path); self.l.listen(8)
    def down(self):
        self.l.close(); os.unlink(self.path)
    def accept(self, t=8.0):
        self.l.settimeout(t)
        self.s, _ = self.l.accept()
        self.buf = b""
    def pump(self, t):
        """-> whether something arrived within t seconds"""
        l = [self.s] if self.s else []
        r, _, _ = select.select(l + [self.l], [], [], max(t, 0))
        if self.l in r:
            # the connection has been made anew: what the old one still holds is lost
            if self.s: self.s.close()
            self.accept()
            return True
        if not r: return False
        d = self.s.recv(1 << 16)
        if not d: raise Died("the connection was closed")
        self.buf += d
        while True:
            m, self.buf = parse(self.buf)
            if m is None: return True
            if m["topic"] == "NEST" and m["flags"] & REQ: self.answer(m, m["payload"][::-1])
            else: self.got.append(m)
    def drain(self):
        while self.pump(0): pass
    def find(self, pred, t=8.0):
        end, i = time.monotonic() + t, 0
        while True:
            while i < len(self.got):
                if pred(self.got[i]): return self.got.pop(i)
                i += 1
            left = end - time.monotonic()
            if left <= 0: raise Stuck("no message from the connection")
            self.pump(left)
    def send(self, data):
        self.s.settimeout(8)
        self.s.sendall(data)
    def reply(self, m, payload, flags=0):
        return frame(m["reply"], payload, m["topic"], RSP | (RAW if not flags else 0) | flags, m["seq"], 1)
    def answer(self, m, payload): self.send(self.reply(m, payload))
    def drop(self):
        self.s.close(); self.s = None

class Replay:
    def __init__(self, build, ops):
        self.ops, self.trace, self.build = ops, [], build
        self.rnd = random.Random(json.dumps(ops))
        self.root = scratch()
        self.extra, self.tap = {"RBV_SPEED": "%g" % SPEED}, None
        self.rt = Router(self.root + "/rtrouted")
        self.a = Agent(self, "c")
        self.k, self.pend, self.sent, self.bars, self.msgs, self.last = 0, {}, {}, 0, {}, {}

    def asan_report(self):
        return "".join(open(self.root + "/" + f, errors="replace").read()[:3000] for f in os.listdir(self.root) if f.startswith("asan"))

    def payload(self, kind, n, sizes=(0, 0, 1, 5, 100, 5000)):
        self.k += 1
        size = 70000 if self.k % 17 == 0 else self.rnd.choice(sizes)
        return b"%s%d:" % (kind, n) + bytes(self.rnd.randrange(256) for _ in range(min(size, 600))) * (1 + size // 600)

    def bar(self):
        """everything sent to the connection has been handled; -> callbacks until then"""
        self.bars += 1
        tag = b"B%d" % self.bars
        self.rt.send(frame("bar", tag, "", RAW, 1, BAR))
        end = time.monotonic() + 8
        want = tag.hex()
        while not self.a.wait_event(lambda e: e.get("data") == want, 0.01):
            if time.monotonic() > end: raise Stuck("a message has not been handled")
            if not self.a.alive(): raise Died("terminated " + self.asan_report())
            self.rt.drain()
        return [e for e in self.a.take() if e["ev"] == "con" and e["tag"] != 99]

    def ask(self, r, th, timeout, big=True):
        p = self.payload(b"R", r)
        return self.a.start("creq", t=th, n="T.%d" % r, data=p.hex(), timeout=timeout), p

    def frame_of(self, r, p):
        m = self.rt.find(lambda m: m["topic"] == "T.%d" % r)
        return m, {"r": r, "seq": m["seq"], "ok": m["payload"] == p and m["flags"] == REQ | RAW and m["reply"] == self.inbox}

    def outcome(self, r, x, ans):
        o = {"r": r, "res": x["res"], "el": round(x["el"]), "same": x["res"] != 0 or x["data"] == ans.get(r, b"\0none").hex()}
        return o

    def create(self):
        if self.a.call("cnew", n="app")["rc"]: raise RuntimeError("cnew")
        self.rt.accept()
        m = self.rt.find(lambda m: m["topic"] == "_RTROUTED.INBOX.SUBSCRIBE")
        self.inbox = json.loads(m["payload"].rstrip(b"\0"))["topic"]
        if self.a.call("cadd", n="bar", sid=BAR, tag=99)["rc"]: raise RuntimeError("cadd")
        self.a.call("cslow", tag=3, x=6)
        self.rt.find(lambda m: m["topic"] == "_RTROUTED.INBOX.SUBSCRIBE")
        self.bar()

    def stranger(self, n):
        """a number that no request has had, perhaps like that of one under way"""
        if self.sent and self.rnd.random() < 0.6:
            m = self.sent.get(n) or self.rnd.choice(list(self.sent.values()))
            return (m["seq"] + self.rnd.choice((1 << 24, 1 << 28, 1 << 31))) & 0xffffffff
        return 900000 + self.rnd.randrange(1000)

    def subs(self):
        """what the daemon was told of listeners"""
        self.rt.drain()
        out, rest = [], []
        for m in self.rt.got:
            if m["topic"] != "_RTROUTED.INBOX.SUBSCRIBE": rest.append(m); continue
            j = json.loads(m["payload"].rstrip(b"\0"))
            if j["route_id"] != BAR: out.append({"add": j["add"], "t": "inbox" if j["topic"] == self.inbox else j["topic"], "id": j["route_id"]})
        self.rt.got = rest
        return out

    def burst(self, ms):
        """-> bytes"""
        data = b""
        for i, m in enumerate(ms):
            p = self.payload({"msg": b"M", "req": b"Q", "nest": b"NEST"}[m["kind"]], len(self.msgs))
            n = len(self.msgs)
            self.msgs[p.hex()] = n
            m["n"] = n
            data += frame("in.%d" % n, p, "back.%d" % n if m["kind"] == "req" else "", RAW | (REQ if m["kind"] == "req" else 0), n, m["id"])
        return data

    def heard(self, evs):
        out = []
        for e in evs:
            n = self.msgs.get(e["data"], -1)
            ok = e["topic"] == "in.%d" % n and e["flags"] == (RAW | (REQ if "sent" in e else 0)) and e.get("sent", 0) == 0
            if e["data"].startswith(b"NEST".hex()): ok = ok and e.get("res") == 0 and e.get("ans") == bytes.fromhex(e["data"])[::-1].hex()
            out.append({"tag": e["tag"], "n": n, "ok": ok, "busy": e["busy"]})
        return out

    def responses(self):
        self.rt.drain()
        out, rest = [], []
        for m in self.rt.got:
            if not m["flags"] & RSP: rest.append(m); continue
            n = self.msgs.get(m["payload"].hex(), -1)
            out.append({"n": n, "ok": m["topic"] == "back.%d" % n and m["seq"] == n and m["flags"] == RSP | RAW})
        self.rt.got = rest
        return out

    def step(self, e):
        r, op, a, rt = dict(e), e["op"], self.a, self.rt
        if op == "req":
            r["frames"] = []
            ps = {}
            for x in e["rs"]:
                i, p = self.ask(x["r"], x["th"], 12000)
                self.pend[x["r"]], ps[x["r"]] = i, p
            for x in e["rs"]:
                m, f = self.frame_of(x["r"], ps[x["r"]])
                self.sent[x["r"]] = m
                r["frames"].append(f)
            self.bar()
        elif op == "answer":
            data, first = b"", {}
            for x in e["as"]:
                n = x["r"]
                if x["k"] == "ok":
                    p = self.payload(b"A", n)
                    first.setdefault(n, p)
                    data += rt.reply(self.sent[n], p)
                elif x["k"] == "undeliv":
                    first.setdefault(n, b"")
                    data += rt.reply(self.sent[n], b"", UNDELIV)
                else:
                    data += rt.reply(dict(self.sent.get(n) or {"reply": self.inbox, "topic": "x", "seq": 0}, seq=self.stranger(n)), b"nobody")
            rt.send(data)
            got = self.bar()
            r["strange"] = len(got)
            r["ended"] = []
            for n in sorted(first):
                if n in self.pend: r["ended"].append(self.outcome(n, a.wait(self.pend.pop(n), 8), first))
        elif op == "storm":
            r["res"] = self.storm(e)
        elif op in ("in", "race"):
            ms = [dict(m) for m in e["ms"]]
            data = self.burst(ms)
            r["ms"] = ms
            k = self.rnd.randrange(len(data)) if len(data) > 1 else 0
            rt.send(data[:k])
            if op == "race": i = a.start("cadd", n=e["t"], sid=e["id"], tag=e["tag"], t=13) if e["what"] == "add" else a.start("crm", n=e["t"], sid=e["id"], t=13)
            rt.send(data[k:])
            if op == "race":
                r["rc"] = a.wait(i)["rc"]
            r["got"] = self.heard(self.bar())
            r["resp"] = self.responses()
            r["subs"] = self.subs()
        elif op in ("add", "rm"):
            r["rc"] = a.call("cadd" if op == "add" else "crm", n=e["t"], sid=e["id"], tag=e["tag"])["rc"]
            r["strange"] = len(self.bar())
            r["subs"] = self.subs()
        elif op == "age":
            i = a.start("csend", n="AGE", data="00", x=e["n"], t=13)
            n, end = 0, time.monotonic() + 20
            while n < e["n"]:
                if time.monotonic() > end: raise Stuck("messages have not been sent")
                rt.pump(0.01)
                n += len([m for m in rt.got if m["topic"] == "AGE"])
                rt.got = [m for m in rt.got if m["topic"] != "AGE"]
            r["rc"] = a.wait(i)["rc"]
        elif op == "def":
            r["rc"] = a.call("cdef", tag=e["tag"])["rc"]
        elif op == "lose":
            self.lose(e, r)
        elif op == "destroy":
            r["rc"] = -1
            ids = []
            for x in e["rs"]:
                i, p = self.ask(x["r"], x["th"], 12000)
                ids.append((x["r"], i)); self.frame_of(x["r"], p)
            for n in sorted(self.pend): ids.append((n, self.pend.pop(n)))
            r["rc"] = a.call("cdel", t=14)["rc"]
            r["ended"] = [self.outcome(n, a.wait(i), {}) for n, i in ids]
            rt.drop(); rt.got = []
            self.sent = {}
            r["strange"] = len([x for x in a.take() if x["ev"] == "con"])
            self.create()
        for n in list(self.pend):
            if a.ready(self.pend[n]): r.setdefault("early", []).append(n); a.wait(self.pend.pop(n))
        r["early"] = len(r.get("early", []))
        self.trace.append(r)

    def lose(self, e, r):
        a, rt = self.a, self.rt
        doomed = []
        for x in e["doomed"]:
            i, p = self.ask(x["r"], x["th"], 800)
            doomed.append((x["r"], i)); self.frame_of(x["r"], p)
        ms = [dict(m) for m in e["ms"]]
        data = self.burst(ms)
        r["ms"] = ms
        cut = frame("in.cut", b"cut" * 50, "", RAW, 7, ms[0]["id"] if ms else 1)
        rt.send(data + cut[:self.rnd.randrange(1, len(cut)) if e["cut"] else 0])
        if e["down"]: rt.down()
        rt.drop()
        if e["down"]: self.rnd_sleep(0.03)
        started = []
        for x in e["during"]:
            i, p = self.ask(x["r"], x["th"], 6000)
            started.append((x["r"], i, p))
        c = None
        if e["chg"] == "add": c = a.start("cadd", n=e["t"], sid=e["id"], tag=e["tag"], t=13)
        if e["chg"] == "rm": c = a.start("crm", n=e["t"], sid=e["id"], t=13)
        if e["down"]:
            time.sleep(e["down"] / 1000 / SPEED)
            rt.up()
        rt.accept()
        r["frames"], ans = [], {}
        for n, i, p in started:
            m, f = self.frame_of(n, p)
            r["frames"].append(f)
            ans[n] = self.payload(b"A", n)
            rt.answer(m, ans[n])
        r["ended"] = [self.outcome(n, a.wait(i, 8), ans) for n, i, p in started]
        r["doomed"] = [{"r": n, "res": x["res"], "el": round(x["el"])} for n, x in ((n, a.wait(i, 8)) for n, i in doomed)]
        r["rc"] = a.wait(c)["rc"] if c else 0
        # the connection is used once more: all that it had to say before has arrived then
        i, p = self.ask(0, 15, 6000)
        m, f = self.frame_of(0, p)
        rt.answer(m, b"again")
        r["again"] = a.wait(i, 8)["res"]
        r["got"] = self.heard(self.bar())
        self.responses()
        r["subs"] = self.subs()

    def rnd_sleep(self, t): time.sleep(self.rnd.random() * t)

    def storm(self, e):
        """several threads, requests with short deadlines one after another, answers early, in any order, twice, late, around the deadline or never"""
        a, rt, ids, info = self.a, self.rt, [], {}
        n = 0
        for th in range(1, e["threads"] + 1):
            rs = []
            for _ in range(e["each"]):
                mode = self.rnd.choice(e["modes"])
                n += 1
                to = 1600 if mode in ("early", "twice", "undeliv") else self.rnd.randrange(40, 200)
                p = self.payload(b"S", n, (0, 3))
                info[n] = {"mode": mode, "to": to, "p": p, "a": self.payload(b"Z", n, (0, 3)), "seq": -1, "ok": False}
                rs.append({"n": "S.%d" % n, "data": p.hex(), "timeout": to})
            ids.append((n - e["each"], a.start("creqs", t=th, rs=rs)))
        heap, tie = [], 0
        left = dict(ids)
        end = time.monotonic() + 20
        while not all(a.ready(i) for _, i in ids):
            if time.monotonic() > end: raise Stuck("requests have not ended")
            if not a.alive(): raise Died("terminated " + self.asan_report())
            now = time.monotonic()
            out = b""
            while heap and heap[0][0] <= now: out += heapq.heappop(heap)[2]
            if out: rt.send(out)
            rt.pump(min(0.005, heap[0][0] - now if heap else 0.005))
            rest = []
            for m in rt.got:
                if not m["topic"].startswith("S."): rest.append(m); continue
                x = info[int(m["topic"][2:])]
                x["ok"] = x["seq"] == -1 and m["payload"] == x["p"] and m["flags"] == REQ | RAW and m["reply"] == self.inbox
                x["seq"] = m["seq"]
                to = x["to"] / 1000 / SPEED
                d = {"early": [self.rnd.choice((0, 0, 0.003, 0.01))], "twice": [0, self.rnd.choice((0, 0.004))], "undeliv": [0, 0.002][:self.rnd.randrange(1, 3)], "never": [],
                     "late": [to * 1.3 + 0.003], "edge": [to + self.rnd.uniform(-0.0006, 0.0003)]}[x["mode"]]
                for t in d:
                    tie += 1
                    heapq.heappush(heap, (time.monotonic() + t, tie, rt.reply(m, b"", UNDELIV) if x["mode"] == "undeliv" else rt.reply(m, x["a"])))
            rt.got = rest
        out = []
        for base, i in ids:
            for j, x in enumerate(a.wait(i)["all"]):
                q = info[base + j + 1]
                out.append({"mode": q["mode"], "to": q["to"], "seq": q["seq"], "ok": q["ok"], "res": x["res"], "el": round(x["el"]), "same": x["res"] != 0 or x["data"] == q["a"].hex()})
        self.bar()
        return out

    def run(self):
        try:
            self.create()
            for e in self.ops:
                try: self.step(e)
                except (Stuck, Died, OSError, wire.BadFrame) as x:
                    self.trace.append({"op": "lost"})
                    return self.trace, "%r at %s %s" % (x, json.dumps(e), self.asan_report())
            return self.trace, None
        finally:
            self.a.kill()
            for s in (self.rt.s, self.rt.l):
                if s: s.close()
            shutil.rmtree(self.root, ignore_errors=True)

def replay(build, ops):
    return Replay(build, ops).run()
