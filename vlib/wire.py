"""rtMessage wire protocol and raw clients of the routing daemon."""
import json, os, select, socket, struct, time

REQ, RSP, UNDELIV, TAINT, RAW, ENC = 1, 2, 4, 8, 16, 32

def frame(topic, payload=b"", reply="", flags=0, seq=0, ctl=0, **bad):
    t = topic.encode() if isinstance(topic, str) else topic
    r = reply.encode() if isinstance(reply, str) else reply
    hl = 52 + len(t) + len(r)
    h = struct.pack(">HHHIIII", bad.get("marker", 0xAAAA), bad.get("version", 2), bad.get("header_length", hl), seq, flags, ctl,
                    bad.get("payload_length", len(payload)))
    h += struct.pack(">I", bad.get("topic_length", len(t))) + t + struct.pack(">I", bad.get("reply_length", len(r))) + r
    h += struct.pack(">IIIII", 1, 2, 3, 4, 5) + struct.pack(">H", bad.get("end_marker", 0xAAAA))
    return h + payload

class BadFrame(Exception):
    pass

def parse(buf):
    """-> (message or None, rest)"""
    if len(buf) < 6:
        return None, buf
    m, v, hl = struct.unpack(">HHH", buf[:6])
    if m != 0xAAAA or v != 2 or hl < 52:
        raise BadFrame("bad preamble %r" % buf[:6])
    if len(buf) < hl:
        return None, buf
    seq, flags, ctl, pl = struct.unpack(">IIII", buf[6:22])
    if len(buf) < hl + pl:
        return None, buf
    tl, = struct.unpack(">I", buf[22:26])
    topic = buf[26:26 + tl]
    o = 26 + tl
    rl, = struct.unpack(">I", buf[o:o + 4])
    reply = buf[o + 4:o + 4 + rl]
    o += 4 + rl
    ts = struct.unpack(">IIIII", buf[o:o + 20])
    em, = struct.unpack(">H", buf[o + 20:o + 22])
    if em != 0xAAAA or o + 22 != hl:
        raise BadFrame("bad header end")
    return dict(topic=topic.decode("latin1"), reply=reply.decode("latin1"), seq=seq, flags=flags, ctl=ctl, ts=ts,
                payload=buf[hl:hl + pl]), buf[hl + pl:]

class Lost(Exception):
    """no answer / connection closed by the daemon"""

class RawClient:
    def __init__(self, path, name, timeout=8.0):
        self.name = name
        self.timeout = timeout
        self.buf = b""
        self.inq = []
        self.seq = 1000
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.s.connect(path)
        self.closed = False

    def send(self, *a, **k):
        self.raw(frame(*a, **k))

    def raw(self, data):
        self.s.settimeout(self.timeout)
        try:
            self.s.sendall(data)
        except OSError as e:
            raise Lost("%s: send failed: %s" % (self.name, e))

    def _pump(self, wait):
        r, _, _ = select.select([self.s], [], [], wait)
        if not r:
            return False
        d = self.s.recv(1 << 20)
        if not d:
            self.closed = True
            raise Lost("%s: connection closed by the daemon" % self.name)
        self.buf += d
        while True:
            m, self.buf = parse(self.buf)
            if m is None:
                return True
            self.inq.append(m)

    def drain(self):
        """everything that has already arrived"""
        try:
            while self._pump(0):
                pass
        except Lost:
            pass
        except OSError:
            self.closed = True
        q, self.inq = self.inq, []
        return q

    def wait_for(self, pred, timeout=None):
        """removes and returns the first message satisfying pred; others stay queued"""
        end = time.time() + (timeout or self.timeout)
        i = 0
        while True:
            while i < len(self.inq):
                if pred(self.inq[i]):
                    return self.inq.pop(i)
                i += 1
            left = end - time.time()
            if left <= 0:
                raise Lost("%s: no answer from the daemon" % self.name)
            try:
                self._pump(left)
            except OSError as e:
                raise Lost("%s: %s" % (self.name, e))

    def request(self, topic, obj, reply, timeout=None, ctl=0):
        self.seq += 1
        s = self.seq
        self.send(topic, json.dumps(obj).encode() + b"\0", reply=reply, flags=REQ, seq=s, ctl=ctl)
        m = self.wait_for(lambda m: m["seq"] == s and m["flags"] & RSP and m["topic"] == reply, timeout)
        return m

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass
        self.closed = True

def body(m):
    p = m["payload"].split(b"\0")[0]
    return json.loads(p) if p else None
