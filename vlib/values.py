"""Typed values for the harness, in the text form of harness/agent.c."""
import random, struct, hashlib

def h(b):
    if isinstance(b, str):
        b = b.encode("utf8")
    return b.hex()

INTS = {"i1": (-128, 127), "u1": (0, 255), "i2": (-32768, 32767), "u2": (0, 65535), "i4": (-2**31, 2**31 - 1),
        "u4": (0, 2**32 - 1), "i8": (-2**63, 2**63 - 1), "u8": (0, 2**64 - 1), "B": (0, 255), "c": (0, 127)}

def string(r):
    k = r.randrange(8)
    if k == 0: return ""
    if k == 1: return "x" * r.choice([1, 31, 63, 64, 255, 256, 4095, 4096, 9000])
    if k == 2: return "".join(chr(r.choice([9, 10, 13, 34, 39, 92, 37, 123, 125, 65])) for _ in range(r.randrange(1, 40)))
    if k == 3: return "äöü€\U0001f600" * r.randrange(1, 20)
    return "".join(chr(r.randrange(32, 127)) for _ in range(r.randrange(1, 60)))

def name(r):
    return r.choice(["n", "Device.X", "a.b.c", "p%d" % r.randrange(1000), "with space"])

def scalar(r):
    k = r.choice(list(INTS) + ["b", "f", "d", "t", "s", "s", "y"])
    if k in INTS:
        lo, hi = INTS[k]
        return "%s:%d" % (k, r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randrange(lo, hi + 1)]))
    if k == "b": return "b:%d" % r.randrange(2)
    if k == "f": return "f:" + struct.pack("f", r.choice([0.0, -0.0, 1.5, 3.4e38, 1e-38, float("inf"), r.random() * 1e6, -r.random()])).hex()
    if k == "d": return "d:" + struct.pack("d", r.choice([0.0, -0.0, 1e308, 2.2e-308, float("-inf"), r.random() * 1e12, -r.random() * 1e-9])).hex()
    if k == "t": return "t:" + struct.pack("12i", r.randrange(60), r.randrange(60), r.randrange(24), r.randrange(1, 29), r.randrange(12), r.randrange(0, 200),
                                          r.randrange(7), r.randrange(366), 0, r.randrange(0, 14), r.randrange(60), r.randrange(2)).hex()
    if k == "s": return "s:" + h(string(r))
    return "y:" + bytes(r.randrange(256) for _ in range(r.choice([1, 2, 7, 64, 300, 5000]))).hex()

def value(r, depth=2):
    k = r.randrange(14)
    if k == 0 and depth: return "p[%s=%s]" % (h(name(r)), value(r, depth - 1))
    if k <= 2 and depth: return "O[%s]" % obj(r, depth - 1)
    return scalar(r)

def obj(r, depth=1, multi=False):
    used, ps = set(), []
    for _ in range(r.randrange(0, 5)):
        n = name(r)
        if n in used: continue
        used.add(n)
        ps.append("%s=%s," % (h(n), value(r, depth)))
    ch = "".join(obj(r, depth - 1) for _ in range(r.randrange(0, 3))) if depth > 0 else ""
    return "o[%s;%s;%s]" % (h(name(r)), "".join(ps), ch)

def table(key, n, kind=value):
    """n distinct values, a function of key"""
    r = random.Random(int(hashlib.sha256(key.encode()).hexdigest()[:12], 16))
    out = []
    while len(out) < n:
        v = kind(r)
        if v not in out:
            out.append(v)
    return out
