"""Running TLC: exhaustive checks, behaviour generation, trace validation."""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile, time
from .build import VERIF
from .bus import scratch

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

def _cfg_const(consts):
    return "".join("CONSTANT %s\n" % (("%s <- %s" % (k, v[2:])) if isinstance(v, str) and v.startswith("<-") else "%s = %s" % (k, v)) for k, v in (consts or {}).items())

def run(module, cfg, args, env=None, timeout=600, workers=4, heap="3g", jopts=()):
    d = scratch("rbvtlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ); e.pop("LD_PRELOAD", None)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = ""
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d] + list(jopts) + ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "st"), "-config", "M.cfg"] + args + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode("utf8", "replace"); rc = r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf8", "replace"); rc = -1
    shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    return rc, out, d, time.time() - t

def _stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", out)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    return 0, 0

def model_check(module, cfg, consts=None, timeout=600, workers=8, heap="6g"):
    """exhaustive exploration; -> dict(states, transitions, ok, out)"""
    rc, out, d, w = run(module, open(os.path.join(SPEC, cfg)).read() + "\n" + _cfg_const(consts), ["-deadlock"] , timeout=timeout, workers=workers, heap=heap)
    shutil.rmtree(d, ignore_errors=True)
    gen, dist = _stats(out)
    ok = rc == 0 and "Model checking completed. No error has been found" in out
    if not ok:
        raise TlcError("model checking of %s/%s failed (rc=%s):\n%s" % (module, cfg, rc, out[-4000:]))
    return dict(states=dist, transitions=gen, wall=w, spec=module, cfg=cfg)

def generate(module, cfg, n, depth, seed, consts=None, timeout=600, workers=4):
    """n random behaviours of the specification; the module's constraint serialises `hist` into $GEN/<i>.json"""
    g = scratch("rbvgen")
    rc, out, d, w = run(module, open(os.path.join(SPEC, cfg)).read() + "\n" + _cfg_const(consts),
                        ["-deadlock", "-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed)],
                        env={"GEN": g + "/"}, timeout=timeout, workers=1)
    shutil.rmtree(d, ignore_errors=True)
    res = []
    for f in sorted(os.listdir(g), key=lambda x: int(re.sub(r"\D", "", x) or 0)):
        with open(os.path.join(g, f)) as fh:
            res.append(json.load(fh))
    shutil.rmtree(g, ignore_errors=True)
    if not res:
        raise TlcError("no behaviours generated by %s (rc=%s)\n%s" % (module, rc, out[-4000:]))
    return res

def validate(module, cfg, traces, consts=None, timeout=800, heap="1500m", chunks=None):
    """Are the recorded traces behaviours of the specification?  (several TLC instances side by side)
       -> dict(rejected={trace index: events consumed}, notes, states, transitions)"""
    n = chunks or max(1, min(7, sum(len(t) for t in traces) // 1200 + 1, len(traces)))
    parts = [list(range(k, len(traces), n)) for k in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda p: _validate_each(module, cfg, [traces[i] for i in p], consts, timeout, heap), parts))
    out = dict(rejected={}, notes={}, states=0, transitions=0, wall=max(r["wall"] for r in rs))
    for p, r in zip(parts, rs):
        for i, l in r["rejected"].items():
            out["rejected"][p[i]] = l
        for (i, l), m in r["notes"].items():
            out["notes"][(p[i], l)] = m
        out["states"] += r["states"]; out["transitions"] += r["transitions"]
    return out

def _validate_each(module, cfg, traces, consts, timeout, heap):
    """a trace with events that the specification cannot even read is rejected; the others are still looked at"""
    t0 = time.time()
    try:
        return _validate(module, cfg, traces, consts, timeout, heap)
    except TlcError as x:
        if time.time() - t0 > 60: raise
        if len(traces) == 1:
            return dict(rejected={0: 0}, notes={(0, 0): [str(x)[-1500:]]}, states=0, transitions=0, wall=0)
        m = len(traces) // 2
        a, b = (_validate_each(module, cfg, p, consts, timeout, heap) for p in (traces[:m], traces[m:]))
        return dict(rejected={**a["rejected"], **{i + m: l for i, l in b["rejected"].items()}},
                    notes={**a["notes"], **{(i + m, l): n for (i, l), n in b["notes"].items()}},
                    states=a["states"] + b["states"], transitions=a["transitions"] + b["transitions"], wall=a["wall"] + b["wall"])

def _validate(module, cfg, traces, consts, timeout, heap):
    f = scratch("rbvtr")
    path = os.path.join(f, "traces.ndjson")
    with open(path, "w") as fh:
        for t in traces:
            fh.write(json.dumps(t) + "\n")
    rc, out, d, w = run(module, open(os.path.join(SPEC, cfg)).read() + "\n" + _cfg_const(consts), ["-deadlock"],
                        env={"TRACES": path}, timeout=timeout, workers=1, heap=heap)
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(f, ignore_errors=True)
    gen, dist = _stats(out)
    rej = {}
    for m in re.finditer(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+)\s*>>', out):
        rej[int(m.group(1)) - 1] = int(m.group(2)) - 1
    done = re.search(r'<<\s*"VALIDATED",\s*(\d+)\s*>>', out)
    if not done:
        raise TlcError("trace validation with %s did not finish (rc=%s):\n%s" % (module, rc, out[-6000:]))
    if int(done.group(1)) != len(traces) - len(rej):
        raise TlcError("trace validation with %s inconsistent:\n%s" % (module, out[-3000:]))
    notes = {}
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),', out):
        s = out[m.start():]
        depth = 0; i = 0
        while i < len(s):
            if s.startswith("<<", i): depth += 1; i += 2; continue
            if s.startswith(">>", i):
                depth -= 1; i += 2
                if depth == 0: break
                continue
            i += 1
        k = (int(m.group(1)) - 1, int(m.group(2)) - 1)
        notes.setdefault(k, [])
        if len(notes[k]) < 3:
            notes[k].append(re.sub(r"\s+", " ", s[:i])[:3000])
    return dict(rejected=rej, notes=notes, states=dist, transitions=gen, wall=w)
