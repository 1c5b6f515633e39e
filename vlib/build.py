"""Builds /repo's current working tree (with its own CMake files) outside /repo, plus the harness programs."""
import hashlib, os, subprocess, sys, time, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RBV_REPO", "/repo")
CACHE = os.environ.get("RBV_CACHE", os.path.join(VERIF, ".cache"))
TARGETS = ["rtrouted", "rtMessage", "rbuscore", "rbus", "rbus_session_mgr"]
FLAVOURS = {
    "plain": "-g -O1 -Wno-error",
    "asan": "-g -O1 -Wno-error -fsanitize=address -fno-omit-frame-pointer -fno-common",
    "tsan": "-g -O1 -Wno-error -fsanitize=thread",
}

def tree_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "cmake", "src", "include", "conf", "rbusConfig.cmake.in", "utils", "test", "sampleapps"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(f for f in glob.glob(p + "/**", recursive=True) if os.path.isfile(f))
        for f in files:
            if top in ("utils", "test", "sampleapps") and not f.endswith("CMakeLists.txt"):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))) + [os.path.abspath(__file__)]:
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]

def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s (log %s)\n" % (" ".join(cmd), log))
        with open(log, "rb") as f:
            sys.stderr.write(f.read()[-3000:].decode("utf8", "replace"))
        raise SystemExit(3)

class Build:
    def __init__(self, flavour="plain"):
        self.flavour = flavour
        flags = FLAVOURS[flavour]
        os.makedirs(CACHE, exist_ok=True)
        self.dir = os.path.join(CACHE, "build-%s" % flavour)
        os.makedirs(self.dir, exist_ok=True)
        lockf = open(os.path.join(CACHE, "lock-" + flavour), "w")
        fcntl.flock(lockf, fcntl.LOCK_EX)
        try:
            h = tree_hash()
            stamp = os.path.join(self.dir, "stamp")
            if not (os.path.exists(stamp) and open(stamp).read() == h):
                if os.path.exists(stamp):
                    os.unlink(stamp)
                log = os.path.join(self.dir, "build.log")
                open(log, "w").close()
                env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "LD_LIBRARY_PATH")}
                env["CC"] = "gcc"; env["CXX"] = "g++"
                b = os.path.join(self.dir, "b")
                _run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug",
                      "-DBUILD_FOR_DESKTOP=ON", "-DENABLE_UNIT_TESTING=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                      "-DCMAKE_C_FLAGS_DEBUG=" + flags, "-DCMAKE_CXX_FLAGS_DEBUG=" + flags,
                      "-DCMAKE_INSTALL_PREFIX=" + os.path.join(self.dir, "inst")], log, env=env)
                _run(["ninja", "-C", b] + TARGETS, log, env=env)
                inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/core"),
                       "-I" + os.path.join(REPO, "src/rtmessage"), "-I" + os.path.join(REPO, "src/rbus")]
                libs = []
                for d, n in (("src/rbus", "rbus"), ("src/core", "rbuscore"), ("src/rtmessage", "rtMessage")):
                    libs += ["-L" + os.path.join(b, d), "-l" + n, "-Wl,-rpath," + os.path.join(b, d)]
                defs = ["-DMSG_ROUNDTRIP_TIME=1", "-D_GNU_SOURCE", "-DRBUS_ALWAYS_ON", "-D_TIME_BITS=64", "-D_FILE_OFFSET_BITS=64"]
                H = os.path.join(VERIF, "harness")
                ps = []
                for prog in sorted(glob.glob(H + "/*.c")):
                    name = os.path.basename(prog)[:-2]
                    if name == "shim":
                        cmd = ["gcc", "-g", "-O1", "-shared", "-fPIC", "-w", "-o", os.path.join(self.dir, "shim.so"), prog, "-ldl"]
                    else:
                        cmd = ["gcc"] + flags.split() + ["-w"] + defs + inc + ["-o", os.path.join(self.dir, name), prog] + libs + ["-lcjson", "-lpthread"]
                    ps.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)))
                for cmd, p in ps:
                    out = p.communicate()[0]
                    if p.returncode != 0:
                        sys.stderr.write("HARNESS BUILD FAILED: %s\n%s\n" % (" ".join(cmd), out.decode()[-3000:]))
                        raise SystemExit(3)
                with open(stamp, "w") as f:
                    f.write(h)
        finally:
            fcntl.flock(lockf, fcntl.LOCK_UN)
            lockf.close()
        b = os.path.join(self.dir, "b")
        self.rtrouted = os.path.join(b, "src/rtmessage/rtrouted")
        self.session_mgr = os.path.join(b, "src/session_manager/rbus_session_mgr")
        self.shim = os.path.join(self.dir, "shim.so")

    def prog(self, name):
        return os.path.join(self.dir, name)

    def env(self, root, **extra):
        """Environment for a program of this build whose /tmp is redirected to root."""
        e = {k: v for k, v in os.environ.items() if not k.startswith("RBUS_")}
        e["RBV_ROOT"] = root
        e["LD_PRELOAD"] = self.shim
        if self.flavour == "asan":
            e["ASAN_OPTIONS"] = "detect_leaks=0:verify_asan_link_order=0:exitcode=99:abort_on_error=0:log_path=%s/asan" % root
        if self.flavour == "tsan":
            e["TSAN_OPTIONS"] = "exitcode=0:report_bugs=0"
        e.update(extra)
        return e

if __name__ == "__main__":
    t = time.time()
    for fl in (sys.argv[1:] or ["plain"]):
        Build(fl)
    print("built in %.1fs" % (time.time() - t))
