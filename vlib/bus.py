"""A bus (routing daemon, optionally session manager) in a scratch directory, and agent processes on it."""
import os, shutil, signal, socket, subprocess, tempfile, time, json, select, atexit
from . import wire

_scratch = []
_procs = set()
def scratch(prefix="rbv"):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    _scratch.append(d)
    return d

@atexit.register
def _cleanup():
    for p in list(_procs):
        try:
            p.kill(); p.wait(2)
        except Exception:
            pass
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)

class Proc:
    def __init__(self, args, env, log):
        self.logf = open(log, "ab")
        self.p = subprocess.Popen(args, env=env, stdin=subprocess.DEVNULL, stdout=self.logf, stderr=subprocess.STDOUT,
                                  start_new_session=True)
        _procs.add(self.p)
    def alive(self):
        return self.p.poll() is None
    def kill(self, sig=signal.SIGKILL):
        if self.p.poll() is None:
            try:
                self.p.send_signal(sig)
            except ProcessLookupError:
                pass
        self.p.wait()
        _procs.discard(self.p)
        self.logf.close()

class Bus:
    def __init__(self, build, session=False, root=None):
        self.build = build
        self.root = root or scratch()
        os.makedirs(self.root + "/.rbus", exist_ok=True)
        self.sock = self.root + "/rtrouted"
        self.router = None
        self.sm = None
        self.want_session = session
        self.start()

    def start(self):
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        self.router = Proc([self.build.rtrouted, "-f", "-l", "ERROR"], self.build.env(self.root), self.root + "/router.log")
        end = time.time() + 10
        while True:
            try:
                s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close(); break
            except OSError:
                if time.time() > end or not self.router.alive():
                    raise RuntimeError("routing daemon did not start: " + open(self.root + "/router.log").read()[-500:])
                time.sleep(0.005)
        if self.want_session:
            self.sm = Proc([self.build.session_mgr], self.build.env(self.root), self.root + "/sm.log")

    def client(self, name, **k):
        return wire.RawClient(self.sock, name, **k)

    def stop_router(self):
        self.router.kill()

    def close(self):
        for p in (self.sm, self.router):
            if p:
                p.kill()
        shutil.rmtree(self.root, ignore_errors=True)

    def asan_report(self):
        out = ""
        for f in os.listdir(self.root):
            if f.startswith("asan"):
                out += open(os.path.join(self.root, f), errors="replace").read()[:3000]
        return out
