"""Agent processes (applications using librbus) on a scratch bus."""
import json, os, signal, subprocess, threading, time, queue
from .bus import Bus, _procs

class Stuck(Exception):
    """no result within the time a call may take"""
class Died(Exception):
    pass

class Agent:
    def __init__(self, bus, name):
        self.bus, self.name = bus, name
        self.log = open(os.path.join(bus.root, "agent-%s.log" % name), "ab")
        self.p = subprocess.Popen([bus.build.prog("agent")], env=bus.build.env(bus.root, **bus.extra), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.log, start_new_session=True)
        _procs.add(self.p)
        self.lock = threading.Condition()
        self.events = []           # events not yet taken, in order
        self.results = {}
        self.next = self.lines = 0
        self.eof = False
        self.th = threading.Thread(target=self._read, daemon=True)
        self.th.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                o = json.loads(line)
            except ValueError:
                continue
            with self.lock:
                self.lines += 1
                o["#"] = self.lines    # order of output
                if "ev" in o:
                    o["agent"] = self.name
                    self.events.append(o)
                    if self.bus.tap is not None:
                        self.bus.tap(self, o)
                else:
                    self.results[o["id"]] = o
                self.lock.notify_all()
        with self.lock:
            self.eof = True
            self.lock.notify_all()

    def start(self, cmd, **k):
        """sends a command; -> its id"""
        self.next += 1
        k["id"] = self.next; k["cmd"] = cmd
        try:
            self.p.stdin.write((json.dumps(k) + "\n").encode()); self.p.stdin.flush()
        except OSError:
            raise Died("%s has terminated" % self.name)
        return self.next

    def wait(self, i, timeout=20.0):
        end = time.monotonic() + timeout
        with self.lock:
            while i not in self.results:
                left = end - time.monotonic()
                if self.eof:
                    raise Died("%s has terminated (%s)" % (self.name, self.crash()))
                if left <= 0:
                    raise Stuck("%s: a call has not returned within %gs" % (self.name, timeout))
                self.lock.wait(left)
            return self.results.pop(i)

    def call(self, cmd, _wait=20.0, **k):
        return self.wait(self.start(cmd, **k), _wait)

    def ready(self, i):
        with self.lock:
            return i in self.results

    def take(self):
        with self.lock:
            e, self.events = self.events, []
            return e

    def wait_event(self, pred, timeout=10.0):
        """waits until an event satisfying pred is in the (untaken) log"""
        end = time.monotonic() + timeout
        with self.lock:
            while not any(pred(e) for e in self.events):
                left = end - time.monotonic()
                if left <= 0 or self.eof:
                    return False
                self.lock.wait(left)
            return True

    def alive(self):
        return self.p.poll() is None

    def crash(self):
        try:
            self.p.wait(2)
        except Exception:
            pass
        return "exit status %s %s" % (self.p.poll(), self.bus.asan_report())

    def kill(self, sig=signal.SIGKILL):
        if self.p.poll() is None:
            try:
                self.p.send_signal(sig)
            except ProcessLookupError:
                pass
        self.p.wait()
        self.th.join(2)
        _procs.discard(self.p)
        for f in (self.p.stdin, self.p.stdout, self.log):
            try:
                f.close()
            except Exception:
                pass

class AppBus(Bus):
    def __init__(self, build, session=False, extra=None):
        self.extra = extra or {}
        self.tap = None
        self.agents = {}
        super().__init__(build, session)

    def agent(self, name):
        a = self.agents[name] = Agent(self, name)
        return a

    def close(self):
        for a in self.agents.values():
            a.kill()
        super().close()
