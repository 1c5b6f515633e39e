"""Replays Containers behaviours against the library's list, vector and hash map."""
import json, subprocess

def replay(build, ops):
    text = "".join("%s %d %d %d\n" % (e["op"], e["a"], e["b"], e["c"]) for e in ops)
    p = subprocess.run([build.prog("containers")], input=text, capture_output=True, text=True, timeout=30, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "PATH": "/usr/bin:/bin"}, errors="replace")
    trace = []
    for e, line in zip(ops, p.stdout.split("\n")):
        try:
            r = json.loads(line)
        except ValueError:
            break
        trace.append(dict(e, **r, c0=e["op"][0]))
    if p.returncode != 0 or len(trace) < len(ops):
        trace.append({"op": "lost", "skip": 0, "c0": "l"})
        why = [x for x in p.stderr.split("\n") if "ERROR: AddressSanitizer" in x or "runtime error" in x]
        return trace, "the program ended with %d after %d of %d operations (next %s) %s" % (p.returncode, len(trace) - 1, len(ops), ops[min(len(trace), len(ops)) - 1], why[:1])
    return trace, None
