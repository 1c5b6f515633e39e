"""Replays ThreadPool behaviours against the library's thread pool."""
import json, subprocess

def replay(build, ops):
    text = "".join("%s %d %d\n" % (e["op"], e["a"], e["b"]) for e in ops)
    p = subprocess.run([build.prog("threadpool")], input=text, capture_output=True, text=True, timeout=90, errors="replace",
                       env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0", "PATH": "/usr/bin:/bin"})
    trace = []
    for line in p.stdout.split("\n"):
        try:
            trace.append(json.loads(line))
        except ValueError:
            continue
    ret = [e for e in trace if e["op"] == "destroyed"]
    for e in trace:
        if e["op"] == "destroy":
            e["late"] = e["w"] >= 0 and (not ret or ret[0]["ms"] >= e["w"] - 2)
    if p.returncode != 0 or not trace or trace[-1]["op"] != "bye":
        trace.append({"op": "lost"})
        why = [x for x in p.stderr.split("\n") if "ERROR: AddressSanitizer" in x or "runtime error" in x]
        return trace, "the program ended with %d %s" % (p.returncode, why[:1])
    return trace, None
