#!/usr/bin/env python3
"""Planted bugs: seedtool.py mk ID | test ID [CHECK ...]   (scratch worktree /tmp/seedwt, caches /tmp/seedcache)"""
import json, os, subprocess, sys
V = "/verif"; WT = "/tmp/seedwt"; CACHE = "/tmp/seedcache"
def sh(c, **k):
    return subprocess.run(c, shell=True, **k)
def prep():
    head = os.environ.get("SEEDREV") or subprocess.check_output("git -C /repo rev-parse HEAD", shell=True, text=True).strip()
    if not os.path.isdir(WT):
        sh("git -C /repo worktree add -f --detach %s HEAD >/dev/null 2>&1" % WT)
    cur = subprocess.check_output("git -C %s rev-parse HEAD" % WT, shell=True, text=True).strip()
    if cur != head:
        sh("git -C %s checkout -q -f --detach %s" % (WT, head))
    if not os.path.exists(WT + "/_build/build.ninja"):
        sh("cd %s && cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DBUILD_FOR_DESKTOP=ON -DENABLE_UNIT_TESTING=ON "
           "-DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_FLAGS_DEBUG='-g -Wno-error' -DCMAKE_INSTALL_PREFIX=%s/_build/install >/dev/null" % (WT, WT), check=True)
def build():
    r = sh("cd %s && T=$(ninja -C _build -t targets all | grep -E ': [A-Z]+_(EXECUTABLE|SHARED_LIBRARY|STATIC_LIBRARY|SHARED_MODULE|MODULE_LIBRARY)_LINKER' | cut -d: -f1 | grep -v 'rbuscli$') && ninja -C _build $T" % WT,
           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:]); sys.exit("build failed")
def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=WT, timeout=300, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    cmd, sid = sys.argv[1:3]
    d = "%s/seeded/%s" % (V, sid)
    prep()
    if cmd == "mk":
        diff = subprocess.check_output("git -C %s diff" % WT, shell=True, text=True)
        assert diff.strip()
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        sh("git -C %s checkout -q -- ." % WT)
        return
    sh("git -C %s checkout -q -- ." % WT)
    if cmd == "test":
        build()
        r = demo(d); print("demo unchanged rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode else ""))
    if sh("git -C %s apply %s/patch.diff" % (WT, d)).returncode:
        sys.exit("patch does not apply")
    try:
        build()
        if cmd == "test":
            r = demo(d); print("demo patched rc=%d %s" % (r.returncode, r.stdout[-300:]))
        for c in sys.argv[3:]:
            r = sh("RBV_REPO=%s RBV_CACHE=%s timeout 900 python3 %s/check.py %s quick" % (WT, CACHE, V, c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("check %s rc=%d\n%s" % (c, r.returncode, "\n".join(l[:300] for l in r.stdout.splitlines()[-6:])))
    finally:
        sh("git -C %s checkout -q -- ." % WT)
main()
