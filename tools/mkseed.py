#!/usr/bin/env python3
"""mkseed.py SPEC.py : build /verif/seeded/<id> from a spec file and verify it.
A spec defines: id, property, needs, what, edits=[(file, old, new)], demo (C++ text or shell text),
sources (files of /repo to link), shims (dict of header path -> text), libs."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(ns):
    d = os.path.join(V, "seeded", ns["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    open(os.path.join(d, "meta.json"), "w").write(json.dumps(
        {"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["what"]}, indent=1) + "\n")
    for h, t in ns.get("shims", {}).items():
        p = os.path.join(d, "shim", h)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    open(os.path.join(d, "demo.cc"), "w").write(ns["demo"])
    open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# Exit 0 when the property holds on this input, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++20 -O1 -w -pthread %s -I. -I"$here/shim" -I/usr/include/eigen3 "$here/demo.cc" %s -o "$tmp/demo" %s || exit 3
cd "$tmp" && timeout 120 ./demo
""" % (ns.get("flags", ""), " ".join(ns.get("sources", [])), ns.get("libs", "")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def verify(i, check=True):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    r = sh("bash %s/demo.sh" % d, cwd=R)
    print(i, "demo clean:", r.returncode, r.stdout[-300:] if r.returncode else "")
    ok = r.returncode == 0
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        assert r.returncode == 0, r.stdout
        r = sh("bash /opt/vp/test.sh /tmp/seed.json")
        o = json.load(open("/tmp/seed.json"))
        print(i, "tests:", len(o["passed"]), "passed", o["failed"])
        ok &= len(o["passed"]) == 50
        r = sh("bash %s/demo.sh" % d, cwd=R)
        print(i, "demo patched:", r.returncode)
        ok &= r.returncode not in (0, 3)
        if check:
            r = sh("./check %s" % meta["property"], cwd=V)
            print(i, "check:", r.returncode, r.stdout.strip().splitlines()[-1] if r.stdout else "")
            ok2 = r.returncode == 1
            print(i, "VALID" if ok else "INVALID", "CAUGHT" if ok2 else "MISSED")
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    return ok


if __name__ == "__main__":
    if sys.argv[1] == "--verify":
        for i in sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))):
            verify(i)
    else:
        ns = {}
        txt = open(sys.argv[1]).read()
        exec(txt, ns)
        for n in ns["SEEDS"]:
            if len(sys.argv) > 2 and n["id"] not in sys.argv[2:]:
                continue
            make(n)
            verify(n["id"])
