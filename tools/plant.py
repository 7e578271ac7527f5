"""Tries out a planted bug in a scratch copy of /repo and keeps it under seeded/<id>/ if it is one.

A spec is a Python file defining: id, prop, needs, breaks, edits [(file, old, new)], demo (Java source of class Demo).
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/main/java/io/fastprintf/"
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
java=${JAVA_HOME:+$JAVA_HOME/bin/}
mkdir -p "$out/c"
"${java}javac" -encoding UTF-8 -nowarn -d "$out/c" $(find src/main/java -name '*.java' ! -name module-info.java)
"${java}javac" -encoding UTF-8 -nowarn -cp "$out/c" -d "$out" "$here/Demo.java"
"${java}java" -cp "$out:$out/c" Demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(path):
    g = {"M": M}
    exec(open(path).read(), g)
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(work, "repo")
        sh(["cp", "-a", "/repo", repo])
        d = os.path.join(work, "seed")
        os.makedirs(d)
        open(os.path.join(d, "Demo.java"), "w").write(g["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
        if r.returncode:
            print(g["id"], "REJECTED: demo fails on the unchanged tree\n", r.stdout[-1500:]); return
        for f, a, b in g["edits"]:
            p = os.path.join(repo, M + f)
            s = open(p).read()
            if s.count(a) != 1:
                print(g["id"], "REJECTED: %d matches in %s" % (s.count(a), f)); return
            open(p, "w").write(s.replace(a, b))
        diff = sh(["git", "-C", repo, "diff"]).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
        if r.returncode == 0:
            print(g["id"], "REJECTED: demo passes with the change"); return
        why = r.stdout.strip().splitlines()[:2]
        for f in ("env.sh", "test.sh"):
            s = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp/env.sh", work + "/env.sh")
            open(os.path.join(work, f), "w").write(s)
        out = os.path.join(work, "out.json")
        r = sh(["bash", os.path.join(work, "test.sh"), out], cwd=repo)
        res = json.load(open(out))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = sorted(stable - set(res["passed"]))
        if bad:
            print(g["id"], "REJECTED: tests fail", bad[:5]); return
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        dst = os.path.join(HERE, "seeded", g["id"])
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        print(g["id"], "kept:", why)
    finally:
        shutil.rmtree(work)


for p in sys.argv[1:]:
    main(p)
