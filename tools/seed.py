#!/usr/bin/env python3
"""seed.py ID: (re)make and validate one planted bug from /verif/seeded/ID/edit.py-style description held in tools/seeds.py"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken.  cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/" || exit 99
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$d/Cargo.toml" || exit 99
sed -i "s|@REPO@|$repo|g" "$d"/src/*.rs
cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cd "$d" || exit 99
%s
'''
RUN = {"debug": 'cargo run -q --offline --target-dir "$d/target"', "release": 'cargo run -q --release --offline --target-dir "$d/target"',
       "check": 'cargo build -q --offline --target-dir "$d/target"',
       "reject": 'if cargo build -q --offline --target-dir "$d/target" 2>"$d/log"; then echo "accepted, but should have been rejected"; exit 1; fi\ngrep -q "@WANT@" "$d/log" || { cat "$d/log"; exit 1; }\nexit 0'}
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
laby = { path = "@REPO@/laby" }
laby_common = { path = "@REPO@/laby_common" }
[workspace]
'''
TOML_NODEP = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
%s
[workspace]
'''

def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)

def make(i, force=True):
    s = seeds.SEEDS[i]
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        sh("git checkout -q -- .", r)
        for path, old, new in s["edits"]:
            p = os.path.join(r, path)
            t = open(p).read()
            cnt = s.get("count", 1)
            if t.count(old) < 1:
                return "edit does not apply: " + old[:80]
            if t.count(old) > 1 and not s.get("nth") and not s.get("all"):
                return "edit is ambiguous (%d): %s" % (t.count(old), old[:80])
            if s.get("nth"):
                parts = t.split(old)
                k = s["nth"]
                t = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        d = sh("git diff", r).stdout
        o = os.path.join(V, "seeded", i)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        open(os.path.join(o, "Cargo.toml.in"), "w").write(TOML_NODEP % s["deps"] if "deps" in s else TOML)
        for f, t in s["files"].items():
            open(os.path.join(o, f), "w").write(t)
        run = s["run"] if s["run"] in RUN else None
        cmd = RUN[run] if run else s["run"]
        cmd = cmd.replace("@WANT@", s.get("want", ""))
        open(os.path.join(o, "demo.sh"), "w").write(DEMO % cmd)
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        a = sh("bash %s/demo.sh" % o, "/repo")
        if a.returncode != 0:
            return "demo fails on the unchanged tree: rc %d\n%s" % (a.returncode, a.stdout[-1500:])
        b = sh("bash %s/demo.sh" % o, r)
        if b.returncode == 0:
            return "demo does not fail with the patch:\n" + b.stdout[-800:]
        # tests with the patch, in place
        t = None if os.environ.get("NOTEST") else apply_test(o)
        if t:
            return t
        return "ok (demo rc %d: %s)" % (b.returncode, b.stdout.strip()[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)

def apply_test(o):
    sh("git apply %s/patch.diff" % o, "/repo")
    try:
        b = sh("bash /opt/vp/build.sh", "/repo")
        if b.returncode:
            return "does not build with the patch\n" + b.stdout[-800:]
        out = tempfile.mktemp(suffix=".json", dir="/tmp")
        sh("bash /opt/vp/test.sh " + out, "/repo")
        res = json.load(open(out))
        os.unlink(out)
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        ok = set(res.get("passed", []))
        lost = [x for x in stable if x not in ok] if isinstance(stable, list) else []
        if lost:
            return "tests fail with the patch: %s" % lost[:5]
    finally:
        sh("git checkout -- .", "/repo")
        sh("bash /opt/vp/build.sh", "/repo")

if __name__ == "__main__":
    ids = sys.argv[1:] or list(seeds.SEEDS)
    for i in ids:
        print(i, "->", make(i))
