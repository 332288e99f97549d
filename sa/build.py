"""Compiling the current tree of /repo with the driver (nothing of it is executed except build-time macros)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LABY_REPO", "/repo")
_tmp = None
_lock = threading.Lock()


class BuildError(Exception):
    pass


def tmp():
    """scratch folder of this process, removed at exit"""
    global _tmp
    with _lock:
        if _tmp is None:
            _tmp = tempfile.TemporaryDirectory(prefix="laby-sa-")
    return _tmp.name


def run(cmd, cwd=None, env=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          text=True)


def driver():
    d = os.path.join(VERIF, "build", "driver")
    exe = os.path.join(d, "debug", "mirdump")
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    r = run(["cargo", "+nightly", "build", "--offline", "--target-dir", d], cwd=os.path.join(VERIF, "driver"))
    if r.returncode != 0:
        raise BuildError("driver does not build:\n" + r.stderr[-3000:])
    return exe


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = run(["rustc", "+nightly", "--print", "sysroot"])
        _sysroot = r.stdout.strip()
    return _sysroot


def project(name, files, features=None, no_std=None, dep="laby", extra=""):
    """a scratch crate depending on the current tree"""
    d = os.path.join(tmp(), name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    f = ', features = [%s]' % ",".join('"%s"' % x for x in features) if features else ""
    with open(os.path.join(d, "Cargo.toml"), "w") as o:
        o.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
                '%s = { path = "%s/%s"%s }\n%s\n[workspace]\n[profile.dev]\ndebug = 0\nincremental = false\n'
                '[profile.release]\nopt-level = 0\ndebug = 0\n'
                % (name, dep, REPO, dep, f, extra))
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    for p, t in files.items():
        p = os.path.join(d, "src", p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as o:
            o.write(t)
    return d


def dump(proj, crates, release=False, target=None, stop=None, depth=None, nightly_flags="", wanted=True):
    """build proj with the driver; {crate: parsed dump}"""
    exe = driver()
    out = os.path.join(proj, "dump-" + ("release" if release else "debug"))
    os.makedirs(out, exist_ok=True)
    env = {
        "LD_LIBRARY_PATH": sysroot() + "/lib",
        "CARGO_ENCODED_RUSTFLAGS": "-Zallow-features=rustc_private" if not nightly_flags else nightly_flags,
        "RUSTC_WRAPPER": exe,
        "MIRDUMP_CRATES": ",".join(crates),
        "MIRDUMP_OUT": out,
        "MIRDUMP_ENCODE": "laby_common,laby",
        "MIRDUMP_FLAGS": "-Zmir-opt-level=0 -Zalways-encode-mir",
    }
    if stop:
        env["MIRDUMP_STOP"] = stop
    if depth:
        env["MIRDUMP_DEPTH"] = str(depth)
    cmd = ["cargo", "+nightly", "build", "--offline", "--target-dir", target or os.path.join(proj, "target")]
    if release:
        cmd.append("--release")
    r = run(cmd, cwd=proj, env=env)
    if r.returncode != 0:
        raise BuildError("the tree does not build with the driver:\n" + r.stderr[-6000:], r.stderr)
    res = {}
    for c in crates:
        p = os.path.join(out, c + ".json")
        if not os.path.exists(p) and not wanted:
            continue
        if not os.path.exists(p):
            raise BuildError("no dump of crate " + c)
        with open(p) as f:
            res[c] = json.load(f)
    return res


if __name__ == "__main__":
    print(driver())
