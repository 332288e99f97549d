"""The crates a rendered template links, and which of them depend on the standard library."""
import re
import build
from core import Finding

USE = """#![no_std]
extern crate alloc;
use laby::*;
#[laby] pub fn comp(#[default] a: u8, #[rest] r: impl Render, b: impl Render) -> impl Render { frag!(a, r, b) }
pub fn f(b: &mut internal::Buffer, x: &str, y: f64, n: i64, c: bool, d: core::fmt::Arguments) {
    Render::render(div!(id = x, hidden = bool!(c), p!(y, n, img!(src = x)), frag!(x, n), class = classes!(x, n), comp!(b = x, n, y)), b);
    Render::render(frag!(iter!(0..3), iter_lines!(0..3), raw!(x), disp!(d), DocType::HTML5), b);
    Render::render(frag_match!(if c { x } else { n }), b);
    Render::render(frag_match!(match n { 1 => x, _ => y }), b);
}
pub fn g(x: &str, y: f64) -> alloc::string::String { render!(x, y) }
"""


def packages():
    """crate names of the packages in the lock file"""
    import os
    out = set()
    for l in open(os.path.join(build.REPO, "Cargo.lock")):
        m = re.match(r'name = "(.*)"', l)
        if m:
            out.add(m.group(1).replace("-", "_"))
    return out


def run():
    """(findings, [(crate, its direct sysroot dependencies)])"""
    p = build.project("nostdwitness", {"lib.rs": USE})
    try:
        d = build.dump(p, ["nostdwitness", "laby", "laby_common"])
    except build.BuildError as e:
        err = e.args[1] if len(e.args) > 1 else e.args[0]
        plain = build.project("stdwitness", {"lib.rs": USE.replace("#![no_std]\n", "")})
        build.dump(plain, ["stdwitness"])      # a tree that does not build at all is not judged
        m = [l for l in err.splitlines() if l.startswith("error")]
        return [Finding(("C24",), "no-std", "a template in a crate without the standard library", "does not compile: " + (m or [err[-200:]])[0],
                        "", True, "compile witness")], [], 1
    names = packages()
    macros = {"laby_macros"}
    runtime = sorted({c for c, _ in d["nostdwitness"]["crates"]} & names - macros | {"laby", "laby_common"})
    rest = [c for c in runtime if c not in d]
    if rest:
        q = build.project("nostddeps", {"lib.rs": USE})
        env = build.dump(q, rest, wanted=False)
        d.update(env)
    fs, tab = [], []
    for c in runtime:
        if c not in d:
            continue
        direct = sorted(x for x, dir in d[c]["crates"] if dir)
        std = [x for x in direct if x in ("std", "test", "proc_macro")]
        tab.append((c, direct))
        if std:
            fs.append(Finding(("C24",), "std-dependency", c, "the runtime crate %s links %s" % (c, "/".join(std)), "", True, c))
    return fs, tab, len(runtime)
