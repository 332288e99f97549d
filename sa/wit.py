"""Witness programs of the markup macros: compiled with the current tree, their MIR interpreted with opaque user code,
what they do compared with the meaning markup.py gives them."""
import hashlib
import os
import re
import time
import build
import core
import sem
import markup as M
from sem import Sem, norm_items, show_items
from core import BUF, Finding, Program
from interp import State, Undecided, Opq, Lin, Ref, Dead

HEAD = """#![allow(warnings)]
extern crate alloc;
use laby::*;
use laby::internal::Buffer;
pub enum Kind<V> { A(V), B, C(V, V) }
pub struct S<V> { pub f: V }
pub fn same<V>(v: V) -> V { v }
pub fn one<A: Render>(a: A) -> impl Render { frag!("[", a, "]") }
pub fn none() -> impl Render { "[-]" }
pub fn two<A: Render, B: Render>(a: A, b: B) -> impl Render { frag!("[", a, "|", b, "]") }
#[macro_export]
macro_rules! same { ($e:expr) => { $e } }
pub mod other {
    macro_rules! p { ($e:expr) => { $e } }
    macro_rules! img { ($e:expr) => { $e } }
    macro_rules! frag { ($e:expr) => { $e } }
    macro_rules! bool { ($e:expr) => { $e } }
    pub(crate) use {p, img, frag, bool};
}
pub trait Leaf {
    type V: Render;
    type I: IntoIterator<Item = Self::V>;
    fn ev(i: usize) -> Self::V;
    fn opt(i: usize) -> Option<Self::V>;
    fn text(i: usize) -> &'static str;
    fn num(i: usize) -> u32;
    fn seq(i: usize) -> Self::I;
    fn kind(i: usize) -> Kind<Self::V>;
    fn cond(i: usize) -> bool;
    fn mark(i: usize);
}
"""
LEAVES = {"ev", "opt", "text", "num", "seq", "kind", "cond", "mark"}


class W:
    """one witness: the nodes xs are built in order, then rendered in order"""

    def __init__(self, fam, xs, tags=(), etags=("C12",), twin=None, decl="", ret=False, what=None):
        self.fam, self.xs, self.tags, self.etags = fam, xs, tuple(tags), tuple(etags)
        self.twin, self.decl, self.ret, self.what = twin, decl, ret, what
        self.render = len(xs) == 1 and isinstance(xs[0], M.Render)

    def code(self, name):
        if self.render:
            x = self.xs[0]
            return "pub fn %s<L: Leaf>() -> alloc::string::String { L::mark(0); %slet r = %s; L::mark(1); r }\n" % (
                name, x.prelude(), x.code())
        o = "pub fn %s<L: Leaf>(b: &mut Buffer)%s { " % (name, " -> Option<()>" if self.ret else "")
        for j, x in enumerate(self.xs):
            o += x.prelude() + "let n%d = %s; L::mark(%d); " % (j, x.code(), 10 + j)
        for j, x in enumerate(self.xs):
            o += "Render::render(n%d, b); L::mark(%d); " % (j, 100 + j)
        return o + ("Some(()) }\n" if self.ret else "}\n")

    def expect(self, p):
        """run the model on a path"""
        if self.render:
            x = self.xs[0]
            p.event("mark", 0)
            x.preev(p)
            pl = [a.ev(p) for a in x.args]
            for a in pl:
                a()
            p.event("mark", 1)
            return
        plans = []
        try:
            for j, x in enumerate(self.xs):
                x.preev(p)
                plans.append(x.ev(p))
                p.event("mark", 10 + j)
        except M.Early:
            return
        for j, pl in enumerate(plans):
            pl()
            p.event("mark", 100 + j)


def consume(act, pos, exp):
    """end positions at which act[pos:end] can be the expected events"""
    ends = {pos}
    for e in exp:
        nxt = set()
        for q in ends:
            if e[0] == "either":
                nxt |= consume(act, q, list(e[1]) + list(e[2])) | consume(act, q, list(e[2]) + list(e[1]))
            elif e[0] == "any":
                nxt |= anyorder(act, q, e[1])
            elif q < len(act) and act[q] == e:
                nxt.add(q + 1)
        ends = nxt
        if not ends:
            break
    return ends


def anyorder(act, pos, groups):
    if not groups:
        return {pos}
    out = set()
    for i, g in enumerate(groups):
        for q in consume(act, pos, g):
            out |= anyorder(act, q, groups[:i] + groups[i + 1:])
    return out


def flat(exp):
    out = []
    for e in exp:
        if e[0] == "either":
            out += flat(e[1]) + flat(e[2])
        elif e[0] == "any":
            for g in e[1]:
                out += flat(g)
        else:
            out.append(e)
    return out


def show_events(es):
    return " ".join("%s%s" % (e[0], e[1:] if len(e) > 2 or not isinstance(e[1], int) else e[1]) for e in es)


def mentions(k, i):
    if k == i:
        return True
    return isinstance(k, tuple) and any(mentions(y, i) for y in k)


class Judge:
    def __init__(self, S, st):
        self.S, self.st = S, st

    def items(self, its):
        """actual items with the names the model uses"""
        out = []
        for x in its:
            if x[0] in ("esc", "in") and len(x) > 3:
                k = x[1]
                while isinstance(k, tuple) and k and k[0] in ("in", "&", "w"):
                    k = k[1]
                if self.st.eq(x[2], 0) and x[1] in self.st.objs and self.st.eq(x[3], self.st.objs[x[1]].size):
                    out.append((x[0], k))
                elif self.st.eq(x[2], x[3]):
                    continue
                else:
                    out.append(x)
            elif x[0] == "num" and not isinstance(x[2], int):
                k = x[2]
                for mk, s in self.S.it.memo.items():
                    if isinstance(mk, tuple) and mk[0] == "sym" and isinstance(k, Lin) and self.st.eq(k, s):
                        k = mk[1]
                        break
                out.append((x[0], x[1], k))
            else:
                out.append(x)
        return out


def same_item(a, b):
    if a == b:
        return True
    if a[0] == b[0] and a[0] in ("num", "esc", "in"):
        return a[:-1] == b[:-1] and mentions(a[-1], b[-1])
    return False


def compare(got, want):
    """first difference of item lists: None or (origin properties, text)"""
    def expand(xs, org):
        out = []
        for x in xs:
            o = ()
            if org:
                x, o = x
            if x[0] == "c":
                out += [(("c", bytes([ch])), o) for ch in x[1]]
            else:
                out.append((x, o))
        return out
    g, w = expand(got, False), expand(want, True)
    for i in range(max(len(g), len(w))):
        a = g[i][0] if i < len(g) else None
        b = w[i][0] if i < len(w) else None
        if a is None or b is None or not same_item(a, b):
            o = w[i][1] if b is not None else (w[-1][1] if w else ("C09",))
            lo = max(0, i - 12)

            def ctx(z):
                return show_items(norm_items([y for y, _ in z[lo:i + 24]]))
            return o, "writes ...%s where ...%s belongs" % (ctx(g), ctx(w))
    return None


def analyse(P, fi, w, name, max_items=3):
    """one witness; record"""
    S = Sem(P, light=True, max_items=max_items)
    st = State()
    body = P.fns[fi]["body"]
    args = []
    if body["argc"]:
        t = P.types[body["locals"][1]]
        st.mem[BUF] = Opq(("B", 0), t["e"])
        args.append(Ref(BUF, ()))
        S.main = BUF
    rec = {"name": name, "fam": w.fam, "out": None, "evt": None, "findings": [], "undecided": [], "paths": 0, "steps": 0, "ob": 0}
    snip = w.what or " ".join(x.code() for x in w.xs)
    snip = snip if len(snip) < 400 else snip[:400] + "..."

    def find(props, kind, text, cond=""):
        rec["findings"].append(Finding(tuple(props), kind, w.fam, text, snip + (" when " + cond if cond else ""), True, name))
    for o in S.run(fi, args, st):
        rec["paths"] += 1
        s = o.st
        tr = s.trace
        if any(e[0] in ("alloc", "realloc") for e in tr) and not s.approx:
            find(("C21",), "alloc", "allocates on the heap")
        if o.kind == "undecided":
            rec["undecided"].append((o.msg, o.span))
            continue
        nb = sum(1 for e in tr if e[0] == "newbuf")
        if nb > (1 if w.render else 0) or any(e[0] == "otherbuf" for e in tr):
            find(("C21",), "buffer", "uses another output buffer")
        if o.kind in ("oom", "capacity", "resume"):
            continue
        if o.kind != "ret":
            find(("C20",), "panic", "ends in %s: %s" % (o.kind, o.msg))
            continue
        rec["ob"] += 2
        if w.render:
            v = o.val
            if isinstance(v, Opq) and isinstance(v.id, tuple) and v.id[0] == "S":
                out = S.out(s, Opq(v.id[1], 0))
            else:
                raise Undecided("result of render! %r" % (v,))
        else:
            out = S.out(s, Opq(("B", 0), 0))
        J = Judge(S, s)
        got = J.items(norm_items(list(out)))
        acts = []
        for e in tr:
            if e[0] in LEAVES and len(e) == 2:
                acts.append(e)
            elif e[0] in ("render", "into_iter", "next", "end", "method"):
                acts.append(e)
        counts = {}
        for e in tr:
            if e[0] == "next":
                counts[e[1]] = counts.get(e[1], 0) + 1

        def variants(mixed):
            def c(k):
                v = s.truth.get(k)
                return mixed.get(k) if v is None else v

            def vv(k):
                v = s.variant.get(k)
                return mixed.get(k) if v is None else v
            return M.Path(c, vv, lambda k: counts.get(k, 0))
        todo = [{}]
        while todo:
            mx = todo.pop()
            p = variants(mx)
            try:
                w.expect(p)
            except M.Mixed as m:
                for v in ((True, False) if m.what[0] == "condition" else (0, 1)):
                    d = dict(mx)
                    d[m.what[1]] = v
                    if len(d) < 8:
                        todo.append(d)
                continue
            cond = ", ".join("%s = %s" % (show_key(k), v) for k, v in list(s.truth.items())[:6])
            d = compare(got, [x for x in p.out])
            if d:
                rec["out"] = d[1]
                rec["outorg"] = d[0]
                rec["outcond"] = cond
            if len(acts) not in consume(acts, 0, p.ev):
                i = 0
                fl = flat(p.ev)
                while i < len(acts) and i < len(fl) and acts[i] == fl[i]:
                    i += 1
                rec["evt"] = "does %s where %s belongs" % (show_events(acts[i:i + 8]) or "nothing",
                                                          show_events(fl[i:i + 8]) or "nothing")
                rec["evtcond"] = cond
            if d or rec["evt"]:
                break
    rec["steps"] = S.it.total
    rec["snip"] = snip
    return rec


def show_key(k):
    return "%s(%s)" % (k[0], k[1]) if isinstance(k, tuple) and len(k) > 1 else str(k)


# ----------------------------------------------------------------------------------------------- building and running
def emit(ws, prefix="w"):
    """[(name, source text)] of the witnesses"""
    return [("%s%d" % (prefix, i), w.code("%s%d" % (prefix, i))) for i, w in enumerate(ws)]


def page(text):
    """functions that are not generic, of one line: called by a path, by a bare name, as methods, through a macro"""
    fs = "".join("pub fn %s() -> Tok { loop {} } " % f for f in sorted(set(re.findall(r"\bpf\d+\b", text))))
    ms = "".join("pub fn %s(&self) -> Tok { loop {} } " % f for f in sorted(set(re.findall(r"\bpm\d+\b", text))))
    cs = "".join("pub fn %s() -> bool { loop {} } " % f for f in sorted(set(re.findall(r"\bpc\d+\b", text))))
    return ("pub mod page { use super::*; pub struct Tok(u32); impl Render for Tok { fn render(self, b: &mut Buffer) { loop {} } } impl Tok { pub fn render(self, b: &mut Buffer) { loop {} } } "
            "pub struct Ob; pub const O: Ob = Ob; impl Ob { %s} %s%smacro_rules! now { ($f:ident) => { crate::page::$f() } } pub(crate) use now; }\n"
            "use page::*;\n" % (ms, fs, cs))


def assemble(units, decls):
    """source of a crate and the line ranges of its units"""
    body = "".join(decls) + "".join(t for _, t in units)
    src = HEAD + page(body)
    lines = {}
    n = src.count("\n") + 1
    for d in decls:
        src += d + "\n"
        lines[n] = ("decl", d)
        n += d.count("\n") + 1
    for name, t in units:
        lines[n] = name
        src += t
        n += t.count("\n")
    return src, lines


def failing(stderr, lines):
    """witnesses in which the compiler reports an error; None when an error lies elsewhere"""
    bad = {}
    cur = None
    keys = sorted(lines)
    for l in stderr.splitlines():
        m = re.match(r"error(\[E\d+\])?: (.*)", l)
        if m:
            cur = (m.group(1) or "") + m.group(2)
            continue
        m = re.match(r"\s+--> src/lib\.rs:(\d+):\d+", l)
        if m and cur:
            n = int(m.group(1))
            o = None
            for k in keys:
                if k <= n:
                    o = lines[k]
            if n < keys[0] or o is None:
                return None
            bad.setdefault(o, cur)
            cur = None
        elif l.startswith("warning"):
            cur = None
    return bad or None


_D = {}


def load(job):
    """compile one crate of witnesses, dropping those the compiler rejects"""
    cname, units, decls, release, features = job
    rejected = {}
    for _ in range(6):
        src, lines = assemble(units, decls)
        fl = ""
        if features:
            # features of the library that switch on a compiler feature of the same name
            src = "#![feature(%s)] " % ", ".join(features) + src
            fl = "-Zallow-features=rustc_private,%s" % ",".join(features)
        proj = build.project(cname, {"lib.rs": src}, features=features)
        try:
            d = build.dump(proj, [cname], release, nightly_flags=fl)
            return d[cname], rejected
        except build.BuildError as e:
            bad = failing(str(e.args[1] if len(e.args) > 1 else e), lines)
            if not bad:
                raise
            rejected.update(bad)
            units = [(n, t) for n, t in units if n not in bad]
            decls = [d for d in decls if ("decl", d) not in bad]
    raise build.BuildError("witnesses do not build")


_W = {}


def task(t):
    cn, name, mi = t
    w = _W[name]
    P = _D[cn]
    fi = [i for i in P.root if P.fns[i]["name"] == name][0]
    try:
        return analyse(P, fi, w, name, mi)
    except Undecided as u:
        und = str(u)
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        und = "analysis failed: %s: %s" % (type(e).__name__, e)
    return {"name": name, "fam": w.fam, "out": None, "evt": None, "findings": [], "undecided": [(und, "")], "paths": 0,
            "steps": 0, "ob": 0, "snip": ""}


def programs(ws, tagname):
    """the dumps of the witnesses' crate, for analyses of their own"""
    build.driver()
    decls = []
    for w in ws:
        if w.decl and w.decl not in decls:
            decls.append(w.decl)
    d, _ = load((tagname, [(n, t) for n, t in emit(ws)], decls, False, None))
    return [Program(d)]


def run(ws, release=False, chunk=250, par=8, max_items=3, tagname="wit", features=None):
    """interpret every witness; (records, findings)"""
    import concurrent.futures as cf
    import multiprocessing as mp
    build.driver()
    named = [(n, t, w) for (n, t), w in zip(emit(ws), ws)]
    decls = []
    for w in ws:
        if w.decl and w.decl not in decls:
            decls.append(w.decl)
    k = max(1, min(par, (len(named) + chunk - 1) // chunk))
    parts = [named[i::k] for i in range(k)]
    jobs = [("%s%s%d" % (tagname, "r" if release else "d", i), [(n, t) for n, t, _ in p], decls, release, features)
            for i, p in enumerate(parts)]
    rejected = {}
    tasks = []
    with cf.ThreadPoolExecutor(k) as ex:
        for (cn, *_), p, (dump, rej) in zip(jobs, parts, ex.map(load, jobs)):
            _D[cn] = Program(dump)
            rejected.update(rej)
            tasks += [(cn, n, max_items) for n, _, w in p if n not in rej and ("decl", w.decl) not in rej]
    _W.clear()
    _W.update({n: w for n, _, w in named})
    with mp.get_context("fork").Pool(par) as pool:
        recs = pool.map(task, tasks, chunksize=4)
    for cn, *_ in jobs:
        _D.pop(cn, None)
    byname = {r["name"]: r for r in recs}
    fs = []
    names = {id(w): n for n, _, w in named}
    src = {n: t for n, t, _ in named}
    for n, _, w in named:
        if ("decl", w.decl) in rejected:
            rejected.setdefault(n, rejected[("decl", w.decl)])
            rejected[n] = rejected[("decl", w.decl)]
        if n in rejected:
            fs.append(Finding(tuple(w.tags) + tuple(w.etags), "rejected", w.fam, "well-formed markup does not compile: "
                              + rejected[n], w.what or " ".join(x.code() for x in w.xs)[:400], True, n))
            continue
        r = byname[n]
        fs += r["findings"]
        tw = byname.get(names.get(id(w.twin))) if w.twin is not None else None
        if r["out"]:
            props = set(r["outorg"]) | set(w.tags)
            if tw is not None and not tw["out"]:
                props |= set(w.twinprops)
            fs.append(Finding(tuple(sorted(props)), "output", w.fam, r["out"],
                              r["snip"] + (" when " + r["outcond"] if r["outcond"] else ""), True, n))
        if r["evt"]:
            props = set(w.etags)
            if tw is not None and not tw["evt"]:
                props |= set(w.twinprops)
            fs.append(Finding(tuple(sorted(props)), "events", w.fam, r["evt"],
                              r["snip"] + (" when " + r["evtcond"] if r["evtcond"] else ""), True, n))
    return recs, fs
