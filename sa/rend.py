"""Every way a value is rendered at run time, interpreted from an arbitrary buffer: scalars, strings, options,
copy-on-write values, formatted text and the wrappers of laby, with user code opaque."""
import os
import re
import time
import build
import core
import sem
from sem import Sem, norm_items, show_items, key
from core import BUF, Finding, mkbuf, items, content, splits, Program
from interp import State, Undecided, Opq, Lin, Flt, Dead, sub, sym, add, FCLASSES, Ref, float_kind
import models

INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
NZ = {"NonZero" + {"size": "size"}.get(t[1:], t[1:]).join(["", ""]): t for t in INTS}


def nzname(t):
    return "core::num::NonZero" + ("Usize" if t == "usize" else "Isize" if t == "isize" else t[0].upper() + t[1:])


def source():
    o = ["#![allow(deprecated, dead_code)]", "extern crate alloc;", "use laby::internal::Buffer;",
         "use laby::Render;", "use alloc::borrow::{Cow, ToOwned};", "use core::fmt::Display;"]

    def f(name, params, val, gen="", where=""):
        o.append("pub fn r_%s%s(%sb: &mut Buffer) %s { Render::render(%s, b) }"
                 % (name, "<%s>" % gen if gen else "", params + ", " if params else "", where, val))
    for t in INTS + ["f32", "f64", "char", "bool", "()"]:
        f("unit" if t == "()" else t, "x: " + t, "x")
    for t in INTS:
        f("nz_" + t, "x: " + nzname(t), "x")
    f("str", "x: &str", "x")
    f("string", "x: alloc::string::String", "x")
    f("option", "x: Option<R>", "x", "R: Render")
    f("cow", "x: Cow<'a, R>", "x", "'a, R: ToOwned", "where &'a R: Render, R::Owned: Render")
    f("args", "x: core::fmt::Arguments", "x")
    f("disp", "x: D", "laby::RenderDisplay(x)", "D: Display")
    f("dispm", "x: D", "laby::disp!(x)", "D: Display")
    f("dispf", "x: D", "laby::RenderDisplay::from(x)", "D: Display")
    o.append('pub fn r_dispc<D: Display>(x: D, b: &mut Buffer) { Render::render(format_args!("{}", x), b) }')
    W = "where I: IntoIterator, I::Item: Render"
    f("iter", "x: I", "laby::iter!(x)", "I", W)
    f("iterf", "x: I", "laby::RenderIterator::from(x)", "I", W)
    f("iterd", "x: I, s: S", "laby::iter!(s, x)", "I, S: AsRef<str>", W)
    f("iterl", "x: I", "laby::iter_lines!(x)", "I", W)
    f("raw", "x: S", "laby::raw!(x)", "S: AsRef<str>")
    f("rawf", "x: S", "laby::RenderRaw::from(x)", "S: AsRef<str>")
    f("doctype", "", "laby::DocType::HTML5")
    o.append("pub fn l_iter<I>(x: I) -> laby::RenderIterator<I> %s { laby::iter!(x) }" % W)
    o.append("pub fn l_iterf<I>(x: I) -> laby::RenderIterator<I> %s { x.into() }" % W)
    o.append("pub fn l_iterd<I, S: AsRef<str>>(x: I, s: S) -> laby::RenderIteratorDelimited<I, S> %s { laby::iter!(s, x) }" % W)
    o.append("pub fn l_iterl<I>(x: I) -> laby::RenderIteratorDelimited<I, &'static str> %s { laby::iter_lines!(x) }" % W)
    o.append("pub fn l_raw<S: AsRef<str>>(x: S) -> laby::RenderRaw<S> { laby::raw!(x) }")
    o.append("pub fn l_disp<D: Display>(x: D) -> laby::RenderDisplay<D> { laby::disp!(x) }")
    o.append("pub fn t_new() -> Buffer { Buffer::new() }")
    o.append("pub fn t_cap(n: usize) -> Buffer { Buffer::with_capacity(n) }")
    o.append("pub fn s_into(x: Buffer) -> alloc::string::String { x.into_string() }")
    return "\n".join(o) + "\n"


KNOWN_IMPLS = {"()", "char", "bool", "&str", "alloc::string::String", "f32", "f64", "core::option::Option<R>"} | set(INTS)


def props_of(kind):
    if kind in ("str", "string"):
        return ("C03",)
    if kind in ("char", "cow"):
        return ("C03", "C18")
    if kind in ("args", "disp", "dispm", "dispf", "dispc"):
        return ("C03",)
    if kind.startswith("iter") or kind.startswith("raw"):
        return ("C17",)
    if kind == "option":
        return ("C18",)
    return ("C18",)


def char_expected(it, st, c):
    k = sem.special_of(it, st, c)
    if k is None:
        return [("chr", st.norm(c))]
    b = chr(k).encode("utf-8", "surrogatepass")
    return [("c", sem.esc_bytes(b))]


NONFINITE = {"nan": b"NaN", "pinf": b"inf", "ninf": b"-inf"}


def float_expected(kind, x, c):
    return [("c", NONFINITE[c])] if c in NONFINITE else [("num", kind, x)]


def expected(kind, S, st, args, trace):
    """(output items, allowed event projections) of one path"""
    it = S.it
    x = args[0] if args else None
    if kind == "unit":
        return []
    if kind in INTS:
        return [("num", kind, st.norm(x))]
    if kind.startswith("nz_"):
        return [("num", kind[3:], "inner")]
    if kind in ("f32", "f64"):
        cls = frozenset(float_kind(c) for c in st.fcls.get(x.id, FCLASSES))
        if len(cls) == 1 and cls <= set(NONFINITE):
            return float_expected(kind, x, *cls)
        if cls & set(NONFINITE):
            return ("mixed", cls)
        return [("num", kind, x)]
    if kind == "bool":
        t = st.truth.get(x.id)
        if t is None:
            return ("mixed", "both truth values")
        return [("c", b"true" if t else b"false")]
    if kind == "char":
        return char_expected(it, st, x)
    if kind == "str":
        return [("esc", x.obj, 0, x.meta)]
    if kind == "string":
        return [("esc", x.obj[1], 0, x.len)]
    if kind == "option":
        v = st.variant.get(x.id)
        if v is None:
            return ("mixed", "both variants")
        if v == 0:
            return []
        return [("ev", (x.id, 1, 0))]
    if kind == "cow":
        v = st.variant.get(x.id)
        if v is None:
            return ("mixed", "both variants")
        return [("ev", "inner", x.id, v)]
    if kind in ("args", "disp", "dispm", "dispf", "dispc"):
        out = []
        lit = [o for o in st.objs if isinstance(o, tuple) and len(o) > 1 and isinstance(o[1], tuple) and o[1][0] == "fmtlit"]
        begun = False
        for e in trace:
            if e[0] == "fmt-begin":
                begun = True
            if e[0] == "fmt-str":
                out.append(("esc", e[1], 0, st.norm(e[2])))
            elif e[0] == "fmt-char":
                out += char_expected(it, st, e[1])
        if not begun and lit:
            out = [("esc", lit[0], 0, st.objs[lit[0]].size)]
        return out
    if kind in ("iter", "iterf", "iterd", "iterl"):
        out = []
        n = 0
        for e in trace:
            if e[0] == "next":
                if n:
                    if kind == "iterl":
                        out.append(("c", b"\n"))
                    elif kind == "iterd":
                        out.append(("in", "del"))
                out.append(("ev", ("item", e[1], e[2])))
                n += 1
        return out
    if kind in ("raw", "rawf"):
        return [("in", "whole")]
    if kind == "doctype":
        return [("c", b"<!DOCTYPE html>")]
    raise Undecided("kind " + kind)


def empty(S, st, y, args):
    """does this item contribute no bytes on this path?"""
    if y[0] in ("in", "esc", "old") and len(y) > 3:
        return st.eq(y[2], y[3])
    if y[0] == "in":
        ks = ref_keys(S.it, st, args[1] if y[1] == "del" else args[0])
        for o in st.objs:
            if isinstance(o, tuple) and o[0] == "in" and isinstance(o[1], tuple) and o[1][0] == "asref" and o[1][1] in ks:
                return st.eq(st.objs[o].size, 0)
        return False
    if y[0] == "ev":
        ks = {y[1]} if y[1] != "inner" else cow_keys(y[2], y[3])
        for k in ks:
            for n in S.evlen.get(("ev", k), ()):
                if st.eq(n, 0):
                    return True
    return False


def same(S, st, kind, got, want, args):
    """do the items agree?  (True / False / None)"""
    it = S.it
    g = [y for y in got if not empty(S, st, y, args)]
    w = norm_items([y for y in want if not empty(S, st, y, args)])
    if len(g) != len(w):
        # delimiters and raw text may be empty
        if any(y[0] in ("in", "esc") for y in w) or any(y[0] in ("in", "esc") for y in g):
            g2 = norm_items(g)
        return False
    for a, b in zip(g, w):
        if b == ("in", "del") or b == ("in", "whole"):
            src = args[1] if b[1] == "del" else args[0]
            if a[0] != "in" or not isinstance(a[1], tuple) or a[1][:1] != ("in",):
                return False
            o = a[1]
            if o[1][0] != "asref" or o[1][1] not in ref_keys(it, st, src):
                return False
            if not st.eq(a[2], 0) or not st.eq(a[3], st.objs[o].size):
                return False
            continue
        if b[0] == "num" and b[2] == "inner":
            if a[0] != "num" or a[1] not in INTS or not nz_inner(it, st, a[2], args[0]):
                return False
            continue
        if b[0] == "ev" and b[1] == "inner":
            if a[0] != "ev" or a[1] not in cow_keys(b[2], b[3]):
                return False
            continue
        if a[0] == "chr" and b[0] == "num" and isinstance(b[2], (int, Lin)):
            # one digit
            if not st.eq(a[1], add(b[2], 48)) or not st.entails(b[2]) or not st.entails(sub(9, b[2])):
                return False
            continue
        if a[0] != b[0]:
            return False
        if a[0] in ("in", "esc", "old"):
            if a[1] != b[1] or not st.eq(a[2], b[2]) or not st.eq(a[3], b[3]):
                return False
        elif a[0] == "chr":
            if not st.eq(a[1], b[1]):
                return False
        elif a[0] == "num":
            if isinstance(a[2], (int, Lin)) and isinstance(b[2], (int, Lin)):
                # decimal digits do not tell the type of an integer
                if not st.eq(a[2], b[2]):
                    return False
            elif a[1:] != b[1:]:
                return False
        elif a != b:
            return False
    return True


def tokens(inst, xs):
    """an item list under a concrete assignment: bytes and opaque pieces; None when something has no value"""
    out = []
    for x in xs:
        if x[0] == "c":
            t = x[1]
        elif x[0] == "chr":
            v = core.value_in(inst, x[1])
            if v is None or not 0 <= v < 0x110000:
                return None
            t = chr(v).encode("utf-8", "surrogatepass")
        elif x[0] == "num" and isinstance(x[2], (int, Lin)):
            v = core.value_in(inst, x[2])
            if v is None:
                return None
            t = str(v).encode()
        elif x[0] in ("in", "esc", "old") and len(x) > 3:
            p, q = core.value_in(inst, x[2]), core.value_in(inst, x[3])
            if p is None or q is None:
                return None
            if p >= q:
                continue
            if out and out[-1][:2] == (x[0], x[1]) and out[-1][3] == p:
                out[-1] = (x[0], x[1], out[-1][2], q)
            else:
                out.append((x[0], x[1], p, q))
            continue
        else:
            out.append(x)
            continue
        if not t:
            continue
        if out and out[-1][0] == "c":
            out[-1] = ("c", out[-1][1] + t)
        else:
            out.append(("c", t))
    return out


def demo(S, st, got, want, facts):
    """a concrete instance in which the two lists are different bytes, or None"""
    for case in S.it.float_cases(st):
        i = demo_case(S, st, got, want, facts, case)
        if i is not None:
            return i
    return None


def float_items(S, xs, case):
    """numbers computed from the float this case fixes, as text"""
    fs = [e for e in case if isinstance(e, tuple)]
    if not fs:
        return xs
    _, fid, c = fs[0]
    out = []
    for x in xs:
        if x[0] == "num" and isinstance(x[2], Flt) and x[2].id == fid:
            y = S.it.fval(x[2], c)
            if y is None or isinstance(y, str):
                return None
            out.append(("c", sem.float_text(y, x[1]).encode() if float_kind(y) in ("fpos", "fneg", "fzero") else b"?"))
        else:
            out.append(x)
    return out


def demo_case(S, st, got, want, facts, case):
    got, want = float_items(S, got, case), float_items(S, want, case)
    if got is None or want is None:
        return None
    more = tuple(e for e in case if not isinstance(e, tuple))
    # also instances with numbers of other lengths and signs
    nums = [x[2] for x in want if x[0] == "num" and isinstance(x[2], Lin)]
    far = [more + (f,) for v in nums for f in [sub(v, k) for k in (10, 100, 1 << 7, 1 << 15, 1 << 31, 1 << 63, 1 << 127)] +
           [sub(-k, v) for k in (1, 10, 1 << 15, 1 << 31)]]
    for fs in [tuple(facts) + more, more] + far:
        inst = core.instance(st.store, fs)
        if inst is None:
            continue
        a, b = tokens(inst, got), tokens(inst, want)
        if a is None or b is None:
            continue
        special = [x for x in b if x[0] in ("in", "num", "ev") and x[-1] in ("inner", "whole", "del") or x[:2] == ("ev", "inner")]
        if special:
            # identities that are not numbers: a different kind or number of pieces
            if [x[0] for x in a] != [x[0] for x in b]:
                if any(x[0] == "num" for x in b) and not any(x[0] == "num" for x in a):
                    continue
                return inst
            return inst
        if a != b:
            return inst
    return None


def ref_keys(it, st, v):
    """identities a reference to v can go by"""
    k = key(it, st, v)
    return {k, ("&", k), ("w", k), ("&", ("w", k)), ("&", ("&", k))}


def cow_keys(i, v):
    k = (i, v, 0)
    return {k, ("&", k), ("&", ("*", k)), ("*", k)}


def nz_inner(it, st, v, x):
    """is v the integer inside the non-zero value x?"""
    if v == x:
        return True
    for k, s in it.memo.items():
        if isinstance(k, tuple) and k[0] == "sym" and isinstance(v, (int, Lin)) and st.eq(v, s):
            return mentions(k[1], x.id)
    return False


def nz_value(it, st, x):
    """the integer inside the non-zero value x, if this path has looked at it under one name"""
    ss = {st.norm(s) for k, s in it.memo.items() if isinstance(k, tuple) and k[0] == "sym" and mentions(k[1], x.id)}
    return next(iter(ss)) if len(ss) == 1 else None


def mentions(k, i):
    if k == i:
        return True
    return isinstance(k, tuple) and any(mentions(y, i) for y in k)


def build_args(S, st, fi, mode):
    P = S.P
    body = P.fns[fi]["body"]
    args, vals = [], []
    for n in range(1, body["argc"] + 1):
        ti = body["locals"][n]
        t = P.types[ti]
        if t["k"] == "ref" and core.is_buffer_ty(P, t["e"]):
            r, l0 = mkbuf(P, st, mode)
            args.append(r)
            continue
        v = S.it.opq(st, ("arg", n - 1), ti)
        args.append(v)
        vals.append(v)
    return args, vals


def events(kind, st, trace, args):
    """problems in the order of events of one complete path: list of (props, text)"""
    out = []
    if kind.startswith("iter"):
        ni = sum(1 for e in trace if e[0] == "into_iter")
        if ni != 1:
            out.append((("C17",), "the iterator is created %d times" % ni))
        ends = [e for e in trace if e[0] == "end"]
        if len(ends) != 1:
            out.append((("C17",), "the iterator is not run to its end"))
        nx = [("item", e[1], e[2]) for e in trace if e[0] == "next"]
        rd = [e[1] for e in trace if e[0] == "render"]
        if nx != rd:
            out.append((("C17",), "items yielded %d, rendered %d or in another order" % (len(nx), len(rd))))
    if kind == "option" or kind == "cow":
        rd = [e for e in trace if e[0] == "render"]
        n = 0 if (kind == "option" and st.variant.get(args[0].id) == 0) else 1
        if len(rd) != n:
            out.append((("C18",), "the held value is rendered %d times" % len(rd)))
    return out


def analyse_fn(P, fi, kind, mode, build_name, long=None):
    """interpret one witness; result record"""
    S = Sem(P, light=False)
    S.main = BUF
    st = State()
    args, vals = build_args(S, st, fi, mode)
    st0 = st.copy()
    where = "%s (%s buffer, %s build)" % (kind, mode, build_name)
    findings, und = [], []
    outs = S.run(fi, args, st)
    paths = 0
    fmt = set()
    pr = props_of(kind)
    for o in outs:
        paths += 1
        fmt |= {e[1:] for e in o.st.trace if e[0] == "fmt-begin"}
        if o.kind == "undecided":
            und.append((o.msg, o.span))
            findings += allocations(S, o, kind, where)
            continue
        try:
            for s, res in splits(o.st, lambda s: judge(S, s, o, kind, vals, mode)):
                for props, k, text, facts in res:
                    inst = core.instance(s.store, facts) if isinstance(facts, tuple) else facts
                    findings.append(Finding(props, k, kind, text, "" if inst is None else "instance exists (%s)" % where,
                                            inst is not None, o.span or "", ()))
        except Undecided as u:
            und.append((str(u), ""))
    findings += core.from_violations(S.it, ("C06", "C20") if True else (), kind)
    for f in S.findings:
        f.where = kind
    findings += S.findings
    return {"kind": kind, "mode": mode, "build": build_name, "findings": findings, "undecided": und,
            "paths": paths, "oblig": dict(S.it.oblig), "steps": S.it.total, "stable": S.iter_stable(), "long": long,
            "fmt": fmt, "visited": sorted({P.fns[x]["path"] for x in S.it.visited})}


def allocations(S, o, kind, where):
    """allocations on a path that could not be followed to its end"""
    bad = [e for e in o.st.trace if e[0] in ("alloc", "realloc") and not e[2]]
    if not bad or o.st.approx:
        return []
    for c in S.it.float_cases(o.st):
        if core.instance(o.st.store, tuple(e for e in c if not isinstance(e, tuple))) is not None:
            break
    else:
        return []
    return [Finding(("C21",), "alloc", kind, "heap allocation outside the output buffer (%s)" % (bad[0][1],), where, True, o.span or "", ())]


def judge(S, st, o, kind, vals, mode):
    out = []
    P, it = S.P, S.it
    tr = o.st.trace
    for e in tr:
        if e[0] in ("alloc", "realloc") and not e[2]:
            out.append((("C21",), "alloc", "heap allocation outside the output buffer", ()))
        if e[0] in ("newbuf", "otherbuf"):
            out.append((("C21",), "alloc", "a second output buffer is used", ()))
    if o.kind in ("oom", "capacity"):
        return out
    if o.kind == "resume":
        return out
    if o.kind == "unreachable":
        out.append((("C20", "C06"), "unreachable", "code marked unreachable is reached", ()))
        return out
    if o.kind == "panic":
        if any(e[0] == "fmt-error" for e in tr):
            return out
        out.append((("C20",), "panic", "panics: " + str(o.msg), ()))
        return out
    v = st.mem[BUF]
    r = core.buffer_problem(P, it, st, v)
    if r:
        out.append((("C06", "C04"), r[0], "after rendering: " + r[1], r[2]))
        return out
    c = content(P, it, st, v)
    if c is None:
        out.append((("C06",), "uninit", "unwritten bytes in the buffer", ()))
        return out
    its = items(st, c)
    l0 = st.meta.get("len0", 0)
    # the old content first
    if not st.eq(l0, 0):
        if its and its[0][0] == "old" and its[0][1] == "B" and st.eq(its[0][2], 0) and st.eq(its[0][3], l0):
            its = its[1:]
        elif its and its[0][0] == "old" and its[0][1] == "B" and st.eq(its[0][2], 0):
            out.append((("C07",), "old", "keeps only %s of the %s bytes already there" % (st.norm(its[0][3]), st.norm(l0)),
                        (sub(l0, add(its[0][3], 1)),)))
            return out
        else:
            out.append((("C07",), "old", "what the buffer held is not kept in front: " + show_items(its), (sub(l0, 1),)))
            return out
    want = expected(kind, S, st, vals, tr)
    if isinstance(want, tuple):
        # the path does not distinguish values that render differently
        cases = it.float_cases(st) if kind in ("f32", "f64") else [()]
        if cases != [()]:
            # what the path assumed of the value is certain for single values only
            for case in cases:
                w = norm_items(float_expected(kind, vals[0], float_kind(case[0][2])))
                inst = demo_case(S, st, norm_items(its), w, [], case)
                if inst is not None:
                    out.append((props_of(kind), "output", "writes %s where %s belongs" % (show_items(its), show_items(w)), inst))
                    return out
            raise Undecided("which values take this path?")
        out.append((props_of(kind), "value", "the same output %s for %s" % (show_items(its), want[1]), ()))
        return out
    if kind.startswith("nz_"):
        w = nz_value(it, st, vals[0])
        if w is not None:
            want = [("num", kind[3:], w)]
    its = norm_items(its)
    want = norm_items(want)
    if not same(S, st, kind, its, want, vals):
        facts = []
        for y in its + want:
            if y[0] in ("esc", "in", "old") and len(y) > 3:
                facts.append(sub(sub(y[3], y[2]), 1))
        inst = demo(S, st, its, want, facts)
        pr = props_of(kind)
        if any(y[0] in ("in", "chr", "str") for y in its) and not any(y[0] in ("in",) for y in want) and kind not in ("char",):
            pr = tuple(set(pr) | {"C03"})
        out.append((pr, "output", "writes %s where %s belongs" % (show_items(its), show_items(want)), inst))
    for props, text in events(kind, st, tr, vals):
        out.append((props, "events", text, ()))
    return out


def long_fn(P, fi, kind, build_name, long):
    """a long iterator, with the buffer as an abstract string"""
    S = Sem(P, light=True, max_steps=400 * long + 10000)
    S.long = long
    st = State()
    body = P.fns[fi]["body"]
    args, vals = [], []
    for n in range(1, body["argc"] + 1):
        ti = body["locals"][n]
        t = P.types[ti]
        if t["k"] == "ref" and core.is_buffer_ty(P, t["e"]):
            st.mem[BUF] = Opq(("B", 0), t["e"])
            args.append(Ref(BUF, ()))
            continue
        args.append(S.it.opq(st, ("arg", n - 1), ti))
        vals.append(args[-1])
    rec = {"kind": kind, "mode": "long", "build": build_name, "findings": [], "undecided": [], "paths": 0, "oblig": {},
           "steps": 0, "stable": True, "long": long, "visited": []}
    for o in S.run(fi, args, st):
        rec["paths"] += 1
        if o.kind == "undecided":
            rec["undecided"].append((o.msg, o.span))
            continue
        if o.kind == "panic":
            rec["findings"].append(Finding(("C20",), "panic", kind, "panics: %s" % o.msg, "%d items" % long))
        if o.kind != "ret":
            continue
        got = norm_items(list(S.out(o.st, Opq(("B", 0), 0))))
        want = norm_items(expected(kind, S, o.st, vals, o.st.trace))
        if kind == "iterd":
            # the delimiter of unknown text: one object everywhere
            ds = {x[1] for x in got if x[0] == "in"}
            got = [("in", "del") if x[0] == "in" and len(ds) == 1 else x for x in got]
        if got != want:
            rec["findings"].append(Finding(("C17",), "output", kind, "%d items: writes %d pieces where %d belong (%s...)"
                                           % (long, len(got), len(want), show_items(got[:6])), "%d items" % long))
        for props, text in events(kind, o.st, o.st.trace, vals):
            rec["findings"].append(Finding(props, "events", kind, text, "%d items" % long))
    rec["steps"] = S.it.total
    return rec


def lazy_fn(P, fi, kind):
    S = Sem(P, light=True)
    st = State()
    body = P.fns[fi]["body"]
    args = [S.it.opq(st, ("arg", n - 1), body["locals"][n]) for n in range(1, body["argc"] + 1)]
    fs, und = [], []
    n = 0
    for o in S.run(fi, args, st):
        n += 1
        if o.kind == "undecided":
            und.append((o.msg, o.span))
        elif o.kind == "ret":
            if o.st.trace:
                p = ("C21",) if all(e[0] in ("alloc", "realloc") for e in o.st.trace) else ("C17",)
                fs.append(Finding(p, "eager", kind, "does something before it is rendered: %s" % (o.st.trace[:3],)))
        elif o.kind == "panic":
            fs.append(Finding(("C20",), "panic", kind, "panics when built: %s" % o.msg))
    return {"kind": kind, "findings": fs, "undecided": und, "paths": n, "oblig": {}, "build": "debug", "mode": "build",
            "steps": S.it.total, "stable": True, "visited": []}


def into_fn(P, fi, kind, build_name):
    """turning the buffer into a string allocates nothing and hands the memory over"""
    out = {"kind": kind, "findings": [], "undecided": [], "paths": 0, "oblig": {}, "build": build_name, "mode": "any",
           "steps": 0, "stable": True, "visited": []}
    for mode in ("heap", "empty"):
        S = Sem(P, light=False)
        st = State()
        r, l0 = mkbuf(P, st, mode)
        v = st.mem.pop(BUF)
        d, ln, cap = core.buf_parts(P, v)
        for o in S.run(fi, [v], st):
            out["paths"] += 1
            if o.kind == "undecided":
                out["undecided"].append((o.msg, o.span))
            if any(e[0] in ("alloc", "realloc") for e in o.st.trace):
                out["findings"].append(Finding(("C21",), "alloc", kind, "conversion to a string allocates"))
            if o.kind == "ret" and mode == "heap":
                if not isinstance(o.val, sem.StrV) or (not o.st.eq(ln, 0) and o.val.obj != d.obj):
                    inst = core.instance(o.st.store, (sub(ln, 1),))
                    out["findings"].append(Finding(("C21",), "copy", kind, "conversion to a string does not hand over "
                                                   "the buffer's memory", "length 1", inst is not None))
        out["steps"] += S.it.total
        for k, n in S.it.oblig.items():
            out["oblig"][k] = out["oblig"].get(k, 0) + n
    return out


def uncovered(progs):
    """Render implementations of the library that no witness covers"""
    out = []
    for P in progs:
        for i, f in enumerate(P.fns):
            if f.get("trait") == "laby_common::render::Render" and f["name"] == "render" and f.get("local"):
                s = f.get("self") or ""
                if s in KNOWN_IMPLS or s.startswith("core::num::nonzero::NonZero") or s.startswith("core::num::NonZero"):
                    continue
                if s.startswith(("core::fmt::Arguments", "alloc::borrow::Cow", "laby::helpers::Render", "laby::doctype::DocType")):
                    continue
                out.append(s)
    return sorted(set(out))


_cache = {}
_missing = {}


def rejected_lines(err, nlines):
    """line -> first error message, of a compiler output"""
    out, cur = {}, None
    for l in err.splitlines():
        m = re.match(r"error(\[E\d+\])?: (.*)", l)
        if m:
            cur = (m.group(1) or "") + " " + m.group(2)
        m = re.match(r"\s*--> .*src/lib\.rs:(\d+):", l)
        if m and cur and 0 < int(m.group(1)) <= nlines:
            out.setdefault(int(m.group(1)), cur.strip())
            cur = None
    return out


def dumps():
    if not _cache:
        import concurrent.futures as cf
        build.driver()
        lines = source().splitlines()
        for _ in range(4):
            src = "\n".join(lines) + "\n"
            a = build.project("rendd", {"lib.rs": src})
            b = build.project("rendr", {"lib.rs": src})
            try:
                with cf.ThreadPoolExecutor(2) as ex:
                    x = ex.submit(build.dump, a, ["rendd"], False)
                    y = ex.submit(build.dump, b, ["rendr"], True)
                    D = {"debug": Program(x.result()["rendd"]), "release": Program(y.result()["rendr"])}
                _cache.update(D)
                break
            except build.BuildError as e:
                bad = rejected_lines(str(e.args[1] if len(e.args) > 1 else e), len(lines))
                bad = {n: t for n, t in bad.items() if lines[n - 1].startswith("pub fn ")}
                if not bad:
                    raise
                for n, t in bad.items():
                    name = re.match(r"pub fn (\w+)", lines[n - 1]).group(1)
                    _missing[name] = (t, lines[n - 1])
                    lines[n - 1] = ""
        else:
            raise build.BuildError("the witnesses of the Render implementations do not build")
    return _cache


def missing():
    """a built-in value that no longer renders at all"""
    fs, und = [], []
    for name, (t, src) in sorted(_missing.items()):
        kind = name[2:]
        if name.startswith("r_") and "E0277" in t and "Render" in t and ("Render::render(x, b)" in src or kind == "doctype"):
            fs.append(Finding(("C18",), "no-impl", kind, "does not render: %s" % t, "every value", True))
        else:
            und.append("the program for %s does not compile: %s" % (kind, t))
    return fs, und


def task(t):
    bn, name, kind, mode, long = t
    P = _cache[bn]
    fi = [i for i in P.root if P.fns[i]["name"] == name][0]
    try:
        if name.startswith("l_"):
            return lazy_fn(P, fi, kind)
        if name.startswith("s_"):
            return into_fn(P, fi, kind, bn)
        if long:
            return long_fn(P, fi, kind, bn, long)
        return analyse_fn(P, fi, kind, mode, bn, None)
    except Undecided as u:
        return {"kind": kind, "mode": mode, "build": bn, "findings": [], "undecided": [(str(u), "")], "paths": 0,
                "oblig": {}, "steps": 0, "stable": False, "visited": []}
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        return {"kind": kind, "mode": mode, "build": bn, "findings": [],
                "undecided": [("analysis failed: %s: %s" % (type(e).__name__, e), "")], "paths": 0,
                "oblig": {}, "steps": 0, "stable": False, "visited": []}


def analyse(want=None, long=300, par=8):
    import multiprocessing as mp
    D = dumps()
    tasks = []
    for bn, P in D.items():
        for fi in sorted(P.root):
            n = P.fns[fi]["name"]
            if n[:2] not in ("r_", "l_", "s_"):
                continue
            kind = n[2:]
            if want and not want(n[:2], kind):
                continue
            if n.startswith("r_"):
                for mode in ("heap", "empty"):
                    tasks.append((bn, n, kind, mode, None))
                if kind.startswith("iter") and long:
                    tasks.append((bn, n, kind, "empty", long))
            elif bn == "debug" or n.startswith("s_"):
                tasks.append((bn, n, kind, "", None))
    with mp.get_context("fork").Pool(par) as pool:
        res = pool.map(task, tasks, chunksize=1)
    return res


def control(records):
    """a displayed value must be formatted exactly as `{}` formats it"""
    out = []
    ctl = {(x["mode"], x["build"]): x.get("fmt") for x in records if x["kind"] == "dispc"}
    for x in records:
        if x["kind"] in ("disp", "dispm", "dispf") and x.get("fmt"):
            c = ctl.get((x["mode"], x["build"]))
            if c and x["fmt"] - c:
                out.append(Finding(("C18",), "format", x["kind"], "the displayed value is not formatted as `{}` formats it: %s"
                                   % (sorted(x["fmt"] - c, key=str)[0],), "every value"))
    return out


def run(want=None, long=300):
    recs = analyse(want, long)
    fs, und = missing()
    return {"records": recs, "findings": control(recs) + fs, "rejected": und, "uncovered": uncovered(list(dumps().values()))}
