"""The output buffer as an abstract data type: every public operation is interpreted once from an arbitrary state that
satisfies the buffer invariant (an empty buffer; a buffer over a live allocation of `cap` bytes holding `len` bytes),
for arbitrary arguments.  Obligations: no memory error, the invariant holds again for every buffer that is still
alive, nothing is leaked, and the contents, lengths and results are those of the operation's name.  Because every
operation starts from any state satisfying the invariant, the result covers every history."""
import sys
import time
import core
from core import *

BUFTY = "laby_common::internal::buffer::Buffer"


def strarg(st, name, mode):
    if mode == "empty":
        return StrV(None, 0, 0)
    cap = sym("scap")
    ln = sym("slen")
    st.assume(sub(ISIZE, cap))
    st.assume(sub(cap, 1))
    st.assume(ln)
    st.assume(sub(cap, ln))
    oid = ("h", name)
    st.objs[oid] = Obj("heap", cap, name, ents=((0, ln, ("old", name, 0)),))
    return StrV(oid, ln, cap)


class Ctx:
    pass


def bufname(P):
    for t in P.types:
        if t["k"] == "adt" and t["name"].endswith("::Buffer") and t["name"].startswith("laby_common::"):
            return t["name"]
    return BUFTY


def public_ops(P):
    """(function index, root) of every public operation whose signature involves the buffer"""
    bt = bufname(P)
    out = []
    for fi, r in P.root.items():
        f = P.fns[fi]
        if not f.get("body") or r.get("generic") or not r.get("public"):
            continue
        if f.get("trait", "") and f["trait"].endswith("::Render"):
            continue
        sig = list(f.get("ins") or []) + [f.get("out") or ""]
        if f.get("self") == bt or (bt in sig) or any(s == "&" + bt for s in sig):
            out.append((fi, r))
    return out


def opaque(it, st, fi, args):
    f = it.F[fi]
    p = f["path"]
    if p.startswith("<str as core::fmt::") or p.startswith("core::fmt::Formatter"):
        return Opq(("fmt", st.seq), it.cur_call[0][1] if it.cur_call else None)
    return None


def hook(it, st, fi, args):
    f = it.F[fi]
    p = f["path"]
    if p.startswith("<str as core::fmt::") or "core::fmt::Formatter" in p:
        return Agg(0, (Agg(0, ()),))
    return None


CHARS = [0, 0x22, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]
GRID = [(1, 0), (1, 1), (2, 1), (3, 3), (7, 5), (8, 8), (16, 12), (31, 31), (64, 40), (ISIZE, 5), (1 << 62, 1 << 62)]
ARGS = [0, 1, 2, 3, 4, 5, 9, 31, 64, 65, 1000, ISIZE, 1 << 63, MASK64]


def cases(P, fi):
    """argument states to start from"""
    f = P.fns[fi]
    bt = bufname(P)
    modes = [[]]
    for s in f["ins"]:
        if s in (bt, "&" + bt, "&mut " + bt):
            ch = ["empty", "heap"]
        elif s == "alloc::string::String":
            ch = ["empty", "heap"]
        elif s == "char":
            ch = ["lo", "hi"]
        else:
            ch = [""]
        modes = [m + [c] for m in modes for c in ch]
    return modes


def build(P, it, fi, modes, grid=None):
    f = P.fns[fi]
    bt = bufname(P)
    st = State()
    args = []
    names = {}
    c = Ctx()
    c.bufs = []
    c.strs = []
    c.sizes = []
    c.chars = []
    c.owned = []
    for k, (s, m) in enumerate(zip(f["ins"], modes)):
        if s in (bt, "&" + bt, "&mut " + bt):
            cell = BUF if not c.bufs else ("buf", k)
            nm = "B" if not c.bufs else "B%d" % k
            cap = ln = None
            if grid and m == "heap":
                cap, ln = grid[0]
            r, l0 = mkbuf(P, st, m, cell, nm, cap, ln)
            d, l, cp = buf_parts(P, st.mem[cell])
            names["len" + ("" if not c.bufs else str(k))] = l
            names["capacity" + ("" if not c.bufs else str(k))] = cp
            c.bufs.append((cell, nm, l, cp, s))
            if s == bt:
                args.append(st.mem[cell])
                del st.mem[cell]
            else:
                args.append(r)
        elif s == "&str":
            n = grid[1] if grid else sym("n")
            if grid and n > ISIZE:
                n = ISIZE
            nm = "S%d" % k
            a = mkstr(st, nm, n)
            names["str"] = n
            c.strs.append((a, n))
            args.append(a)
        elif s == "alloc::string::String":
            v = strarg(st, "T%d" % k, m)
            if m == "heap":
                names["string.len"], names["string.capacity"] = v.len, v.cap
            c.owned.append((v, "T%d" % k))
            args.append(v)
        elif s == "usize":
            if grid:
                n = grid[1]
            else:
                n = sym("arg")
                st.assume(n)
                st.assume(sub(MASK64, n))
            names["arg"] = n
            c.sizes.append(n)
            args.append(n)
        elif s == "char":
            if grid:
                n = grid[2]
            else:
                n = sym("char")
                lo, hi = (0, 0xD7FF) if m == "lo" else (0xE000, 0x10FFFF)
                st.assume(sub(n, lo))
                st.assume(sub(hi, n))
            names["char"] = n
            c.chars.append(n)
            args.append(n)
        else:
            ti = f["body"]["locals"][1 + k]
            args.append(it.opq(st, ("arg", k), ti))
    # preconditions the caller of an unsafe operation has to establish
    nm = f["name"]
    if f.get("unsafe") and c.bufs and c.sizes:
        l, cp = c.bufs[0][2], c.bufs[0][3]
        a = c.sizes[0]
        if nm == "advance":
            if not st.assume(sub(cp, add(l, a))):
                return None
            if modes[0] == "heap":
                oid = ("h", "B")
                st.objs[oid] = st.objs[oid].with_(ents=((0, add(l, a), ("old", "B", 0)),))
        elif nm == "_set_len" or nm == "set_len":
            if not st.assume(sub(cp, a)):
                return None
            if modes[0] == "heap":
                oid = ("h", "B")
                st.objs[oid] = st.objs[oid].with_(ents=((0, cp, ("old", "B", 0)),))
        else:
            if not st.assume(sub(ISIZE, a)):
                return None
    return st, args, names, c


def want_content(P, f, c):
    """expected contents of (first buffer afterwards, result) as item lists; None: no expectation"""
    nm = f["name"]
    old = lambda k=0: [("old", c.bufs[k][1], 0, c.bufs[k][2])]
    tail = []
    if c.strs:
        a, n = c.strs[0]
        tail = [("in", a.obj, 0, n)]
    if c.chars:
        tail = [("chr", c.chars[0])]
    if nm in ("new", "default", "with_capacity"):
        return None, []
    if nm in ("as_str", "clone", "into_string", "to_owned", "as_ref", "deref", "borrow"):
        return (old() if c.bufs[0][4] != bufname(P) else None), old()
    if nm in ("len", "capacity", "is_empty", "as_mut_ptr", "as_ptr", "reserve", "reserve_small", "fmt"):
        return old(), None
    if nm == "clear":
        return [], None
    if nm in ("push_str", "push", "write_str", "write_char", "add_assign"):
        return old() + tail, None
    if nm == "add":
        return None, old() + tail
    if nm == "from":
        if c.owned:
            v, n = c.owned[0]
            return None, ([("old", n, 0, v.len)] if v.obj is not None else [])
        return None, tail
    if nm == "advance":
        return [("old", "B", 0, add(c.bufs[0][2], c.sizes[0]))], None
    if nm in ("_set_len", "set_len"):
        return [("old", "B", 0, c.sizes[0])], None
    return None, None


def expand_chr(its):
    out = []
    for x in its:
        if x[0] == "chr" and type(x[1]) is int:
            x = ("c", chr(x[1]).encode("utf-8", "surrogatepass"))
        if x[0] == "c" and out and out[-1][0] == "c":
            out[-1] = ("c", out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def value_item(st, c):
    return c


def judge(P, it, fi, modes, st0, names, c, o, where, out):
    f = P.fns[fi]
    nm = f["name"]
    bt = bufname(P)
    st = o.st
    stack = [f["path"]]
    if o.kind == "oom":
        return
    if o.kind == "panic":
        small = [sub(HUGE, e) for e in names.values() if not isinstance(e, int)]
        if any(isinstance(e, int) and e > HUGE for e in names.values()):
            return
        i = instance(st.store, small) if not st.approx else None
        if i is not None:
            out.append(Finding(("C20", "C05"), "panic", where, "panics: %s" % o.msg, describe(i, names), True, o.span or "",
                               stack))
        else:
            s2 = st.copy()
            if st.approx and all(s2.assume(e) for e in small):
                out.append(Finding(("C20",), "panic", where, "may panic: %s" % o.msg, "", False, o.span or "", stack))
        return
    if o.kind == "unreachable":
        i = instance(st.store)
        if i is not None:
            out.append(Finding(("C04",), "ub", where, "reaches code marked unreachable", describe(i, names), True,
                               o.span or "", stack))
        return
    if o.kind != "ret":
        return
    wb, wr = want_content(P, f, c)

    def note(s, props, kind, text, extra=(), inst=None):
        i = inst if inst is not None else (instance(s.store, extra) if not s.approx else None)
        if i is None and not s.approx:
            i = None
        out.append(Finding(props, kind, where, text, describe(i, names) if i is not None else "", i is not None,
                           "", stack))

    def check(s):
        alive = set()
        # buffers passed by reference
        for cell, n, l, cp, ts in c.bufs:
            if ts == bt:
                continue
            v = s.mem.get(cell)
            if nm == "drop" and f.get("trait", "").endswith("::Drop"):
                continue
            pr = buffer_problem(P, it, s, v)
            if pr:
                note(s, ("C05",) if pr[0] == "uninit" and False else ("C04", "C05") if pr[0] == "uninit" else ("C04",),
                     pr[0], "afterwards: " + pr[1], pr[2])
                continue
            d, l9, c9 = buf_parts(P, v)
            if ts == "&" + bt:
                own = ("h", n) if ("h", n) in st0.objs else None
                if not (s.eq(l9, l) and s.eq(c9, cp) and (d.obj if isinstance(d, BP) else d) == own):
                    note(s, ("C08",), "shared-write", "an operation on a shared reference changes the buffer itself; two threads "
                         "holding one would race", (), None)
            if isinstance(d, BP) and d.obj is not None:
                alive.add(d.obj)
            if cell == BUF and wb is not None:
                got = expand_chr(items(s, content(P, it, s, v) or []))
                want = expand_chr(wb)
                if not same_items(s, got, want):
                    i = differ(s, got, want) if not s.approx else None
                    note(s, ("C05", "C07") if nm in ("push_str", "push", "write_str", "add_assign") else ("C05",),
                         "content", "content afterwards is %s, not %s" % (render_items(s, got), render_items(s, want)),
                         (), i)
            if cell == BUF and nm in ("reserve", "reserve_small") and c.sizes:
                d2, l2, c2 = buf_parts(P, v)
                e = sub(sub(c2, l2), c.sizes[0])
                if not s.entails(e):
                    note(s, ("C05",), "reserve", "room for %s bytes after reserving %s" % (s.norm(sub(c2, l2)), s.norm(c.sizes[0])),
                         (sub(-1, e),))
        r = o.val
        resbuf = f.get("out") == bt
        if resbuf:
            pr = buffer_problem(P, it, s, r)
            if pr:
                note(s, ("C04", "C05") if pr[0] == "uninit" else ("C04",), pr[0], "result: " + pr[1], pr[2])
            else:
                d, l, cp = buf_parts(P, r)
                if d.obj is not None:
                    if d.obj in alive:
                        note(s, ("C04", "C08", "C05"), "alias", "the result shares its memory with the argument")
                    alive.add(d.obj)
                if nm == "with_capacity" and c.sizes and not s.entails(sub(cp, c.sizes[0])):
                    note(s, ("C05",), "capacity", "capacity %s below the requested %s" % (s.norm(cp), s.norm(c.sizes[0])),
                         (sub(sub(c.sizes[0], cp), 1),))
                if wr is not None:
                    got = expand_chr(items(s, content(P, it, s, r) or []))
                    want = expand_chr(wr)
                    if not same_items(s, got, want):
                        i = differ(s, got, want) if not s.approx else None
                        note(s, ("C05",), "content", "the result holds %s, not %s" % (render_items(s, got),
                                                                                  render_items(s, want)), (), i)
        elif f.get("out") in ("alloc::string::String", "&str") and wr is not None:
            if isinstance(r, StrV) and r.obj is not None:
                alive.add(r.obj)
            ents = str_content(it, s, r)
            if ents is None:
                note(s, ("C04", "C05"), "uninit", "the result includes bytes that were never written")
            else:
                got = expand_chr(items(s, ents))
                want = expand_chr(wr)
                if not same_items(s, got, want):
                    i = differ(s, got, want) if not s.approx else None
                    note(s, ("C05",), "content", "the result is %s, not %s" % (render_items(s, got), render_items(s, want)),
                         (), i)
            if nm == "into_string":
                ev = [x for x in s.trace if x[0] in ("alloc", "realloc")]
                if ev:
                    note(s, ("C21",), "alloc", "converting to a string (re)allocates")
                elif isinstance(r, StrV) and r.obj is not None and c.bufs and r.obj != ("h", c.bufs[0][1]):
                    note(s, ("C21", "C05"), "move", "the string is not the buffer's own memory")
        elif nm == "len" and c.bufs:
            if not s.eq(it.num(s, r), c.bufs[0][2]):
                x = sub(it.num(s, r), c.bufs[0][2])
                note(s, ("C05",), "len", "returns %s for length %s" % (s.norm(it.num(s, r)), s.norm(c.bufs[0][2])),
                     (sub(x, 1),) if not s.entails(sub(0, x)) else (sub(-1, x),))
        elif nm == "capacity" and c.bufs:
            if not s.eq(it.num(s, r), c.bufs[0][3]):
                x = sub(it.num(s, r), c.bufs[0][3])
                note(s, ("C05",), "capacity", "returns %s for capacity %s" % (s.norm(it.num(s, r)), s.norm(c.bufs[0][3])),
                     (sub(x, 1),) if not s.entails(sub(0, x)) else (sub(-1, x),))
        elif nm == "is_empty" and c.bufs:
            b = it.decide(s, it.bool_of(r))
            l = c.bufs[0][2]
            bad = (sub(l, 1),) if b else (s.norm(scale(l, -1)),)
            s2 = s.copy()
            if s2.assume(bad[0]):
                note(s, ("C05",), "is_empty", "returns %s for length %s" % (b, s.norm(l)), bad)
        elif nm in ("as_mut_ptr", "as_ptr") and c.bufs and modes[0] == "heap":
            if not (isinstance(r, BP) and r.obj == ("h", "B") and s.eq(r.off, 0)):
                note(s, ("C05",), "ptr", "does not return the start of the contents")
        elif nm == "write_str" and isinstance(r, Agg) and r.v != 0:
            note(s, ("C05",), "fmt", "reports an error")
        if nm == "drop" and f.get("trait", "").endswith("::Drop"):
            alive = set()
        for oid, ob in s.objs.items():
            if ob.kind == "heap" and ob.live and oid not in alive and f.get("out") != "&str":
                note(s, ("C04",), "leak", "memory of %s is neither freed nor reachable afterwards" % (oid,))
        return True

    for s, _ in splits(st, check, 200):
        pass


def run_op(P, fi, modes, grid=None, max_steps=20000):
    it = Interp(P, max_steps=max_steps, opaque=hook)
    it.trace_alloc = True
    it.keep_div = 1000
    b = build(P, it, fi, modes, grid)
    out = []
    f = P.fns[fi]
    where = f["path"].replace("laby_common::internal::", "")
    if b is None:
        return {"fn": where, "modes": modes, "paths": 0, "findings": [], "undecided": [], "oblig": {}}
    st, args, names, c = b
    und = []
    paths = 0
    try:
        outs = it.run(fi, args, st)
        for v in from_violations(it, ("C04",), where, names):
            out.append(v)
        for o in outs:
            if o.kind == "undecided":
                und.append((o.msg, o.span))
                continue
            paths += 1
            try:
                judge(P, it, fi, modes, st, names, c, o, where, out)
            except Undecided as u:
                und.append((str(u), ""))
    except Undecided as u:
        und.append((str(u), ""))
    return {"fn": where, "modes": modes, "paths": paths, "findings": out, "undecided": und, "oblig": it.oblig,
            "steps": it.total, "grid": grid}


def grid_cases(P, fi):
    """concrete sizes: fixed ones, and those around the constants the code compares or masks sizes with"""
    f = P.fns[fi]
    bt = [s for s in f["ins"]]
    ks = int_consts(P, fi, 2, 1 << 20)
    at = sorted({x for k in ks for x in (k - 1, k, k + 1, k + k // 2, 2 * k, 3 * k + 1)} - {a for a in ARGS})
    if len(at) > 60:
        at = at[::len(at) // 60 + 1]
    grid = GRID + [(n + n // 8 + 1, n) for n in at] + [(n, n) for n in at[::3]]
    if any(s == "char" for s in bt):
        return [(g, 0, c) for g in GRID for c in CHARS] + [(g, 0, c) for g in grid[len(GRID):] for c in CHARS[2::4]]
    if any(s in ("usize", "&str") for s in bt):
        return [(g, a, 0) for g in GRID for a in ARGS] + [(g, a, 0) for g in GRID[1::3] for a in at] + \
            [(g, a, 0) for g in grid[len(GRID):] for a in ARGS[1::4]]
    return [(g, 0, 0) for g in grid]


def analyse(P):
    """results of every public operation"""
    res = []
    t0 = time.time()
    for fi, r in public_ops(P):
        f = P.fns[fi]
        for m in cases(P, fi):
            x = run_op(P, fi, m)
            res.append(x)
            if (x["undecided"] or any(not y.definite for y in x["findings"])) and not f["name"] == "fmt":
                # the unbounded run could not settle it: concrete sizes
                for g in grid_cases(P, fi):
                    if time.time() - t0 > 200:
                        res[-1]["undecided"] = res[-1]["undecided"] or [("out of time", "")]
                        break
                    y = run_op(P, fi, m, g)
                    y["partition"] = True
                    res.append(y)
    return res


if __name__ == "__main__":
    import json
    P = Program(json.load(open(sys.argv[1])))
    t = time.time()
    n = 0
    for x in analyse(P):
        n += 1
        if x.get("partition") and not x["findings"] and not x["undecided"]:
            continue
        print(x["fn"], x["modes"], x.get("grid"), x["paths"], x.get("steps"), x["undecided"][:2], "FINDINGS" if x["findings"] else "")
        for y in x["findings"]:
            print("    ", y.props, y.kind, y.text, y.inst, "DEF" if y.definite else "maybe", y.span[-40:])
    print(n, time.time() - t)
