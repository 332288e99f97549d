"""Meaning of rendering code: user code (leaves, iterators, formatting traits) is opaque and leaves events, the output
buffer is either the abstract string (light) or the memory object of core.py (full), and what a function did is
the list of output items plus the ordered list of events.  Buffer::push_str/push/reserve and escape are used by the
contract that C01, C04 and C05 establish for them."""
import re
import interp as I
from interp import (Interp, State, Agg, Opq, Ref, BP, FnV, StrV, Flt, Obj, BF, Lin, Undecided, Fork, Dead, add, sub, scale,
                    sym, SPECIAL)
from interp2 import Diverge, Inline, Goto
import models
from models import choice, UNIT, NONE, some, ok, DEFAULT_MODELS
import core
from core import BUF, ISIZE, Finding, mkbuf, mkstr, str_content, items
import esccheck

RENDER = "laby_common::render::Render::render"
BUFP = "laby_common::internal::buffer::Buffer::"
ESC = {chr(k): v for k, v in SPECIAL.items()}
SCALARS = {"bool", "char", "()", "&str", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64",
           "i128", "isize", "f32", "f64", "alloc::string::String", "core::fmt::Arguments<'a>", "core::fmt::Arguments<'_>"}


def esc_bytes(b):
    out = bytearray()
    for x in b:
        out += SPECIAL.get(x, bytes([x]))
    return bytes(out)


def key(it, st, v):
    """identity of a value"""
    if isinstance(v, Opq):
        return v.id
    if isinstance(v, Agg) and len(v.f) == 1:
        return ("w", key(it, st, v.f[0]))
    if isinstance(v, Ref):
        try:
            x = it.load(st, ("c", v.cell, v.path), None)
        except Undecided:
            x = None
        if isinstance(x, (Opq, Ref, Agg)):
            return ("&", key(it, st, x))
        return ("ref", v.cell, v.path)
    if isinstance(v, BP):
        return ("p", v.obj, st.norm(v.off), None if v.meta is None else st.norm(v.meta))
    if isinstance(v, (int, Lin)):
        return ("n", st.norm(v))
    return ("v", v)


def float_text(x, ty):
    """text of a finite float as the ryu formatter lays it out"""
    import struct
    if x == 0:
        return "-0.0" if str(x).startswith("-") else "0.0"
    sign = "-" if x < 0 else ""
    x = abs(x)
    if ty == "f32":
        f = struct.unpack("f", struct.pack("f", x))[0]
        r = None
        for p in range(1, 18):
            r = "%.*e" % (p - 1, f)
            if struct.unpack("f", struct.pack("f", float(r)))[0] == f:
                break
    else:
        r = "%.17e" % x
        for p in range(1, 18):
            r = "%.*e" % (p - 1, x)
            if float(r) == x:
                break
    m, e = r.split("e")
    dg = m.replace(".", "").rstrip("0") or "0"
    e = int(e)
    length = len(dg)
    k = e - length + 1
    kk = length + k
    hi, lo = (16, -5) if ty == "f64" else (13, -6)
    if 0 <= k and kk <= hi:
        t = dg + "0" * k + ".0"
    elif 0 < kk <= hi:
        t = dg[:kk] + "." + dg[kk:]
    elif lo < kk <= 0:
        t = "0." + "0" * (-kk) + dg
    elif length == 1:
        t = dg + "e" + str(kk - 1)
    else:
        t = dg[0] + "." + dg[1:] + "e" + str(kk - 1)
    return sign + t


def norm_items(its):
    """constant pieces in their final form, neighbours merged"""
    out = []
    for x in its:
        if x[0] == "c":
            b = x[1]
        elif x[0] == "num" and type(x[2]) is int:
            b = str(x[2]).encode()
        elif x[0] == "num" and isinstance(x[2], Flt) and isinstance(x[2].fn, tuple) and x[2].fn[0] == "const":
            b = float_text(x[2].fn[2], x[1]).encode()
        elif x[0] == "ev" and x[1] and x[1][0] == "n" and False:
            b = b""
        else:
            out.append(x)
            continue
        if not b:
            continue
        if out and out[-1][0] == "c":
            out[-1] = ("c", out[-1][1] + b)
        else:
            out.append(("c", b))
    return out


def show_items(its):
    out = []
    for x in its:
        if x[0] == "c":
            out.append(repr(x[1].decode("utf-8", "replace")))
        elif x[0] in ("ev", "esc", "in"):
            out.append({"ev": "value", "esc": "escaped", "in": "raw"}[x[0]] + str(x[1]))
        else:
            out.append(str(x[:3]))
    return " + ".join(out) or "nothing"


PAGE = re.compile(r"p([fmc])(\d+)$")


def special_of(it, st, c):
    """the special character (or any constant) this path has fixed, None when it is none of them (splits the state)"""
    c = st.norm(c)
    if type(c) is int:
        return c
    for s in SPECIAL:
        if it.decide(st, ("eq", sub(c, s))):
            return s
    return None


class Sem:
    """one interpretation set-up.  light: the buffer is an abstract string"""

    def __init__(self, P, light=True, max_items=4, max_steps=200000, leaf="Leaf"):
        self.P = P
        self.light = light
        self.max_items = max_items
        self.findings = []
        self.leaf = leaf
        self.long = None
        self.sigs = {}
        self.renders = 0
        self.evlen = {}
        self.ghosts = 0
        it = Interp(P, opaque=self.hook, max_steps=max_steps)
        it.merge = False
        it.trace_alloc = True
        it.keep_div = 6
        it.fmt_calls = 2
        it.sem_key = key
        self.it = it

    # ------------------------------------------------------------------------------- buffer
    def is_buf(self, v):
        return isinstance(v, Opq) and isinstance(v.id, tuple) and v.id and v.id[0] == "B"

    def bufval(self, st, a):
        v = a
        if isinstance(a, Ref):
            v = self.it.load(st, ("c", a.cell, a.path), None)
            if isinstance(v, Ref):
                v = self.it.load(st, ("c", v.cell, v.path), None)
        if not self.is_buf(v):
            raise Undecided("buffer %r" % (v,))
        return v

    def out(self, st, v):
        return st.meta.get(("out", v.id), ())

    def emit(self, st, a, its):
        v = self.bufval(st, a)
        m = dict(st.meta)
        m[("out", v.id)] = self.out(st, v) + tuple(its)
        st.meta = m

    def check_inv(self, st, a, what):
        """the buffer must be whole whenever other code may see it"""
        if self.light:
            return
        if not isinstance(a, Ref):
            raise Undecided("buffer %r" % (a,))
        v = self.it.load(st, ("c", a.cell, a.path), None)
        if isinstance(v, Ref):
            a = v
            v = self.it.load(st, ("c", v.cell, v.path), None)
        for s, r in core.splits(st, lambda s: core.buffer_problem(self.P, self.it, s, v)):
            if r:
                inst = core.instance(s.store, r[2])
                self.find(("C06", "C20", "C04"), r[0], what + ": " + r[1], s, inst is not None,
                          "" if inst is None else "instance found")
        return a

    def find(self, props, kind, text, st, definite=True, inst=""):
        self.findings.append(Finding(props, kind, self.it.stack(st)[0] if st.frame else "", text, inst, definite,
                                     self.it.span(st) if st.frame else "", tuple(self.it.stack(st)) if st.frame else ()))

    def str_items(self, st, v, escd):
        """output items of a string view, escaped or not"""
        r = str_content(self.it, st, v)
        if r is None:
            raise Undecided("string content")
        out = []
        for x in items(st, r):
            if x[0] == "c":
                out.append(("c", esc_bytes(x[1]) if escd else x[1]))
            elif x[0] in ("in", "old"):
                oid = x[1] if isinstance(x[1], tuple) and x[0] == "in" else x[1]
                out.append(("esc" if escd else "in", oid, x[2], x[3]))
            elif x[0] == "num" and escd:
                out.append(x)
            elif x[0] == "chr" and escd:
                c = special_of(self.it, st, x[1])
                out.append(("chr", st.norm(x[1])) if c is None else ("c", esc_bytes(chr(c).encode("utf-8", "surrogatepass"))))
            elif escd:
                out.append(("escof",) + x)
            else:
                out.append(x)
        return out

    def append(self, st, a, its):
        """append items to the buffer a refers to"""
        if self.light:
            self.emit(st, a, its)
            return
        a = self.check_inv(st, a, "append") or a
        for x in its:
            if x[0] == "c":
                if x[1]:
                    esccheck.append(self.P, self.it, st, a, x, len(x[1]))
            elif x[0] == "in":
                esccheck.append(self.P, self.it, st, a, ("in", x[1], x[2]), sub(x[3], x[2]))
            elif x[0] == "esc":
                esccheck.append(self.P, self.it, st, a, x, sub(x[3], x[2]))
            elif x[0] == "chr":
                n = models.char_len(self.it, st, x[1])
                esccheck.append(self.P, self.it, st, a, x, n)
            else:
                n = sym("evlen")
                st.assume(n)
                st.assume(sub(ISIZE, n))
                self.evlen.setdefault(x, []).append(n)
                esccheck.append(self.P, self.it, st, a, x, n)

    def char_items(self, st, c, escd):
        c = st.norm(self.it.num(st, c)) if not isinstance(c, int) else c
        if type(c) is int:
            b = chr(c).encode("utf-8", "surrogatepass")
            return [("c", esc_bytes(b) if escd else b)]
        return [("chr", c)]

    def ev(self, st, e):
        st.trace = st.trace + (e,)

    # ------------------------------------------------------------------------------- calls
    def hook(self, it, st, fi, args):
        f = it.F[fi]
        p = f["path"]
        k = f["kind"]
        if k == "unresolved":
            return self.unresolved(st, f, args)
        if "::page::" in p and f.get("local"):
            m = PAGE.match(f["name"])
            if m:
                n = {"f": "ev", "m": "ev", "c": "cond"}[m.group(1)]
                return self.leaf_value(st, n, int(m.group(2)))
            if f["name"] == "render":
                if f.get("trait"):
                    return self.value_render(st, args)
                self.ev(st, ("method", key(it, st, args[0])))      # a method of the value's own, not the trait's
                return UNIT
        if p.startswith(BUFP):
            return self.buffer_call(st, f, p[len(BUFP):], args)
        if p.startswith("laby_common::internal::escape::") and p.endswith("::escape"):
            self.append(st, args[1], self.str_items(st, args[0], True))
            return UNIT
        if self.light:
            if f.get("trait") == "laby_common::render::Render" and f["name"] == "render":
                return self.scalar_render(st, f, args)
            if "Buffer" in p and "laby_common::internal::buffer::" in p:
                return self.buffer_trait(st, f, args)
        if p in ("core::fmt::Arguments::<'a>::as_str", "core::fmt::Arguments::<'a>::as_statically_known_str"):
            v = args[0]
            if isinstance(v, Ref):
                v = it.load(st, ("c", v.cell, v.path), None)
            c = choice(st, ("fmtlit", key(it, st, v)), 2)
            if c == 0:
                return NONE
            return some(self.fmtlit(st, v))
        return None

    def fmtlit(self, st, v):
        oid = ("in", ("fmtlit", key(self.it, st, v)))
        n = self.it.memo.get(("fl", oid))
        if n is None:
            n = self.it.memo[("fl", oid)] = sym("litlen")
        if oid not in st.objs:
            st.objs[oid] = Obj("in", n, "fmtlit")
            st.assume(n)
            st.assume(sub(ISIZE, n))
        return BP(oid, 0, n)

    def scalar_render(self, st, f, args):
        s = f.get("self")
        v, b = args
        if s == "()":
            return UNIT
        if s == "bool":
            t = self.it.decide(st, self.it.bool_of(v))
            self.append(st, b, [("c", b"true" if t else b"false")])
            return UNIT
        if s == "char":
            self.append(st, b, self.char_items(st, v, True))
            return UNIT
        if s in models.INT_MAX_LEN:
            v = self.it.num(st, v)
            self.append(st, b, [("num", s, st.norm(v))])
            return UNIT
        if s in ("f32", "f64"):
            self.append(st, b, [("num", s, v)])
            return UNIT
        if s == "&str":
            self.append(st, b, self.str_items(st, v, True))
            return UNIT
        if s == "alloc::string::String":
            if isinstance(v, StrV):
                self.append(st, b, self.str_items(st, v, True))
            else:
                self.append(st, b, [("esc", key(self.it, st, v), 0, 1)])
            return UNIT
        if s and s.startswith("core::fmt::Arguments"):
            self.append(st, b, [("fmt", key(self.it, st, v))])
            return UNIT
        return None

    def buffer_call(self, st, f, name, args):
        if name == "push_str":
            self.other(st, args[0])
            self.append(st, args[0], self.str_items(st, args[1], False))
            return UNIT
        if name == "push":
            self.other(st, args[0])
            self.append(st, args[0], self.char_items(st, args[1], False))
            return UNIT
        if name in ("reserve", "reserve_small"):
            self.other(st, args[0])
            if self.light:
                self.bufval(st, args[0])
                return UNIT
            a = self.check_inv(st, args[0], name) or args[0]
            n = self.it.num(st, args[1])
            if type(n) is not int:
                if not self.it.decide(st, ("ge", sub(1 << 40, n))):
                    raise Diverge("capacity", "reservation of an unrepresentable size")
            self.reserve(st, a, n)
            return UNIT
        if not self.light:
            if name in ("with_capacity", "new"):
                self.ev(st, ("newbuf", name))
            return None
        if name in ("with_capacity", "new"):
            st.seq += 1
            self.ev(st, ("newbuf", name))
            return Opq(("B", st.seq), self.it.cur_dest_ty)
        if name in ("into_string",):
            v = self.bufval(st, args[0])
            return Opq(("S", v.id), self.it.cur_dest_ty)
        raise Undecided("buffer operation " + name)

    def buffer_trait(self, st, f, args):
        raise Undecided("buffer operation " + f["path"])

    def other(self, st, a):
        """writes to a buffer other than the one rendered into"""
        if isinstance(a, Ref) and self.main is not None:
            v = self.it.load(st, ("c", a.cell, a.path), None)
            if isinstance(v, Ref):
                a = v
            if a.cell != self.main:
                self.ev(st, ("otherbuf",))

    main = None

    def reserve(self, st, a, n):
        P, it = self.P, self.it
        T = core.template(P)
        v = it.load(st, ("c", a.cell, a.path), None)
        d, ln, cap = core.buf_parts(P, v)
        ents = () if d.obj is None else st.objs[d.obj].ents
        if d.obj is not None:
            st.objs[d.obj] = st.objs[d.obj].with_(live=False, ents=())
        c2 = sym("cap")
        st.assume(sub(ISIZE, c2))
        st.assume(sub(c2, add(ln, n)))
        st.assume(sub(c2, cap))
        st.assume(sub(c2, 1))
        st.seq += 1
        oid = ("h", st.seq)
        st.objs[oid] = Obj("heap", c2, "grown", ents=tuple(e for e in ents if not st.eq(e[1], 0)))
        it.store(st, ("c", a.cell, a.path), T.make(BP(oid, 0), ln, c2), None)

    # ------------------------------------------------------------------------------- user code
    def unresolved(self, st, f, args):
        it = self.it
        p, name = f["path"], f["name"]
        tr = f.get("trait") or ""
        if tr.endswith("::" + self.leaf):
            return self.leaf_call(st, f, args)
        if p == RENDER:
            return self.value_render(st, args)
        ti = it.cur_dest_ty
        if tr == "core::iter::traits::collect::IntoIterator" and name == "into_iter":
            k = key(it, st, args[0])
            self.ev(st, ("into_iter", k))
            return Opq(("iter", k, 0), ti)
        if tr == "core::iter::traits::iterator::Iterator":
            return self.iter_call(st, f, args)
        if tr == "core::iter::traits::double_ended::DoubleEndedIterator":
            raise Undecided("reverse iteration of a user iterator")
        if tr == "core::convert::AsRef" and name == "as_ref":
            k = key(it, st, args[0])
            t = it.T[ti]
            return it.opq(st, ("asref", k), ti)
        if tr in ("core::borrow::Borrow", "core::ops::deref::Deref"):
            k = key(it, st, args[0])
            return it.opq(st, ("deref", k), ti)
        if tr in ("core::convert::Into", "core::convert::From"):
            if it.T[ti] is it.T[it.cur_argtys[0]]:
                return args[0]
            return it.opq(st, ("into", key(it, st, args[0]), it.T[ti]["s"]), ti)
        if tr == "core::clone::Clone" and name == "clone":
            return it.opq(st, ("clone", key(it, st, args[0])), ti)
        if tr == "core::default::Default":
            return it.opq(st, ("default", it.T[ti]["s"]), ti)
        if tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            v = args[0]
            self.ev(st, ("callfn", key(it, st, v)))
            return it.opq(st, ("result", key(it, st, v), len(st.trace)), ti)
        d = f.get("default")
        if d is not None and it.F[d].get("body"):
            it.push(st, d, args, it.cur_dest, it.cur_ret)
            raise Goto()
        return None

    def value_render(self, st, args):
        k = key(self.it, st, args[0])
        self.check_inv(st, args[1], "buffer handed to a value")
        self.other(st, args[1])
        self.ev(st, ("render", k))
        self.append(st, args[1], [("ev", k)])
        self.renders += 1
        return UNIT

    def leaf_call(self, st, f, args):
        it = self.it
        ti = it.cur_dest_ty
        i = it.num(st, args[0]) if args else 0
        if type(i) is not int:
            raise Undecided("leaf index")
        return self.leaf_value(st, f["name"], i)

    def leaf_value(self, st, n, i):
        it = self.it
        ti = it.cur_dest_ty
        self.ev(st, (n, i))
        c = sum(1 for e in st.trace if e == (n, i))
        if it.T[ti]["k"] == "tuple" and not it.T[ti]["e"]:
            return UNIT
        if n == "cond":
            return Opq(("cond", i, c), ti)
        return it.opq(st, (n, i, c), ti)

    def iter_of(self, st, a):
        v = self.it.load(st, ("c", a.cell, a.path), None)
        if isinstance(v, Ref):
            return self.iter_of(st, v)
        if isinstance(v, Opq) and not (isinstance(v.id, tuple) and v.id and v.id[0] == "iter"):
            v = Opq(("iter", v.id, 0), v.ty)
        if not isinstance(v, Opq):
            raise Undecided("iterator %r" % (v,))
        return v, a

    def iter_call(self, st, f, args):
        it = self.it
        ti = it.cur_dest_ty
        n = f["name"]
        if n == "next":
            if not isinstance(args[0], Ref):
                raise Undecided("iterator %r" % (args[0],))
            v, a = self.iter_of(st, args[0])
            _, src, k = v.id
            hints = st.meta.get(("hint", src), ())
            if k == "end":
                # not fused: anything may come
                if choice(st, ("ghost", src, len(st.trace)), 2) == 0:
                    return NONE
                self.ev(st, ("ghost", src))
                ity = it.T[ti]["v"][1]["f"][0][1]
                self.ghosts += 1
                if self.ghosts > 50 or sum(1 for e in st.trace if e[0] == "ghost") > 2:
                    raise Dead()
                return some(it.opq(st, ("item", src, "ghost"), ity))
            if self.long is None:
                lim = self.max_items
            else:
                lim = self.long
            if self.long is not None:
                c = 1 if k < lim else 0
            elif k >= lim:
                c = 0
                self.sig(st, src, k)
            else:
                self.sig(st, src, k)
                c = choice(st, ("next", src, k), 2)
            if c:
                for k0, lo, hi in hints:
                    if hi is not None and not st.assume(sub(hi, k + 1 - k0)):
                        raise Dead()
                self.ev(st, ("next", src, k))
                it.store(st, ("c", a.cell, a.path), Opq(("iter", src, k + 1), v.ty), None)
                t = it.T[ti]
                if t["k"] != "adt":
                    raise Undecided("type of next")
                ity = t["v"][1]["f"][0][1]
                return some(it.opq(st, ("item", src, k), ity))
            for k0, lo, hi in hints:
                if not st.assume(sub(k - k0, lo)):
                    raise Dead()
                if hi is not None and not st.assume(sub(hi, k - k0)):
                    raise Dead()
            self.ev(st, ("end", src, k))
            it.store(st, ("c", a.cell, a.path), Opq(("iter", src, "end"), v.ty), None)
            return NONE
        if n == "size_hint":
            v, a = self.iter_of(st, args[0])
            _, src, k = v.id
            lo = sym("hint")
            st.assume(lo)
            st.assume(sub(1 << 32, lo))
            c = choice(st, ("hint", src, k, len(st.trace)), 2)
            hi = None
            if c:
                hi = sym("hintmax")
                st.assume(sub(hi, lo))
                st.assume(sub(1 << 40, hi))
            if k != "end":
                m = dict(st.meta)
                m[("hint", src)] = m.get(("hint", src), ()) + ((k, lo, hi),)
                st.meta = m
            else:
                lo, hi = 0, 0
            t = it.T[ti]
            return Agg(0, (lo, NONE if hi is None else some(hi)))
        d = f.get("default")
        if d is not None and it.F[d].get("body"):
            it.push(st, d, args, it.cur_dest, it.cur_ret)
            raise Goto()
        raise Undecided("iterator method " + n)

    def sig(self, st, src, k):
        """what the loop carries when it asks for item k, apart from the output so far and the iterator position"""
        def cv(v):
            if isinstance(v, Opq) and isinstance(v.id, tuple) and v.id[:2] == ("iter", src):
                return ("iter", "k")
            if isinstance(v, Opq) and isinstance(v.id, tuple) and len(v.id) == 3 and v.id[:2] == ("item", src):
                return ("item", "k" if type(v.id[2]) is int else v.id[2])
            if isinstance(v, Opq) and isinstance(v.id, tuple) and v.id[:2] == ("fld",):
                return ("fld",)
            if isinstance(v, Agg):
                return (v.v,) + tuple(cv(x) for x in v.f)
            if isinstance(v, BP):
                return ("bp", "h" if v.obj and v.obj[0] == "h" else v.obj)
            if isinstance(v, (Lin,)):
                return "n"
            return v
        live = st.frame
        fr = []
        while live is not None:
            fr.append((live.fn, live.ret))
            live = live.up
        ids = set()
        f = st.frame
        while f is not None:
            ids.add(f.id)
            f = f.up
        s = (tuple(fr), st.bb, tuple(sorted(((str(c), repr(cv(v))) for c, v in st.mem.items()
                                             if (c[0] in ids or c == BUF) and v is not None), key=str)))
        self.sigs.setdefault(src, {}).setdefault(k, set()).add(s)

    def iter_stable(self):
        """is the loop state the same for every position from some position on?"""
        for src, d in self.sigs.items():
            ks = sorted(d)
            if len(ks) < 4:
                return False
            if d[ks[-1]] != d[ks[-2]]:
                return False
        return True

    # ------------------------------------------------------------------------------- running
    def run(self, fi, args, st):
        return self.it.run(fi, args, st)
