"""Shared vocabulary of the checks: the output buffer as an abstract object, input strings, what was appended,
and when a failed obligation is a definite violation (a concrete instance of it exists) rather than a limit of
the analysis."""
import os
import sys
import interp
from interp import (Program, Interp, State, Agg, Opq, Ref, BP, FnV, StrV, Obj, Outcome, Undecided, Fork, Dead, Lin,
                    add, sub, scale, sym, SPECIAL, SPECSET, ALL, bits_of)
import fix as F
from interp2 import Diverge, Inline, Goto

ISIZE = (1 << 63) - 1
MASK64 = (1 << 64) - 1
BUF = ("buf",)
HUGE = 1 << 40
ALNUM = sum(1 << i for i in range(128) if chr(i).isalnum())
ASCII = (1 << 128) - 1


# ------------------------------------------------------------------------------------ concrete instances
def instance(store, extra=(), tries=6):
    """an integer assignment satisfying the store and the extra facts (e >= 0), or None"""
    s = store.copy()
    for e in extra:
        if not s.assume(e):
            return None
    syms = set()
    for q in s.ineqs:
        for k, _ in q.t:
            syms.add(k)
    for k, r in s.sub.items():
        if type(r) is not int:
            for k2, _ in r.t:
                syms.add(k2)
    order = sorted(syms)
    val = {}

    def rec(s, rest, budget):
        if not rest:
            return s if not s.dead else None
        k = rest[0]
        e = Lin(((k, 1),), 0)
        n = s.norm(e)
        if type(n) is int:
            return rec(s, rest[1:], budget)
        lo, hi = s.lower(e), s.upper(e)
        cands = []
        if lo is not None:
            cands += [lo, lo + 1, lo + 2]
        if hi is not None:
            cands += [hi, hi - 1]
        if lo is None and hi is None:
            cands = [0, 1]
        if lo is not None and hi is not None and hi - lo > 8:
            cands += [(lo + hi) // 2]
        done = set()
        for c in cands[:tries]:
            if c in done:
                continue
            done.add(c)
            if budget[0] <= 0:
                return None
            budget[0] -= 1
            s2 = s.copy()
            if not s2.assume_eq(sub(e, c)) or s2.dead or interp_infeasible(s2):
                continue
            r = rec(s2, rest[1:], budget)
            if r is not None:
                return r
        return None

    r = rec(s, order, [400])
    if r is None:
        return None
    return r


def interp_infeasible(s):
    import lin
    return lin.infeasible(list(s.ineqs))


def value_in(inst, e):
    v = inst.norm(e)
    return v if type(v) is int else None


# ------------------------------------------------------------------------------------ the buffer
class Template:
    """how a Buffer value is laid out: an aggregate whose leaves are the roles 'data', 'len', 'cap' or constants"""

    def __init__(self, heap, empty, roles):
        self.heap = heap
        self.empty = empty
        self.roles = roles  # role -> path

    def get(self, v, role):
        for p in self.roles[role]:
            if not isinstance(v, Agg) or p >= len(v.f):
                return None
            v = v.f[p]
        return v

    def make(self, data, ln, cap):
        v = self.heap
        for role, x in (("data", data), ("len", ln), ("cap", cap)):
            v = put(v, self.roles[role], x)
        return v


def put(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = put(f[path[0]], path[1:], x)
    return Agg(v.v, tuple(f))


def leaves(v, path=()):
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


_templates = {}


def is_buffer_ty(P, ti):
    t = P.types[ti]
    return t["k"] == "adt" and t["name"].endswith("::Buffer") and t["name"].startswith("laby_common::")


def template(P):
    """derived from what with_capacity and new build"""
    k = id(P)
    if k in _templates:
        return _templates[k]
    fi = [i for i in P.find("Buffer::with_capacity") if P.fns[i]["path"].startswith("laby_common::")]
    it = Interp(P, max_steps=5000)
    st = State()
    c = sym("cap")
    st.assume(sub(c, 2))
    st.assume(sub(HUGE, c))
    heap, roles = None, {}
    empty = None
    new = [i for i in P.find("Buffer::new") if P.fns[i]["path"].startswith("laby_common::")]
    for o in Interp(P, max_steps=5000).run(new[0], [], State()) if new else ():
        if o.kind == "ret":
            empty = o.val
    made = [(o, o.val) for o in it.run(fi[0], [c], st) if o.kind == "ret"] if fi else []
    # or what an empty buffer becomes when room is made
    grow = [i for i in P.find("Buffer::reserve") if P.fns[i]["path"].startswith("laby_common::")]
    if grow and empty is not None:
        st = State()
        st.mem[BUF] = empty
        st.assume(sub(c, 2))
        st.assume(sub(HUGE, c))
        made += [(o, o.st.mem[BUF]) for o in Interp(P, max_steps=5000).run(grow[0], [Ref(BUF, ()), c], st) if o.kind == "ret"]
    for o, val in made:
        roles = {}
        for p, x in leaves(val):
            if isinstance(x, BP) and x.obj is not None and "data" not in roles:
                roles["data"] = p
            elif isinstance(x, (int, Lin)) and o.st.eq(x, 0) and "len" not in roles:
                roles["len"] = p
            elif isinstance(x, Lin) and o.st.eq(x, c) and "cap" not in roles:
                roles["cap"] = p
        if len(roles) == 3:
            heap = val
            break
    if heap is None:
        raise Undecided("no operation builds a buffer of pointer, length and capacity")
    T = Template(heap, empty, roles)
    _templates[k] = T
    return T


def mkbuf(P, st, mode="heap", cell=BUF, name="B", cap=None, ln=None):
    """an arbitrary buffer satisfying the invariant, stored in a cell; (reference, its length)"""
    T = template(P)
    st.meta = dict(st.meta)
    if mode == "empty":
        v = T.empty
        l0 = 0
        st.mem[cell] = v
    else:
        free = cap is None
        if cap is None:
            cap = sym("cap")
            st.assume(sub(ISIZE, cap))
            st.assume(sub(cap, 0 if mode == "any" else 1))
        if ln is None:
            ln = sym("len0")
            st.assume(ln)
            st.assume(sub(cap, ln))
        oid = ("h", name)
        st.objs[oid] = Obj("heap", cap, name, ents=((0, ln, ("old", name, 0)),))
        st.mem[cell] = T.make(BP(oid, 0), ln, cap)
        l0 = ln
        if free and cell == BUF:
            st.meta["flex"] = frozenset(cap.t[0][:1])
    if cell == BUF:
        st.meta["len0"] = l0
    return Ref(cell), l0


def mkstr(st, name, n, byt=None, align=None):
    """an input string object of length n"""
    oid = ("in", name)
    st.objs[oid] = Obj("in", n, name, byt=byt)
    if not isinstance(n, int):
        st.assume(n)
        st.assume(sub(ISIZE, n))
    if align is not None:
        q = sym("aq")
        st.assume(sub(q, 1))
        a = add(scale(q, 64), align)
        st.assume(sub((1 << 63) - 1, add(a, n)))
        st.addr = dict(st.addr)
        st.addr[oid] = a
    return BP(oid, 0, n)


def buffer_problem(P, it, st, v):
    """why v does not satisfy the buffer invariant: (kind, text, extra facts for an instance) or None"""
    T = template(P)
    if not isinstance(v, Agg):
        raise Undecided("buffer value %r" % (v,))
    d, ln, cap = T.get(v, "data"), T.get(v, "len"), T.get(v, "cap")
    if not isinstance(ln, (int, Lin)) or not isinstance(cap, (int, Lin)) or not isinstance(d, BP):
        raise Undecided("buffer fields %r" % (v,))
    if st.eq(cap, 0):
        if not st.eq(ln, 0):
            return "invariant", "length %s with capacity 0" % st.norm(ln), ()
        if d.obj is not None and st.objs[d.obj].kind == "heap" and st.objs[d.obj].live:
            return "leak", "capacity 0 over a live allocation", ()
        return None
    if not st.entails(sub(cap, 1)):
        # split: capacity may be zero
        s2 = st.copy()
        if s2.store.assume_eq(cap):
            r = buffer_problem(P, it, s2, v)
            if r:
                return r[0], r[1], r[2] + (cap, scale(cap, -1))
        s3 = st.copy()
        if not s3.assume(sub(cap, 1)):
            return None
        r = buffer_problem(P, it, s3, v)
        if r:
            return r[0], r[1], r[2] + (sub(cap, 1),)
        return None
    if d.obj is None:
        return "invariant", "capacity %s without an allocation" % st.norm(cap), ()
    o = st.objs[d.obj]
    if o.kind != "heap":
        return "invariant", "buffer over %s memory" % o.kind, ()
    if not o.live:
        return "use-after-free", "buffer over freed memory", ()
    if not st.eq(d.off, 0):
        return "invariant", "buffer pointer inside the allocation", (sub(d.off, 1),)
    if not st.eq(o.size, cap):
        x = sub(o.size, cap)
        return "layout", "capacity %s over an allocation of %s bytes" % (st.norm(cap), st.norm(o.size)), (
            (sub(x, 1),) if not st.entails(scale(x, -1)) else (sub(-1, x),))
    if o.align != 1:
        return "layout", "buffer over an allocation with alignment %s" % o.align, ()
    if not st.entails(ln):
        return "invariant", "negative length", (sub(-1, ln),)
    if not st.entails(sub(cap, ln)):
        return "invariant", "length %s above capacity %s" % (st.norm(ln), st.norm(cap)), (sub(sub(ln, cap), 1),)
    if it.read_range(st, d.obj, 0, ln) is None:
        return "uninit", "the first %s bytes are not all written" % st.norm(ln), ()
    return None


def buf_parts(P, v):
    T = template(P)
    return T.get(v, "data"), T.get(v, "len"), T.get(v, "cap")


def content(P, it, st, v):
    """[(start, len, seg)] of the initialised prefix of a buffer (may Fork); None if some byte is unwritten"""
    d, ln, cap = buf_parts(P, v)
    if st.eq(ln, 0):
        return []
    if d.obj is None:
        return None
    r = it.read_range(st, d.obj, 0, ln)
    if r is None:
        return None
    return list(F.merge_ents(st, r))


def str_content(it, st, v):
    """content of a returned String or &str"""
    if isinstance(v, StrV):
        if st.eq(v.len, 0):
            return []
        r = it.read_range(st, v.obj, 0, v.len)
    elif isinstance(v, BP):
        if st.eq(v.meta, 0):
            return []
        if v.obj is None:
            return None
        r = it.read_range(st, v.obj, v.off, v.meta)
    else:
        raise Undecided("string value %r" % (v,))
    return None if r is None else list(F.merge_ents(st, r))


def items(st, ents):
    """content segments as comparable items"""
    out = []
    for s, l, seg in ents:
        if st.eq(l, 0):
            continue
        k = seg[0]
        if k == "c":
            if out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + seg[1])
            else:
                out.append(("c", seg[1]))
        elif k in ("in", "old"):
            lo = st.norm(seg[2])
            hi = st.norm(add(seg[2], l))
            if out and out[-1][0] == k and out[-1][1] == seg[1] and st.eq(out[-1][3], lo):
                out[-1] = (k, seg[1], out[-1][2], hi)
            else:
                out.append((k, seg[1], lo, hi))
        elif k == "esc":
            if out and out[-1][0] == "esc" and out[-1][1] == seg[1] and st.eq(out[-1][3], seg[2]):
                out[-1] = ("esc", seg[1], out[-1][2], st.norm(seg[3]))
            else:
                out.append(("esc", seg[1], st.norm(seg[2]), st.norm(seg[3])))
        else:
            out.append(seg)
    return out


def same_items(st, a, b):
    """do two item lists denote the same bytes?  True / False / None when they differ in form only"""
    a = [x for x in a if not empty_item(st, x)]
    b = [x for x in b if not empty_item(st, x)]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] in ("in", "old", "esc"):
            if x[1] != y[1] or not st.eq(x[2], y[2]) or not st.eq(x[3], y[3]):
                return False
        elif x[0] == "chr":
            if not st.eq(x[1], y[1]):
                return False
        elif x != y:
            return False
    return True


def empty_item(st, x):
    if x[0] == "c":
        return not x[1]
    if x[0] in ("in", "old", "esc"):
        return st.eq(x[2], x[3])
    return False


def render_items(st, its):
    out = []
    for x in its:
        if x[0] == "c":
            out.append(repr(x[1].decode("utf-8", "replace")))
        elif x[0] in ("in", "old", "esc"):
            nm = {"in": "raw", "old": "old", "esc": "escaped"}[x[0]]
            n = x[1][1] if isinstance(x[1], tuple) and len(x[1]) > 1 else x[1]
            out.append("%s(%s[%s..%s])" % (nm, n, st.norm(x[2]), st.norm(x[3])))
        else:
            out.append(str(x))
    return " + ".join(out) if out else "nothing"


# ------------------------------------------------------------------------------------ judging with case splits
def splits(st, fn, limit=64):
    """run fn(state), following Forks; list of (state, result)"""
    out = []
    work = [st]
    while work:
        s = work.pop()
        if len(out) + len(work) > limit:
            raise Undecided("too many cases")
        w = s.copy()
        try:
            out.append((w, fn(w)))
        except Fork as f:
            for alt in f.alts:
                s2 = s.copy()
                if alt(s2) and s2.store.feasible():
                    work.append(s2)
        except Dead:
            pass
    return out


class Finding:
    """a failed obligation.  definite: a concrete instance of the failing situation exists in the abstract program"""

    def __init__(self, props, kind, where, text, inst="", definite=True, span="", path=()):
        self.props = tuple(props)
        self.kind = kind
        self.where = where
        self.text = text
        self.inst = inst
        self.definite = definite
        self.span = span
        self.path = tuple(path)

    def key(self):
        return (self.props, self.kind, self.where, self.text[:80])

    def asdict(self):
        return {"properties": self.props, "kind": self.kind, "where": self.where, "what": self.text,
                "instance": self.inst, "span": self.span, "path": list(self.path), "definite": self.definite}


MEMKINDS = {"oob-read", "oob-write", "use-after-free", "bad-free", "double-free", "layout", "uninit-read", "overlap",
            "write-to-shared", "ptr-arith", "align", "zero-alloc", "slice", "bounds", "assume", "uninit", "leak",
            "invariant", "float-class"}


def describe(inst, names):
    out = []
    for k, e in names.items():
        v = value_in(inst, e) if inst is not None else None
        if v is not None:
            out.append("%s=%s" % (k, v if abs(v) < (1 << 41) else hex(v)))
    return ", ".join(out)


def int_consts(P, fi, lo, hi):
    """integer constants in [lo, hi] written in a function or in what it calls within the repository"""
    seen, work, out = set(), [fi], set()

    def walk(x):
        if isinstance(x, dict):
            v = x.get("v")
            if isinstance(v, list) and len(v) > 1 and v[0] == "fn":
                work.append(v[1])
            elif isinstance(v, list) and len(v) > 1 and v[0] == "i":
                out.add(int(v[1]))
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    while work:
        i = work.pop()
        if i in seen or not P.fns[i].get("local") or not P.fns[i].get("body"):
            continue
        seen.add(i)
        for b in P.fns[i]["body"]["blocks"]:
            if not b.get("c"):
                walk(b["s"])
                walk(b["t"])
                if b["t"] and b["t"][0] == "switch":
                    for c in b["t"][3]:
                        try:
                            out.add(int(c[0]))
                        except (TypeError, ValueError):
                            pass
    return sorted(x for x in out if lo <= x <= hi)


def from_violations(it, props, where, names=None):
    out = []
    seen = set()
    for v in it.viol:
        if v.key() in seen:
            continue
        definite = not v.approx
        text = ""
        if definite:
            i = None
            for c in it.float_cases(v.st):
                i = instance(v.st.store, tuple(e for e in c if not isinstance(e, tuple)))
                if i is not None:
                    break
            if i is None:
                definite = False
            elif names:
                text = describe(i, names)
        if definite:
            seen.add(v.key())
        out.append(Finding(props, v.kind, where, v.msg + (" (" + v.detail + ")" if v.detail else ""), text, definite,
                           v.span, v.stack))
    return out


def differ(st, got, want, extra=()):
    """a concrete instance in which two item lists denote different bytes, or None"""
    def nonempty(xs):
        out = []
        for x in xs:
            if x[0] in ("in", "old", "esc"):
                out.append(sub(sub(x[3], x[2]), 1))
        return out
    g = [x for x in got if not empty_item(st, x)]
    w = [x for x in want if not empty_item(st, x)]
    if len(g) == len(w) and all(x[0] == y[0] and (x[0] not in ("in", "old", "esc") or x[1] == y[1])
                                for x, y in zip(g, w)):
        for x, y in zip(g, w):
            if x[0] in ("in", "old", "esc"):
                for a, b in ((x[2], y[2]), (x[3], y[3])):
                    if not st.eq(a, b):
                        for e in (sub(sub(a, b), 1), sub(sub(b, a), 1)):
                            i = instance(st.store, extra + (e,))
                            if i is not None:
                                return i
            elif x[0] == "chr":
                if not st.eq(x[1], y[1]):
                    for e in (sub(sub(x[1], y[1]), 1), sub(sub(y[1], x[1]), 1)):
                        i = instance(st.store, extra + (e,))
                        if i is not None:
                            return i
            elif x != y:
                i = instance(st.store, extra)
                if i is not None:
                    return i
        return None
    # different shape: compare the two under concrete values, parts that can be empty being made non-empty if possible
    if any(x[0] == "unk" for x in g + w):
        return None
    s = st.copy()
    for e in nonempty(g) + nonempty(w):
        t = s.copy()
        if t.assume(e) and interp_infeasible(t.store) is False:
            s = t
    i = instance(s.store, extra)
    if i is None:
        return None
    a, b = concrete_items(s, g, i), concrete_items(s, w, i)
    return i if a is not None and b is not None and a != b else None


def concrete_items(st, its, val):
    """the items with every bound evaluated; adjacent parts joined, so that equal bytes give equal lists"""
    def ev(e):
        e = val.norm(st.norm(e))
        return e if type(e) is int else e.c  # a symbol nothing constrains
    out = []
    for x in its:
        if x[0] in ("in", "old", "esc"):
            lo, hi = ev(x[2]), ev(x[3])
            if lo >= hi:
                continue
            if x[0] != "esc" and out and out[-1][:2] == (x[0], x[1]) and out[-1][3] == lo:
                out[-1] = (x[0], x[1], out[-1][2], hi)
                continue
            out.append((x[0], x[1], lo, hi))
            continue
        if x[0] == "chr":
            c = ev(x[1])
            if not 0 <= c <= 0x10FFFF:
                return None
            x = ("c", chr(c).encode("utf-8", "surrogatepass"))
        if x[0] == "c":
            if not x[1]:
                continue
            if out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + x[1])
                continue
        out.append(x)
    return out
