"""Control-flow facts (liveness, loop heads) and the state lattice: matching, subsumption and join of states.

`combine(A, B)` finds for two states of the same control point and shape a generalisation J of both: symbols
that loops change are replaced by an initial value plus an unknown distance, and only facts that hold in both
states (taken from finite candidate families) are kept.  When J equals A, B is subsumed by A.
"""
from math import gcd
from lin import Lin, Store, add, scale, sub, sym, mk, syms, subst, newsym
import interp as I
from interp import (Agg, Opq, Ref, BP, FnV, BF, VecV, Mask, Pow2, Word, Flt, StrV, Obj, State, SPECIAL, SPECSET,
                    ALL, bits_of)


# ------------------------------------------------------------------------------- per function facts
class FnInfo:
    def __init__(self, body):
        self.body = body
        blocks = body["blocks"]
        n = len(blocks)
        self.succ = [succs(b["t"]) for b in blocks]
        # loop heads: targets of back edges in a depth-first search
        self.heads = set()
        color = [0] * n
        st = [(0, 0)]
        color[0] = 1
        while st:
            b, i = st.pop()
            if i < len(self.succ[b]):
                st.append((b, i + 1))
                s = self.succ[b][i]
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, 0))
                elif color[s] == 1:
                    self.heads.add(s)
            else:
                color[b] = 2
        # liveness
        self.addr = set()
        gen = []
        kill = []
        for b in blocks:
            g, k = set(), set()

            def use(l):
                if l not in k:
                    g.add(l)
            for s in b["s"]:
                if s[0] == "=":
                    self.uses(s[2], use)
                    pl = s[1]
                    self.dest(pl, use, k)
                elif s[0] == "sd":
                    use(s[1][0])
                elif s[0] in ("assume", "cpy"):
                    self.uses(s[1:], use)
            t = b["t"]
            if t[0] == "call":
                self.uses(t[1], use)
                self.uses(t[2], use)
                self.dest(t[3], use, k)
            elif t[0] == "drop":
                use(t[1][0])
                self.proj(t[1], use)
            elif t[0] in ("switch", "assert"):
                self.uses(t[1], use)
            elif t[0] == "ret":
                use(0)
            gen.append(g)
            kill.append(k)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                w = gen[b] | (o - kill[b])
                if w != live[b]:
                    live[b] = w
                    ch = True
        self.live = live

    def proj(self, pl, use):
        for p in pl[1]:
            if p[0] == "i":
                use(p[1])

    def dest(self, pl, use, kill):
        self.proj(pl, use)
        if not pl[1]:
            kill.add(pl[0])
        else:
            use(pl[0])

    def uses(self, x, use):
        if not isinstance(x, list) or not x:
            return
        if x[0] in ("c", "m") and len(x) == 2 and isinstance(x[1], list) and len(x[1]) == 2 and \
                isinstance(x[1][0], int):
            use(x[1][0])
            self.proj(x[1], use)
            return
        if x[0] in ("ref", "raw") and len(x) >= 3 and isinstance(x[2], list):
            if not x[2][1] or x[2][1][0][0] != "*":
                self.addr.add(x[2][0])
            use(x[2][0])
            self.proj(x[2], use)
            return
        if x[0] == "disc" and len(x) >= 2 and isinstance(x[1], list):
            use(x[1][0])
            self.proj(x[1], use)
            return
        if x[0] == "k":
            return
        for y in x:
            self.uses(y, use)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [y for _, y in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    return []


def fninfo(P, fi):
    r = P._loops.get(fi)
    if r is None:
        r = FnInfo(P.fns[fi]["body"])
        P._loops[fi] = r
    return r


def prune(P, st):
    """drop dead locals"""
    live = {}
    fr = st.frame
    bb = st.bb
    top = True
    while fr is not None:
        inf = fninfo(P, fr.fn)
        s = set(inf.live[bb])
        if not top and dloc is not None and dloc[0] == "c" and dloc[1][0] == fr.id and not dloc[2]:
            s.discard(dloc[1][1])
        live[fr.id] = (s, inf.addr)
        if fr.ret is None and fr.up is not None:
            # diverging call: nothing of the caller matters
            pass
        dloc = fr.dest[0] if fr.dest is not None and fr.dest[0] is not None else None
        bb = fr.ret
        fr = fr.up
        top = False
        if bb is None:
            while fr is not None:
                live[fr.id] = (set(), fninfo(P, fr.fn).addr)
                fr = fr.up
            break
    dead = []
    for c in st.mem:
        if isinstance(c[0], int):
            l = live.get(c[0])
            if l is None:
                dead.append(c)
            elif c[1] not in l[0] and c[1] not in l[1]:
                dead.append(c)
    for c in dead:
        del st.mem[c]


# ------------------------------------------------------------------------------- content normal form
def parse_escape(st, ents, start, fobj, pos=0):
    """content entries from offset `start` on, read as the escaped form of input fobj from `pos`;
    (end position in the input, end offset in the output, None) or (.., .., reason)"""
    out = st.norm(start)
    pos = st.norm(pos)
    ents = sorted_ents(st, ents)
    pend = b""
    for s, l, seg in ents:
        if st.entails(sub(out, add(s, l))) and not st.eq(l, 0):
            continue  # before start
        if st.eq(l, 0):
            continue
        if not st.eq(s, out):
            return pos, out, "gap in the output at %s" % (out,)
        if seg[0] == "in":
            if pend:
                return pos, out, "incomplete entity %r" % (pend,)
            if seg[1] != fobj:
                return pos, out, "bytes of %s" % (seg[1],)
            if not st.eq(seg[2], pos):
                return pos, out, "input bytes from %s where %s was expected" % (st.norm(seg[2]), pos)
            if not st.is_clean(fobj, pos, add(pos, l)):
                return pos, out, "input bytes [%s,+%s) copied without being free of special characters" % (pos, l)
            pos = st.norm(add(pos, l))
        elif seg[0] == "c":
            pend += seg[1]
            while pend:
                m = st.byteset(fobj, pos) if inside(st, fobj, pos) else 0
                hit = None
                for b, e in SPECIAL.items():
                    if pend.startswith(e) and m == 1 << b:
                        hit = e
                if hit is None:
                    # literal copies of known bytes
                    if m and m & (m - 1) == 0 and not m & SPECSET and m == 1 << pend[0]:
                        pend = pend[1:]
                        pos = st.norm(add(pos, 1))
                        continue
                    if any(e.startswith(pend) for e in SPECIAL.values()):
                        break
                    return pos, out, "constant bytes %r do not escape the input at %s (possible bytes %s)" % (
                        pend, pos, [i for i in bits_of(m)][:8])
                pend = pend[len(hit):]
                pos = st.norm(add(pos, 1))
        elif seg[0] == "esc":
            if pend or seg[1] != fobj or not st.eq(seg[2], pos):
                return pos, out, "misplaced escaped part"
            pos = st.norm(seg[3])
        elif seg[0] == "chr":
            return pos, out, "character %s" % (seg[1],)
        else:
            return pos, out, "unexpected content %s" % (seg,)
        out = st.norm(add(out, l))
    if pend:
        return pos, out, "trailing bytes %r" % (pend,)
    return pos, out, None


def inside(st, fobj, pos):
    return st.entails(sub(sub(st.objs[fobj].size, pos), 1)) and st.entails(pos)


def sorted_ents(st, ents):
    """entries in ascending order of offset (offsets are comparable in the store)"""
    es = [e for e in ents]
    out = []
    for e in es:
        i = 0
        while i < len(out) and st.entails(sub(e[0], out[i][0])) and not (
                st.eq(e[0], out[i][0]) and not st.eq(out[i][1], 0) and st.eq(e[1], 0)):
            i += 1
        out.insert(i, e)
    return out


def merge_ents(st, ents):
    """join adjacent pieces that continue each other"""
    es = [e for e in sorted_ents(st, ents) if not st.eq(e[1], 0)]
    out = []
    for s, l, seg in es:
        if out:
            ps, pl, pg = out[-1]
            if st.eq(add(ps, pl), s):
                if pg[0] == seg[0] == "c":
                    out[-1] = (ps, st.norm(add(pl, l)), ("c", pg[1] + seg[1]))
                    continue
                if pg[0] == seg[0] and pg[0] in ("in", "old") and pg[1] == seg[1] and \
                        st.eq(add(pg[2], pl), seg[2]):
                    out[-1] = (ps, st.norm(add(pl, l)), pg)
                    continue
        out.append((s, l, seg))
    return tuple(out)


def normal_content(st, fobj):
    """rewrite the part of every heap object that follows the old content as an escaped prefix of fobj"""
    len0 = st.meta.get("len0")
    if len0 is None:
        return
    for oid, o in list(st.objs.items()):
        if o.kind != "heap" or not o.live:
            continue
        es = sorted_ents(st, o.ents)
        old = [e for e in es if e[2][0] == "old"]
        if not old and not st.eq(len0, 0):
            continue
        tail = [e for e in es if e[2][0] != "old"]
        pos, out, why = parse_escape(st, tail, len0, fobj)
        if why is not None:
            continue
        n = st.norm(sub(out, len0))
        st.assume(sub(n, pos))
        st.assume(sub(scale(pos, 6), n))
        st.objs[oid] = o.with_(ents=((0, st.norm(len0), ("old", "B", 0)), (st.norm(len0), n, ("esc", fobj, 0, pos))))


# ------------------------------------------------------------------------------- matching
class Mismatch(Exception):
    pass


class Pairing:
    """walk two states in parallel; phase 1 collects number pairs, phase 2 rebuilds A's side"""

    def __init__(self, A, B):
        self.A, self.B = A, B
        self.pairs = {}
        self.omap = {}
        self.rmap = {}
        self.queue = []
        self.gen = None

    def num(self, a, b):
        a, b = self.A.norm(a), self.B.norm(b)
        if self.gen is None:
            self.pairs.setdefault((a, b), None)
            return a
        return self.gen[(a, b)]

    def obj(self, a, b):
        if a is None or b is None:
            if a is not b:
                raise Mismatch("pointer with and without allocation")
            return a
        if a in self.omap:
            if self.omap[a] != b:
                raise Mismatch("different objects")
            return a
        if b in self.rmap:
            raise Mismatch("different objects")
        if a[0] != b[0] or (a[0] != "h" and a != b):
            raise Mismatch("different objects")
        self.omap[a] = b
        self.rmap[b] = a
        self.queue.append((a, b))
        return a

    def val(self, a, b):
        if a is None or b is None:
            if a is not b:
                raise Mismatch("unset")
            return None
        if isinstance(a, bool) or isinstance(b, bool):
            if a is not b:
                raise Mismatch("bool")
            return a
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return self.num(a, b)
        if type(a) is not type(b):
            raise Mismatch("kinds")
        if isinstance(a, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                raise Mismatch("variant")
            return Agg(a.v, tuple(self.val(x, y) for x, y in zip(a.f, b.f)))
        if isinstance(a, BP):
            o = self.obj(a.obj, b.obj)
            return BP(o, self.off(a.off, b.off), self.val(a.meta, b.meta))
        if isinstance(a, Ref):
            if a.cell != b.cell or a.path != b.path or a.dyn != b.dyn:
                raise Mismatch("ref")
            return Ref(a.cell, a.path, self.val(a.meta, b.meta), a.dyn)
        if isinstance(a, BF):
            if a.tab != b.tab:
                raise Mismatch("byte function")
            return BF(self.obj(a.obj, b.obj), self.num(a.off, b.off), a.tab)
        if isinstance(a, VecV):
            if a.tabs != b.tabs:
                raise Mismatch("vector")
            return VecV(self.obj(a.obj, b.obj), self.num(a.off, b.off), a.tabs)
        if isinstance(a, Mask):
            if a.sets != b.sets:
                raise Mismatch("mask")
            return Mask(self.obj(a.obj, b.obj), self.num(a.off, b.off), a.sets, self.num(a.sh, b.sh),
                        self.num(a.lo, b.lo))
        if isinstance(a, Word):
            if a.n != b.n or a.e != b.e:
                raise Mismatch("word")
            return Word(self.obj(a.obj, b.obj), self.num(a.off, b.off), a.n, a.e)
        if isinstance(a, StrV):
            return StrV(self.obj(a.obj, b.obj), self.num(a.len, b.len), self.num(a.cap, b.cap))
        if isinstance(a, Pow2):
            return Pow2(self.num(a.e, b.e), a.bits)
        if isinstance(a, tuple):
            if len(a) != len(b):
                raise Mismatch("condition")
            return tuple(self.tup(x, y) for x, y in zip(a, b))
        if a == b:
            return a
        raise Mismatch("value")

    def tup(self, x, y):
        if isinstance(x, (str, bool)) or callable(x):
            if x != y:
                raise Mismatch("condition")
            return x
        return self.val(x, y)

    def off(self, a, b):
        if isinstance(a, BF) or isinstance(b, BF):
            return self.val(a, b)
        return self.num(a, b)

    def seg(self, a, b):
        if a[0] != b[0]:
            raise Mismatch("content")
        k = a[0]
        if k in ("in",):
            return ("in", self.obj(a[1], b[1]), self.num(a[2], b[2]))
        if k == "old":
            if a[1] != b[1]:
                raise Mismatch("content")
            return ("old", a[1], self.num(a[2], b[2]))
        if k == "esc":
            return ("esc", self.obj(a[1], b[1]), self.num(a[2], b[2]), self.num(a[3], b[3]))
        if k == "part":
            return ("part", self.seg(a[1], b[1]), self.num(a[2], b[2]), self.val(a[3], b[3]))
        if k == "num" and a[1] == b[1]:
            return ("num", a[1], self.val(a[2], b[2]))
        if k == "chr":
            return ("chr", self.num(a[1], b[1]))
        if a != b:
            raise Mismatch("content")
        return a

    def run(self):
        A, B = self.A, self.B
        fa, fb = A.frame, B.frame
        if A.bb != B.bb or A.ix != B.ix:
            raise Mismatch("point")
        while fa is not None or fb is not None:
            if fa is fb:
                break
            if fa is None or fb is None or fa.id != fb.id:
                raise Mismatch("frames")
            fa, fb = fa.up, fb.up
        if A.variant != B.variant or A.fcls != B.fcls:
            raise Mismatch("facts")
        if A.trace != B.trace:
            if len(A.trace) != len(B.trace):
                raise Mismatch("trace")
            for x, y in zip(A.trace, B.trace):
                self.val(x, y) if isinstance(x, tuple) else None
        if A.mem.keys() != B.mem.keys():
            raise Mismatch("cells")
        mem = {}
        self.queue = []
        self.omap = {}
        self.rmap = {}
        for c in A.mem:
            mem[c] = self.val(A.mem[c], B.mem[c])
        objs = {}
        while self.queue:
            a, b = self.queue.pop()
            x, y = A.objs[a], B.objs[b]
            if x.kind != y.kind or x.live != y.live or x.align != y.align or x.byt != y.byt:
                raise Mismatch("object")
            size = self.num(x.size, y.size)
            if len(x.ents) != len(y.ents):
                raise Mismatch("content")
            ents = tuple((self.num(s, s2), self.num(l, l2), self.seg(g, g2))
                         for (s, l, g), (s2, l2, g2) in zip(x.ents, y.ents))
            objs[a] = x.with_(size=size, ents=ents)
        for o, x in A.objs.items():
            if o not in objs:
                if x.kind == "heap":
                    if x.live:
                        raise Mismatch("unreachable heap object")
                    continue
                if o in B.objs:
                    objs[o] = x
        for o, x in B.objs.items():
            if o not in self.rmap and x.kind == "heap" and x.live:
                raise Mismatch("unreachable heap object")
            if o not in self.rmap and o not in objs and x.kind != "heap":
                objs[o] = x
        return mem, objs


def prep(P, st, fobj):
    prune(P, st)
    for oid in [o for o, x in st.objs.items() if x.kind == "heap" and not x.live]:
        if not any_ref(st, oid):
            del st.objs[oid]
    if fobj is not None:
        normal_content(st, fobj)
    for oid, o in list(st.objs.items()):
        if o.kind == "heap" and len(o.ents) > 1:
            st.objs[oid] = o.with_(ents=merge_ents(st, o.ents) if not any(
                e[2][0] == "esc" for e in o.ents) else o.ents)


def any_ref(st, oid):
    def has(v):
        if isinstance(v, (BP, StrV)):
            return v.obj == oid
        if isinstance(v, Agg):
            return any(has(x) for x in v.f)
        return False
    return any(has(v) for v in st.mem.values())


def content_gcd(e):
    g = 0
    if type(e) is int:
        return abs(e)
    for _, v in e.t:
        g = gcd(g, v)
    return gcd(g, e.c)


def combine(P, A, B, widen=0, subsume_only=False, coefs=(6,)):
    """returns (J, changed) or raises Mismatch.  With subsume_only J is A or None."""
    pr = Pairing(A, B)
    pr.run()
    flex = A.meta.get("flex", frozenset())
    # ---- unify
    sig = {}

    def app(e):
        return subst(e, sig) if not type(e) is int else e
    pend = [p for p in pr.pairs]
    for _ in range(3):
        for a, b in pend:
            r = B.norm(sub(app(a), b))
            if r == 0:
                continue
            if type(a) is int:
                continue
            cand = [(s, v) for s, v in a.t if s in flex and s not in sig]
            if len(cand) >= 1:
                s, v = max(cand)
                # v*s + rest = b
                rest = mk({k: q for k, q in a.t if k != s}, a.c)
                d = B.norm(sub(b, app(rest)))
                if v in (1, -1):
                    sig[s] = scale(d, v)
                elif type(d) is int and d % v == 0:
                    sig[s] = d // v
                elif type(d) is not int and content_gcd(d) % v == 0:
                    sig[s] = Lin(tuple((x, q // v) for x, q in d.t), d.c // v)
    bad = []
    gen = {}
    dmap = {}
    newd = []
    for (a, b) in pr.pairs:
        r = B.norm(sub(b, app(a)))
        if r == 0:
            gen[(a, b)] = a
            continue
        bad.append((a, b, r))
    if bad and subsume_only:
        return None, True
    sA, sB = {}, dict(sig)
    for a, b, r in bad:
        g = content_gcd(r)
        if g == 0:
            g = 1
        prim = r // g if type(r) is int else Lin(tuple((x, q // g) for x, q in r.t), r.c // g)
        neg = scale(prim, -1)
        if prim in dmap:
            d, sg = dmap[prim], 1
        elif neg in dmap:
            d, sg = dmap[neg], -1
        else:
            d = sym("d")
            dmap[prim] = d
            newd.append(d)
            ds = d.t[0][0]
            sA[ds] = 0
            sB[ds] = prim
            sg = 1
        gen[(a, b)] = A.norm(add(a, scale(d, g * sg)))
    # flexible symbols that are unbound stay themselves
    J = A.copy()
    J.store = Store()
    if bad:
        pr.gen = gen
        mem, objs = pr.run()
        J.mem = mem
        J.objs = objs
        m = dict(J.meta)
        m["flex"] = flex | frozenset(d.t[0][0] for d in newd)
        J.meta = m

    def inA(e):
        return A.entails(subst(e, sA) if sA and type(e) is not int else e)

    def inB(e):
        return B.entails(subst(e, sB) if sB and type(e) is not int else e)
    changed = bool(bad)
    facts = []
    # equalities of A
    eqs = []
    for s, q in A.store.sub.items():
        e = sub(Lin(((s, 1),), 0), q)
        if inB(e) and inB(scale(e, -1)):
            eqs.append(e)
        elif s_used(J, s):
            changed = True
    for e in eqs:
        J.store.assume_eq(e)
    kept = []
    for e in A.store.ineqs:
        if inB(e):
            kept.append(e)
        else:
            changed = True
            if subsume_only:
                return None, True
    cands = []
    if bad or (changed and widen < 4):
        if newd:
            for d in newd:
                cands.append(d)
                cands.append(scale(d, -1))
            for e in A.store.ineqs:
                for d in newd:
                    for c in (1, -1) + tuple(coefs) + tuple(-x for x in coefs):
                        cands.append(add(e, scale(d, c)))
            for i, d in enumerate(newd):
                for e2 in newd:
                    if d is not e2:
                        cands.append(sub(d, e2))
                        for c in coefs:
                            cands.append(sub(scale(d, c), e2))
        ts = terms(J)
        for i, x in enumerate(ts):
            for c in (0, 1):
                cands.append(sub(x, c))
            for y in ts:
                if x is not y:
                    e = sub(x, y)
                    cands.append(e)
                    cands.append(sub(e, 1))
        # facts of B expressed through J's new symbols
        inv = inverse(sB)
        if widen < 6:
            for e in B.store.ineqs:
                f = subst(e, inv) if inv else e
                cands.append(f)
    for e in kept:
        J.store.assume(e)
    seen = set()
    for e in cands:
        e = J.norm(e)
        if type(e) is int or e in seen:
            continue
        seen.add(e)
        if J.store.entails(e):
            continue
        if inA(e) and inB(e):
            J.store.assume(e)
    # facts true by construction of escaped parts
    for o in J.objs.values():
        for s, l, g in o.ents:
            if g[0] == "esc":
                J.assume(sub(l, sub(g[3], g[2])))
                J.assume(sub(scale(sub(g[3], g[2]), 6), l))
    # ---- byte facts
    bs = {}
    for (o, off), m in A.bset.items():
        if o in pr.omap and B_byteset(B, pr.omap[o], subst_(off, sB)) & ~m == 0:
            bs[(o, J.norm(off))] = m
        elif o not in pr.omap and B.bset.get((o, off)) == m:
            bs[(o, off)] = m
        elif o in pr.omap:
            changed = True
            if subsume_only:
                return None, True
    J.bset = bs
    cl = []
    for o, lo, hi, s in A.clean:
        bo = pr.omap.get(o, o)
        if bo in B.objs and (B.entails(sub(subst_(lo, sB), subst_(hi, sB))) or
                             B.is_clean(bo, subst_(lo, sB), subst_(hi, sB), s)):
            cl.append((o, J.norm(lo), J.norm(hi), s))
        else:
            changed = True
            if subsume_only:
                return None, True
    if bad or changed:
        for o, x in J.objs.items():
            if x.kind == "in" and o in pr.omap and x.byt is None:
                ps = positions(J, o)
                for p in ps:
                    for q in ps:
                        if p is q or p == q:
                            continue
                        if J.entails(sub(p, q)):
                            continue
                        a0, a1 = subst_(p, sA), subst_(q, sA)
                        b0, b1 = subst_(p, sB), subst_(q, sB)
                        if (A.entails(sub(a0, a1)) or A.is_clean(o, a0, a1)) and \
                                (B.entails(sub(b0, b1)) or B.is_clean(pr.omap[o], b0, b1)):
                            k = (o, J.norm(p), J.norm(q), SPECSET)
                            if k not in cl:
                                cl.append(k)
    J.clean = tuple(dict.fromkeys(cl))
    # ---- remembered decisions
    tr = {}
    for k, v in A.truth.items():
        if B.truth.get(k) == v:
            tr[k] = v
        elif k[0] in ("choice", "w"):
            pass
        else:
            changed = True
            if subsume_only:
                return None, True
    J.truth = tr
    J.mfirst = {k: v for k, v in A.mfirst.items() if B.mfirst.get(k) == v}
    J.divs = {k: v for k, v in A.divs.items() if B.divs.get(k) == v}
    ad = {}
    for o, v in A.addr.items():
        bo = pr.omap.get(o, o) if not (isinstance(o, tuple) and o[0] == "cell") else o
        if bo in B.addr and B.norm(subst_(v, sB)) == B.norm(B.addr[bo]):
            ad[o] = v
    J.addr = ad
    J.approx = A.approx or B.approx or changed
    if subsume_only:
        return (A, False) if not changed else (None, True)
    return J, changed


def subst_(e, m):
    return subst(e, m) if m and type(e) is not int else e


def B_byteset(B, o, off):
    return B.byteset(o, off)


def inverse(sB):
    inv = {}
    for s, e in sB.items():
        if type(e) is int:
            continue
        for x, v in e.t:
            if v in (1, -1) and x not in inv and x != s:
                rest = mk({k: q for k, q in e.t if k != x}, e.c)
                inv[x] = scale(sub(Lin(((s, 1),), 0), rest), v)
                break
    return inv


def s_used(J, s):
    return False


def terms(st):
    out = []

    def addt(e):
        e = st.norm(e)
        if type(e) is not int and e not in out:
            out.append(e)

    def val(v):
        if isinstance(v, bool) or v is None:
            return
        if isinstance(v, (int, Lin)):
            addt(v)
        elif isinstance(v, BP):
            if not isinstance(v.off, BF):
                addt(v.off)
            if v.meta is not None:
                addt(v.meta)
        elif isinstance(v, Agg):
            for x in v.f:
                val(x)
        elif isinstance(v, StrV):
            addt(v.len)
            addt(v.cap)
        elif isinstance(v, Mask):
            addt(v.off)
            addt(add(v.off, v.lo))
            addt(v.lo)
            addt(v.sh)
            addt(add(add(v.off, v.sh), v.lo))
            addt(sub(sub(len(v.sets), v.sh), v.lo))
    for v in st.mem.values():
        val(v)
    for o in st.objs.values():
        if o.kind in ("heap", "in", "stack"):
            addt(o.size)
            for s, l, g in o.ents:
                addt(l)
                addt(add(s, l))
                if g[0] == "esc":
                    addt(g[3])
    return out[:30]


def positions(st, oid):
    """interesting positions inside input object oid"""
    out = []

    def addt(e):
        e = st.norm(e)
        if e not in out:
            out.append(e)
    addt(0)
    addt(st.objs[oid].size)

    def val(v):
        if isinstance(v, BP) and v.obj == oid and not isinstance(v.off, BF):
            addt(v.off)
            if v.meta is not None:
                addt(add(v.off, v.meta))
        elif isinstance(v, Agg):
            for x in v.f:
                val(x)
        elif isinstance(v, Mask) and v.obj == oid:
            addt(v.off)
            addt(add(add(v.off, v.sh), v.lo))
            addt(add(v.off, len(v.sets)))
        elif isinstance(v, Lin):
            addt(v)
    for v in st.mem.values():
        val(v)
    for o in st.objs.values():
        for s, l, g in o.ents:
            if g[0] == "esc" and g[1] == oid:
                addt(g[3])
    return out[:16]
