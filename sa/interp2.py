import lin as L
from lin import Lin, add, scale, sub, sym
import interp as I
import fix as F
from interp import (Undecided, Fork, Dead, Agg, Opq, Ref, BP, FnV, BF, VecV, Mask, Pow2, Word, Flt, StrV, Obj, float_kind, f32r,
                    Frame, State, Violation, Outcome, ALL, SPECIAL, SPECSET, FCLASSES, bits_of, lane_op)

UNIT = Agg(0, ())
ISIZE_MAX = (1 << 63) - 1


import math
import time


class AnyV(tuple):
    """(lowest, highest, exact?): a number an earlier call left behind"""
    __slots__ = ()


def covers(a, b):
    if not isinstance(a, AnyV):
        return type(a) is type(b) and a == b
    if isinstance(b, AnyV):
        # the upper ends of addresses and lengths differ by how much was said of them on the path
        return (a[0] is None or (b[0] is not None and a[0] <= b[0])) and (a[1] is None or (b[1] is not None and b[1] <= a[1] + (1 << 20)))
    return type(b) is int and (a[0] is None or a[0] <= b) and (a[1] is None or b <= a[1])


class Diverge(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Goto(Exception):
    """the model has already arranged where execution continues"""


def short(path):
    return path.split("::")[-1]


class Interp:
    def __init__(self, prog, models=None, opaque=None, max_steps=60000, max_outcomes=4000):
        self.P = prog
        self.T = prog.types
        self.F = prog.fns
        self.models = models if models is not None else DEFAULT_MODELS
        self.opaque = opaque or (lambda it, st, fi, args: None)
        self.max_steps = max_steps
        self.max_outcomes = max_outcomes
        self.viol = []
        self.oblig = {}
        self.undec = []
        self.record = True
        self.memo = {}
        self.fder = {}
        self.own = None       # the caller's buffer
        self.allocs = []      # heap allocations outside the buffer: (state, place, call stack)
        self.loop_hook = None
        self.invariants = []  # functions (it, st, where)
        self.visited = set()
        self.total = 0
        self.simd_used = set()
        self.fids = {}
        self.fobj = None  # the input whose escaped form is being produced
        self.widen = False  # join at loop heads (all inputs at once) instead of following every path
        self.loops = {}
        self.joins = 0
        self.subsumed = 0
        self.coefs = (6,)
        self.statics = {}
        self.inits = {}
        self.facts = {}
        self.concurrent = None
        self.static_grew = False
        self.cur_call = None
        self.merge = True
        self.fmt_calls = 1
        self.sem_key = None
        self.trace_alloc = False
        self.keep_div = 3  # panics and allocation failures kept per kind and place
        self.divcount = {}
        self.on_panic = None
        self.deadline = None
        self.cpu = None  # processor configuration for the dispatch analysis

    @property
    def cur_dest(self):
        return self.cur_call[0]

    @property
    def cur_ret(self):
        return self.cur_call[1]

    @property
    def cur_dest_ty(self):
        return self.cur_call[0][1]

    # ---------------------------------------------------------------- bookkeeping
    def stack(self, st):
        out = []
        f = st.frame
        while f is not None:
            out.append(self.F[f.fn]["path"])
            f = f.up
        return out[::-1]

    def span(self, st):
        f = st.frame
        try:
            blk = self.F[f.fn]["body"]["blocks"][st.bb]
            if st.ix < len(blk["s"]):
                s = blk["s"][st.ix]
                return s[3] if s[0] == "=" else "?"
            t = blk["t"]
            for x in reversed(t):
                if isinstance(x, str) and ":" in x:
                    return x
        except Exception:
            pass
        return "?"

    def count(self, kind):
        if self.record:
            self.oblig[kind] = self.oblig.get(kind, 0) + 1

    def violate(self, st, kind, msg, detail=""):
        if self.record:
            v = Violation(kind, msg, self.span(st), self.stack(st), st.approx, detail)
            v.st = st
            self.viol.append(v)

    def heap_use(self, st):
        import models
        if self.record and not models.in_buffer(self, st):
            self.allocs.append((st, self.span(st), self.stack(st)))

    def need(self, st, e, kind, msg):
        """obligation e >= 0"""
        self.count(kind)
        if st.entails(e):
            return
        d = "cannot establish %s >= 0" % (st.norm(e),)
        if st.entails(sub(-1, e)):
            self.violate(st, kind, msg, "%s < 0 on this path" % (st.norm(e),))
            raise Dead()
        s2 = st.copy()
        if s2.assume(sub(-1, e)):
            self.violate(s2, kind, msg, d)
        if not st.assume(e):
            raise Dead()

    # ---------------------------------------------------------------- decisions
    def decide(self, st, c):
        if c is True or c is False:
            return c
        if isinstance(c, Opq):
            return self.decide(st, ("opq", c.id, False))
        if isinstance(c, BF):
            return self.decide(st, ("bf", c))
        if not isinstance(c, tuple):
            raise Undecided("branch on %r" % (c,))
        k = c[0]
        if k == "not":
            return not self.decide(st, c[1])
        if k == "ge":
            e = c[1]
            if st.entails(e):
                return True
            ne = sub(-1, e)
            if st.entails(ne):
                return False
            raise Fork([lambda s: s.assume(e), lambda s: s.assume(ne)])
        if k in ("eq", "ne"):
            e = st.norm(c[1])
            if type(e) is int:
                return (e == 0) == (k == "eq")
            if st.entails(sub(e, 1)) or st.entails(sub(-1, e)):
                return k == "ne"
            if st.entails_eq0(e) if hasattr(st, "entails_eq0") else st.store.entails_eq(e):
                return k == "eq"
            raise Fork([lambda s: s.store.assume_eq(e), lambda s: s.assume(sub(e, 1)),
                        lambda s: s.assume(sub(-1, e))])
        if k == "bf":
            b = c[1]
            m = st.byteset(b.obj, b.off)
            if m == 0:
                raise Dead()
            t = f = 0
            for i in bits_of(m):
                if b.tab[i]:
                    t |= 1 << i
                else:
                    f |= 1 << i
            if not f:
                return True
            if not t:
                return False
            raise Fork([lambda s: s.refine_byte(b.obj, b.off, t), lambda s: s.refine_byte(b.obj, b.off, f)])
        if k == "mz":
            return self.mask_zero(st, c[1])
        if k == "wz":
            return self.word_zero(st, c[1])
        if k == "opq":
            _, id, neg = c
            v = st.truth.get(id)
            if v is None:
                def setv(b):
                    def g(s):
                        d = dict(s.truth)
                        d[id] = b
                        s.truth = d
                        return True
                    return g
                raise Fork([setv(True), setv(False)])
            return v != neg
        if k == "fl":
            return self.float_pred(st, c)
        raise Undecided("branch on %r" % (c,))

    def float_pred(self, st, c):
        fid, fn = c[1], c[2]  # fn: class -> bool/None
        cur = st.fcls.get(fid, frozenset(FCLASSES))
        r = {x: fn(x) for x in cur}
        t = frozenset(x for x in cur if r[x] is not False)
        f = frozenset(x for x in cur if r[x] is not True)
        if not f:
            return True
        if not t:
            return False
        loose = frozenset(x for x in cur if r[x] is None)
        if loose:
            k = st.truth.get(("fl", fid, c[3])) if len(c) > 3 and c[3] is not None else None
            if k is not None:
                return k

        def setc(x, b):
            def g(s):
                d = dict(s.fcls)
                d[fid] = x
                if loose:
                    # on both sides: neither side is certain for these
                    d[("~", fid)] = d.get(("~", fid), frozenset()) | loose
                    if len(c) > 3 and c[3] is not None:
                        e = dict(s.truth)
                        e[("fl", fid, c[3])] = b
                        s.truth = e
                s.fcls = d
                return True
            return g
        raise Fork([setc(t, True), setc(f, False)])

    def fval(self, f, c):
        """the value or class of a float term when its variable is in class c; None unknown"""
        x = float(c[1:]) if c[0] == "=" else c

        def ev(fn):
            if fn is None:
                return x
            k = fn[0]
            if k == "const":
                return fn[2]
            if k in ("abs", "neg"):
                y = ev(fn[1])
                if y is None:
                    return None
                if isinstance(y, str):
                    return "fpos" if k == "abs" else {"fpos": "fneg", "fneg": "fpos"}[y]
                return math.copysign(y, 1.0) if k == "abs" else -y
            if k == "as":
                y = ev(fn[2])
                if isinstance(y, str):
                    return y if fn[1] == "f64" else None
                return y if y is None or fn[1] == "f64" else f32r(y)
            if k == "i2f":
                y = ev(fn[3])
                if y is None or isinstance(y, str):
                    return None
                z = float(self.f2i(y, fn[2]))
                return f32r(z) if fn[1] == "f32" else z
            if k == "bin":
                a, b = ev(fn[3]), ev(fn[4])
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    return None
                try:
                    if fn[1] == "Add":
                        z = a + b
                    elif fn[1] == "Sub":
                        z = a - b
                    elif fn[1] == "Mul":
                        z = a * b
                    elif fn[1] == "Div":
                        z = a / b
                    elif fn[1] == "Rem":
                        z = math.fmod(a, b)
                    else:
                        return None
                except (ValueError, ZeroDivisionError, OverflowError):
                    return None
                return f32r(z) if fn[2] == "f32" else z
            return None
        return ev(f.fn)

    def f2i(self, x, ity):
        """the saturating conversion"""
        if x != x:
            return 0
        bits = {"isize": 64, "usize": 64}.get(ity) or int(ity[1:])
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if ity[0] == "i" else (0, (1 << bits) - 1)
        if x in (float("inf"), float("-inf")):
            return hi if x > 0 else lo
        return max(lo, min(hi, int(x)))

    def float_int(self, st, v, kind, ti):
        """an integer computed from a float"""
        t = self.T[ti]
        g = (lambda x: self.f2i(x, t["s"])) if kind == "f2i" else (lambda x: self.fbits(x, t["size"]))
        if isinstance(v.fn, tuple) and v.fn[0] == "const":
            return g(v.fn[2])
        key = (kind, v.id, v.fn, t["s"])
        r = self.opq(st, key, ti)
        self.fder[key] = (self.memo[("sym", key)], v, g)
        d = dict(st.fcls)
        d["~"] = True
        st.fcls = d
        return r

    @staticmethod
    def fbits(x, n):
        import struct
        return int.from_bytes(struct.pack("<f" if n == 4 else "<d", x), "little")

    def float_cases(self, st):
        """facts under which what this path assumed of its floats certainly holds: a list of tuples; [()] when nothing was
        assumed that is not certain"""
        if not any(k == "~" or k[0] == "~" for k in st.fcls):
            return [()]
        ids = {k[1] for k in st.fcls if k != "~" and k[0] == "~"} | {v.id for s, v, g in self.fder.values()}
        if len(ids) != 1:
            return []
        fid = next(iter(ids))
        bad = st.fcls.get(("~", fid), frozenset())
        out = []
        for c in FCLASSES:
            if c[0] != "=" or c not in st.fcls.get(fid, FCLASSES) or c in bad:
                continue
            fs = [("float", fid, c)]
            for s, v, g in self.fder.values():
                y = self.fval(v, c)
                if y is None or isinstance(y, str):
                    break
                n = g(y)
                fs += [sub(s, n), sub(n, s)]
            else:
                out.append(tuple(fs))
        return out

    # masks: bit status
    def mask_bit(self, st, m, j):
        i = m.sh + j
        bs = st.byteset(m.obj, add(m.off, i))
        if bs == 0:
            raise Dead()
        s = m.sets[i]
        if not (bs & s):
            return 0
        if not (bs & ~s):
            return 1
        return None

    def mask_conc(self, st, m):
        st_lo = st.norm(m.lo)
        st_sh = st.norm(m.sh)
        if type(st_lo) is int and type(st_sh) is int and type(st.norm(m.off)) is int and \
                st.objs[m.obj].byt is not None:
            return Mask(m.obj, st.norm(m.off), m.sets, st_sh, st_lo)
        return None

    def fork_bit(self, st, m, j):
        i = m.sh + j
        s = m.sets[i]
        off = add(m.off, i)
        raise Fork([lambda x: x.refine_byte(m.obj, off, s), lambda x: x.refine_byte(m.obj, off, ALL & ~s)])

    def mask_zero(self, st, m):
        c = self.mask_conc(st, m)
        if c is not None:
            unk = None
            for j in range(c.lo, len(c.sets) - c.sh):
                b = self.mask_bit(st, c, j)
                if b == 1:
                    return False
                if b is None and unk is None:
                    unk = j
            if unk is None:
                return True
            self.fork_bit(st, c, unk)
        # symbolic: uniform sets
        if len(set(m.sets)) != 1:
            raise Undecided("non-uniform symbolic mask")
        s = m.sets[0]
        n = sub(len(m.sets), m.sh)
        base = add(m.off, m.sh)
        k = (m.obj, st.norm(base), st.norm(m.lo), st.norm(n), s)
        r = st.mfirst.get(k)
        if r is not None:
            return r == 0
        if st.entails(sub(m.lo, n)):
            return True
        lo, hi = add(base, m.lo), add(base, n)
        if st.is_clean(m.obj, lo, hi, s):
            return True

        def zero(x):
            if not x.entails(sub(m.lo, n)):
                x.clean = x.clean + ((m.obj, lo, hi, s),)
            d = dict(x.mfirst)
            d[k] = 0
            x.mfirst = d
            return True

        def nonzero(x):
            if not x.assume(sub(sub(n, 1), m.lo)):
                return False
            t = x.fresh("tz", m.lo, sub(n, 1))
            x.clean = x.clean + ((m.obj, lo, add(base, t), s),)
            if not x.refine_byte(m.obj, add(base, t), s):
                return False
            d = dict(x.mfirst)
            d[k] = t
            x.mfirst = d
            return True
        raise Fork([zero, nonzero])

    def mask_tz(self, st, m, width):
        if self.mask_zero(st, m):
            return width
        c = self.mask_conc(st, m)
        if c is not None:
            for j in range(c.lo, len(c.sets) - c.sh):
                b = self.mask_bit(st, c, j)
                if b == 1:
                    return j
                if b is None:
                    self.fork_bit(st, c, j)
            raise Dead()
        s = m.sets[0]
        k = (m.obj, st.norm(add(m.off, m.sh)), st.norm(m.lo), st.norm(sub(len(m.sets), m.sh)), s)
        t = st.mfirst.get(k)
        if t is None:
            raise Undecided("trailing zeros of a mask not tested")
        return t

    def mask_int(self, st, m):
        c = self.mask_conc(st, m)
        if c is None:
            raise Undecided("arithmetic on a symbolic mask")
        r = 0
        for j in range(c.lo, len(c.sets) - c.sh):
            b = self.mask_bit(st, c, j)
            if b is None:
                self.fork_bit(st, c, j)
            if b:
                r |= 1 << j
        return r

    def mask_clear_lowest(self, st, m, e):
        """m with bit e cleared where e is the lowest set bit; None when that is not known"""
        c = self.mask_conc(st, m)
        if c is not None:
            if type(e) is not int:
                return None
            for j in range(c.lo, e):
                if self.mask_bit(st, c, j) != 0:
                    return None
            if self.mask_bit(st, c, e) != 1:
                return None
            return Mask(c.obj, c.off, c.sets, c.sh, e + 1)
        s = m.sets[0]
        if len(set(m.sets)) != 1:
            return None
        k = (m.obj, st.norm(add(m.off, m.sh)), st.norm(m.lo), st.norm(sub(len(m.sets), m.sh)), s)
        t = st.mfirst.get(k)
        if t is None or (type(t) is int and t == 0 and type(e) is not int):
            return None
        if not st.eq(t, e):
            return None
        return Mask(m.obj, m.off, m.sets, m.sh, st.norm(add(e, 1)))

    # words
    def _weval(self, e, byte, carries, out):
        """evaluate expression e on one lane; carries: dict node-> carry in; out: dict node -> carry out"""
        op = e[0]
        if op == "ld":
            return byte
        if op == "k":
            return e[1][out["#"]]
        if op == "not":
            return ~self._weval(e[1], byte, carries, out) & 255
        a = self._weval(e[1], byte, carries, out)
        b = self._weval(e[2], byte, carries, out)
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "add":
            r = a + b + carries.get(e, 0)
            out[e] = r >> 8
            return r & 255
        if op == "sub":
            r = a - b - carries.get(e, 0)
            out[e] = 1 if r < 0 else 0
            return r & 255
        raise Undecided("word op " + op)

    def word_tables(self, w):
        """per lane transition tables: list of dict carrystate -> [(byteset, out, carrystate')]"""
        k = ("wt", w.e, w.n)
        r = self.memo.get(k)
        if r is not None:
            return r
        lanes = []
        states = {()}
        for i in range(w.n):
            tab = {}
            nxt = set()
            for cs in states:
                d = {}
                carries = dict(cs)
                for b in range(256):
                    out = {"#": i}
                    v = self._weval(w.e, b, carries, out)
                    del out["#"]
                    ncs = tuple(sorted(((n, c) for n, c in out.items() if c), key=repr))
                    d[(v, ncs)] = d.get((v, ncs), 0) | (1 << b)
                    nxt.add(ncs)
                tab[cs] = [(m, v, ncs) for (v, ncs), m in d.items()]
            lanes.append(tab)
            states = nxt
            if len(states) > 64:
                raise Undecided("word carries")
        self.memo[k] = lanes
        return lanes

    def word_zero(self, st, w):
        lanes = self.word_tables(w)
        sets = [st.byteset(w.obj, add(w.off, i)) for i in range(w.n)]
        # forward states with all outputs zero so far, and whether a nonzero output is possible
        fw = [{()}]
        nz = False
        for i in range(w.n):
            nx = set()
            for cs in fw[-1]:
                for m, v, ncs in lanes[i][cs]:
                    if m & sets[i]:
                        if v == 0:
                            nx.add(ncs)
                        else:
                            nz = True
            fw.append(nx)
            if not nx:
                break
        if len(fw) <= w.n or not fw[w.n]:
            return False
        if not nz:
            return True
        # backwards: bytes compatible with an all-zero result
        good = set(fw[w.n])
        allowed = [0] * w.n
        for i in range(w.n - 1, -1, -1):
            g = set()
            for cs in fw[i]:
                for m, v, ncs in lanes[i][cs]:
                    if v == 0 and ncs in good and m & sets[i]:
                        allowed[i] |= m & sets[i]
                        g.add(cs)
            good = g

        def zero(s):
            for i in range(w.n):
                if not s.refine_byte(w.obj, add(w.off, i), allowed[i]):
                    return False
            d = dict(s.truth)
            d[("w", w)] = True
            s.truth = d
            # coarse symbolic fact for whole range
            u = 0
            for a in allowed:
                u |= a
            s.clean = s.clean + ((w.obj, w.off, add(w.off, w.n), ALL & ~u),)
            return True

        def nonzero(s):
            d = dict(s.truth)
            d[("w", w)] = False
            s.truth = d
            # if exactly one lane can produce a nonzero result, refine it
            return True
        k = st.truth.get(("w", w))
        if k is not None:
            return k
        raise Fork([zero, nonzero])

    def concretize(self, st, b, limit=24):
        """value of a byte function as a constant, forking over its possible values"""
        m = st.byteset(b.obj, b.off)
        if m == 0:
            raise Dead()
        groups = {}
        for i in bits_of(m):
            groups.setdefault(b.tab[i], 0)
            groups[b.tab[i]] |= 1 << i
        if len(groups) == 1:
            return next(iter(groups))
        if len(groups) > limit:
            raise Undecided("byte value with %d possibilities" % len(groups))

        def alt(mask):
            return lambda s: s.refine_byte(b.obj, b.off, mask)
        raise Fork([alt(x) for x in groups.values()])

    # ---------------------------------------------------------------- opaque values
    def opq(self, st, id, ti):
        t = self.T[ti]
        k = t["k"]
        if k in ("int", "uint", "char"):
            key = ("sym", id)
            s = self.memo.get(key)
            if s is None:
                s = sym("v")
                self.memo[key] = s
            if key not in st.meta:
                m = dict(st.meta)
                m[key] = True
                st.meta = m
                lo, hi = self.range(ti)
                st.assume(sub(s, lo))
                st.assume(sub(hi, s))
            return st.norm(s)
        if k == "float":
            return Flt(id)
        if k == "tuple" and not t["e"]:
            return UNIT
        if k in ("ref", "ptr"):
            e = self.T[t["e"]]
            if e["k"] == "str" or (e["k"] == "slice" and self.T[e["e"]].get("size") == 1):
                oid = ("in", id)
                if oid not in st.objs:
                    n = self.memo.get(("len", id))
                    if n is None:
                        n = sym("len")
                        self.memo[("len", id)] = n
                    st.objs[oid] = Obj("in", n, str(id))
                    st.assume(n)
                    st.assume(sub(ISIZE_MAX, n))
                return BP(oid, 0, st.objs[oid].size)
            if k == "ref":
                cell = ("o", id)
                if cell not in st.mem:
                    st.mem[cell] = self.opq(st, ("*", id), t["e"]) if e.get("sized", True) else Opq(("*", id), t["e"])
                return Ref(cell)
        if k == "adt" and t["name"] == "alloc::string::String":
            oid = ("h", id)
            n = self.memo.get(("slen", id))
            if n is None:
                n = sym("slen")
                c = sym("scap")
                self.memo[("slen", id)] = n
                self.memo[("scap", id)] = c
            c = self.memo[("scap", id)]
            if oid not in st.objs:
                st.objs[oid] = Obj("heap", c, str(id), ents=((0, n, ("old", id, 0)),))
                st.assume(n)
                st.assume(sub(c, n))
                st.assume(sub(ISIZE_MAX, c))
            return StrV(oid, n, c)
        if k == "fndef":
            return FnV(t["fn"])
        return Opq(id, ti)

    def fields_of(self, ti, v=0):
        t = self.T[ti]
        k = t["k"]
        if k == "adt":
            return [f[1] for f in t["v"][v]["f"]]
        if k == "tuple":
            return t["e"]
        if k == "closure":
            return t["up"]
        if k == "array" and t["n"] is not None:
            return [t["e"]] * t["n"]
        raise Undecided("fields of " + t["s"])

    def range(self, ti):
        t = self.T[ti]
        if t["k"] == "char":
            return 0, 0x10FFFF
        s, b = self.P.intinfo(ti)
        if s:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    # ---------------------------------------------------------------- places
    def place(self, st, pl):
        fr = st.frame
        body = self.F[fr.fn]["body"]
        ti = body["locals"][pl[0]]
        loc = ("c", (fr.id, pl[0]), ())
        meta = None
        for p in pl[1]:
            k = p[0]
            if loc[0] == "c" and k != "*":
                oid = self.spilled(st, loc)
                if oid is not None:
                    loc = ("b", oid, 0)
            if k == "*":
                v = self.load(st, loc, ti)
                t = self.T[ti]
                if t["k"] in ("ref", "ptr"):
                    ti = t["e"]
                else:
                    raise Undecided("deref of " + t["s"])
                if isinstance(v, Ref):
                    loc = ("c", v.cell, v.path)
                    meta = v.meta
                elif isinstance(v, BP):
                    loc = ("b", v.obj, v.off)
                    meta = v.meta
                elif isinstance(v, Opq):
                    cell = ("o", v.id)
                    if cell not in st.mem:
                        st.mem[cell] = self.opq(st, ("*", v.id), ti)
                    loc = ("c", cell, ())
                    meta = None
                else:
                    raise Undecided("deref of %r" % (v,))
            elif k == "f":
                if loc[0] == "c":
                    loc = ("c", loc[1], loc[2] + (p[1],))
                else:
                    off = self.T[ti].get("off")
                    if off is None or (self.T[ti]["k"] == "adt" and len(self.T[ti]["v"]) != 1):
                        raise Undecided("field of " + self.T[ti]["s"] + " in byte memory")
                    loc = ("b", loc[1], add(loc[2], off[p[1]]))
                ti = p[2]
            elif k == "d":
                if loc[0] == "c":
                    loc = ("c", loc[1], loc[2] + (("d", p[1]),))
                else:
                    raise Undecided("enum in byte memory")
            elif k == "i":
                idx = self.load(st, ("c", (fr.id, p[1]), ()), None)
                e = self.T[ti]["e"]
                if loc[0] == "b":
                    sz = self.T[e]["size"]
                    loc = ("b", loc[1], self.off_add(st, loc[2], idx, sz))
                else:
                    idx = self.as_const(st, idx)
                    loc = ("c", loc[1], loc[2] + (idx,))
                ti = e
            elif k == "ci":
                t = self.T[ti]
                e = t["e"]
                if p[3]:
                    n = t.get("n") if t["k"] == "array" else meta
                    if type(n) is not int:
                        raise Undecided("index from end")
                    i = n - p[1]
                else:
                    i = p[1]
                if loc[0] == "b":
                    loc = ("b", loc[1], add(loc[2], i * self.T[e]["size"]))
                else:
                    loc = ("c", loc[1], loc[2] + (i,))
                ti = e
            else:
                raise Undecided("projection " + str(k))
        return loc, ti, meta

    def byte_array(self, ti):
        """size of a local that may be accessed as plain bytes, or None"""
        t = self.T[ti]
        while t["k"] == "adt" and not t["enum"] and t["name"].rsplit("::", 1)[-1] in ("MaybeUninit", "ManuallyDrop") \
                and t.get("size"):
            fs = [f[1] for f in t["v"][0]["f"] if self.T[f[1]].get("size")]
            if len(fs) != 1:
                return None
            t = self.T[fs[0]]
        if t["k"] != "array" or not t.get("size") or t["size"] > 4096:
            return None
        e = self.T[t["e"]]
        if e["k"] == "adt" and e["name"].endswith("::MaybeUninit") and e.get("size") == 1:
            return t["size"]
        return t["size"] if e["k"] in ("uint", "int") and e["size"] == 1 else None

    def spilled(self, st, loc):
        """the byte object a local array lives in once its address was taken"""
        v = st.mem.get(loc[1])
        for p in loc[2]:
            if isinstance(p, tuple):
                continue
            if not isinstance(v, Agg) or v.v == "bytes" or p >= len(v.f):
                return None
            v = v.f[p]
        return v.f[0].obj if isinstance(v, Agg) and v.v == "bytes" else None

    def flat_bytes(self, v):
        """elements of an array value; None where uninitialised"""
        while isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Agg):
            v = v.f[0]
        if not isinstance(v, Agg):
            return None
        out = []
        for x in v.f:
            while isinstance(x, Agg) and x.f:
                y = [z for z in x.f if z is not None]
                x = y[0] if y else None
            out.append(x)
        return out

    def spill(self, st, loc, ti):
        n = self.byte_array(ti)
        if n is None:
            return None
        oid = self.spilled(st, loc)
        if oid is not None:
            return oid
        try:
            v = self.load(st, loc, ti)
        except Undecided:
            v = None
        xs = [None] * n
        if v is not None:
            xs = self.flat_bytes(v)
            if xs is not None and all(x is None for x in xs):
                xs = [None] * n
            if xs is None or len(xs) != n or not all(x is None or isinstance(x, (int, Lin, BF)) for x in xs):
                return None
        st.seq += 1
        oid = ("k", st.seq)
        st.objs[oid] = Obj("stack", n, "local%d" % st.seq)
        self.fill(st, oid, xs)
        self.store(st, loc, Agg("bytes", (BP(oid, 0),)), ti)
        return oid

    def fill(self, st, oid, xs):
        i = 0
        u8 = next(k for k, t in enumerate(self.T) if t["k"] == "uint" and t.get("size") == 1)
        while i < len(xs):
            j = i
            while j < len(xs) and type(xs[j]) is int:
                j += 1
            if j > i:
                self.write_range(st, oid, i, j - i, [(0, j - i, ("c", bytes(x & 255 for x in xs[i:j])))])
                i = j
                continue
            if xs[i] is not None:
                self.store_bytes(st, oid, i, xs[i], u8)
            i += 1

    def copied(self, st, v):
        """a local array is copied with its bytes"""
        if isinstance(v, Agg) and v.v == "bytes":
            o = st.objs[v.f[0].obj]
            st.seq += 1
            oid = ("k", st.seq)
            st.objs[oid] = o.with_(name="local%d" % st.seq)
            return Agg("bytes", (BP(oid, 0),))
        return v

    def off_add(self, st, off, idx, sz):
        if isinstance(idx, BF):
            if type(off) is int:
                return BF(idx.obj, idx.off, tuple(off + x * sz for x in idx.tab))
            return add(off, self.concretize(st, idx) * sz)
        if isinstance(idx, Mask):
            idx = self.mask_int(st, idx)
        if not isinstance(idx, (int, Lin)):
            raise Undecided("index %r" % (idx,))
        if isinstance(off, BF):
            off = self.concretize(st, off)
        return add(off, scale(idx, sz))

    def as_const(self, st, v):
        if isinstance(v, BF):
            return self.concretize(st, v)
        if isinstance(v, Lin):
            v = st.norm(v)
        if type(v) is int:
            return v
        raise Undecided("needs a constant: %r" % (v,))

    def walk(self, st, v, path, ti=None):
        var = None
        for p in path:
            if isinstance(p, tuple):
                var = p[1]
                continue
            if isinstance(v, Agg):
                if var is not None and v.v != var:
                    raise Dead()
                if p >= len(v.f):
                    raise Undecided("field %s of %r" % (p, v))
                v = v.f[p]
                if v is None:
                    raise Undecided("read of uninitialised field")
            elif isinstance(v, Opq):
                t = self.T[v.ty]
                k = var or 0
                fs = self.fields_of(v.ty, k)
                v = self.opq(st, (v.id, k, p), fs[p])
            elif isinstance(v, (int, Lin, BP, Ref, BF)) and p == 0:
                pass  # transparent wrapper around a scalar
            else:
                raise Undecided("field %s of %r" % (p, v))
            var = None
        return v

    def load(self, st, loc, ti):
        if loc[0] == "c":
            v = st.mem.get(loc[1])
            if v is None:
                t = self.T[ti] if ti is not None else None
                if t is not None and t.get("size") == 0:
                    return self.zst(ti)
                raise Undecided("read of uninitialised %s" % (loc[1],))
            if not loc[2]:
                return v
            return self.walk(st, v, loc[2])
        return self.load_bytes(st, loc[1], loc[2], ti)

    def zst(self, ti):
        t = self.T[ti]
        if t["k"] == "fndef":
            return FnV(t["fn"])
        if t["k"] == "adt" and not t["enum"]:
            return Agg(0, tuple(self.zst(f[1]) for f in t["v"][0]["f"]))
        if t["k"] == "tuple":
            return Agg(0, tuple(self.zst(e) for e in t["e"]))
        if t["k"] == "closure":
            return Agg(0, tuple(self.zst(e) for e in t["up"]))
        return UNIT

    def setpath(self, st, v, path, val, ti):
        if not path:
            return val
        var = 0
        i = 0
        if isinstance(path[0], tuple):
            var = path[0][1]
            i = 1
            if i >= len(path):
                return val
        p = path[i]
        fs = self.fields_of(ti, var)
        if v is None:
            v = Agg(var, (None,) * len(fs))
        elif isinstance(v, Opq):
            v = Agg(var, tuple(self.opq(st, (v.id, var, j), f) for j, f in enumerate(fs)))
        elif not isinstance(v, Agg):
            raise Undecided("store into field of %r" % (v,))
        f = list(v.f)
        f[p] = self.setpath(st, f[p], path[i + 1:], val, fs[p])
        return Agg(v.v if i == 0 else var, tuple(f))

    def cell_ty(self, st, cell):
        if cell in st.inv:
            return st.inv[cell]
        fid, l = cell
        f = st.frame
        while f is not None:
            if f.id == fid:
                return self.F[f.fn]["body"]["locals"][l]
            f = f.up
        return None

    def store(self, st, loc, val, ti):
        if loc[0] == "c":
            cell, path = loc[1], loc[2]
            cur = st.mem.get(cell)
            if not path:
                if isinstance(cur, Agg) and cur.v == "bytes":
                    xs = self.flat_bytes(val)
                    oid = cur.f[0].obj
                    if isinstance(val, Agg) and val.v == "bytes":
                        o = st.objs[val.f[0].obj]
                        st.objs[oid] = st.objs[oid].with_(ents=o.ents)
                        return
                    if xs is None or len(xs) != st.objs[oid].size:
                        raise Undecided("store into a local array")
                    st.objs[oid] = st.objs[oid].with_(ents=())
                    self.fill(st, oid, xs)
                    return
                st.mem[cell] = val
                return
            rt = None
            if isinstance(cur, Opq):
                rt = cur.ty
            if rt is None:
                rt = st.meta.get(("cty", cell))
            if rt is None and isinstance(cell[0], int):
                rt = self.cell_ty(st, cell)
            if rt is None:
                # no type: only works along existing aggregates
                st.mem[cell] = self.setpath_untyped(st, cur, path, val)
                return
            st.mem[cell] = self.setpath(st, cur, path, val, rt)
            return
        self.store_bytes(st, loc[1], loc[2], val, ti)

    def setpath_untyped(self, st, v, path, val):
        if not path:
            return val
        if isinstance(path[0], tuple):
            return self.setpath_untyped(st, v, path[1:], val)
        if not isinstance(v, Agg):
            raise Undecided("store into %r" % (v,))
        f = list(v.f)
        f[path[0]] = self.setpath_untyped(st, f[path[0]], path[1:], val)
        return Agg(v.v, tuple(f))

    # ---------------------------------------------------------------- byte memory
    def check_access(self, st, obj, off, n, write, what):
        if obj is None:
            self.count("bounds")
            self.violate(st, "oob-write" if write else "oob-read", what + " through a pointer without allocation")
            raise Dead()
        o = st.objs[obj]
        if not o.live:
            self.count("liveness")
            self.violate(st, "use-after-free", what + " of freed memory")
            raise Dead()
        self.count("liveness")
        k = "oob-write" if write else "oob-read"
        if write and o.kind in ("in", "const"):
            self.violate(st, "write-to-shared", what + " writes read-only data")
            raise Dead()
        self.need(st, off, k, what + " before the start of the object")
        self.need(st, sub(o.size, add(off, n)), k, what + " past the end of the object")

    def check_align(self, st, p, ti):
        al = self.T[ti].get("align") or 1
        self.count("align")
        if al == 1:
            return
        off = p.off if not isinstance(p.off, BF) else self.concretize(st, p.off)
        if p.obj is not None:
            o = st.objs[p.obj]
            if o.align % al == 0 and type(off) is int and off % al == 0:
                return
        q, r = st.divmod(self.addr_of(st, BP(p.obj, off)), al)
        if not st.eq(r, 0):
            if not self.decide(st, ("eq", st.norm(r))):
                self.violate(st, "align", "access at an address that is not aligned for " + self.T[ti]["s"])
                raise Dead()

    def initialised(self, st, obj, off, n, what):
        self.count("init")
        if self.read_range(st, obj, off, n) is None:
            self.violate(st, "uninit-read", what + " include uninitialised bytes")
            raise Dead()

    def simd_use(self, st, f):
        self.simd_used.add(f["path"])

    def tail_call(self, st, fi, args):
        dest, ret = self.cur_call
        self.push(st, fi, args, dest, ret)
        raise Goto()

    def static_values(self, st, path):
        v = self.statics.get(path)
        if v is None:
            s = self.P.statics.get(path)
            if s is None or s["init"] is None:
                raise Undecided("static " + path)
            v = [self.decode_static(st, s)]
            self.statics[path] = v
        return v

    def decode_static(self, st, s):
        for r in s["init"]["r"]:
            if r[1][0] == "fn":
                return FnV(r[1][1])
            return BP(self.const_obj(st, r[1]), 0)
        b = bytes.fromhex(s["init"]["b"])
        return int.from_bytes(b, "little")

    def static_note(self, st, path, v, rel=True):
        vals = self.static_values(st, path)
        v = self.static_token(st, v)
        if isinstance(v, AnyV):
            v = next((x for x in vals if covers(x, v)), v)
        if v not in vals:
            if not isinstance(v, (FnV, int, bool, AnyV)):
                raise Undecided("value %r stored in a shared static" % (v,))
            vals.append(v)
            self.static_grew = True
        before = {e[1] for e in st.trace if e[0] == "static-store"} | self.acquired(st)
        self.facts.setdefault((path, v), set()).add((rel, frozenset(before)))
        st.trace = st.trace + (("static-store", path, v),)

    def static_token(self, st, v):
        """a remembered number that depends on the arguments: some number of its range"""
        v = st.norm(v) if isinstance(v, Lin) else v
        if not isinstance(v, Lin):
            return v
        exact = len(v.t) == 1 and abs(v.t[0][1]) == 1
        return AnyV((st.store.lower(v), st.store.upper(v), exact))

    def static_init(self, st, path):
        v = self.inits.get(path)
        if v is None:
            s = self.P.statics.get(path)
            if s is None or s["init"] is None:
                raise Undecided("static " + path)
            v = self.inits[path] = self.decode_static(st, s)
        return v

    def acquired(self, st):
        """statics some thread is known to have stored to before what this path has read"""
        out = set()
        for e in st.trace:
            if e[0] == "static-load" and e[3] and e[2] != self.static_init(st, e[1]):
                fs = self.facts.get((e[1], e[2]))
                if fs and all(r for r, _ in fs):
                    out |= frozenset.intersection(*[b for _, b in fs])
        return out

    def static_candidates(self, st, path):
        """values an atomic load may give; `concurrent`: other threads may be at any point of the same code"""
        own = [e[2] for e in st.trace if e[0] == "static-store" and e[1] == path]
        vals = self.static_values(st, path)
        if self.concurrent is None:
            return vals
        if not self.concurrent:
            return own[-1:] or vals[:1]
        init = self.static_init(st, path)
        old = bool(own) or any(e[0] == "static-load" and e[1] == path and e[2] != init for e in st.trace) or path in self.acquired(st)
        if old and (path, init) not in self.facts and init not in own:
            vals = [v for v in vals if v != init]
        if not vals:
            raise Dead()
        return vals

    def rmw(self, st):
        """a read-modify-write: exclusive among threads, which the candidates do not express"""
        if self.concurrent:
            st.approx = True

    def const_obj(self, st, a):
        """object for an alloc reference: ["a",i] / ["st",path] / ["fn",i] / ["vt"]"""
        if a[0] == "a":
            oid = ("k", a[1])
            if oid not in st.objs:
                m = self.P.allocs[a[1]]
                st.objs[oid] = Obj("const", len(m["b"]) // 2, "const%d" % a[1], data=m, align=m["align"])
            return oid
        if a[0] == "st":
            oid = ("static", a[1])
            if oid not in st.objs:
                s = self.P.statics.get(a[1])
                if s is None or s["init"] is None:
                    st.objs[oid] = Obj("static", 1 << 40, a[1])
                elif s["freeze"] and not s["mut"]:
                    st.objs[oid] = Obj("const", len(s["init"]["b"]) // 2, a[1], data=s["init"],
                                       align=s["init"]["align"])
                else:
                    st.objs[oid] = Obj("static", len(s["init"]["b"]) // 2, a[1], data=s["init"])
            return oid
        raise Undecided("constant memory " + a[0])

    def variant_in(self, mem, off, t):
        """variant of an enum constant stored in memory"""
        if "single" in t:
            return t["single"]
        if "tag" not in t:
            return None
        at, sz, enc = t["tag"]
        at += off
        rel = any(r[0] == at for r in mem["r"])
        tag = int.from_bytes(bytes.fromhex(mem["b"][at * 2:(at + sz) * 2]), "little")
        mask = (1 << (8 * sz)) - 1
        if enc is None:
            for i, v in enumerate(t["v"]):
                if int(v["d"]) & mask == tag:
                    return i
            return None
        un, lo, hi, start = enc
        if rel:
            return un
        d = (tag - int(start)) & mask
        return lo + d if d <= hi - lo else un

    def decode(self, st, mem, off, ti):
        t = self.T[ti]
        k = t["k"]
        n = t.get("size")
        if n == 0:
            return self.zst(ti)
        if k in ("int", "uint", "bool", "char", "float"):
            b = bytes.fromhex(mem["b"][off * 2:(off + n) * 2])
            if k == "float":
                return self.float_const(int.from_bytes(b, "little"), n)
            v = int.from_bytes(b, "little", signed=(k == "int"))
            return bool(v) if k == "bool" else v
        if k in ("ref", "ptr", "fnptr"):
            for r in mem["r"]:
                if r[0] == off:
                    add_ = int.from_bytes(bytes.fromhex(mem["b"][off * 2:(off + self.P.ptr) * 2]), "little")
                    if r[1][0] == "fn":
                        return FnV(r[1][1])
                    o = self.const_obj(st, r[1])
                    meta = None
                    if n == 2 * self.P.ptr:
                        w = bytes.fromhex(mem["b"][(off + self.P.ptr) * 2:(off + n) * 2])
                        meta = int.from_bytes(w, "little")
                    return BP(o, add_, meta)
            b = bytes.fromhex(mem["b"][off * 2:(off + self.P.ptr) * 2])
            meta = None
            if n == 2 * self.P.ptr:
                w = bytes.fromhex(mem["b"][(off + self.P.ptr) * 2:(off + n) * 2])
                meta = int.from_bytes(w, "little")
            return BP(None, int.from_bytes(b, "little"), meta)
        if k == "array":
            sz = self.T[t["e"]]["size"]
            return Agg(0, tuple(self.decode(st, mem, off + i * sz, t["e"]) for i in range(t["n"])))
        if k == "tuple":
            return Agg(0, tuple(self.decode(st, mem, off + o, e) for o, e in zip(t["off"], t["e"])))
        if k == "adt":
            if self.is_vec(ti):
                b = bytes.fromhex(mem["b"][off * 2:(off + n) * 2])
                return VecV(None, 0, tuple(I._ctab[x] for x in b))
            if not t["enum"] and not t["union"]:
                fs = t["v"][0]["f"]
                return Agg(0, tuple(self.decode(st, mem, off + o, f[1]) for o, f in zip(t["off"], fs)))
            if t["enum"] and len(t["v"]) > 1 and all(not v["f"] for v in t["v"]):
                b = int.from_bytes(bytes.fromhex(mem["b"][off * 2:(off + n) * 2]), "little")
                for i, v in enumerate(t["v"]):
                    if int(v["d"]) & ((1 << (8 * n)) - 1) == b:
                        return Agg(i, ())
            if t["enum"]:
                i = self.variant_in(mem, off, t)
                if i is not None:
                    offs = t["voff"][i] if "voff" in t else t.get("off", [])
                    return Agg(i, tuple(self.decode(st, mem, off + o, f[1]) for o, f in zip(offs, t["v"][i]["f"])))
        raise Undecided("constant of type " + t["s"])

    def is_vec(self, ti):
        t = self.T[ti]
        return t["k"] == "adt" and (t["name"].startswith("core::core_arch::") or "::simd::Simd" in t["name"]) \
            and t.get("size") in (8, 16, 32, 64)

    def load_bytes(self, st, obj, off, ti):
        t = self.T[ti]
        n = t.get("size")
        if n is None:
            raise Undecided("load of unsized " + t["s"])
        if n == 0:
            return self.zst(ti)
        if isinstance(off, BF):
            o = st.objs[obj]
            if o.kind == "const" and t["k"] in ("int", "uint", "bool"):
                m = st.byteset(off.obj, off.off)
                self.count("bounds")
                tab = [0] * 256
                for i in bits_of(m):
                    p = off.tab[i]
                    if p < 0 or p + n > o.size:
                        self.violate(st, "oob-read", "table lookup out of bounds for byte 0x%02x" % i)
                        raise Dead()
                    tab[i] = self.decode(st, o.data, p, ti)
                return self.bf(st, off.obj, off.off, tuple(tab))
            off = self.concretize(st, off)
        self.check_access(st, obj, off, n, False, "load of " + t["s"])
        o = st.objs[obj]
        if o.kind == "const":
            off = st.norm(off)
            if type(off) is not int:
                raise Undecided("symbolic offset into constant data")
            return self.decode(st, o.data, off, ti)
        off = st.norm(off)
        if o.kind == "in":
            if t["k"] == "uint" and n == 1 or t["k"] == "bool":
                return self.bf(st, obj, off, I.IDT)
            if t["k"] == "int" and n == 1:
                return self.bf(st, obj, off, tuple(x - 256 if x > 127 else x for x in range(256)))
            if t["k"] in ("uint", "int") and n <= 16:
                if t["k"] == "int":
                    raise Undecided("signed word load")
                return Word(obj, off, n, ("ld",))
            if self.is_vec(ti):
                return VecV(obj, off, (I.IDT,) * n)
            if t["k"] == "array" and self.T[t["e"]]["size"] == 1:
                return VecV(obj, off, (I.IDT,) * n)
            raise Undecided("load of %s from input" % t["s"])
        if o.kind == "static":
            return self.load_static(st, obj, off, ti)
        # heap
        ent = self.read_range(st, obj, off, n)
        if ent is None:
            self.violate(st, "uninit-read", "load of uninitialised buffer memory")
            raise Dead()
        if len(ent) == 1:
            seg = ent[0][2]
            if seg[0] == "c" and t["k"] in ("uint", "int"):
                return int.from_bytes(seg[1], "little", signed=t["k"] == "int")
            if seg[0] == "in" and n == 1:
                return self.bf(st, seg[1], seg[2], I.IDT)
            if seg[0] == "in" and self.is_vec(ti):
                return VecV(seg[1], seg[2], (I.IDT,) * n)
        if all(e[2][0] == "c" for e in ent) and t["k"] in ("uint", "int"):
            return int.from_bytes(b"".join(e[2][1] for e in ent), "little", signed=t["k"] == "int")
        raise Undecided("load of buffer content")

    def load_static(self, st, obj, off, ti):
        raise Undecided("load of a mutable static")

    def bf(self, st, obj, off, tab):
        m = st.byteset(obj, off)
        if m == 0:
            raise Dead()
        v = None
        for i in bits_of(m):
            if v is None:
                v = tab[i]
            elif tab[i] != v:
                return BF(obj, off, I._intern(tab))
        return v

    def seg_slice(self, st, seg, rel, n):
        if seg[0] == "c":
            rel, n = st.norm(rel), st.norm(n)
            if type(rel) is int and type(n) is int:
                return ("c", seg[1][rel:rel + n])
            raise Undecided("symbolic slice of constant content")
        if seg[0] in ("in", "old"):
            return (seg[0], seg[1], st.norm(add(seg[2], rel)))
        if st.entails_zero(rel) if hasattr(st, "entails_zero") else st.eq(rel, 0):
            if n is None:
                return seg
        return ("part", seg, st.norm(rel), st.norm(n))

    def le(self, st, a, b):
        return self.decide(st, ("ge", sub(b, a)))

    def read_range(self, st, obj, off, n):
        """content of obj[off..off+n) as [(rel, len, seg)], None if some byte is uninitialised"""
        o = st.objs[obj]
        if o.kind == "in":
            return [(0, n, ("in", obj, st.norm(off)))]
        if o.kind == "const":
            off, n = st.norm(off), st.norm(n)
            if type(off) is int and type(n) is int:
                if o.data["r"] and any(off < r[0] + self.P.ptr and r[0] < off + n for r in o.data["r"]):
                    raise Undecided("copy of pointers")
                return [(0, n, ("c", bytes.fromhex(o.data["b"][off * 2:(off + n) * 2])))]
            raise Undecided("symbolic slice of constant data")
        if o.kind not in ("heap", "stack"):
            raise Undecided("copy from " + o.kind)
        out = []
        pos = st.norm(off)
        end = st.norm(add(off, n))
        for _ in range(10000):
            if self.le(st, end, pos):
                return out
            hit = None
            for s, l, seg in o.ents:
                if st.eq(s, pos):
                    if not self.le(st, l, 0):
                        hit = (s, l, seg)
                        break
            if hit is None:
                for s, l, seg in o.ents:
                    if self.le(st, s, pos) and not self.le(st, add(s, l), pos):
                        hit = (s, l, seg)
                        break
            if hit is None:
                return None
            s, l, seg = hit
            e = add(s, l)
            stop = end if self.le(st, end, e) else e
            ln = st.norm(sub(stop, pos))
            rel = st.norm(sub(pos, s))
            if rel == 0 and st.eq(ln, l):
                sg = seg
            else:
                sg = self.seg_slice(st, seg, rel, ln)
            out.append((st.norm(sub(pos, off)), ln, sg))
            pos = st.norm(stop)
        raise Undecided("content too fragmented")

    def write_range(self, st, obj, off, n, ents):
        """replace obj[off..off+n) by ents (relative); ents None: unknown bytes"""
        o = st.objs[obj]
        a = st.norm(off)
        b = st.norm(add(off, n))
        keep = []
        for s, l, seg in o.ents:
            e = st.norm(add(s, l))
            if st.eq(l, 0):
                continue
            if st.entails(sub(s, b)) or st.entails(sub(a, e)):
                keep.append((s, l, seg))
                continue
            if self.le(st, b, s) or self.le(st, e, a):
                keep.append((s, l, seg))
                continue
            if not self.le(st, a, s):
                ln = st.norm(sub(a, s))
                keep.append((s, ln, self.seg_slice(st, seg, 0, ln)))
            if not self.le(st, e, b):
                rel = st.norm(sub(b, s))
                keep.append((b, st.norm(sub(e, b)), self.seg_slice(st, seg, rel, st.norm(sub(e, b)))))
        for r, l, seg in ents:
            if st.norm(l) == 0:
                continue
            keep.append((st.norm(add(a, r)), st.norm(l), seg))
        st.objs[obj] = o.with_(ents=tuple(keep))

    def store_bytes(self, st, obj, off, val, ti):
        t = self.T[ti]
        n = t.get("size")
        if n is None:
            raise Undecided("store of unsized")
        if n == 0:
            return
        if isinstance(off, BF):
            off = self.concretize(st, off)
        self.check_access(st, obj, off, n, True, "store of " + t["s"])
        o = st.objs[obj]
        if o.kind not in ("heap", "stack"):
            raise Undecided("store into " + o.kind)
        if isinstance(val, BF):
            m = st.byteset(val.obj, val.off)
            if all(val.tab[i] % 256 == i for i in bits_of(m)) and n == 1:
                seg = ("in", val.obj, val.off)
            else:
                val = self.concretize(st, val)
        if isinstance(val, bool):
            val = int(val)
        if isinstance(val, Lin):
            val = st.norm(val)
        if type(val) is int:
            seg = ("c", (val & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
        elif isinstance(val, BF):
            pass
        elif isinstance(val, Word) and val.e == ("ld",) and val.n == n:
            seg = ("in", val.obj, val.off)
        elif isinstance(val, VecV) and val.obj is not None and all(x is I.IDT for x in val.tabs):
            seg = ("in", val.obj, val.off)
        elif isinstance(val, VecV) and val.obj is None:
            seg = ("c", bytes(x[0] for x in val.tabs))
        elif isinstance(val, Lin) and n == 1 and st.entails(val) and st.entails(sub(127, val)):
            seg = ("chr", val)
        else:
            seg = ("unk", (st.seq, repr(val)[:40]))
        self.write_range(st, obj, off, n, [(0, n, seg)])

    def copy_bytes(self, st, src, dst, n, what="copy", overlap=False):
        """memcpy of n bytes"""
        n = self.num(st, n)
        if st.eq(n, 0):
            self.count("bounds")
            return
        if isinstance(src, Ref) or isinstance(dst, Ref):
            return self.copy_cells(st, src, dst, n)
        if not isinstance(src, BP) or not isinstance(dst, BP):
            raise Undecided("%s from %r" % (what, src))
        if src.obj is None or dst.obj is None:
            if not self.decide(st, ("ge", sub(0, n))):
                self.violate(st, "oob-write" if dst.obj is None else "oob-read",
                             what + " through a pointer without allocation")
                raise Dead()
            return
        so, do_ = src.off, dst.off
        if isinstance(so, BF):
            so = self.concretize(st, so)
        if isinstance(do_, BF):
            do_ = self.concretize(st, do_)
        self.check_access(st, src.obj, so, n, False, what + " (source)")
        self.check_access(st, dst.obj, do_, n, True, what + " (destination)")
        if src.obj == dst.obj and not overlap:
            # ranges must not overlap
            if not (st.entails(sub(do_, add(so, n))) or st.entails(sub(so, add(do_, n)))):
                self.violate(st, "overlap", what + " with overlapping ranges")
                raise Dead()
        ents = self.read_range(st, src.obj, so, n)
        if ents is None:
            ents = []
            # copying uninitialised bytes is allowed but leaves the destination uninitialised
            st_ents = self.read_partial(st, src.obj, so, n)
            ents = st_ents
        if st.objs[dst.obj].kind not in ("heap", "stack"):
            raise Undecided("copy into " + st.objs[dst.obj].kind)
        self.write_range(st, dst.obj, do_, n, ents)

    def read_partial(self, st, obj, off, n):
        o = st.objs[obj]
        out = []
        end = add(off, n)
        for s, l, seg in o.ents:
            e = add(s, l)
            if self.le(st, e, off) or self.le(st, end, s):
                continue
            a = s if self.le(st, off, s) else off
            b = e if self.le(st, e, end) else end
            rel = st.norm(sub(a, s))
            ln = st.norm(sub(b, a))
            sg = seg if rel == 0 and st.eq(ln, l) else self.seg_slice(st, seg, rel, ln)
            out.append((st.norm(sub(a, off)), ln, sg))
        return out

    def copy_cells(self, st, src, dst, n):
        # SIMD load idiom: copy input bytes over a vector-typed local
        if isinstance(dst, Ref) and isinstance(src, BP) and type(n) is int:
            self.check_access(st, src.obj, src.off, n, False, "copy (source)")
            cur = st.mem.get(dst.cell)
            if not dst.path and (isinstance(cur, VecV) and len(cur.tabs) == n):
                o = st.objs[src.obj]
                if o.kind == "in":
                    st.mem[dst.cell] = VecV(src.obj, st.norm(src.off), (I.IDT,) * n)
                    return
        raise Undecided("copy between typed cells")

    # ---------------------------------------------------------------- operands, constants
    def num(self, st, v):
        if isinstance(v, bool):
            return int(v)
        if type(v) is int:
            return v
        if isinstance(v, Lin):
            return st.norm(v)
        if isinstance(v, BF):
            return self.concretize(st, v)
        if isinstance(v, Mask):
            return self.mask_int(st, v)
        if isinstance(v, Pow2):
            e = st.norm(v.e)
            if type(e) is int:
                return 1 << e
        if isinstance(v, BP):
            return self.addr_of(st, v)
        if isinstance(v, Agg) and len([x for x in v.f if x is not None]) == 1 and len(v.f) == 1:
            return self.num(st, v.f[0])
        raise Undecided("number from %r" % (v,))

    def addr_of(self, st, p):
        if isinstance(p, BP):
            off = p.off
            if isinstance(off, BF):
                off = self.concretize(st, off)
            if p.obj is None:
                return st.norm(off)
            return st.norm(add(st.address(p.obj), off))
        if isinstance(p, Ref):
            k = ("cell", p.cell, p.path)
            a = st.addr.get(k)
            if a is None:
                a = sym("addr_cell")
                d = dict(st.addr)
                d[k] = a
                st.addr = d
                st.assume(sub(a, 1))
                st.assume(sub((1 << 64) - 1, a))
            return a
        raise Undecided("address of %r" % (p,))

    def const(self, st, c):
        ti = c["t"]
        v = c["v"]
        t = self.T[ti]
        k = v[0]
        if k == "i":
            n = int(v[1])
            if t["k"] == "int":
                b = v[2] * 8
                return n - (1 << b) if n >> (b - 1) else n
            if t["k"] == "bool":
                return bool(n)
            if t["k"] == "float":
                return self.float_const(n, v[2])
            if t["k"] in ("ptr", "ref", "fnptr"):
                return BP(None, n)
            if t["k"] == "adt":
                return self.scalar_adt(st, ti, n, v[2])
            return n
        if k == "zst":
            return self.zst(ti)
        if k == "fn":
            return FnV(v[1])
        if k == "slice":
            return BP(self.const_obj(st, v[1]), 0, v[2])
        if k == "ptr":
            if t["k"] == "adt":
                return self.decode(st, {"b": v[2].to_bytes(self.P.ptr, "little").hex(), "r": [[0, v[1]]]}, 0, ti)
            if v[1][0] == "fn":
                return FnV(v[1][1])
            return BP(self.const_obj(st, v[1]), v[2])
        if k == "ind":
            o = self.const_obj(st, v[1])
            return self.decode(st, st.objs[o].data, v[2], ti)
        if k == "gen" and t["k"] == "ref" and self.T[t["e"]]["k"] == "closure" and not self.T[t["e"]]["up"]:
            # promoted reference to a closure that captures nothing, of generic type
            cell = ("promoted", t["e"])
            st.mem[cell] = self.zst(t["e"])
            return Ref(cell)
        raise Undecided("constant " + str(v)[:60])

    def scalar_adt(self, st, ti, n, size):
        t = self.T[ti]
        if t["enum"]:
            if all(not x["f"] for x in t["v"]):
                for i, x in enumerate(t["v"]):
                    if (int(x["d"]) & ((1 << (8 * size)) - 1)) == n:
                        return Agg(i, ())
            return self.decode(st, {"b": n.to_bytes(size, "little").hex(), "r": []}, 0, ti)
        fs = t["v"][0]["f"]
        out = []
        for f in fs:
            ft = self.T[f[1]]
            if ft.get("size") == 0:
                out.append(self.zst(f[1]))
            elif ft["k"] == "adt":
                out.append(self.scalar_adt(st, f[1], n, size))
            elif ft["k"] in ("ptr", "ref"):
                out.append(BP(None, n))
            elif ft["k"] == "int":
                out.append(n - (1 << (8 * size)) if n >> (8 * size - 1) else n)
            else:
                out.append(n)
        return Agg(0, tuple(out))

    def float_const(self, bits, n):
        import struct
        x = struct.unpack("<f" if n == 4 else "<d", bits.to_bytes(n, "little"))[0]
        if x != x:
            c = "nan"
        elif x == float("inf"):
            c = "pinf"
        elif x == float("-inf"):
            c = "ninf"
        elif x == 0:
            c = "fzero"
        else:
            c = "fpos" if x > 0 else "fneg"
        return Flt(("fconst", repr(x)), ("const", c, x))

    def operand(self, st, o):
        k = o[0]
        if k in ("c", "m"):
            loc, ti, _ = self.place(st, o[1])
            return self.copied(st, self.load(st, loc, ti))
        if k == "k":
            return self.const(st, o[1])
        if k == "rt":
            return False
        raise Undecided("operand " + str(k))

    def operand_ty(self, st, o):
        if o[0] in ("c", "m"):
            fr = st.frame
            ti = self.F[fr.fn]["body"]["locals"][o[1][0]]
            for p in o[1][1]:
                if p[0] == "*":
                    ti = self.T[ti]["e"]
                elif p[0] == "f":
                    ti = p[2]
                elif p[0] in ("i", "ci"):
                    ti = self.T[ti]["e"]
            return ti
        if o[0] == "k":
            return o[1]["t"]
        return None

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, r, ti):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k in ("ref", "raw"):
            loc, pti, meta = self.place(st, r[2])
            if loc[0] == "c":
                oid = self.spill(st, loc, pti) if self.T[pti].get("size") else None
                if oid is not None:
                    return BP(oid, 0, None)
                return Ref(loc[1], loc[2], meta)
            t = self.T[pti]
            if t["k"] not in ("str", "slice", "dyn") and t.get("sized", True):
                meta = None
                if k == "ref" and loc[1] is not None and isinstance(loc[2], (int, Lin)) and t.get("size") and r[2][1] and r[2][1][0][0] == "*" \
                        and self.T[self.F[st.frame.fn]["body"]["locals"][r[2][0]]]["k"] == "ptr":
                    # a reference must point at a whole value
                    self.check_access(st, loc[1], loc[2], t["size"], False, "reference to a " + t["s"])
            return BP(loc[1], loc[2], meta)
        if k == "bin":
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            ot = self.operand_ty(st, r[2])
            return self.binop(st, r[1], a, b, ot)
        if k == "un":
            a = self.operand(st, r[2])
            ot = self.operand_ty(st, r[2])
            if r[1] == "Not":
                t = self.T[ot]
                if t["k"] == "bool":
                    if isinstance(a, bool):
                        return not a
                    return ("not", a if not isinstance(a, Opq) else ("opq", a.id, False))
                if isinstance(a, Word):
                    return Word(a.obj, a.off, a.n, ("not", a.e))
                a = self.num(st, a)
                if t["k"] == "int":
                    return sub(-1, a)
                return sub((1 << (t["size"] * 8)) - 1, a)
            if r[1] == "PtrMetadata":
                if isinstance(a, (BP, Ref)):
                    if a.meta is None:
                        return UNIT
                    return a.meta
                raise Undecided("metadata of %r" % (a,))
            if r[1] == "Neg":
                if isinstance(a, Flt):
                    return Flt(a.id, ("neg", a.fn))
                t = self.T[ot]
                return self.wrap(st, sub(0, self.num(st, a)), ot)
            raise Undecided("unary " + r[1])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), self.operand_ty(st, r[2]), r[3])
        if k == "disc":
            loc, pti, _ = self.place(st, r[1])
            v = self.load(st, loc, pti)
            return self.discr(st, v, pti)
        if k == "agg":
            kind = r[1]
            vals = [self.operand(st, o) for o in r[2]]
            if kind[0] == "adt":
                if kind[3] is not None:
                    fs = [None] * len(self.fields_of(kind[1], kind[2]))
                    fs[kind[3]] = vals[0]
                    return Agg(kind[2], tuple(fs))
                return Agg(kind[2], tuple(vals))
            if kind[0] in ("tuple", "closure", "array"):
                return Agg(0, tuple(vals))
            if kind[0] == "rawptr":
                p, m = vals
                if isinstance(m, Agg):
                    m = None
                if isinstance(p, BP):
                    return BP(p.obj, p.off, None if m is None else self.num(st, m))
                if isinstance(p, Ref):
                    return Ref(p.cell, p.path, m)
            raise Undecided("aggregate " + str(kind[0]))
        if k == "rep":
            v = self.operand(st, r[1])
            if r[2] is None or int(r[2]) > 4096:
                raise Undecided("repeat")
            return Agg(0, (v,) * int(r[2]))
        raise Undecided("rvalue " + str(k))

    def discr(self, st, v, ti):
        t = self.T[ti]
        if isinstance(v, Agg):
            if t["k"] == "adt" and t["enum"]:
                return int(t["v"][v.v]["d"])
            return 0
        if isinstance(v, Opq):
            t = self.T[v.ty]
            if t["k"] != "adt" or not t["enum"]:
                raise Undecided("discriminant of " + t["s"])
            k = st.variant.get(v.id)
            if k is None:
                id = v.id

                def setv(i):
                    def g(s):
                        d = dict(s.variant)
                        d[id] = i
                        s.variant = d
                        return True
                    return g
                raise Fork([setv(i) for i in range(len(t["v"]))])
            return int(t["v"][k]["d"])
        if type(v) is int:
            return v
        raise Undecided("discriminant of %r" % (v,))

    def wrap(self, st, r, ti):
        """r reduced into the range of type ti (two's complement), forking when needed"""
        r = st.norm(r)
        lo, hi = self.range(ti)
        m = hi - lo + 1
        if type(r) is int:
            return (r - lo) % m + lo
        for _ in range(4):
            if not self.decide(st, ("ge", sub(r, lo))):
                r = st.norm(add(r, m))
            elif not self.decide(st, ("ge", sub(hi, r))):
                r = st.norm(sub(r, m))
            else:
                return r
        raise Undecided("wrapping")

    def bool_of(self, v):
        if isinstance(v, Opq):
            return ("opq", v.id, False)
        return v

    def binop(self, st, op, a, b, ti):
        t = self.T[ti]
        tk = t["k"]
        if op == "Offset":
            return self.ptr_offset(st, a, b, ti)
        if tk == "bool":
            x = self.decide(st, self.bool_of(a))
            if op == "BitAnd":
                return self.bool_of(b) if x else False
            if op == "BitOr":
                return True if x else self.bool_of(b)
            y = self.decide(st, self.bool_of(b))
            if op in ("BitXor", "Ne"):
                return x != y
            if op == "Eq":
                return x == y
            if op == "Lt":
                return x < y
            if op == "Gt":
                return x > y
            if op == "Le":
                return x <= y
            if op == "Ge":
                return x >= y
            raise Undecided("bool op " + op)
        if tk == "float":
            return self.float_bin(st, op, a, b, self.T[ti]["s"])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.compare(st, op, a, b)
        base = op
        mode = ""
        for suf in ("WithOverflow", "Unchecked"):
            if op.endswith(suf):
                base = op[:-len(suf)]
                mode = suf
        if isinstance(a, BF) or isinstance(b, BF):
            r = self.bf_bin(st, base, mode, a, b, ti)
            if r is not None:
                return r
        if isinstance(a, (Mask, Word, Pow2)) or isinstance(b, (Mask, Word, Pow2)):
            r = self.special_bin(st, base, mode, a, b, ti)
            if r is not None:
                return r
        a = self.num(st, a)
        b = self.num(st, b)
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                r = add(a, b)
            elif base == "Sub":
                r = sub(a, b)
            else:
                if type(a) is int:
                    r = scale(b, a)
                elif type(b) is int:
                    r = scale(a, b)
                else:
                    raise Undecided("product of unknowns")
            if mode == "WithOverflow":
                w = self.wrap(st, r, ti)
                ov = not (type(w) is int and type(r) is int and w == r or st.eq(w, r))
                return Agg(0, (w, ov))
            if mode == "Unchecked":
                lo, hi = self.range(ti)
                self.need(st, sub(r, lo), "unchecked-overflow", "unchecked arithmetic overflows")
                self.need(st, sub(hi, r), "unchecked-overflow", "unchecked arithmetic overflows")
                return st.norm(r)
            return self.wrap(st, r, ti)
        a, b = st.norm(a), st.norm(b)
        lo, hi = self.range(ti)
        bits = t["size"] * 8
        if base in ("Shl", "Shr"):
            if type(b) is not int:
                if base == "Shl" and type(a) is int and a == 1:
                    return Pow2(b, bits)
                raise Undecided("shift by unknown amount")
            b &= bits - 1
            if base == "Shl":
                return self.wrap_mod(st, scale(a, 1 << b), ti)
            if type(a) is int:
                return a >> b
            if lo < 0:
                raise Undecided("signed shift")
            return st.divmod(a, 1 << b)[0]
        if type(a) is int and type(b) is int:
            if base == "BitAnd":
                return a & b
            if base == "BitOr":
                return a | b
            if base == "BitXor":
                return a ^ b
            if base == "Div":
                q = abs(a) // abs(b) if b else 0
                return -q if (a < 0) != (b < 0) else q
            if base == "Rem":
                q = abs(a) % abs(b) if b else 0
                return -q if a < 0 else q
        if lo >= 0:
            if base in ("Div", "Rem") and type(b) is int and b > 0:
                q, r = st.divmod(a, b)
                return q if base == "Div" else r
            if base == "BitAnd":
                if type(a) is int:
                    a, b = b, a
                if type(b) is int:
                    if b == 0:
                        return 0
                    if b == hi:
                        return a
                    if b & (b + 1) == 0:
                        return st.divmod(a, b + 1)[1]
                    inv = hi & ~b
                    if inv & (inv + 1) == 0:
                        return st.norm(sub(a, st.divmod(a, inv + 1)[1]))
            if base == "BitOr" and type(b) is int and b == 0:
                return a
            if base == "BitOr" and type(a) is int and a == 0:
                return b
            if base == "BitXor" and type(b) is int and b == 0:
                return a
        # unknown but bounded result
        st.approx = True
        return st.fresh("x", lo, hi)

    def wrap_mod(self, st, r, ti):
        return self.wrap(st, r, ti)

    def bf_bin(self, st, base, mode, a, b, ti):
        lo, hi = self.range(ti)
        bits = self.T[ti]["size"] * 8
        if isinstance(a, BF) and isinstance(b, BF):
            if a.obj == b.obj and st.eq(a.off, b.off):
                ta, tb, o = a.tab, b.tab, a
            else:
                return self.binop(st, base + mode, self.concretize(st, a), b, ti)
        elif isinstance(a, BF):
            if type(b) is not int:
                if isinstance(b, Lin) and type(st.norm(b)) is int:
                    b = st.norm(b)
                else:
                    return self.binop(st, base + mode, self.concretize(st, a), b, ti)
            ta, tb, o = a.tab, (b,) * 256, a
        else:
            if type(a) is not int:
                if isinstance(a, Lin) and type(st.norm(a)) is int:
                    a = st.norm(a)
                else:
                    return self.binop(st, base + mode, a, self.concretize(st, b), ti)
            ta, tb, o = (a,) * 256, b.tab, b
        f = {
            "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y,
            "BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y,
            "Shl": lambda x, y: x << (y & (bits - 1)), "Shr": lambda x, y: x >> (y & (bits - 1)),
            "Div": lambda x, y: x // y if y else 0, "Rem": lambda x, y: x % y if y else 0,
        }.get(base)
        if f is None:
            raise Undecided("byte op " + base)
        raw = tuple(f(x, y) for x, y in zip(ta, tb))
        m = hi - lo + 1
        wr = tuple((x - lo) % m + lo for x in raw)
        if mode == "WithOverflow":
            ov = tuple(x != y for x, y in zip(raw, wr))
            v = self.bf(st, o.obj, o.off, wr)
            c = self.bf(st, o.obj, o.off, ov)
            return Agg(0, (v, c if isinstance(c, bool) else ("bf", c)))
        return self.bf(st, o.obj, o.off, wr)

    def special_bin(self, st, base, mode, a, b, ti):
        if isinstance(a, Pow2) and not isinstance(b, Mask):
            e = st.norm(a.e)
            if type(e) is int:
                return self.binop(st, base + mode, 1 << e, b, ti)
        if isinstance(b, Pow2) and not isinstance(a, Mask):
            e = st.norm(b.e)
            if type(e) is int:
                return self.binop(st, base + mode, a, 1 << e, ti)
        if isinstance(b, Mask) and not isinstance(a, Mask) and base in ("BitAnd", "BitXor", "BitOr"):
            a, b = b, a
        if isinstance(a, Mask):
            full = (1 << len(a.sets)) - 1
            if base == "Shr" and isinstance(b, (int, Lin, BF)):
                n = self.num(st, b)
                if st.norm(a.lo) == 0:
                    # a shift by >= width would be masked by the hardware; require it in range
                    return Mask(a.obj, a.off, a.sets, st.norm(add(a.sh, n)), 0)
            if base == "BitXor":
                e = None
                if isinstance(b, Pow2):
                    e = b.e
                elif type(b) is int and b and b & (b - 1) == 0:
                    e = b.bit_length() - 1
                if e is not None:
                    r = self.mask_clear_lowest(st, a, e)
                    if r is not None:
                        return r
            if base == "BitAnd":
                # m & (m-1): b is Mask minus one
                if isinstance(b, MaskDec) and b.m == a:
                    if self.mask_zero(st, a):
                        return 0
                    t = self.mask_tz(st, a, len(a.sets))
                    r = self.mask_clear_lowest(st, a, t)
                    if r is not None:
                        return r
                if isinstance(b, NotPow2):
                    r = self.mask_clear_lowest(st, a, b.e)
                    if r is not None:
                        return r
                if type(b) is int and (b & full) == full:
                    return a
                if type(b) is int:
                    inv = ~b & full
                    if inv and inv & (inv - 1) == 0:
                        r = self.mask_clear_lowest(st, a, inv.bit_length() - 1)
                        if r is not None:
                            return r
                    if type(a.sh) is int:
                        keep = b & (full >> a.sh)
                        if keep == 0:
                            return 0
                        if keep & (keep + 1) == 0 and type(a.lo) is int:
                            # the low bits only
                            k = keep.bit_length()
                            return Mask(a.obj, a.off, a.sets[:a.sh + k], a.sh, a.lo) if a.lo < k else 0
                        low = (keep & -keep).bit_length() - 1
                        if keep == (full >> a.sh) & ~((1 << low) - 1) and a.lo == 0:
                            return Mask(a.obj, a.off, a.sets, a.sh, low)
            if base == "Sub" and b == 1:
                if mode == "WithOverflow":
                    z = self.mask_zero(st, a)
                    if z:
                        return Agg(0, ((1 << (self.T[ti]["size"] * 8)) - 1, True))
                    return Agg(0, (MaskDec(a), False))
                return MaskDec(a)
            if base == "BitOr" and isinstance(b, Mask) and a.obj == b.obj and a.sets and len(a.sets) == len(b.sets) \
                    and st.eq(a.off, b.off) and a.sh == b.sh and a.lo == b.lo == 0:
                return Mask(a.obj, a.off, tuple(x | y for x, y in zip(a.sets, b.sets)), a.sh, 0)
            if base == "BitAnd" and isinstance(b, Mask) and a.obj == b.obj and len(a.sets) == len(b.sets) \
                    and st.eq(a.off, b.off) and a.sh == b.sh and a.lo == b.lo == 0:
                return Mask(a.obj, a.off, tuple(x & y for x, y in zip(a.sets, b.sets)), a.sh, 0)
            # fall back to the concrete value
            return self.binop(st, base + mode, self.mask_int(st, a),
                              self.mask_int(st, b) if isinstance(b, Mask) else b, ti)
        if isinstance(a, Word) or isinstance(b, Word):
            w = a if isinstance(a, Word) else b
            n = w.n

            def ex(v):
                if isinstance(v, Word):
                    if v.obj != w.obj or v.n != n or not st.eq(v.off, w.off):
                        raise Undecided("words from different places")
                    return v.e
                v = self.num(st, v)
                if type(v) is not int:
                    raise Undecided("word with unknown")
                return ("k", tuple((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")))
            m = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor", "Add": "add", "Sub": "sub"}.get(base)
            if m and mode != "WithOverflow":
                return Word(w.obj, w.off, n, (m, ex(a), ex(b)))
            raise Undecided("word op " + base + mode)
        if isinstance(a, Pow2) or isinstance(b, Pow2):
            raise Undecided("arithmetic on 1<<x")
        return None

    def compare(self, st, op, a, b):
        neg = {"Ne": "Eq", "Ge": "Lt", "Le": "Gt"}
        if op in ("Ne", "Ge", "Le"):
            r = self.compare(st, neg[op], a, b)
            if isinstance(r, bool):
                return not r
            return ("not", r)
        if isinstance(a, FnV) and isinstance(b, FnV) and op == "Eq":
            return a.fn == b.fn
        if isinstance(a, (BP, Ref)) or isinstance(b, (BP, Ref)):
            if isinstance(a, Ref) and isinstance(b, Ref) and op == "Eq" and a.cell == b.cell and a.path == b.path:
                return True
            if isinstance(a, BP) and isinstance(b, BP) and a.obj == b.obj and a.obj is not None:
                x, y = a.off, b.off
                if isinstance(x, BF):
                    x = self.concretize(st, x)
                if isinstance(y, BF):
                    y = self.concretize(st, y)
            else:
                x = self.addr_of(st, a) if isinstance(a, (BP, Ref)) else self.num(st, a)
                y = self.addr_of(st, b) if isinstance(b, (BP, Ref)) else self.num(st, b)
            return self.cmp_lin(st, op, x, y)
        if isinstance(a, BF) or isinstance(b, BF):
            if isinstance(a, BF) and isinstance(b, BF) and a.obj == b.obj and st.eq(a.off, b.off):
                ta, tb, o = a.tab, b.tab, a
            elif isinstance(a, BF) and type(b) is int:
                ta, tb, o = a.tab, (b,) * 256, a
            elif isinstance(b, BF) and type(a) is int:
                ta, tb, o = (a,) * 256, b.tab, b
            else:
                ta = None
            if ta is not None:
                f = {"Eq": lambda x, y: x == y, "Lt": lambda x, y: x < y, "Gt": lambda x, y: x > y}[op]
                r = self.bf(st, o.obj, o.off, tuple(f(x, y) for x, y in zip(ta, tb)))
                return r if isinstance(r, bool) else ("bf", r)
        if isinstance(a, Mask) or isinstance(b, Mask):
            if isinstance(b, Mask):
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt"}.get(op, op)
            if b == 0 and op == "Eq":
                return ("mz", a)
            if b == 0 and op == "Gt":
                return ("not", ("mz", a))
            if b == 0 and op == "Lt":
                return False
        if isinstance(a, Word) or isinstance(b, Word):
            if isinstance(b, Word):
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt"}.get(op, op)
            if isinstance(a, Word) and b == 0:
                if op == "Eq":
                    return ("wz", a)
                if op == "Gt":
                    return ("not", ("wz", a))
                return False
            if isinstance(a, Word) and op == "Eq" and type(b) is int:
                k = ("k", tuple(b.to_bytes(a.n, "little")))
                return ("wz", Word(a.obj, a.off, a.n, ("xor", a.e, k)))
            raise Undecided("word comparison")
        if isinstance(a, Opq) or isinstance(b, Opq):
            raise Undecided("comparison of opaque values")
        return self.cmp_lin(st, op, self.num(st, a), self.num(st, b))

    def cmp_lin(self, st, op, x, y):
        if op == "Eq":
            e = st.norm(sub(x, y))
            if type(e) is int:
                return e == 0
            return ("eq", e)
        e = sub(sub(y, x), 1) if op == "Lt" else sub(sub(x, y), 1)
        if op == "Cmp":
            raise Undecided("three-way comparison")
        e = st.norm(e)
        if type(e) is int:
            return e >= 0
        return ("ge", e)

    def fcls(self, f, c):
        return float_kind(self.fval(f, c))

    def float_bin(self, st, op, a, b, ty):
        if not isinstance(a, Flt) or not isinstance(b, Flt):
            raise Undecided("float op")
        ka = isinstance(a.fn, tuple) and a.fn[0] == "const"
        kb = isinstance(b.fn, tuple) and b.fn[0] == "const"
        if not ka and not kb and a.id != b.id:
            raise Undecided("comparison of two floats" if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") else "float arithmetic")
        fid = b.id if ka else a.id
        if op in ("Add", "Sub", "Mul", "Div", "Rem"):
            r = Flt(fid, ("bin", op, ty, a.fn, b.fn))
            if ka and kb:
                x = self.fval(r, "=0.0")
                if x is None:
                    raise Undecided("float arithmetic")
                return Flt(("fconst", repr(x)), ("const", float_kind(x), x))
            return r
        if op not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            raise Undecided("float arithmetic")
        RANK = {"ninf": 0, "fneg": 1, "fzero": 2, "fpos": 3, "pinf": 4}

        def p(c):
            x, y = self.fval(a, c), self.fval(b, c)
            kx, ky = float_kind(x), float_kind(y)
            if kx == "nan" or ky == "nan":
                return op == "Ne"
            if kx is None or ky is None:
                return None
            rx, ry = RANK[kx], RANK[ky]
            if rx == ry and (isinstance(x, str) or isinstance(y, str)):
                if a != b:
                    return None
            elif not isinstance(x, str) and not isinstance(y, str):
                rx, ry = x, y
            return {"Lt": rx < ry, "Le": rx <= ry, "Gt": rx > ry, "Ge": rx >= ry, "Eq": rx == ry, "Ne": rx != ry}[op]
        if ka and kb:
            return p("=0.0")
        return ("fl", fid, p, (op, a.fn, b.fn))

    def ptr_offset(self, st, p, d, pti, scale_by=None):
        """ptr::offset: d counts elements"""
        e = self.T[self.T[pti]["e"]]
        sz = e.get("size")
        if sz is None:
            raise Undecided("offset of unsized")
        if isinstance(p, Ref):
            n = self.as_const(st, d) if not isinstance(d, Lin) else self.num(st, d)
            if type(n) is int and n == 0:
                return p
            raise Undecided("arithmetic on a cell pointer")
        if not isinstance(p, BP):
            raise Undecided("offset of %r" % (p,))
        if isinstance(d, BF) and type(p.off) is int and p.obj is not None and st.objs[p.obj].kind == "const":
            return BP(p.obj, self.off_add(st, p.off, d, sz), p.meta)
        n = scale(self.num(st, d), sz)
        off = p.off
        if isinstance(off, BF):
            off = self.concretize(st, off)
        r = st.norm(add(off, n))
        if p.obj is None:
            self.count("ptr-arith")
            if not st.eq(n, 0):
                if not self.decide(st, ("eq", n)):
                    self.violate(st, "ptr-arith", "offset of a pointer without allocation")
                    raise Dead()
            return BP(None, off, p.meta)
        o = st.objs[p.obj]
        self.need(st, r, "ptr-arith", "pointer moved before the start of its object")
        self.need(st, sub(o.size, r), "ptr-arith", "pointer moved past the end of its object")
        return BP(p.obj, r, p.meta)

    def cast(self, st, k, v, fi, ti):
        ft, t = self.T[fi], self.T[ti]
        if k == "IntToInt":
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, tuple) or isinstance(v, Opq):
                return int(self.decide(st, self.bool_of(v)))
            if isinstance(v, BF):
                lo, hi = self.range(ti)
                m = hi - lo + 1
                return self.bf(st, v.obj, v.off, tuple((int(x) - lo) % m + lo for x in v.tab))
            if isinstance(v, Mask):
                if t["size"] * 8 >= len(v.sets):
                    return v
                v = self.mask_int(st, v)
            if isinstance(v, Word):
                if t["size"] == v.n:
                    return v
                raise Undecided("word truncation")
            if isinstance(v, (Pow2, MaskDec)):
                return v
            if isinstance(v, Agg):  # field-less enum to int
                return self.discr(st, v, fi)
            return self.wrap(st, self.num(st, v), ti)
        if k in ("PtrToPtr", "FnPtrToPtr") or k.startswith("Coerce:MutToConst"):
            if isinstance(v, (BP, Ref)) and v.meta is not None and t["k"] in ("ptr", "ref"):
                e = self.T[t["e"]]
                if e["k"] not in ("str", "slice", "dyn") and e.get("sized", True):
                    if isinstance(v, Ref):
                        return Ref(v.cell, v.path, None)
                    return BP(v.obj, v.off, None)
            return v
        if k.startswith("Coerce:ReifyFnPointer") or k.startswith("Coerce:UnsafeFnPointer"):
            return v
        if k.startswith("Coerce:ClosureFnPointer"):
            return v
        if k.startswith("Coerce:Unsize"):
            src = ft["e"] if ft["k"] in ("ref", "ptr") else None
            if src is not None and t["k"] in ("ref", "ptr"):
                e = self.T[t["e"]]
                s = self.T[src]
                if e["k"] == "slice" and s["k"] == "array":
                    n = s["n"]
                    if isinstance(v, Ref):
                        return Ref(v.cell, v.path, n)
                    if isinstance(v, BP):
                        return BP(v.obj, v.off, n)
                if e["k"] == "dyn":
                    if isinstance(v, Ref):
                        return Ref(v.cell, v.path, None, src)
                    return v
            raise Undecided("unsize to " + t["s"])
        if k in ("PointerExposeProvenance",) or k == "PointerExposeAddress":
            return self.addr_of(st, v) if not isinstance(v, FnV) else v
        if k.startswith("PointerWithExposedProvenance") or k == "PointerFromExposedAddress":
            if isinstance(v, (int, Lin)):
                return BP(None, st.norm(v))
            return v
        if k in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(st, v, fi, ti)
        if k == "FloatToFloat":
            if isinstance(v, Flt):
                if isinstance(v.fn, tuple) and v.fn[0] == "const":
                    x = f32r(v.fn[2]) if t["s"] == "f32" else v.fn[2]
                    return Flt(("fconst", repr(x)), ("const", float_kind(x), x))
                return Flt(v.id, ("as", t["s"], v.fn))
        if k == "FloatToInt" and isinstance(v, Flt):
            return self.float_int(st, v, "f2i", ti)
        if k == "IntToFloat":
            n = self.num(st, v)
            if type(n) is int:
                x = f32r(float(n)) if t["s"] == "f32" else float(n)
                return Flt(("fconst", repr(x)), ("const", float_kind(x), x))
            for key, (s, w, g) in self.fder.items():
                if key[0] == "f2i" and st.norm(s) == n:
                    return Flt(w.id, ("i2f", t["s"], key[3], w.fn))
        if k == "Subtype":
            return v
        raise Undecided("cast " + k)

    def transmute(self, st, v, fi, ti):
        ft, t = self.T[fi], self.T[ti]
        if isinstance(v, VecV) or isinstance(v, Opq) and False:
            return v
        if t["k"] in ("uint", "int") and isinstance(v, (BP, Ref)):
            return self.addr_of(st, v)
        if t["k"] in ("uint", "int") and isinstance(v, Flt):
            return self.float_int(st, v, "bits", ti)
        if t["k"] in ("uint", "int") and isinstance(v, Opq) and ft["k"] == "adt":
            return self.opq(st, ("as", v.id, t["s"]), ti)
        if t["k"] in ("uint", "int") and isinstance(v, Agg):
            if ft["k"] == "array":
                r = 0
                for i, x in enumerate(v.f):
                    if isinstance(x, (BF,)):
                        raise Undecided("transmute of bytes")
                    r |= self.num(st, x) << (8 * i)
                return r
            return self.unwrap_scalar(st, v, fi)
        if t["k"] in ("ptr", "ref", "fnptr") and isinstance(v, Agg):
            return self.unwrap_scalar(st, v, fi)
        if t["k"] in ("ptr", "ref") and isinstance(v, (int, Lin)):
            return BP(None, v)
        if t["k"] == "adt" and not t["enum"] and not isinstance(v, (Agg, Opq)) and not t.get("union"):
            return self.wrap_scalar(ti, v)
        if t["k"] == "adt" and t["enum"] and isinstance(v, int) and all(not x["f"] for x in t["v"]):
            n = t["size"]
            for i, x in enumerate(t["v"]):
                if (int(x["d"]) & ((1 << (8 * n)) - 1)) == v:
                    return Agg(i, ())
            raise Undecided("transmute to enum")
        if t["k"] == "bool" and type(v) is int:
            return bool(v)
        return v

    def unwrap_scalar(self, st, v, ti):
        t = self.T[ti]
        while isinstance(v, Agg):
            if t["k"] == "adt" and t["enum"] and not v.f:
                return int(t["v"][v.v]["d"])
            fs = self.fields_of(ti, v.v)
            nz = [i for i, f in enumerate(fs) if self.T[f].get("size") != 0]
            if len(nz) != 1:
                raise Undecided("transmute of " + t["s"])
            v = v.f[nz[0]]
            ti = fs[nz[0]]
            t = self.T[ti]
        return v

    def wrap_scalar(self, ti, v):
        t = self.T[ti]
        if t["k"] != "adt" or t["enum"] or self.is_vec(ti):
            return v
        fs = t["v"][0]["f"]
        out = []
        for f in fs:
            if self.T[f[1]].get("size") == 0:
                out.append(self.zst(f[1]))
            else:
                out.append(self.wrap_scalar(f[1], v))
        return Agg(0, tuple(out))

    # ---------------------------------------------------------------- machine
    def push(self, st, fi, args, dest, ret):
        f = self.F[fi]
        b = f["body"]
        if b is None:
            raise Undecided("no body for " + f["path"])
        st.seq += 1
        up = st.frame
        k = (None if up is None else up.id, st.bb, fi)
        fid = self.fids.get(k)
        if fid is None:
            fid = self.fids[k] = len(self.fids) + 1
        fr = Frame(fi, fid, dest, ret, up)
        if fr.depth > 60:
            raise Undecided("call depth")
        if b["argc"] != len(args):
            # rust-call ABI: last argument is a tuple
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == b["argc"]:
                args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Undecided("arity of " + f["path"])
        self.visited.add(fi)
        st.frame = fr
        st.bb = 0
        st.ix = 0
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a

    def step(self, st):
        fr = st.frame
        blk = self.F[fr.fn]["body"]["blocks"][st.bb]
        ss = blk["s"]
        while st.ix < len(ss):
            s = ss[st.ix]
            k = s[0]
            if k == "=":
                break
            if k == "sx":
                v = st.mem.pop((fr.id, s[1]), None)
                if isinstance(v, Agg) and v.v == "bytes":
                    o = v.f[0].obj
                    st.objs[o] = st.objs[o].with_(live=False)
                st.ix += 1
                continue
            if k == "sl":
                st.ix += 1
                continue
            break
        if st.ix < len(ss):
            s = ss[st.ix]
            k = s[0]
            if k == "=":
                loc, ti, _ = self.place(st, s[1])
                v = self.rvalue(st, s[2], ti)
                self.store(st, loc, v, ti)
            elif k == "sd":
                loc, ti, _ = self.place(st, s[1])
                t = self.T[ti]
                nf = len(t["v"][s[2]]["f"])
                cur = st.mem.get(loc[1]) if loc[0] == "c" and not loc[2] else None
                if isinstance(cur, Agg) and len(cur.f) == nf:
                    self.store(st, loc, Agg(s[2], cur.f), ti)
                else:
                    self.store(st, loc, Agg(s[2], (None,) * nf), ti)
            elif k == "assume":
                if not self.decide(st, self.bool_of(self.operand(st, s[1]))):
                    self.violate(st, "assume", "compiler assumption violated")
                    raise Dead()
            elif k == "cpy":
                src = self.operand(st, s[1])
                dst = self.operand(st, s[2])
                n = self.operand(st, s[3])
                pti = self.operand_ty(st, s[1])
                sz = self.T[self.T[pti]["e"]]["size"]
                self.copy_bytes(st, src, dst, scale(self.num(st, n), sz), "copy_nonoverlapping")
            st.ix += 1
            return None
        return self.term(st, blk["t"])

    def goto(self, st, bb):
        st.bb = bb
        st.ix = 0

    def term(self, st, t):
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
            return None
        if k == "switch":
            v = self.operand(st, t[1])
            self.switch(st, v, t[2], t[3], t[4])
            return None
        if k == "ret":
            fr = st.frame
            rti = self.F[fr.fn]["body"]["locals"][0]
            v = st.mem.get((fr.id, 0))
            if v is None:
                if self.T[rti].get("size") == 0:
                    v = self.zst(rti)
                else:
                    raise Undecided("return of uninitialised value")
            if fr.up is None:
                return Outcome("ret", st, v)
            for kk in [x for x in st.mem if x[0] == fr.id]:
                del st.mem[kk]
            st.frame = fr.up
            if fr.ret is None:
                raise Undecided("return from diverging call")
            if isinstance(fr.ret, tuple):
                # the caller's call is taken up again (a modelled callee that calls back several times)
                m = dict(st.meta)
                m[fr.ret[3]] = v
                st.meta = m
                st.bb, st.ix = fr.ret[1], fr.ret[2]
                return None
            loc, ti = fr.dest
            if loc is not None:
                self.store(st, loc, v, ti)
            self.goto(st, fr.ret)
            return None
        if k == "call":
            fv = self.operand(st, t[1])
            args = [self.operand(st, a) for a in t[2]]
            self.cur_argtys = [self.operand_ty(st, a) for a in t[2]]
            loc, ti, _ = self.place(st, t[3])
            if isinstance(fv, FnV):
                self.call(st, fv.fn, args, (loc, ti), t[4])
            else:
                r = self.call_ptr(st, fv, args, (loc, ti), t[4])
            return None
        if k == "drop":
            self.drop(st, t)
            return None
        if k == "assert":
            c = self.operand(st, t[1])
            if self.decide(st, self.bool_of(c)) == t[2]:
                self.goto(st, t[4])
                return None
            raise Diverge("panic", "assertion failed: " + t[3].split("(")[0])
        if k == "unreachable":
            return Outcome("unreachable", st, span=self.span(st))
        if k == "resume" or k == "abort":
            return Outcome("resume", st)
        raise Undecided("terminator " + k)

    def switch(self, st, v, ti, targets, other):
        if isinstance(v, bool):
            v = int(v)
        elif isinstance(v, tuple) or (isinstance(v, Opq) and self.T[ti]["k"] == "bool"):
            v = int(self.decide(st, self.bool_of(v)))
        lo = 0
        if self.T[ti]["k"] == "int":
            b = self.T[ti]["size"] * 8
            targets = [(str(int(x) - (1 << b)) if int(x) >> (b - 1) else x, y) for x, y in targets]
        if isinstance(v, BF):
            m = st.byteset(v.obj, v.off)
            if m == 0:
                raise Dead()
            groups = {}
            tm = {int(x): y for x, y in targets}
            for i in bits_of(m):
                y = tm.get(int(v.tab[i]), other)
                groups[y] = groups.get(y, 0) | (1 << i)
            if len(groups) == 1:
                self.goto(st, next(iter(groups)))
                return
            raise Fork([(lambda mm: lambda s: s.refine_byte(v.obj, v.off, mm))(mm) for mm in groups.values()])
        if isinstance(v, Mask) and len(targets) == 1 and targets[0][0] == "0":
            self.goto(st, targets[0][1] if self.mask_zero(st, v) else other)
            return
        if isinstance(v, Word) and len(targets) == 1 and targets[0][0] == "0":
            self.goto(st, targets[0][1] if self.word_zero(st, v) else other)
            return
        v = self.num(st, v)
        for x, y in targets:
            if self.decide(st, ("eq", sub(v, int(x))) if not type(v) is int else v == int(x)):
                self.goto(st, y)
                return
        self.goto(st, other)

    def call_ptr(self, st, fv, args, dest, ret):
        if type(fv) is int and fv == 0:
            self.violate(st, "null-call", "a null pointer is called")
            raise Dead()
        raise Undecided("call through %r" % (fv,))

    def call(self, st, fi, args, dest, ret):
        f = self.F[fi]
        self.cur_call = (dest, ret)
        try:
            r = self.opaque(self, st, fi, args)
        except Goto:
            return
        if r is None:
            m = self.models.get(f["path"])
            if m is None:
                for pfx, mm in self.models.get("#prefix", ()):
                    if f["path"].startswith(pfx):
                        m = mm
                        break
            if m is None and f["kind"] == "intrinsic":
                m = INTRINSICS.get(f["name"])
                if m is None:
                    raise Undecided("intrinsic " + f["name"])
            if m is not None:
                try:
                    self.cur_call = (dest, ret)
                    r = m(self, st, f, args)
                except Goto:
                    return
                except Inline:
                    r = None
        if r is not None:
            if ret is None:
                raise Diverge("panic", f["path"])
            self.store(st, dest[0], r, dest[1])
            self.goto(st, ret)
            return
        if f.get("ctor"):
            # tuple constructor used as a function
            t = self.T[dest[1]]
            vi = 0
            for i, v in enumerate(t.get("v", [])):
                if v["n"] == f["ctor"].split("::")[-1]:
                    vi = i
            self.store(st, dest[0], Agg(vi, tuple(args)), dest[1])
            self.goto(st, ret)
            return
        if f.get("body") is None:
            if ret is None:
                raise Diverge("panic", f["path"])
            raise Undecided("call of " + f["path"])
        if "{closure" in f["name"] + f["path"].split("::")[-1] and len(args) == 2 == f["body"]["argc"] \
                and isinstance(args[1], Agg) and len(args[1].f) == 1:
            args = [args[0], args[1].f[0]]
        self.push(st, fi, args, dest, ret)

    def drop(self, st, t):
        _, pl, target, unwind, glue, ti, sp = t
        if glue is None:
            self.goto(st, target)
            return
        loc, pti, meta = self.place(st, pl)
        try:
            v = self.load(st, loc, pti)
        except Undecided:
            v = None
        if isinstance(v, StrV):
            self.free_str(st, v)
            self.goto(st, target)
            return
        if v is None or isinstance(v, Opq) or glue == "param":
            self.goto(st, target)
            return
        if isinstance(v, BP) and self.T[ti]["k"] == "adt" and self.T[ti]["name"] == "alloc::boxed::Box":
            if v.obj is not None:
                self.free(st, v, v.meta if v.meta is not None else None, None)
            self.goto(st, target)
            return
        if self.has_opaque_leaf(v) and self.T[ti]["k"] != "adt":
            self.goto(st, target)
            return
        f = self.F[glue]
        if f.get("body") is None:
            # no drop body available: recurse into fields for owned memory we know
            self.drop_value(st, v)
            self.goto(st, target)
            return
        if loc[0] != "c":
            raise Undecided("drop in byte memory")
        self.push(st, glue, [Ref(loc[1], loc[2], meta)], (None, None), target)

    def has_opaque_leaf(self, v):
        if isinstance(v, Agg):
            return any(self.has_opaque_leaf(x) for x in v.f if x is not None)
        return isinstance(v, Opq)

    def drop_value(self, st, v):
        if isinstance(v, StrV):
            self.free_str(st, v)
        elif isinstance(v, Agg):
            for x in v.f:
                if x is not None:
                    self.drop_value(st, x)

    def free_str(self, st, v):
        if v.obj is None or st.eq(v.cap, 0):
            return
        if not st.entails(sub(v.cap, 1)):
            if self.decide(st, ("ge", sub(0, v.cap))):
                return
        self.free(st, BP(v.obj, 0), v.cap, 1)

    def free(self, st, p, size, align):
        self.count("dealloc")
        if not isinstance(p, BP):
            raise Undecided("free of %r" % (p,))
        if p.obj is None:
            self.violate(st, "bad-free", "deallocation of a pointer that was never allocated")
            raise Dead()
        o = st.objs[p.obj]
        if o.kind != "heap":
            self.violate(st, "bad-free", "deallocation of %s memory" % o.kind)
            raise Dead()
        if not o.live:
            self.violate(st, "double-free", "memory freed twice")
            raise Dead()
        if not st.eq(p.off, 0):
            self.violate(st, "bad-free", "deallocation of an interior pointer")
            raise Dead()
        if size is not None and not st.eq(size, o.size):
            s2 = st.copy()
            self.violate(s2, "layout", "deallocation with a size other than the allocated one",
                         "%s vs %s" % (st.norm(size), st.norm(o.size)))
            raise Dead()
        if align is not None and align != o.align:
            self.violate(st, "layout", "deallocation with another alignment")
            raise Dead()
        st.objs[p.obj] = o.with_(live=False, ents=())

    # ---------------------------------------------------------------- driver loop
    def run(self, fi, args, st=None, stop=None):
        if st is None:
            st = State()
        st.frame = None
        self.push(st, fi, args, None, None)
        return self.explore([st])

    def explore(self, work):
        """run states until they produce outcomes.  States are taken deepest call first, so that all paths of a
        callee are back before its caller goes on; equal or subsumed states are dropped there."""
        outs = []
        seen = {}
        pool = {}
        for st in work:
            pool.setdefault(st.frame.depth, []).append((st, False))
        while pool:
            dep = max(pool)
            lst = pool[dep]
            st, parked = lst.pop()
            if not lst:
                del pool[dep]
            if parked and self.merge:
                if self.covered(seen, st):
                    continue
            while True:
                st.steps += 1
                self.total += 1
                if self.total > self.max_steps or (self.deadline and self.total % 256 == 0 and
                                                   time.time() > self.deadline):
                    outs.append(Outcome("undecided", st, msg="step limit", span=self.span(st)))
                    self.undec.append(("step limit", self.span(st), self.stack(st)[-1]))
                    return outs
                if self.widen and st.ix == 0 and st.bb in F.fninfo(self.P, st.frame.fn).heads:
                    try:
                        h = self.at_head(st)
                    except Undecided as u:
                        outs.append(Outcome("undecided", st, msg=str(u), span=self.span(st)))
                        self.undec.append((str(u), self.span(st), self.stack(st)[-1]))
                        return outs
                    if h is None:
                        break
                    st = h
                w = st.copy()
                try:
                    o = self.step(w)
                except Fork as f:
                    for alt in f.alts[::-1]:
                        s2 = st.copy()
                        if alt(s2) and s2.store.feasible():
                            pool.setdefault(s2.frame.depth, []).append((s2, False))
                    break
                except Dead:
                    break
                except Diverge as d:
                    k = (d.kind, d.msg, self.span(st))
                    c = self.divcount[k] = self.divcount.get(k, 0) + 1
                    if c <= self.keep_div or (d.kind == "panic" and self.on_panic):
                        o = Outcome(d.kind, w, msg=d.msg, span=self.span(st))
                        if d.kind == "panic" and self.on_panic:
                            self.on_panic(self, o)
                        if c <= self.keep_div:
                            outs.append(o)
                    break
                except Undecided as u:
                    if getattr(u, "event", None):
                        st = st.copy()
                        st.trace = st.trace + (u.event,)
                    outs.append(Outcome("undecided", st, msg=str(u), span=self.span(st)))
                    self.undec.append((str(u), self.span(st), self.stack(st)[-1]))
                    break
                if w.store.dead:
                    break
                if o is not None:
                    outs.append(o)
                    break
                d0 = st.frame.depth
                st = w
                if st.frame.depth < d0:
                    pool.setdefault(st.frame.depth, []).append((st, True))
                    break
            if len(outs) > self.max_outcomes:
                outs.append(Outcome("undecided", st, msg="too many paths", span=""))
                self.undec.append(("too many paths", "", ""))
                return outs
        return outs

    def covered(self, seen, st):
        """is a state at a return point subsumed by one already explored?"""
        F.prep(self.P, st, None)
        k = (st.frame.id, st.bb)
        l = seen.setdefault(k, [])
        for a in l:
            try:
                j, ch = F.combine(self.P, a, st, subsume_only=True)
            except F.Mismatch:
                continue
            if not ch:
                self.subsumed += 1
                return True
        l.append(st.copy())
        if len(l) > 60:
            l.pop(0)
        return False

    def at_head(self, st):
        """join with the invariant of this loop head; None when nothing new arrived"""
        if self.deadline and time.time() > self.deadline:
            raise Undecided("step limit")
        st = st.copy()
        F.prep(self.P, st, self.fobj)
        k = (st.frame.id, st.bb)
        l = self.loops.setdefault(k, [])
        for i, (inv, n) in enumerate(l):
            try:
                j, ch = F.combine(self.P, inv, st, widen=n, coefs=self.coefs)
            except F.Mismatch as m:
                continue
            self.joins += 1
            if not ch:
                self.subsumed += 1
                return None
            if n > 40:
                raise Undecided("no loop invariant found")
            F.prep(self.P, j, self.fobj)
            l[i] = (j, n + 1)
            return j.copy()
        if len(l) > 24:
            raise Undecided("too many loop shapes")
        l.append((st.copy(), 0))
        return st


class MaskDec:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, MaskDec) and self.m == o.m

    def __hash__(self):
        return hash(("md", self.m))


class NotPow2:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Inline(Exception):
    pass


from models import DEFAULT_MODELS, INTRINSICS  # noqa: E402
