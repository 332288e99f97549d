"""Abstract interpreter over the MIR dumped by the driver.

States are path-sensitive: integers are linear expressions over symbols with a store of linear facts, bytes of
input strings are value sets, SIMD/SWAR results are lane-wise functions of the input bytes, heap objects carry
a list of content segments.  Nothing of the analysed program is executed.  Anything the domains cannot
express raises Undecided; it never becomes a verdict.
"""
import sys
from lin import Lin, Store, add, scale, sub, sym, newsym, symname, mk, syms

ALL = (1 << 256) - 1
IDT = tuple(range(256))
SPECIAL = {34: b"&quot;", 38: b"&amp;", 39: b"&#39;", 60: b"&lt;", 62: b"&gt;"}
SPECSET = 0
for _b in SPECIAL:
    SPECSET |= 1 << _b


class Undecided(Exception):
    pass


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts  # list of functions state -> bool (False: infeasible)


class Dead(Exception):
    pass


class Agg:
    __slots__ = ("v", "f", "h")

    def __init__(self, v, f):
        self.v = v
        self.f = f
        self.h = None

    def __repr__(self):
        return "{%s:%s}" % (self.v, ",".join(map(repr, self.f)))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.v, self.f))
        return self.h


class Opq:
    """value of unknown content with an identity (a path of deterministic derivations)"""
    __slots__ = ("id", "ty")

    def __init__(self, id, ty):
        self.id = id
        self.ty = ty

    def __repr__(self):
        return "<%s>" % (self.id,)

    def __eq__(self, o):
        return isinstance(o, Opq) and self.id == o.id

    def __hash__(self):
        return hash(self.id)


class Ref:
    """pointer to a typed cell (a local or boxed value)"""
    __slots__ = ("cell", "path", "meta", "dyn")

    def __init__(self, cell, path=(), meta=None, dyn=None):
        self.cell = cell
        self.path = path
        self.meta = meta
        self.dyn = dyn

    def __repr__(self):
        return "&%s%s" % (self.cell, "".join(".%s" % (p,) for p in self.path))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path and self.meta == o.meta

    def __hash__(self):
        return hash((self.cell, self.path))


class BP:
    """pointer into a byte object; obj None means an address without provenance (offset is the address)"""
    __slots__ = ("obj", "off", "meta")

    def __init__(self, obj, off, meta=None):
        self.obj = obj
        self.off = off
        self.meta = meta

    def __repr__(self):
        return "*(%s+%s%s)" % (self.obj, self.off, "" if self.meta is None else ";" + str(self.meta))

    def __eq__(self, o):
        return isinstance(o, BP) and self.obj == o.obj and self.off == o.off and self.meta == o.meta

    def __hash__(self):
        return hash((self.obj, self.off))


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return "fn%d" % self.fn

    def __eq__(self, o):
        return isinstance(o, FnV) and self.fn == o.fn

    def __hash__(self):
        return hash(("FnV", self.fn))


class BF:
    """function of one input byte: table[b] for the byte at obj[off]"""
    __slots__ = ("obj", "off", "tab")

    def __init__(self, obj, off, tab):
        self.obj = obj
        self.off = off
        self.tab = tab

    def __repr__(self):
        return "BF(%s[%s])" % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, BF) and self.obj == o.obj and self.off == o.off and self.tab == o.tab

    def __hash__(self):
        return hash((self.obj, self.off, self.tab))


class VecV:
    """vector of bytes; lane i is tabs[i] applied to the byte at obj[off+i] (obj None: constant tables)"""
    __slots__ = ("obj", "off", "tabs")

    def __init__(self, obj, off, tabs):
        self.obj = obj
        self.off = off
        self.tabs = tabs

    def __eq__(self, o):
        return isinstance(o, VecV) and self.obj == o.obj and self.off == o.off and self.tabs == o.tabs

    def __hash__(self):
        return hash((self.obj, self.off, len(self.tabs)))


class Mask:
    """integer whose bit j says: byte at obj[off+sh+j] is in sets[sh+j]   (bits below lo are zero)"""
    __slots__ = ("obj", "off", "sets", "sh", "lo")

    def __init__(self, obj, off, sets, sh=0, lo=0):
        self.obj = obj
        self.off = off
        self.sets = sets
        self.sh = sh
        self.lo = lo

    def key(self):
        return (self.obj, self.off, self.sets, self.sh, self.lo)

    def __eq__(self, o):
        return isinstance(o, Mask) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Mask(%s+%s sh%s lo%s n%d)" % (self.obj, self.off, self.sh, self.lo, len(self.sets))


class Pow2:
    """1 << e with symbolic e"""
    __slots__ = ("e", "bits")

    def __init__(self, e, bits):
        self.e = e
        self.bits = bits

    def __eq__(self, o):
        return isinstance(o, Pow2) and self.e == o.e

    def __hash__(self):
        return hash(("p2", self.e))


class Word:
    """machine word computed bytewise (with carries) from the n bytes at obj[off..]"""
    __slots__ = ("obj", "off", "n", "e")

    def __init__(self, obj, off, n, e):
        self.obj = obj
        self.off = off
        self.n = n
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Word) and (self.obj, self.off, self.n, self.e) == (o.obj, o.off, o.n, o.e)

    def __hash__(self):
        return hash((self.obj, self.off, self.n, self.e))


class Flt:
    """a float: a term over one unknown float, whose classes a path narrows down"""
    __slots__ = ("id", "fn")

    def __init__(self, id, fn=None):
        self.id = id
        # None, ('const', cls, value), ('abs'|'neg', fn), ('as', ty, fn), ('i2f', ty, ity, fn) or ('bin', op, ty, fn, fn)
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, Flt) and self.id == o.id and self.fn == o.fn

    def __hash__(self):
        return hash((self.id, self.fn))

    def __repr__(self):
        return "Flt%s%s" % (self.id, self.fn or "")


# the classes of an unknown float: single values (exact in single and double precision), and all other negative and
# all other positive ones
FSAMPLES = ("=nan", "=-nan", "=inf", "=-inf", "=0.0", "=-0.0", "=1.0", "=-1.0", "=0.5", "=-3.0", "=7.0", "=10.0", "=100.0",
            "=255.0", "=256.0", "=-128.0", "=1000.0", "=123456.0", "=16777216.0", "=2147483648.0", "=-2147483648.0",
            "=4294967296.0", "=1099511627776.0", "=9007199254740992.0", "=9223372036854775808.0",
            "=-9223372036854775808.0", "=1267650600228229401496703205376.0", "=0.0009765625", "=-0.125", "=0.25", "=0.75",
            "=1.5", "=2.5", "=8.673617379884035e-19", "=7.888609052210118e-31")
FCLASSES = FSAMPLES + ("fneg", "fpos")


def float_kind(c):
    """the kind of a class or a value"""
    if isinstance(c, str):
        return c if c[0] != "=" else float_kind(float(c[1:]))
    if c is None:
        return None
    if c != c:
        return "nan"
    if c in (float("inf"), float("-inf")):
        return "pinf" if c > 0 else "ninf"
    return "fzero" if c == 0 else "fpos" if c > 0 else "fneg"


def f32r(x):
    """rounded to single precision"""
    import struct
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


class StrV:
    """an owned alloc string: heap object (or None when capacity is 0), length, capacity"""
    __slots__ = ("obj", "len", "cap")

    def __init__(self, obj, len, cap):
        self.obj = obj
        self.len = len
        self.cap = cap

    def __eq__(self, o):
        return isinstance(o, StrV) and (self.obj, self.len, self.cap) == (o.obj, o.len, o.cap)

    def __hash__(self):
        return hash((self.obj, self.len, self.cap))

    def __repr__(self):
        return "String(%s,%s,%s)" % (self.obj, self.len, self.cap)


class Obj:
    __slots__ = ("kind", "size", "live", "ents", "align", "data", "name", "byt")

    def __init__(self, kind, size, name, live=True, ents=(), align=1, data=None, byt=None):
        self.kind = kind  # heap in const static
        self.size = size
        self.name = name
        self.live = live
        self.ents = ents  # content segments of heap objects: (start, len, seg)
        self.align = align
        self.data = data  # const: index of alloc / static: its path
        self.byt = byt  # in: tuple of per-offset byte sets (partitioned inputs)

    def with_(self, **k):
        o = Obj(self.kind, self.size, self.name, self.live, self.ents, self.align, self.data, self.byt)
        for a, v in k.items():
            setattr(o, a, v)
        return o


class Frame:
    __slots__ = ("fn", "id", "dest", "ret", "up", "depth")

    def __init__(self, fn, id, dest, ret, up):
        self.fn = fn
        self.id = id
        self.dest = dest  # location in caller where the result goes
        self.ret = ret  # block to continue in the caller (None: diverges)
        self.up = up
        self.depth = 0 if up is None else up.depth + 1


class State:
    __slots__ = ("mem", "objs", "store", "bset", "clean", "truth", "frame", "bb", "ix", "trace", "seq", "addr",
                 "divs", "approx", "fcls", "meta", "steps", "mfirst", "variant", "notes", "inv")

    def __init__(self):
        self.mem = {}
        self.objs = {}
        self.store = Store()
        self.bset = {}
        self.clean = ()
        self.truth = {}
        self.frame = None
        self.bb = 0
        self.ix = 0
        self.trace = ()
        self.seq = 0
        self.addr = {}
        self.divs = {}
        self.approx = False
        self.fcls = {}
        self.meta = {}
        self.steps = 0
        self.mfirst = {}
        self.variant = {}
        self.notes = ()
        self.inv = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.objs = self.objs.copy()
        s.store = self.store.copy()
        s.bset = self.bset
        s.clean = self.clean
        s.truth = self.truth
        s.frame = self.frame
        s.bb = self.bb
        s.ix = self.ix
        s.trace = self.trace
        s.seq = self.seq
        s.addr = self.addr
        s.divs = self.divs
        s.approx = self.approx
        s.fcls = self.fcls
        s.meta = self.meta
        s.steps = self.steps
        s.mfirst = self.mfirst
        s.variant = self.variant
        s.notes = self.notes
        s.inv = self.inv
        return s

    # ---- facts -------------------------------------------------------------------------------
    def entails(self, e):
        return self.store.entails(e)

    def assume(self, e):
        return self.store.assume(e)

    def eq(self, a, b):
        return self.store.entails_eq(sub(a, b))

    def norm(self, e):
        return self.store.norm(e)

    def fresh(self, name, lo=None, hi=None):
        s = sym(name)
        if lo is not None:
            self.assume(sub(s, lo))
        if hi is not None:
            self.assume(sub(hi, s))
        return s

    def byteset(self, obj, off):
        o = self.objs[obj]
        off = self.norm(off)
        r = ALL
        if o.byt is not None and type(off) is int and 0 <= off < len(o.byt):
            r &= o.byt[off]
        b = self.bset.get((obj, off))
        if b is not None:
            r &= b
        else:
            for (ob, of), m in self.bset.items():
                if ob == obj and of != off and type(of) is not int and self.eq(of, off):
                    r &= m
        for ob, lo, hi, s in self.clean:
            if ob == obj and r & s:
                if self.entails(sub(off, lo)) and self.entails(sub(sub(hi, off), 1)):
                    r &= ~s
        return r

    def refine_byte(self, obj, off, mask):
        cur = self.byteset(obj, off)
        n = cur & mask
        if n == 0:
            return False
        b = dict(self.bset)
        b[(obj, self.norm(off))] = n
        self.bset = b
        return True

    def is_clean(self, obj, lo, hi, s=SPECSET):
        """are all bytes of obj[lo..hi) outside s?"""
        lo = self.norm(lo)
        hi = self.norm(hi)
        used = set()
        for _ in range(200):
            if self.entails(sub(lo, hi)):
                return True
            if type(lo) is int and type(hi) is int and self.objs[obj].byt is not None:
                for i in range(lo, hi):
                    if self.byteset(obj, i) & s:
                        return False
                return True
            prog = False
            for i, (ob, a, b, t) in enumerate(self.clean):
                if ob == obj and s & ~t == 0 and i not in used:
                    # covers lo ? (an empty rest of the interval is passed over)
                    if self.entails(sub(lo, a)) and self.entails(sub(b, lo)):
                        used.add(i)
                        lo = self.norm(b)
                        prog = True
                        break
            if not prog:
                m = self.bset.get((obj, lo))
                if m is not None and m & s == 0:
                    lo = add(lo, 1)
                    prog = True
                else:
                    for (ob, of), m in self.bset.items():
                        if ob == obj and m & s == 0 and self.eq(of, lo):
                            lo = add(lo, 1)
                            prog = True
                            break
            if not prog:
                return False
        return False

    def address(self, obj):
        a = self.addr.get(obj)
        if a is None:
            o = self.objs[obj]
            a = sym("addr_" + str(o.name))
            al = o.align
            self.assume(sub(a, al))
            self.assume(sub((1 << 63) - 1, add(a, o.size)) if o.kind != "in" else sub((1 << 64) - 1, add(a, o.size)))
            d = dict(self.addr)
            d[obj] = a
            self.addr = d
            if al > 1:
                q = sym("aq")
                self.store.assume_eq(sub(a, scale(q, al)))
        return a

    def divmod(self, e, m):
        """(q, r) with e = m*q + r, 0 <= r < m; e must be >= 0"""
        e = self.norm(e)
        if type(e) is int:
            return e // m, e % m
        if m == 1:
            return e, 0
        # split off divisible part
        d, r = {}, {}
        for s, v in e.t:
            if v % m == 0:
                d[s] = v // m
            else:
                q, w = divmod(v, m)
                r[s] = w
                if q:
                    d[s] = q
        cq, cr = divmod(e.c, m)
        base = mk(d, cq)
        if not r:
            return base, cr
        rest = mk(r, cr)
        if self.entails(rest) and self.entails(sub(m - 1, rest)):
            return base, rest
        k = (rest, m)
        x = self.divs.get(k)
        if x is None:
            q = sym("q")
            rr = sym("r")
            self.assume(rr)
            self.assume(sub(m - 1, rr))
            # rest = m*q + rr
            self.store.assume_eq(sub(rest, add(scale(q, m), rr)))
            x = (q, rr)
            dd = dict(self.divs)
            dd[k] = x
            self.divs = dd
        return self.norm(add(base, x[0])), self.norm(x[1])


def bits_of(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


class Program:
    def __init__(self, dump):
        self.d = dump
        self.types = dump["types"]
        self.fns = dump["fns"]
        self.allocs = dump["allocs"]
        self.statics = {s["path"]: s for s in dump["statics"] if s}
        self.ptr = dump["ptr"]
        self.root = {}
        for r in dump["roots"]:
            self.root[r["fn"]] = r
        self.usize_bits = self.ptr * 8
        self._loops = {}
        self.bystr = {}
        for i, t in enumerate(self.types):
            self.bystr.setdefault(t["s"], i)

    def tyidx(self, s):
        return self.bystr.get(s)

    def intinfo(self, ti):
        t = self.types[ti]
        k = t["k"]
        if k == "int":
            return True, t["size"] * 8
        if k == "uint":
            return False, t["size"] * 8
        if k == "bool":
            return False, 1
        if k == "char":
            return False, 32
        return None

    def find(self, suffix, **kw):
        out = []
        for i, f in enumerate(self.fns):
            if f.get("body") and f["path"].endswith(suffix):
                if all(f.get(k) == v for k, v in kw.items()):
                    out.append(i)
        return out


class Violation:
    def __init__(self, kind, msg, span, stack, approx, detail=""):
        self.kind = kind
        self.msg = msg
        self.span = span
        self.stack = stack
        self.approx = approx
        self.detail = detail

    def key(self):
        return (self.kind, self.stack[-1] if self.stack else "", self.msg)

    def __repr__(self):
        return "%s: %s at %s in %s%s %s" % (self.kind, self.msg, self.span, " <- ".join(self.stack[::-1]),
                                          " (approx)" if self.approx else "", self.detail)


class Outcome:
    def __init__(self, kind, st, val=None, msg=None, span=None):
        self.kind = kind  # ret panic oom unreachable undecided
        self.st = st
        self.val = val
        self.msg = msg
        self.span = span

    def __repr__(self):
        return "Outcome(%s,%s,%s,%s)" % (self.kind, self.val, self.msg, self.span)


def tabmap(f, *tabs):
    return tuple(f(*xs) for xs in zip(*tabs))


_opcache = {}


def lane_op(op, a, b):
    k = (op, id(a), id(b))
    r = _opcache.get(k)
    if r is not None and r[0] is a and r[1] is b:
        return r[2]
    if op == "or":
        t = tuple(x | y for x, y in zip(a, b))
    elif op == "and":
        t = tuple(x & y for x, y in zip(a, b))
    elif op == "xor":
        t = tuple(x ^ y for x, y in zip(a, b))
    elif op == "andnot":
        t = tuple((~x & 255) & y for x, y in zip(a, b))
    elif op == "eq":
        t = tuple(255 if x == y else 0 for x, y in zip(a, b))
    elif op == "gt":
        t = tuple(255 if (x ^ 128) > (y ^ 128) else 0 for x, y in zip(a, b))
    elif op == "lt":
        t = tuple(255 if (x ^ 128) < (y ^ 128) else 0 for x, y in zip(a, b))
    elif op == "add":
        t = tuple((x + y) & 255 for x, y in zip(a, b))
    elif op == "sub":
        t = tuple((x - y) & 255 for x, y in zip(a, b))
    elif op == "minu":
        t = tuple(min(x, y) for x, y in zip(a, b))
    elif op == "maxu":
        t = tuple(max(x, y) for x, y in zip(a, b))
    elif op == "subsu":
        t = tuple(max(x - y, 0) for x, y in zip(a, b))
    elif op == "addsu":
        t = tuple(min(x + y, 255) for x, y in zip(a, b))
    else:
        raise Undecided("lane op " + op)
    t = _intern(t)
    _opcache[k] = (a, b, t)
    return t


_itab = {}


def _intern(t):
    return _itab.setdefault(t, t)


_ctab = [_intern((c,) * 256) for c in range(256)]
IDT = _intern(IDT)

from interp2 import Interp  # noqa: E402  (the machine itself)
