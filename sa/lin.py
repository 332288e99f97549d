"""Linear integer expressions over symbols and a store of linear facts with exact entailment.

Entailment is decided by exact (integer-arithmetic) linear programming on the rational relaxation with
gcd tightening; it is sound for integers: `entails` answers True only if the fact follows.
"""
from math import gcd

_names = []


def newsym(name):
    _names.append(name)
    return len(_names) - 1


def symname(i):
    return "%s#%d" % (_names[i], i)


class Lin:
    __slots__ = ("t", "c", "h")

    def __init__(self, t, c):
        self.t = t  # tuple of (sym, coef), sorted, coef != 0
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.t == o.t and self.c == o.c

    def __repr__(self):
        s = []
        for v, k in self.t:
            s.append(("%+d*" % k if k not in (1, -1) else ("+" if k > 0 else "-")) + symname(v))
        if self.c or not s:
            s.append("%+d" % self.c)
        return "".join(s)


def sym(name):
    return Lin(((newsym(name), 1),), 0)


def mk(d, c):
    t = tuple(sorted((k, v) for k, v in d.items() if v))
    if not t:
        return c
    return Lin(t, c)


def add(a, b):
    if type(a) is int:
        if type(b) is int:
            return a + b
        return Lin(b.t, b.c + a) if a else b
    if type(b) is int:
        return Lin(a.t, a.c + b) if b else a
    d = dict(a.t)
    for k, v in b.t:
        d[k] = d.get(k, 0) + v
    return mk(d, a.c + b.c)


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(tuple((s, v * k) for s, v in a.t), a.c * k)


def sub(a, b):
    return add(a, scale(b, -1))


def syms(a):
    return [] if type(a) is int else [s for s, _ in a.t]


def _tight(e):
    """normalise e >= 0 by the gcd of its coefficients (integer tightening)"""
    g = 0
    for _, v in e.t:
        g = gcd(g, v)
        if g == 1:
            return e
    if g > 1:
        return Lin(tuple((s, v // g) for s, v in e.t), e.c // g)
    return e


def infeasible(ineqs):
    """is the conjunction of e >= 0 unsatisfiable over the rationals?  Exact: phase-1 simplex with
    Bland's rule, fraction free rows."""
    # rows:  y_i = a_i.x + b_i >= 0 ; x free.  Tableau: basic y = A x_nonbasic + b
    rows = []
    for e in ineqs:
        if type(e) is int:
            if e < 0:
                return True
            continue
        rows.append(e)
    # cheap elimination of free variables by pivoting them into the basis
    # represent each row as dict var->num with common denominator den>0 :  den*y = sum num*v + c
    n = len(rows)
    tab = []  # list of [basicvar, dict, const, den]
    for i, e in enumerate(rows):
        d = {}
        for s, v in e.t:
            d[("x", s)] = v
        tab.append([("y", i), d, e.c, 1])
    order = {}

    def rank(v):
        return (0 if v[0] == "y" else 1, v[1])

    def pivot(ri, col):
        b, d, c, den = tab[ri]
        k = d[col]
        # den*b = k*col + rest + c  ->  k*col = den*b - rest - c
        nd = {}
        for v, q in d.items():
            if v != col:
                nd[v] = -q
        nd[b] = den
        nc = -c
        nden = k
        if nden < 0:
            nden = -nden
            nd = {v: -q for v, q in nd.items()}
            nc = -nc
        g = gcd(nden, nc)
        for q in nd.values():
            if g == 1:
                break
            g = gcd(g, q)
        if g > 1:
            nden //= g
            nc //= g
            nd = {v: q // g for v, q in nd.items()}
        tab[ri] = [col, nd, nc, nden]
        for j in range(len(tab)):
            if j == ri:
                continue
            r = tab[j]
            m = r[1].get(col)
            if m is None:
                continue
            # r.den*y = m*col + ... ; col = (nd + nc)/nden
            d2 = {}
            for v, q in r[1].items():
                if v != col:
                    d2[v] = q * nden
            for v, q in nd.items():
                x = d2.get(v, 0) + m * q
                if x:
                    d2[v] = x
                else:
                    d2.pop(v, None)
            c2 = r[2] * nden + m * nc
            den2 = r[3] * nden
            g = gcd(den2, c2)
            for q in d2.values():
                if g == 1:
                    break
                g = gcd(g, q)
            if g > 1:
                den2 //= g
                c2 //= g
                d2 = {v: q // g for v, q in d2.items()}
            tab[j] = [r[0], d2, c2, den2]

    # bring all free x into the basis where possible
    for i in range(n):
        d = tab[i][1]
        col = None
        for v in d:
            if v[0] == "x":
                if col is None or abs(d[v]) < abs(d[col]):
                    col = v
        if col is not None:
            pivot(i, col)
    # rows with basic x are unconstrained -> drop
    tab = [r for r in tab if r[0][0] == "y"]
    # now all nonbasic are y >= 0 ; basic y_i = sum + c must be >= 0. nonbasic at 0.
    for _ in range(2000):
        viol = [r for r in tab if r[2] < 0]
        if not viol:
            return False
        r = min(viol, key=lambda r: rank(r[0]))
        ri = tab.index(r)
        cands = [v for v, q in r[1].items() if q > 0]
        if not cands:
            return True
        # dual-style Bland: choose smallest index entering var; (general simplex for bounds)
        col = min(cands, key=rank)
        pivot(ri, col)
    return False  # did not converge: treat as feasible (sound for entailment)


_cache = {}


class Store:
    __slots__ = ("sub", "ineqs", "key", "dead")

    def __init__(self):
        self.sub = {}
        self.ineqs = ()
        self.dead = False

    def copy(self):
        s = Store.__new__(Store)
        s.sub = self.sub
        s.ineqs = self.ineqs
        s.dead = self.dead
        return s

    def norm(self, e):
        if type(e) is int:
            return e
        sub_ = self.sub
        for s, _ in e.t:
            if s in sub_:
                break
        else:
            return e
        d = {}
        c = e.c
        for s, v in e.t:
            r = sub_.get(s)
            if r is None:
                d[s] = d.get(s, 0) + v
            elif type(r) is int:
                c += r * v
            else:
                c += r.c * v
                for s2, v2 in r.t:
                    d[s2] = d.get(s2, 0) + v * v2
        return mk(d, c)

    def _related(self, e):
        need = set(s for s, _ in e.t)
        rest = list(self.ineqs)
        out = []
        ch = True
        while ch:
            ch = False
            nrest = []
            for q in rest:
                hit = False
                for s, _ in q.t:
                    if s in need:
                        hit = True
                        break
                if hit:
                    out.append(q)
                    for s, _ in q.t:
                        if s not in need:
                            need.add(s)
                            ch = True
                else:
                    nrest.append(q)
            rest = nrest
        return out

    def entails(self, e):
        """does e >= 0 follow?"""
        e = self.norm(e)
        if type(e) is int:
            return e >= 0
        e = _tight(e)
        for q in self.ineqs:
            if q.t == e.t and q.c <= e.c:
                return True
        # negation: -e-1 >= 0
        neg = Lin(tuple((s, -v) for s, v in e.t), -e.c - 1)
        rel = self._related(e)
        k = (neg, frozenset(rel))
        r = _cache.get(k)
        if r is None:
            r = infeasible(rel + [neg])
            _cache[k] = r
        return r

    def entails_eq(self, e):
        e = self.norm(e)
        if type(e) is int:
            return e == 0
        return self.entails(e) and self.entails(scale(e, -1))

    def assume(self, e):
        """add e >= 0; returns False when the store becomes (detectably) infeasible"""
        e = self.norm(e)
        if type(e) is int:
            if e < 0:
                self.dead = True
                return False
            return True
        e = _tight(e)
        if self.entails(e):
            return True
        if self.entails(Lin(tuple((s, -v) for s, v in e.t), -e.c - 1)):
            self.dead = True
            return False
        # equality detection: -e >= 0 known?
        neg = Lin(tuple((s, -v) for s, v in e.t), -e.c)
        if self.entails(neg):
            return self.assume_eq(e)
        self.ineqs = tuple(q for q in self.ineqs if not (q.t == e.t)) + (e,)
        return True

    def assume_eq(self, e):
        e = self.norm(e)
        if type(e) is int:
            if e != 0:
                self.dead = True
                return False
            return True
        best = None
        for s, v in e.t:
            if v in (1, -1):
                if best is None or s > best[0]:
                    best = (s, v)  # eliminate the youngest symbol
        if best is None:
            g = 0
            for _, v in e.t:
                g = gcd(g, v)
            if e.c % g:
                self.dead = True
                return False
            if g > 1:
                return self.assume_eq(Lin(tuple((s, v // g) for s, v in e.t), e.c // g))
            self.ineqs = self.ineqs + (e, scale(e, -1))
            return True
        s, v = best
        # v*s + rest = 0 -> s = -rest/v
        rest = mk({k: q for k, q in e.t if k != s}, e.c)
        r = scale(rest, -v)  # v in {1,-1}
        nsub = {}
        one = {s: r}
        for k, q in self.sub.items():
            if type(q) is not int and any(x == s for x, _ in q.t):
                nsub[k] = _subst(q, one)
            else:
                nsub[k] = q
        nsub[s] = r
        self.sub = nsub
        old = self.ineqs
        self.ineqs = ()
        pend = []
        keep = []
        for q in old:
            if any(x == s for x, _ in q.t):
                pend.append(_subst(q, one))
            else:
                keep.append(q)
        self.ineqs = tuple(keep)
        for q in pend:
            if not self.assume(q):
                return False
        return True

    def feasible(self):
        return not self.dead

    def lower(self, e):
        """best constant lower bound found by probing, or None"""
        return self._bound(e, 1)

    def upper(self, e):
        r = self._bound(scale(e, -1), 1)
        return None if r is None else -r

    def _bound(self, e, _):
        e = self.norm(e)
        if type(e) is int:
            return e
        # probe powers of two then bisect
        lo = None
        if self.entails(e):
            lo, hi = 0, 1
            while hi < (1 << 130) and self.entails(add(e, -hi)):
                lo = hi
                hi *= 2
            if hi >= (1 << 130):
                return lo
        else:
            if not self.entails(add(e, 1 << 130)):
                return None
            hi = 0
            k = 1
            while not self.entails(add(e, k)):
                hi = -k
                k *= 2
            lo = -k
        while hi - lo > 1:
            m = (lo + hi) // 2
            if self.entails(add(e, -m)):
                lo = m
            else:
                hi = m
        return lo


def _subst(e, m):
    if type(e) is int:
        return e
    d = {}
    c = e.c
    for s, v in e.t:
        r = m.get(s)
        if r is None:
            d[s] = d.get(s, 0) + v
        elif type(r) is int:
            c += r * v
        else:
            c += r.c * v
            for s2, v2 in r.t:
                d[s2] = d.get(s2, 0) + v * v2
    return mk(d, c)


def subst(e, m):
    return _subst(e, m)
