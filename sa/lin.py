"""Integer linear forms over symbols, and a store of facts about them with an entailment test
(Fourier-Motzkin elimination with integer tightening).  Symbols are immutable: once a fact about
a symbol holds on a path it holds for good."""
from itertools import count

U64 = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1


class Syms:
    """Global symbol table.  A symbol is a number; `term` gives its definition when it stands for
    the value of an uninterpreted operation (so that equal operations give equal symbols)."""

    def __init__(self):
        self.lo, self.hi, self.term, self.name = [], [], [], []
        self.intern = {}

    def fresh(self, lo=None, hi=None, name=''):
        self.lo.append(lo); self.hi.append(hi); self.term.append(None); self.name.append(name)
        return len(self.lo) - 1

    def of_term(self, term, lo=None, hi=None, name=''):
        s = self.intern.get(term)
        if s is None:
            s = self.fresh(lo, hi, name or str(term[0]))
            self.term[s] = term
            self.intern[term] = s
        return s


S = Syms()


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n:
                d[s] = n
            else:
                del d[s]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (o * -1)

    def __mul__(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def const(self):
        return None if self.t else self.c

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        r = []
        for s, k in self.t:
            n = f"{S.name[s] or 'v'}#{s}"
            r.append(n if k == 1 else f"{k}*{n}")
        if self.c or not r:
            r.append(str(self.c))
        return ' + '.join(r)


def K(n):
    return Lin(n)


def V(s):
    return Lin(0, ((s, 1),))


def fresh(lo=None, hi=None, name=''):
    return V(S.fresh(lo, hi, name))


def bits_of(l):
    """{position: symbol} when the value is a sum of single bits at different positions, or None"""
    if l.c or not l.t:
        return {} if not l.c and not l.t else None
    out = {}
    for s, k in l.t:
        if S.name[s] != 'bit' or k <= 0 or k & (k - 1):
            return None
        out[k.bit_length() - 1] = s
    return out if len(out) == len(l.t) else None


def of_bits(d):
    r = K(0)
    for k, s in d.items():
        r = r + V(s) * (1 << k)
    return r


def term(t, lo=None, hi=None, name=''):
    return V(S.of_term(t, lo, hi, name))


# ---------------------------------------------------------------- Fourier-Motzkin

def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _norm(c, d):
    """c + sum d >= 0, divided by the gcd of the coefficients with integer tightening."""
    g = 0
    for v in d.values():
        g = _gcd(g, abs(v))
        if g == 1:
            return c, d
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g
    return c, d


LIMIT = 600
STATS = {'fm': 0, 'giveup': 0}


def infeasible(cons):
    """cons: list of (const, {sym: coef}) meaning >= 0.  True when provably without integer
    solutions; False when not proven."""
    STATS['fm'] += 1
    work = {}

    def put(c, d):
        if not d:
            return c >= 0
        c, d = _norm(c, d)
        key = tuple(sorted(d.items()))
        o = work.get(key)
        if o is None or c < o:
            work[key] = c
        neg = tuple((s, -v) for s, v in key)
        o2 = work.get(neg)
        if o2 is not None and o2 + work[key] < 0:
            return False
        return True

    for c, d in cons:
        if not put(c, d):
            return True
    while True:
        # equalities with a unit coefficient are substituted away first
        eq = None
        for key, c in work.items():
            neg = tuple((s, -v) for s, v in key)
            if work.get(neg) == -c:
                for s, v in key:
                    if abs(v) == 1:
                        eq = (key, c, s, v)
                        break
                if eq:
                    break
        if eq:
            key, c, s, v = eq
            # v*s + rest + c == 0  =>  s = -v*(rest + c)
            rest = {k: -v * q for k, q in key if k != s}
            cc = -v * c
            old = work
            work = {}
            for k2, c2 in old.items():
                d = dict(k2)
                q = d.pop(s, 0)
                if q:
                    for k3, q3 in rest.items():
                        n = d.get(k3, 0) + q * q3
                        if n:
                            d[k3] = n
                        else:
                            d.pop(k3, None)
                    c2 = c2 + q * cc
                if not put(c2, d):
                    return True
            continue
        pos, neg = {}, {}
        for key in work:
            for s, v in key:
                if v > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        vs = set(pos) | set(neg)
        if not vs:
            return False
        best = min(vs, key=lambda s: pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0))
        ps, ns, rest = [], [], []
        for key, c in work.items():
            v = 0
            for s, q in key:
                if s == best:
                    v = q
                    break
            (ps if v > 0 else ns if v < 0 else rest).append((v, c, key))
        if len(rest) + len(ps) * len(ns) > LIMIT:
            STATS['giveup'] += 1
            return False
        work = {}
        for v, c, key in rest:
            if not put(c, dict(key)):
                return True
        for a, c1, k1 in ps:
            for b, c2, k2 in ns:
                g = _gcd(a, -b)
                m1, m2 = -b // g, a // g
                d = {s: q * m1 for s, q in k1}
                for s, q in k2:
                    n = d.get(s, 0) + q * m2
                    if n:
                        d[s] = n
                    else:
                        d.pop(s, None)
                d.pop(best, None)
                if not put(c1 * m1 + c2 * m2, d):
                    return True


class Facts:
    """A conjunction: ge (lin >= 0), ne (lin != 0), at (boolean atoms with their value) and ce
    (pairs of byte contents known equal)."""
    __slots__ = ('ge', 'ne', 'at', 'ce', 'cache', 'index')

    def __init__(self, ge=frozenset(), ne=frozenset(), at=None, ce=frozenset()):
        self.ge, self.ne, self.at, self.ce = ge, ne, at or {}, ce
        self.cache = {}
        self.index = None

    def _index(self):
        if self.index is None:
            ix = {}
            for l in self.ge:
                for s, _ in l.t:
                    ix.setdefault(s, []).append(l)
            self.index = ix
        return self.index

    def relevant(self, syms, hops=8, cap=90):
        ix = self._index()
        seen, out, outs = set(), [], set()
        cur = list(syms)
        for _ in range(hops):
            nxt = []
            for s in cur:
                if s in seen:
                    continue
                seen.add(s)
                for l in ix.get(s, ()):
                    if l not in outs:
                        outs.add(l)
                        out.append(l)
                        nxt.extend(l.syms())
                        if len(out) >= cap:
                            return out, seen | set(nxt)
            cur = nxt
        return out, seen | set(cur)

    def implies(self, lin):
        """lin >= 0 ?"""
        if not lin.t:
            return lin.c >= 0
        if lin in self.ge:
            return True
        r = self.cache.get(lin)
        if r is not None:
            return r
        r = self._implies(lin)
        self.cache[lin] = r
        return r

    def _implies(self, lin):
        # interval quick test
        c = lin.c
        ok = True
        for s, k in lin.t:
            b = S.lo[s] if k > 0 else S.hi[s]
            if b is None:
                ok = False
                break
            c += k * b
        if ok and c >= 0:
            return True
        neg = Lin(-lin.c - 1, tuple((s, -k) for s, k in lin.t))
        return self._infeasible_with([neg], [s for s, _ in lin.t])

    def _infeasible_with(self, extra, syms):
        for hops, cap in ((2, 30), (8, 90)):
            rel, seen = self.relevant(syms, hops, cap)
            cons = [(l.c, dict(l.t)) for l in rel] + [(l.c, dict(l.t)) for l in extra]
            used = set()
            for _, d in cons:
                used.update(d)
            for s in used:
                if S.lo[s] is not None:
                    cons.append((-S.lo[s], {s: 1}))
                if S.hi[s] is not None:
                    cons.append((S.hi[s], {s: -1}))
            if infeasible(cons):
                return True
            if len(rel) < cap and hops == 2 and len(rel) == len(self.relevant(syms, 8, 90)[0]):
                return False
        return False

    def equal(self, a, b):
        d = a - b
        return (not d.t and d.c == 0) or (self.implies(d) and self.implies(-d))

    def distinct(self, a, b):
        d = a - b
        if not d.t:
            return d.c != 0
        return d in self.ne or -d in self.ne or self.implies(d - 1) or self.implies(-d - 1)

    def add_ge(self, lin):
        """None when the result is contradictory."""
        if not lin.t:
            return self if lin.c >= 0 else None
        c, d = _norm(lin.c, dict(lin.t))
        lin = Lin(c, tuple(sorted(d.items())))
        if lin in self.ge or self.implies(lin):
            return self
        if self.implies(-lin - 1):
            return None
        f = Facts(self.ge | {lin}, self.ne, self.at, self.ce)
        # disequalities that became strict
        for n in list(f.ne):
            if any(s in dict(n.t) for s, _ in lin.t):
                if f.implies(n):
                    if f.implies(-n):
                        return None
                    f = Facts(f.ge | {n - 1}, f.ne - {n}, f.at, f.ce)
                elif f.implies(-n):
                    f = Facts(f.ge | {-n - 1}, f.ne - {n}, f.at, f.ce)
        return f

    def add_eq(self, lin):
        f = self.add_ge(lin)
        return f and f.add_ge(-lin)

    def add_ne(self, lin):
        if not lin.t:
            return None if lin.c == 0 else self
        p, m = self.implies(lin), self.implies(-lin)
        if p and m:
            return None
        if p:
            return self.add_ge(lin - 1)
        if m:
            return self.add_ge(-lin - 1)
        return Facts(self.ge, self.ne | {lin}, self.at, self.ce)

    def add_atom(self, a, v):
        o = self.at.get(a)
        if o is not None:
            return self if o == v else None
        d = dict(self.at)
        d[a] = v
        return Facts(self.ge, self.ne, d, self.ce)

    def add_ce(self, a, b):
        return Facts(self.ge, self.ne, self.at, self.ce | {frozenset((a, b))})

    def lower(self, lin, tries=(0, 1, 2, 4, 8, 20, 48, 68)):
        best = None
        for t in tries:
            if self.implies(lin - t):
                best = t
        return best


def bounds(lin):
    """Interval from symbol ranges alone."""
    lo = hi = lin.c
    for s, k in lin.t:
        a, b = S.lo[s], S.hi[s]
        if k < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
    return lo, hi
