"""Are two numbers that the analysis has expressions for different? The expressions are made of input
symbols and input bytes by known operations; if they have different values for some inputs that
satisfy the path condition, they are not the same number. Anything with an unknown in it is left open."""
import random
from .lin import S, Lin

BYTES = (0, 1, 2, 127, 128, 129, 200, 255)


class Open(Exception):
    pass


class Skip(Exception):
    """not a choice that the path allows"""


def width(name):
    return {'u8': (0, 255), 'u16': (0, 2 ** 16 - 1), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1), 'usize': (0, 2 ** 64 - 1), 'i8': (-128, 127),
            'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1)}.get(name)


def fit(n, name):
    w = width(name)
    if w is None:
        raise Open(name)
    m = w[1] - w[0] + 1
    return (n - w[0]) % m + w[0]


class Point:
    """one choice of the inputs"""

    def __init__(self, rnd, syms, sources):
        self.rnd, self.syms, self.sources = rnd, syms, sources
        self.v, self.b = {}, {}

    def lin(self, l):
        return l.c + sum(k * self.sym(s) for s, k in l.t)

    def sym(self, s):
        if s not in self.v:
            self.v[s] = self.base(s) if S.term[s] is None else self.term(S.term[s])
        return self.v[s]

    def base(self, s):
        if s not in self.syms:
            raise Open(s)
        lo, hi = S.lo[s], S.hi[s]
        if lo == 0 and hi == 255:
            return self.rnd.choice(BYTES)
        lo = -1000 if lo is None else lo
        hi = lo + 2 ** 33 if hi is None else hi
        r = self.rnd.random()
        if r < 0.4:
            hi = min(hi, lo + 100)
        elif r < 0.6:
            hi = min(hi, lo + 2 ** 16)
        return self.rnd.randint(lo, hi)

    def byte(self, segs, i):
        for s in segs:
            n = self.length(s)
            if i < n:
                return self.of(s, i)
            i -= n
        raise Open('end')

    def length(self, s):
        if s[0] == 'c':
            return len(s[1])
        if s[0] == 'b':
            return 1
        if s[0] == 'sub':
            return self.lin(s[3])
        if s[0] in ('be', 'le'):
            return s[1]
        raise Open(s[0])

    def of(self, s, i):
        if s[0] == 'c':
            return s[1][i]
        if s[0] == 'b':
            return self.lin(s[1])
        if s[0] in ('be', 'le'):
            n = self.lin(s[2])
            return n >> 8 * (s[1] - 1 - i if s[0] == 'be' else i) & 255
        if s[0] == 'sub':
            at = self.lin(s[2]) + i
            if isinstance(s[1], tuple) and s[1] and s[1][0] == 'view':
                return self.byte(s[1][1], self.lin(s[1][2]) + at)
            if s[1] not in self.sources:
                raise Open(s[1])
            return self.b.setdefault((s[1], at), self.rnd.choice(BYTES))
        raise Open(s[0])

    def number(self, segs, order):
        n = [self.byte(segs, i) for i in range(sum(self.length(s) for s in segs))]
        if len(n) > 16:
            raise Open('long')
        return int.from_bytes(bytes(n), order)

    def term(self, t):
        k = t[0]
        if k == 'byte':
            s = t[1]
            return self.byte((s,), 0) if s[0] != 'view' else self.byte(s[1], self.lin(s[2]))
        if k == 'from_be':
            return self.number(t[1], 'big')
        if k == 'from_le':
            return self.number(t[1], 'little')
        if k in ('wrap', 'cast'):
            return fit(self.lin(t[2]), t[1])
        if k in ('Shl', 'Shr') and len(t) == 4:
            x, y = self.lin(t[2]), self.lin(t[3])
            if not 0 <= y < 128:
                raise Open('shift')
            return fit(x << y if k == 'Shl' else x >> y, t[1])
        if k == 'declen':
            return len(str(self.lin(t[1])))
        if not all(isinstance(x, (Lin, int)) for x in t[1:]):
            raise Open(k)
        a = [self.lin(x) if isinstance(x, Lin) else x for x in t[1:]]
        if k == 'mul':
            return a[0] * a[1]
        if k in ('div', 'rem', 'ceil'):
            if a[1] <= 0 or a[0] < 0:
                raise Skip
            return a[0] // a[1] if k == 'div' else a[0] % a[1] if k == 'rem' else -(-a[0] // a[1])
        if k == 'shr':
            return a[0] >> a[1] if 0 <= a[1] < 128 else 0
        if k in ('and', 'BitAnd'):
            return a[0] & a[1]
        if k == 'BitOr':
            return a[0] | a[1]
        if k == 'BitXor':
            return a[0] ^ a[1]
        if k == 'min':
            return min(a)
        if k == 'max':
            return max(a)
        if k == 'clamp':
            return min(max(a[1], 0), a[0])
        raise Open(k)


def bases(l, out, seen=None):
    """the input symbols an expression is made of"""
    seen = set() if seen is None else seen
    stack = [l]
    while stack:
        x = stack.pop()
        if isinstance(x, Lin):
            for s, _ in x.t:
                if s in seen:
                    continue
                seen.add(s)
                if S.term[s] is None:
                    out.add(s)
                else:
                    stack.append(S.term[s])
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def differ(st, a, b, syms=(), sources=(), tries=300):
    """True: there are inputs on this path for which a and b are different numbers. None: open"""
    syms, sources = set(syms), set(sources)
    used = set()
    every = bases(a, used) | bases(b, used)
    if not used <= syms:
        return None
    # what the path says about them
    facts = [l for l in st.facts.ge if any(s in every for s, _ in l.t)]
    for l in facts + [x for x in st.facts.ne if isinstance(x, Lin)]:
        used = set()
        bases(l, used)
        if not used <= syms and any(s in every for s, _ in l.t):
            return None
    for f in list(st.facts.at) + list(st.facts.ce):
        used, seen = set(), bases(tuple(f) if isinstance(f, (tuple, list)) else (), used := set())
        if seen & every or used & syms or any(mentions(f, x) for x in sources):
            return None
    rnd = random.Random(1)
    for _ in range(tries):
        p = Point(rnd, syms, sources)
        try:
            if any(p.lin(l) < 0 for l in facts) or any(p.lin(x) == 0 for x in st.facts.ne if isinstance(x, Lin) and any(s in every for s, _ in x.t)):
                continue
            if p.lin(a) != p.lin(b):
                return True
        except Skip:
            continue
        except Open:
            return None
    return None


def mentions(o, x):
    if o == x:
        return True
    return isinstance(o, (tuple, list, frozenset)) and any(mentions(y, x) for y in o)
