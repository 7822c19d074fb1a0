"""Abstract states and their join."""
from .lin import Lin, K, V, S, Facts, fresh, bounds
from .values import *


class State:
    __slots__ = ('mem', 'facts', 'ghost')

    def __init__(self, mem=None, facts=None, ghost=None):
        self.mem = {} if mem is None else mem
        self.facts = facts or Facts()
        self.ghost = ghost or {}

    def copy(self):
        return State(dict(self.mem), self.facts, self.ghost)

    def set_ghost(self, **kw):
        g = dict(self.ghost)
        g.update(kw)
        self.ghost = g

    # --- assuming formulas
    def assume(self, f, v=True):
        """False when contradictory; may only be called on a state owned by the caller"""
        if f is True or f is False:
            return f == v
        k = f[0]
        if k == 'not':
            return self.assume(f[1], not v)
        if k == 'and':
            if v:
                return self.assume(f[1]) and self.assume(f[2])
            a, b = self.truth(f[1]), self.truth(f[2])
            if a is True:
                return self.assume(f[2], False)
            if b is True:
                return self.assume(f[1], False)
            return not (a is True and b is True)
        if k == 'or':
            return self.assume(('and', ('not', f[1]), ('not', f[2])), not v)
        if k == 'ge':
            n = self.facts.add_ge(f[1] if v else -f[1] - 1)
        elif k == 'eq':
            n = self.facts.add_eq(f[1]) if v else self.facts.add_ne(f[1])
        elif k == 'ce':
            t = self.truth(f)
            if t is not None:
                return t == v
            if v:
                n = self.facts.add_eq(segs_len(f[1]) - segs_len(f[2]))
                n = n and n.add_ce(f[1], f[2])
            else:
                n = self.facts.add_atom(f, False)
        elif k == 'phi':
            n = self.facts.add_atom(('atom', f[1]), v)
            if n is None:
                return False
            self.facts = n
            return self.assume_list(f[2] if v else f[3])
        else:
            n = self.facts.add_atom(f, v)
        if n is None:
            return False
        self.facts = n
        return True

    def assume_list(self, fs):
        for f in fs:
            if not self.assume(f):
                return False
        return True

    def truth(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == 'not':
            t = self.truth(f[1])
            return None if t is None else not t
        if k == 'and':
            a, b = self.truth(f[1]), self.truth(f[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a, b = self.truth(f[1]), self.truth(f[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == 'ge':
            if self.facts.implies(f[1]):
                return True
            return False if self.facts.implies(-f[1] - 1) else None
        if k == 'eq':
            if self.facts.equal(f[1], K(0)):
                return True
            return False if self.facts.distinct(f[1], K(0)) else None
        if k == 'ce':
            a, b = norm_segs(f[1]), norm_segs(f[2])
            if a == b or frozenset((f[1], f[2])) in self.facts.ce or frozenset((a, b)) in self.facts.ce:
                return True
            if len(a) <= 1 and len(b) <= 1 and all(x[0] == 'c' for x in a + b):
                return False
            if self.facts.distinct(segs_len(a), segs_len(b)):
                return False
            if self.facts.equal(segs_len(a), segs_len(b)) and same_content(a, b, self.facts):
                return True
            return self.facts.at.get(f)
        if k == 'phi':
            return self.facts.at.get(('atom', f[1]))
        return self.facts.at.get(f)


def same_content(a, b, facts):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] != y[0] or len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if p == q:
                continue
            if isinstance(p, Lin) and isinstance(q, Lin):
                if not facts.equal(p, q):
                    return False
            else:
                return False
    return True


def facts_as_list(f):
    out = [('ge', l) for l in f.ge] + [('not', ('eq', l)) for l in f.ne]
    out += [(a if v else ('not', a)) for a, v in f.at.items()]
    out += [('ce', *(tuple(p) if len(p) == 2 else tuple(p) * 2)) for p in f.ce]
    return out


# ---------------------------------------------------------------- skeletons

RESULTS = set()     # the types that are std::result::Result


def skel(v, level, depth=0):
    if isinstance(v, VBool):
        if v.f is True or v.f is False:
            return v.f if level < 1 else 'b'
        return 'b'
    if isinstance(v, VEnum):
        if depth > (3 if level < 1 else 1):
            return 'e'
        if level == 0.5 and v.ty in RESULTS and 1 in v.vs and len(v.vs) == 1:
            return (1, 'error')
        if level >= 2:
            return 'e'
        vs = v.vs
        if len(vs) == 1:
            (k, fs), = vs.items()
            return (k, tuple(skel(x, level, depth + 1) for x in fs))
        return tuple(sorted(vs))
    if isinstance(v, VAgg):
        return tuple(skel(x, level, depth) for x in v.fs) if depth <= 4 else 'a'
    if isinstance(v, VRef):
        return ('r', v.root, v.path) if v.mut or level < 2 else 'r'
    if isinstance(v, VSlice):
        return ('s', v.root, v.path) if v.mut or level < 2 else 's'
    if isinstance(v, VMod):
        return ('m', v.kind, tuple(skel(x, level, depth + 1) for x in v.fs if isinstance(x, Val)))
    if isinstance(v, VFn):
        return ('f', v.f.get('inst') or v.f.get('path'))
    if isinstance(v, VTop):
        return 't'
    if isinstance(v, VSeq):
        return ('q', len(v.elems) if v.elems is not None and level < 1 else -1)
    return 'i'


def skeleton(st, level):
    items = []
    for k in sorted(st.mem, key=repr):
        if level >= 2 and not isinstance(k[0], int) and k[0] != 'pin':
            # cells behind shared references are joined through the references
            continue
        s = skel(st.mem[k], level)
        if s != 'i':
            items.append((k, s))
    return (tuple(items), tuple(sorted(((k, v) for k, v in st.ghost.items() if k[0] != '~'), key=repr)))


def eqpattern(st):
    """which integer locals hold the very same value"""
    seen = {}
    for k in sorted(st.mem, key=repr):
        _ints(st.mem[k], (k,), seen)
    return tuple(sorted((tuple(v) for v in seen.values() if len(v) > 1), key=repr))


def lenpattern(st):
    """the lengths of sequences that are constants"""
    out = []
    eqs = solved(st.facts)

    def walk(v, path):
        if isinstance(v, VSeq):
            n = reduced(v.len, eqs).const()
            if n is not None:
                out.append((path, n))
        elif isinstance(v, VAgg):
            for i, x in enumerate(v.fs):
                walk(x, path + (i,))
        elif isinstance(v, VEnum):
            for k, fs in v.vs.items():
                for i, x in enumerate(fs):
                    walk(x, path + (k, i))
    for k in sorted(st.mem, key=repr):
        walk(st.mem[k], (k,))
    return tuple(out)


def _ints(v, path, seen):
    if isinstance(v, VInt):
        if v.l.t:
            seen.setdefault(v.l, []).append(path)
    elif isinstance(v, VAgg):
        for i, x in enumerate(v.fs):
            _ints(x, path + (i,), seen)


# ---------------------------------------------------------------- join

LIMITS = (255, (1 << 16) - 1, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1)


def solved(F):
    """the equations among the facts, each solved for its newest symbol"""
    out = {}
    for l in F.ge:
        if len(l.t) > 5 or -l not in F.ge:
            continue
        e = reduced(l, out)
        one = [(x, k) for x, k in e.t if abs(k) == 1]
        if not one:
            continue
        x, k = max(one, key=lambda a: (isinstance(a[0], int), a[0] if isinstance(a[0], int) else 0, repr(a[0])))
        # k*x + r = 0
        r = (V(x) * k - e) * k
        for y in list(out):
            if any(z == x for z, _ in out[y].t):
                out[y] = reduced(out[y], {x: r})
        out[x] = r
    return out


def reduced(l, eqs):
    if eqs and any(x in eqs for x, _ in l.t):
        e = K(l.c)
        for x, k in l.t:
            e = e + (eqs[x] * k if x in eqs else V(x) * k)
        return e
    return l


class Joiner:
    def __init__(self, A, B, owned=None, heap=None):
        self.A, self.B = A, B
        self.owned = owned          # set of symbols/ids owned by the loop head (A side), or None
        self.sa, self.sb = {}, {}   # symbol -> value on each side
        self.ca, self.cb = {}, {}   # content id -> segs on each side
        self.memo, self.cmemo, self.bmemo = {}, {}, {}
        self.pairs = []
        self.changed = False
        self.patch = []
        self.limits = {}
        self.heap = heap or {}
        self.newheap = {}

    def run(self):
        A, B = self.A, self.B
        mem = {}
        keys = [k for k in A.mem if k in B.mem]
        if self.owned is not None:
            for k in keys:
                if A.mem[k] is not B.mem[k]:
                    self.pre(A.mem[k], B.mem[k])
        for k in keys:
            va, vb = A.mem[k], B.mem[k]
            mem[k] = va if va is vb and self.owned is None else self.val(va, vb)
        # a cell that only one side has can be reached on that side only
        for k, v in B.mem.items():
            if k not in A.mem and k[0] in ('h', 'j'):
                mem[k] = v
        for k, v in A.mem.items():
            if k not in B.mem:
                if k[0] in ('h', 'j'):
                    mem[k] = v
                else:
                    self.changed = True
        for k, v in self.newheap.items():
            mem[k] = v
        ghost = {}
        for k, v in A.ghost.items():
            if k in B.ghost:
                w = B.ghost[k]
                if v == w:
                    ghost[k] = v
                elif isinstance(v, (int, bool)) and isinstance(w, (int, bool)):
                    ghost[k] = max(v, w)
                    self.changed = self.changed or ghost[k] != v
                elif isinstance(v, frozenset) and isinstance(w, frozenset):
                    ghost[k] = v | w
                    self.changed = self.changed or ghost[k] != v
                else:
                    ghost[k] = None
                    self.changed = self.changed or v is not None
        for k, v in B.ghost.items():
            # a mark that either side may carry
            if k[0] == '~' and k not in ghost:
                ghost[k] = v
                self.changed = True
        for k, v in A.ghost.items():
            if k[0] == '~' and k not in B.ghost:
                ghost[k] = v
        facts = self.facts()
        st = State(mem, facts, ghost)
        self.finish(st)
        return st

    # -- collect what the owned symbols stand for on the B side
    def pre(self, a, b):
        if isinstance(a, VInt) and isinstance(b, VInt):
            l = a.l
            if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0] in self.owned:
                self.sb.setdefault(l.t[0][0], b.l)
        elif isinstance(a, (VAgg, VMod)) and type(a) is type(b) and len(a.fs) == len(b.fs):
            for x, y in zip(a.fs, b.fs):
                self.pre(x, y)
        elif isinstance(a, VEnum) and isinstance(b, VEnum):
            for k in a.vs:
                if k in b.vs:
                    for x, y in zip(a.vs[k], b.vs[k]):
                        self.pre(x, y)
        elif isinstance(a, VSeq) and isinstance(b, VSeq):
            self.pre(VInt(a.len), VInt(b.len))
            if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
                for x, y in zip(a.elems, b.elems):
                    self.pre(x, y)
        elif isinstance(a, VSlice) and isinstance(b, VSlice):
            self.pre(VInt(a.off), VInt(b.off))
            self.pre(VInt(a.len), VInt(b.len))
        elif isinstance(a, Lin) and isinstance(b, Lin):
            self.pre(VInt(a), VInt(b))

    def lin(self, a, b):
        if self.owned is not None:
            if all(s in self.sb for s, _ in a.t if s in self.owned) and subst(a, self.sb, self.cb_ids()) == b:
                return a
            if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0] in self.owned and a.t[0][0] not in self.sb:
                self.sb[a.t[0][0]] = b
                return a
        elif a == b:
            return a
        r = self.memo.get((a, b))
        if r is not None:
            return r
        for a0, b0, p in self.pairs:
            d = a - a0
            if d == b - b0:
                self.changed = True
                return p + d
        self.changed = True
        la, ha = bounds(a)
        lb, hb = bounds(b)
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        if self.owned is None:
            s = S.fresh(lo, hi, 'p')
        else:
            # what a loop variable is bounded by is a fact like any other: it has to survive the loop
            s = S.fresh(None, None, 'p')
            self.owned.add(s)
            self.limits[s] = (lo, hi)
        p = V(s)
        self.sa[s], self.sb[s] = a, b
        self.memo[(a, b)] = p
        self.pairs.append((a, b, p))
        return p

    def cb_ids(self):
        return None

    def content(self, a, b, ln):
        if a is None or b is None:
            if a is not None:
                self.changed = True
            return None
        if self.owned is not None:
            if len(a) == 1 and a[0][0] == 'sub' and a[0][1] in self.owned:
                i = a[0][1]
                if i not in self.cb:
                    self.cb[i] = b
                    return (('sub', i, K(0), ln),)
                if self.cb[i] == b:
                    return (('sub', i, K(0), ln),)
            elif a == b and not (self.uses_owned(a)):
                return a
        elif a == b:
            return a
        # same shape: join piecewise
        if len(a) == len(b) and all(x[0] == y[0] and len(x) == len(y) for x, y in zip(a, b)):
            ok = True
            for x, y in zip(a, b):
                for p, q in zip(x, y):
                    if isinstance(p, Lin) != isinstance(q, Lin) or (not isinstance(p, Lin) and p != q):
                        ok = False
            if ok:
                return tuple(tuple(self.lin(p, q) if isinstance(p, Lin) else p for p, q in zip(x, y)) for x, y in zip(a, b))
        r = self.cmemo.get((a, b))
        if r is None:
            self.changed = True
            r = new_id('phi')
            if self.owned is not None:
                self.owned.add(r)
            self.ca[r], self.cb[r] = a, b
            self.cmemo[(a, b)] = r
        return (('sub', r, K(0), ln),)

    def uses_owned(self, o):
        ids, syms = set(), set()
        collect_syms(o, syms, ids)
        return any(x in self.owned for x in syms) or any(x in self.owned for x in ids)

    def val(self, a, b):
        ta, tb = type(a), type(b)
        if ta is not tb:
            if ta is VTop:
                return a
            self.changed = True
            return VTop(getattr(a, 'ty', None) if getattr(a, 'ty', None) is not None else getattr(b, 'ty', None))
        if ta is VInt:
            l = self.lin(a.l, b.l)
            return a if l is a.l else VInt(l)
        if ta is VBool:
            return self.bool(a, b)
        if ta is VAgg:
            if len(a.fs) != len(b.fs):
                self.changed = True
                return VTop(a.ty)
            fs = [self.val(x, y) for x, y in zip(a.fs, b.fs)]
            return a if all(x is y for x, y in zip(fs, a.fs)) else VAgg(a.ty, fs)
        if ta is VEnum:
            return self.enum(a, b)
        if ta is VRef:
            if a.root == b.root and len(a.path) == len(b.path):
                ok, np = True, []
                for x, y in zip(a.path, b.path):
                    if x == y and self.owned is None:
                        np.append(x)
                    elif x[0] == y[0] == 'e':
                        np.append(('e', self.lin(x[1], y[1])))
                    elif x == y:
                        np.append(x)
                    else:
                        ok = False
                if ok:
                    return VRef(a.root, tuple(np), a.mut)
            return self.refs(a, b)
        if ta is VSlice:
            if a.root == b.root and a.path == b.path:
                return VSlice(a.root, a.path, self.lin(a.off, b.off), self.lin(a.len, b.len), a.mut)
            return self.slices(a, b)
        if ta is VSeq:
            return self.seq(a, b)
        if ta is VMod:
            if a.kind != b.kind or len(a.fs) != len(b.fs):
                self.changed = True
                return VTop(a.ty)
            fs = []
            for x, y in zip(a.fs, b.fs):
                fs.append(self.any(x, y))
            return a if all(x is y for x, y in zip(fs, a.fs)) else VMod(a.kind, fs, a.ty)
        if ta is VFn:
            if a.f is b.f or a.f == b.f:
                return a
            self.changed = True
            return VTop(None)
        return a

    def any(self, x, y):
        if isinstance(x, Val) and isinstance(y, Val):
            return self.val(x, y)
        if isinstance(x, Lin) and isinstance(y, Lin):
            return self.lin(x, y)
        if x == y:
            if self.owned is not None and isinstance(x, tuple) and self.uses_owned(x):
                pass
            else:
                return x
        if isinstance(x, tuple) and isinstance(y, tuple) and x and isinstance(x[0], tuple) and y and isinstance(y[0], tuple):
            return self.content(x, y, fresh(0, None))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and x in (self.owned or ()):
            if x not in self.cb:
                self.cb[x] = y
                return x
            if self.cb[x] == y:
                return x
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and len(y) == 2 and isinstance(x[0], str):
            r = self.cmemo.get((x, y))
            if r is None:
                self.changed = True
                r = new_id('phi')
                if self.owned is not None:
                    self.owned.add(r)
                self.ca[r], self.cb[r] = x, y
                self.cmemo[(x, y)] = r
            return r
        if x is None or y is None:
            if x is not None:
                self.changed = True
            return None
        self.changed = True
        return None

    def bool(self, a, b):
        if a.f == b.f and not (self.owned is not None and self.uses_owned(a.f)):
            return a
        if self.owned is not None and isinstance(a.f, tuple) and a.f[0] in ('atom', 'phi') and ('own', a.f[1]) in self.owned:
            return a
        if a.f == b.f and self.owned is not None and subst(a.f, self.sb) == b.f:
            return a
        t = self.A.truth(a.f)
        if t is not None and t == self.B.truth(b.f):
            if a.f is t:
                return a
            self.changed = True
            return VBool(t)
        self.changed = True
        r = self.bmemo.get((a.f, b.f))
        if r is not None:
            return r
        i = new_id('b')[1]
        r = self.bmemo[(a.f, b.f)] = VBool(('phi', i, (), ()))
        if self.owned is not None:
            self.owned.add(('own', i))
        self.patch.append((r, a, b))
        return r

    def enum(self, a, b):
        vs, att = {}, {}
        same = True
        for k in set(a.vs) | set(b.vs):
            if k in a.vs and k in b.vs:
                fs = tuple(self.val(x, y) for x, y in zip(a.vs[k], b.vs[k]))
                if all(x is y for x, y in zip(fs, a.vs[k])):
                    fs = a.vs[k]
                else:
                    same = False
                vs[k] = fs
                if k in a.att and k in b.att:
                    at = tuple(f for f in a.att[k] if f in b.att[k])
                    if at:
                        att[k] = at
                    same = same and at == a.att[k]
                elif k in a.att:
                    same = False
            elif k in a.vs:
                vs[k] = a.vs[k]
                if k in a.att:
                    att[k] = a.att[k]
            else:
                vs[k] = b.vs[k]
                if k in b.att:
                    att[k] = b.att[k]
                same = False
                self.changed = True
        if same and set(a.vs) == set(vs):
            return a
        r = VEnum(a.ty, vs, att)
        self.patch.append((r, a, b))
        return r

    def refs(self, a, b):
        va, vb = self.deref(self.A, a), self.deref(self.B, b)
        if a.root[0] == 'j' and not a.path and vb is not None and not b.mut:
            self.newheap[a.root] = self.val(self.newheap.get(a.root, va), vb)
            return a
        self.changed = True
        if va is None or vb is None or a.mut or b.mut:
            return VTop(None)
        k = ('j', new_id('j')[1])
        self.newheap[k] = self.val(va, vb)
        return VRef(k, (), False)

    def slices(self, a, b):
        va, vb = self.deref(self.A, a), self.deref(self.B, b)
        if not isinstance(va, VSeq) or not isinstance(vb, VSeq) or a.mut or b.mut:
            self.changed = True
            return VTop(None)
        if a.root[0] == 'j' and not a.path and a.off.const() == 0:
            q = self.seq(self.newheap.get(a.root, va), window(vb, b.off, b.len, self.B.facts))
            self.newheap[a.root] = q
            return VSlice(a.root, (), K(0), q.len, False)
        self.changed = True
        k = ('j', new_id('j')[1])
        xa = window(va, a.off, a.len, self.A.facts)
        xb = window(vb, b.off, b.len, self.B.facts)
        q = self.seq(xa, xb)
        self.newheap[k] = q
        return VSlice(k, (), K(0), q.len, False)

    def deref(self, st, r):
        from .engine import load_path
        v = st.mem.get(r.root)
        if v is None:
            return None
        try:
            return load_path(v, r.path, st)
        except Exception:
            return None

    def seq(self, a, b):
        ln = self.lin(a.len, b.len)
        segs = self.content(a.segs, b.segs, ln)
        elems, summ = None, None
        if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
            elems = tuple(self.val(x, y) for x, y in zip(a.elems, b.elems))
            if all(x is y for x, y in zip(elems, a.elems)):
                elems = a.elems
        elif a.elems is None and a.summ is None and a.segs is None and b.segs is None:
            # an empty a or a top
            summ = None
            if a.len.const() == 0 and b.len.const() != 0:
                summ = b.summ if b.elems is None else summary(b, self)
                self.changed = True
        else:
            sa, sb = summary(a, self), summary(b, self)
            if a.len.const() == 0 and sa is None:
                summ = sb
                if sb is not None:
                    self.changed = True
            elif b.len.const() == 0 and sb is None:
                summ = sa
            elif sa is None or sb is None:
                summ = None
            else:
                summ = self.val(sa, sb)
            if a.elems is not None:
                self.changed = True
        if ln is a.len and segs is a.segs and elems is a.elems and summ is a.summ:
            return a
        return VSeq(ln, elems, summ, segs, a.ety)

    # -- facts of the joined state
    def facts(self):
        A, B = self.A.facts, self.B.facts
        ge = set()
        sa, sb = self.sa, self.sb
        head_old = self.owned is not None

        def inA(l):
            return A.implies(subst(l, sa, self.ca_map())) if sa or self.ca else A.implies(l)

        def inB(l):
            return B.implies(subst(l, sb, self.cb_map())) if sb or self.cb else B.implies(l)

        cand = []
        if head_old and getattr(self, 'later', False):
            for l in A.ge:
                if l in B.ge and not any(s in self.owned for s in all_syms(l)):
                    ge.add(l)
                elif inB(l):
                    ge.add(l)
                else:
                    self.changed = True
            # equations can only get fewer
            for l in B.ge:
                if l not in ge and -l in B.ge and not any(s in self.owned for s in all_syms(l)) and inA(l) and inA(-l):
                    ge.add(l)
                    ge.add(-l)
        else:
            for l in A.ge:
                if l in B.ge and not (head_old and any(s in self.owned for s in all_syms(l))):
                    ge.add(l)
                elif inB(l):
                    ge.add(l)
                else:
                    self.changed = True
            for l in B.ge:
                if l not in ge and inA(l) and inB(l):
                    ge.add(l)
        new = [s for s in sa]
        if new:
            cand = self.candidates(new)
            for l in cand:
                if l.t and l not in ge and inA(l) and inB(l):
                    ge.add(l)
        ne = set()
        for l in A.ne:
            l2 = subst(l, sb) if head_old else l
            if B.distinct(l2, K(0)):
                ne.add(l)
            elif head_old:
                self.changed = True
        for l in B.ne:
            if not head_old and A.distinct(l, K(0)):
                ne.add(l)
        at = {}
        for a, v in A.at.items():
            if head_old and self.uses_owned(a):
                if B.at.get(subst(a, sb, self.cb_map())) == v:
                    at[a] = v
                else:
                    self.changed = True
            elif B.at.get(a) == v:
                at[a] = v
            elif head_old:
                self.changed = True
        ce = set()
        for p in A.ce:
            if head_old and self.uses_owned(p):
                if subst_ce(p, sb, self.cb_map()) in B.ce:
                    ce.add(p)
                else:
                    self.changed = True
            elif p in B.ce:
                ce.add(p)
            elif head_old:
                self.changed = True
        # equalities of contents that were merged
        if (self.ca or self.sa) and A.ce and B.ce:
            ra = [(v, self.whole(k)) for k, v in self.ca.items() if isinstance(v, tuple) and v and isinstance(v[0], tuple)]
            la = {v: V(k) for k, v in self.sa.items()}
            for p in A.ce:
                q = generalise(p, ra, la)
                if q != p and q not in ce and subst_ce(q, sb, self.cb_map()) in B.ce and subst_ce(q, sa, self.ca_map()) in A.ce:
                    ce.add(q)
        return Facts(frozenset(ge), frozenset(ne), at, frozenset(ce))

    def whole(self, i):
        v = self.ca[i]
        for (a, b), r in self.cmemo.items():
            if r == i:
                return (('sub', i, K(0), self.memo.get((segs_len(a), segs_len(b)), segs_len(a))),)
        return None

    def ca_map(self):
        return {k: v for k, v in self.ca.items() if is_id(v)} or None

    def cb_map(self):
        return {k: v for k, v in self.cb.items() if is_id(v)} or None

    def candidates(self, new):
        out = []
        A, B = self.A.facts, self.B.facts
        lens = []
        for s in new:
            p, a, b = V(s), self.sa[s], self.sb[s]
            for x in (a, b):
                out += [p - x, x - p]
            if self.owned is None:
                out += [p, p - 1]
            lo, hi = self.limits.get(s, (None, None))
            if lo is not None:
                out += [p - lo] + ([p] if lo > 0 else [])
            if hi is not None:
                out.append(K(hi) - p)
                out += [K(m) - p for m in LIMITS if m > hi]
            for F, x in ((A, a), (B, b)):
                # x = k*y + rest, k = +-1: rewrite the facts about y
                n = 0
                for y, k in x.t:
                    if abs(k) != 1:
                        continue
                    rest = x + Lin(0, ((y, -k),))
                    yv = (p - rest) * k
                    for l in F._index().get(y, ()):
                        c = dict(l.t)[y]
                        out.append(l + Lin(0, ((y, -c),)) + yv * c)
                        n += 1
                        if n > 25:
                            break
                    if S.lo[y] is not None:
                        out.append(yv - S.lo[y])
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and cb > ca and self.owned is not None:
                # a counter at the head of a loop: what the turn knows of the bound
                out += [l + K(cb) - p for l in B.ge if l not in A.ge and len(l.t) <= 2 and l.c <= 0][:20]
            if ca is not None and cb is not None and abs(ca - cb) <= 4 and self.owned is None:
                # what only one side knows, weakened by how far the value is from that side's
                for F, G, x, y in ((A, B, ca, cb), (B, A, cb, ca)):
                    n = 0
                    for l in F.ge:
                        if l not in G.ge and len(l.t) <= 2:
                            out.append(l + (p - x) * (1 if y > x else -1))
                            n += 1
                            if n > 20:
                                break
        if len(new) <= 8:
            for i, s in enumerate(new):
                for t in new[:i]:
                    p, q = V(s), V(t)
                    out += [p - q, q - p]
                    da, db = self.delta(s), self.delta(t)
                    if da and db:
                        e = p * db - q * da - (self.sa[s] * db - self.sa[t] * da)
                        out += [e, -e]
        out = self.affine(new) + out
        # relations with lengths in memory
        seen = set()
        uniq = []
        for l in out:
            if l not in seen:
                seen.add(l)
                uniq.append(l)
        return uniq[:240]

    def affine(self, new):
        """combinations of the merged values that are the same on both sides"""
        rows = []
        ea, eb = solved(self.A.facts), solved(self.B.facts)
        for s in new[:24]:
            d = reduced(self.sa[s], ea) - reduced(self.sb[s], eb)
            if not d.t and d.c == 0:
                continue
            row = dict(d.t)
            if d.c:
                row[None] = d.c
            rows.append((row, {s: 1}))
        out, basis = [], []
        for row, comb in rows:
            for piv, r0, c0 in basis:
                k = row.get(piv)
                if k:
                    q = r0[piv]
                    row = {x: q * row.get(x, 0) - k * r0.get(x, 0) for x in set(row) | set(r0)}
                    row = {x: v for x, v in row.items() if v}
                    comb = {x: q * comb.get(x, 0) - k * c0.get(x, 0) for x in set(comb) | set(c0)}
                    comb = {x: v for x, v in comb.items() if v}
            if row:
                basis.append((min(row, key=repr), row, comb))
            elif 2 <= len(comb) <= 4 and all(abs(v) <= 64 for v in comb.values()):
                e = K(0)
                for x, v in comb.items():
                    e = e + V(x) * v - self.sa[x] * v
                if len(e.t) <= 5:
                    out += [e, K(0) - e]
        return out

    def delta(self, s):
        d = self.sb[s] - self.sa[s]
        if d.const() is not None:
            return d.const()
        old = getattr(self, 'old', {}).get(s)
        return None

    def finish(self, st):
        if not self.patch:
            return
        la = one_sided(self.A.facts, st.facts)
        lb = one_sided(self.B.facts, st.facts)
        if self.owned is None:
            la = la + [('eq', V(s) - x) for s, x in self.sa.items()]
            lb = lb + [('eq', V(s) - x) for s, x in self.sb.items()]
            # the booleans that one side knows
            for r, a, b in self.patch:
                if isinstance(r, VBool):
                    for l, t in ((la, self.A.truth(a.f)), (lb, self.B.truth(b.f))):
                        if t is not None:
                            l.append(('atom', r.f[1]) if t else ('not', ('atom', r.f[1])))
        else:
            la = lb = []
        for r, a, b in self.patch:
            if isinstance(r, VBool):
                fa, fb = a.f, b.f
                def side(v):
                    pa = not (fa is (not v))
                    pb = not (fb is (not v))
                    if pa and not pb:
                        return tuple(la) + (() if fa is v else ((fa if v else ('not', fa)),))
                    if pb and not pa:
                        return tuple(lb) + (() if fb is v else ((fb if v else ('not', fb)),))
                    # both sides may be it: what either side says of it and the other one knows
                    return self.shared(carried(fa, v), carried(fb, v))
                if self.owned is None:
                    r.f = ('phi', r.f[1], side(True), side(False))
            else:
                if self.owned is not None:
                    continue
                for k in r.vs:
                    if k in a.vs and k not in b.vs:
                        r.att[k] = r.att.get(k, ()) + tuple(la) + self.booleans(a.att.get(k, ()), 1)
                    elif k in b.vs and k not in a.vs:
                        r.att[k] = r.att.get(k, ()) + tuple(lb) + self.booleans(b.att.get(k, ()), 2)
                    elif k in a.vs and k in b.vs and (k in a.att) != (k in b.att):
                        r.att[k] = r.att.get(k, ()) + self.shared(a.att.get(k, ()), b.att.get(k, ()))

    def booleans(self, fs, side):
        """what is known of a boolean of one side, said of the joined boolean"""
        at = {}
        for f in fs:
            if f[0] == 'atom':
                at[f[1]] = True
            elif f[0] == 'not' and f[1][0] == 'atom':
                at[f[1][1]] = False
        out = []
        for p in self.patch:
            if at and isinstance(p[0], VBool):
                f = p[side].f
                if isinstance(f, tuple) and f[0] in ('phi', 'atom') and f[1] in at:
                    out.append(('atom', p[0].f[1]) if at[f[1]] else ('not', ('atom', p[0].f[1])))
        return tuple(out)

    def shared(self, fa, fb):
        out = [f for f in fa if f in fb or holds_in(f, self.B.facts)]
        out += [f for f in fb if f not in fa and holds_in(f, self.A.facts)]
        return tuple(out)


def carried(f, v):
    """the facts that come with a condition being true or false"""
    if isinstance(f, tuple) and f:
        if f[0] == 'phi':
            return tuple(f[2] if v else f[3])
        if f[0] == 'not':
            return carried(f[1], not v)
        if f[0] == 'and' and v:
            return carried(f[1], True) + carried(f[2], True)
    return ()


def one_sided(f, both, limit=48):
    """the facts of one side of a join that the join lost, the most telling first"""
    l = [x for x in facts_as_list(f) if not holds_in(x, both)]
    if len(l) > limit:
        l.sort(key=lambda x: (x[0] == 'ge', len(x[1].t) if x[0] == 'ge' else 0, -max((s for s, _ in x[1].t), default=0) if x[0] == 'ge' else 0))
    return l[:limit]


def is_id(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str)


def subst_ce(p, m, cm):
    q = [subst(x, m, cm) for x in p]
    return frozenset(norm_segs(x) if isinstance(x, tuple) else x for x in q)


def generalise(o, contents, lins):
    if isinstance(o, Lin):
        return lins.get(o, o)
    if isinstance(o, frozenset):
        return frozenset(generalise(x, contents, lins) for x in o)
    if isinstance(o, tuple):
        for c, r in contents:
            if o == c and r is not None:
                return r
        return tuple(generalise(x, contents, lins) for x in o)
    return o


def all_syms(l):
    out = set()
    for s, _ in l.t:
        out.add(s)
        if S.term[s] is not None:
            out |= term_syms(s)
    return out


def holds_in(f, facts):
    if f[0] == 'ge':
        return f[1] in facts.ge
    if f[0] == 'ce':
        return frozenset((f[1], f[2])) in facts.ce
    if f[0] == 'not' and f[1][0] == 'eq':
        return f[1][1] in facts.ne
    if f[0] == 'not':
        return facts.at.get(f[1]) is False
    return facts.at.get(f) is True


def summary(q, J=None):
    if q.elems is None:
        return q.summ
    if not q.elems:
        return None
    r = q.elems[0]
    for e in q.elems[1:]:
        if J is not None:
            r = J.val(r, e)
        else:
            return None
    return r


def window(q, off, ln, facts):
    """the sub-sequence as a sequence of its own"""
    if off.const() == 0 and ln == q.len:
        return q
    segs = elems = None
    if q.segs is not None:
        segs = sub_segs(q.segs, off, ln, facts)
        if segs is None:
            segs = (('sub', ('view', q.segs, off), K(0), ln),)
    if q.elems is not None and off.const() is not None and ln.const() is not None:
        elems = q.elems[off.const():off.const() + ln.const()]
    return VSeq(ln, elems, q.summ, segs, q.ety)


# ---------------------------------------------------------------- forgetting

def live_syms(o, out, ids):
    """the symbols and contents that a value is about; what merely goes with a value (the facts kept
    for one side of a join) does not count"""
    if isinstance(o, VBool):
        if isinstance(o.f, tuple) and o.f and o.f[0] != 'phi':
            collect_syms(o.f, out, ids)
    elif isinstance(o, (VAgg, VMod)):
        for x in o.fs:
            if isinstance(x, Val):
                live_syms(x, out, ids)
            elif x is not None:
                collect_syms(x, out, ids)
    elif isinstance(o, VEnum):
        for f in o.vs.values():
            for x in f:
                live_syms(x, out, ids)
        for f in o.att.values():
            if len(f) <= 4:
                collect_syms(f, out, ids)
    elif isinstance(o, VSeq):
        collect_syms(o.len, out, ids)
        for x in o.elems or ():
            live_syms(x, out, ids)
        if isinstance(o.summ, Val):
            live_syms(o.summ, out, ids)
        collect_syms(o.segs, out, ids)
    else:
        collect_syms(o, out, ids)


def forget(st, least=48):
    """project the facts onto what the memory still speaks of"""
    F = st.facts
    if len(F.ge) < least:
        return
    live, ids = set(), set()
    for v in st.mem.values():
        live_syms(v, live, ids)
    for v in st.ghost.values():
        if isinstance(v, (tuple, frozenset, Lin, Val)):
            collect_syms(v, live, ids)
    for p in F.ce:
        collect_syms(p, live, ids)
    memo = {}

    def alive(x):
        if x in live:
            return True
        if x in memo:
            return memo[x]
        memo[x] = False
        t = S.term[x]
        if t is not None:
            ys, js = set(), set()
            collect_syms(t, ys, js)
            memo[x] = bool(ys or js) and all(alive(y) for y in ys if y != x) and js <= ids
        return memo[x]

    ge = {}
    by = {}
    todo = set()
    tight = {}
    for l in F.ge:
        if bounds(l)[0] is not None and bounds(l)[0] >= 0:
            continue
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:
            # of several bounds of one symbol the tightest ones (weaker ones are where a widening may stop)
            o = tight.setdefault(l.t[0], [])
            o.append(l)
            if len(o) > 3:
                o.sort(key=lambda b: b.c)
                d = o.pop()
                if d == l:
                    continue
                ge.pop(d, None)
        ge[l] = True
    for l in ge:
        for x, _ in l.t:
            if not alive(x):
                by.setdefault(x, set()).add(l)
                todo.add(x)
    n0 = len(ge)
    # eliminate: few combinations first
    import heapq
    heap = [(len(by[x]), x) for x in todo]
    heapq.heapify(heap)
    while heap:
        n, x = heapq.heappop(heap)
        ls = by.get(x)
        if not ls:
            continue
        if len(ls) != n:
            heapq.heappush(heap, (len(ls), x))
            continue
        pos = [(l, dict(l.t)[x]) for l in ls]
        neg = [(l, -k) for l, k in pos if k < 0]
        pos = [(l, k) for l, k in pos if k > 0]
        if S.lo[x] is not None:
            pos.append((V(x) - S.lo[x], 1))
        if S.hi[x] is not None:
            neg.append((K(S.hi[x]) - V(x), 1))
        new = []
        # something the symbol is equal to
        eq = next((a for a, j in pos if j == 1 and -a in ls), None)
        if eq is not None:
            for l in ls:
                if l != eq and l != -eq:
                    c = l - eq * dict(l.t)[x]
                    if c.t and len(c.t) <= 4 and not (bounds(c)[0] is not None and bounds(c)[0] >= 0):
                        new.append(c)
            for b in [V(x) - S.lo[x]] if S.lo[x] is not None else []:
                new.append(b - eq)
            for b in [K(S.hi[x]) - V(x)] if S.hi[x] is not None else []:
                new.append(b + eq)
            new = [c for c in new if c.t and not (bounds(c)[0] is not None and bounds(c)[0] >= 0)]
        elif len(pos) * len(neg) <= 12:
            for a, j in pos:
                for b, k in neg:
                    c = a * k + b * j
                    if c.t and len(c.t) <= 4 and j <= 4 and k <= 4 and not (bounds(c)[0] is not None and bounds(c)[0] >= 0):
                        new.append(c)
        for l in list(ls):
            ge.pop(l, None)
            for y, _ in l.t:
                if y in by:
                    by[y].discard(l)
        del by[x]
        for c in new:
            if c not in ge:
                ge[c] = True
                for y, _ in c.t:
                    if not alive(y):
                        by.setdefault(y, set()).add(c)
                        heapq.heappush(heap, (len(by[y]), y))
    ne = frozenset(l for l in F.ne if all(alive(x) for x, _ in l.t))
    st.facts = Facts(frozenset(ge), ne, F.at, F.ce)
