"""Recursive functions: an inductive contract is inferred (largest set of candidate facts that holds
at every recursive call and at every return), and each recursive call is answered from it."""
from .lin import Lin, K, V, S, fresh, ISIZE_MAX
from .values import *
from .engine import Unsupported, int_range, UNIT


def leaves(eng, st, args):
    """{path: ('int', lin) | ('len', lin) | ('val', value)} of what the arguments reach;
    a path is (argument, step, ...)"""
    out = {}
    seen = set()

    def walk(v, path, mutable, depth):
        if isinstance(v, VRef):
            k = (v.root, v.path)
            if k in seen or depth > 6:
                return
            seen.add(k)
            try:
                x = eng.load(st, v.root, v.path)
            except Unsupported:
                return
            walk(x, path + ('*',), v.mut, depth + 1)
        elif isinstance(v, VSlice):
            out[path + ('off',)] = ('win', v.off, False)
            out[path + ('wlen',)] = ('win', v.len, False)
        elif isinstance(v, VInt):
            out[path] = ('int', v.l, mutable)
        elif isinstance(v, VSeq):
            out[path + ('len',)] = ('len', v.len, mutable)
        elif isinstance(v, (VAgg, VMod)):
            for i, x in enumerate(v.fs):
                if isinstance(x, Val):
                    walk(x, path + (i,), mutable, depth)
        else:
            out[path] = ('val', v, mutable)
    for i, a in enumerate(args):
        walk(a, (i,), False, 0)
    return out


def rebuild(eng, st, args, f):
    """replace leaves: f(path, value) -> value, for integers, windows and whole sequences"""
    seen = set()

    def walk(v, path, depth):
        if isinstance(v, VRef):
            k = (v.root, v.path)
            if k in seen or depth > 6:
                return v
            seen.add(k)
            try:
                x = eng.load(st, v.root, v.path)
            except Unsupported:
                return v
            y = walk(x, path + ('*',), depth + 1)
            if y is not x:
                eng.store(st, v.root, v.path, y)
            return v
        if isinstance(v, (VInt, VSlice, VSeq)):
            return f(path, v)
        if isinstance(v, VAgg):
            fs = [walk(x, path + (i,), depth) for i, x in enumerate(v.fs)]
            return v if all(x is y for x, y in zip(fs, v.fs)) else VAgg(v.ty, fs)
        if isinstance(v, VMod):
            fs = [walk(x, path + (i,), depth) if isinstance(x, Val) else x for i, x in enumerate(v.fs)]
            return v if all(x is y for x, y in zip(fs, v.fs)) else VMod(v.kind, fs, v.ty)
        return f(path, v)
    return [walk(a, (i,), 0) for i, a in enumerate(args)]


class Contract:
    """of one recursive function, during its analysis"""

    def __init__(self, eng, name):
        self.eng, self.name = eng, name
        self.pre = None         # set of candidates
        self.post = None        # {variant: set of candidates}
        self.fresh = set()      # leaves that differ between calls
        self.touched = set()    # leaves that the function changes
        self.bad = False
        self.variants = set()
        self.calls = []

    # ---- candidates: (kind, path, other path)
    def lower(self, lv):
        ints = [p for p, x in lv.items() if x[0] == 'int']
        lens = [p for p, x in lv.items() if x[0] in ('len',) or (x[0] == 'win' and p[-1] == 'wlen')]
        return ints, lens

    def pre_candidates(self, lv):
        ints, lens = self.lower(lv)
        c = set()
        for i in ints:
            for l in lens:
                c.add(('<=', i, l))
                c.add(('<', i, l))
        return c

    def holds(self, st, c, lv, new=None):
        k, a, b = c
        if a not in lv or b not in lv:
            return False
        d = lv[b][1] - lv[a][1]
        return st.facts.implies(d if k == '<=' else d - 1)

    def start(self, args, st, fr, site):
        eng = self.eng
        lv0 = leaves(eng, st, args)
        self.pre = {c for c in self.pre_candidates(lv0) if self.holds(st, c, lv0)}
        self.fresh = {p for p, x in lv0.items() if x[0] == 'int'}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 25:
                raise Unsupported(f'no contract for the recursive function {self.name}')
            marks = [r.mark() for r in eng.rules]
            self.changed = False
            s = st.copy()
            gargs = self.generic(s, args)
            self.entry = leaves(eng, s, gargs)
            for i, a in enumerate(gargs):
                s.mem[('pin', 'rec', self.name, i)] = a
            for k, a, b in self.pre:
                d = self.entry[b][1] - self.entry[a][1]
                s.assume(('ge', d if k == '<=' else d - 1))
            self.results = {}
            if self.post is None:
                self.post_all = None
            self.calls = []
            outs = eng.call_body(self.name, gargs, s, fr, site)
            posts, touched, variants = {}, set(), set()
            for s2, v in outs:
                var = self.variant(v)
                variants |= set(var)
                lv = leaves(eng, s2, gargs)
                for p, x in self.entry.items():
                    if p not in lv:
                        touched.add(p)
                    elif x[0] in ('int', 'len', 'win'):
                        if not s2.facts.equal(x[1], lv[p][1]):
                            touched.add(p)
                    elif lv[p][1] is not x[1]:
                        touched.add(p)
                    if x[0] == 'len' and self.content(s2, gargs, p) != self.content(s, gargs, p):
                        touched.add(p[:-1] + ('content',))
                cs = self.post_holds(s2, lv, v)
                for k in var:
                    posts[k] = cs if k not in posts else posts[k] & cs
            if not touched <= self.touched:
                self.touched |= touched
                self.changed = True
            if not variants <= self.variants:
                self.variants |= variants
                self.changed = True
            if self.post is None:
                self.post = posts
                self.changed = True
            else:
                for k in posts:
                    old = self.post.get(k)
                    new = posts[k] if old is None else old & posts[k]
                    if new != old:
                        self.post[k] = new
                        self.changed = True
            for s2, _ in outs:
                for i in range(len(gargs)):
                    s2.mem.pop(('pin', 'rec', self.name, i), None)
            if not self.changed:
                for call in self.calls:
                    eng.fire('recursion', call['st'], call['fr'], function=self.name, bounded=call['bounded'])
                return outs
            for r, m in zip(eng.rules, marks):
                r.reset(m)

    def content(self, st, args, p):
        """what a sequence leaf holds"""
        box = []

        def f(path, v):
            if path + ('len',) == p:
                box.append(v)
            return v
        rebuild(self.eng, st, args, f)
        if not box or not isinstance(box[0], VSeq):
            return None
        q = box[0]
        return (q.segs, q.elems, q.summ)

    def generic(self, st, args):
        eng = self.eng

        def f(path, v):
            if isinstance(v, VInt):
                if path in self.fresh:
                    lo, hi = self.range(v)
                    return VInt(fresh(lo, hi, 'rec'))
            if isinstance(v, VSlice) and (path + ('off',) in self.fresh or path + ('wlen',) in self.fresh):
                q = eng.load(st, v.root, v.path)
                off, ln = fresh(0, ISIZE_MAX, 'off'), fresh(0, ISIZE_MAX, 'len')
                st.assume(('ge', q.len - off - ln))
                return VSlice(v.root, v.path, off, ln, v.mut)
            if isinstance(v, VSeq) and (path + ('len',) in self.fresh or path + ('content',) in self.fresh):
                n = fresh(0, ISIZE_MAX, 'len')
                return VSeq(n, None, None, None if v.segs is None else (('sub', new_id('rec'), K(0), n),), v.ety)
            if path in self.fresh and isinstance(v, (VEnum, VTop, VBool)):
                if isinstance(v, VBool):
                    return VBool(('atom', new_id('b')[1]))
                return eng.top(v.ty, st) if v.ty is not None else VTop(None)
            return v
        return rebuild(eng, st, args, f)

    def range(self, v):
        los, his = [], []
        if not v.l.t:
            return (0, (1 << 64) - 1) if v.l.c >= 0 else (None, None)
        for s, k in v.l.t:
            los.append(S.lo[s])
        return (0 if all(x is not None and x >= 0 for x in los) else None), (1 << 64) - 1

    def variant(self, v):
        if isinstance(v, VEnum):
            return list(v.vs)
        return [None]

    def ret_ints(self, v):
        """integers in the result that the caller can see: {(variant, i..): lin}"""
        out = {}

        def walk(x, p):
            if isinstance(x, VInt):
                out[p] = x.l
            elif isinstance(x, VAgg):
                for i, y in enumerate(x.fs):
                    walk(y, p + (i,))
        if isinstance(v, VEnum):
            for k, fs in v.vs.items():
                for i, x in enumerate(fs):
                    walk(x, (k, i))
        else:
            walk(v, (None,))
        return out

    def post_holds(self, st, lv, v):
        """candidate facts that hold in this final state"""
        e = self.entry
        ints, lens = self.lower(e)
        out = set()
        for p in ints:
            if p not in lv:
                continue
            d = lv[p][1] - e[p][1]
            if st.facts.implies(d):
                out.add(('>=', p))
            if st.facts.implies(-d):
                out.add(('<=in', p))
            for l in lens:
                if l in lv and st.facts.implies(lv[l][1] - lv[p][1]):
                    out.add(('<=len', p, l))
                s2 = st.copy()
                if not s2.assume(('ge', e[l][1] - e[p][1] - 1)) or s2.facts.implies(d - 1):
                    out.add(('progress', p, l))
        for r, x in self.ret_ints(v).items():
            for p in ints:
                if st.facts.implies(x - e[p][1]):
                    out.add(('r>=', r, p))
                for l in lens:
                    s2 = st.copy()
                    if not s2.assume(('ge', e[l][1] - e[p][1] - 1)) or s2.facts.implies(x - e[p][1] - 1):
                        out.add(('rprogress', r, p, l))
            for l in lens:
                if st.facts.implies(e[l][1] - x):
                    out.add(('r<=len', r, l))
        return out

    def apply(self, args, st, fr, site):
        """answer a recursive call"""
        eng = self.eng
        lv = leaves(eng, st, args)
        # the precondition
        bad = {c for c in self.pre if not self.holds(st, c, lv)}
        if bad:
            self.pre -= bad
            self.changed = True
        for p, x in self.entry.items():
            if p in self.fresh:
                continue
            if p not in lv:
                self.fresh.add(p)
                self.changed = True
            elif x[0] in ('int', 'len', 'win'):
                if not st.facts.equal(x[1], lv[p][1]):
                    self.fresh.add(p)
                    self.changed = True
            elif lv[p][1] is not x[1]:
                self.fresh.add(p)
                self.changed = True
        self.calls.append({'st': st, 'fr': fr, 'bounded': self.measure(st, lv)})
        if self.post is None:
            return []       # first round: only the paths that do not recurse
        out = []
        inst = eng.P.inst[self.name]
        rty = inst['locals'][0]
        for var in sorted(self.variants, key=repr):
            s = st.copy()
            old = dict(lv)

            def f(path, v):
                if isinstance(v, VInt) and path in self.touched:
                    lo, hi = self.range(v)
                    return VInt(fresh(lo, hi, 'rec'))
                if isinstance(v, VSeq) and (path + ('len',) in self.touched or path + ('content',) in self.touched):
                    n = fresh(0, ISIZE_MAX, 'len')
                    return VSeq(n, None, None, None if v.segs is None else (('sub', new_id('rec'), K(0), n),), v.ety)
                if path in self.touched and isinstance(v, (VEnum, VTop, VBool)):
                    if isinstance(v, VBool):
                        return VBool(('atom', new_id('b')[1]))
                    return eng.top(v.ty, s) if v.ty is not None else VTop(None)
                return v
            rebuild(eng, s, args, f)
            nv = leaves(eng, s, args)
            v = eng.top(rty, s)
            if var is not None and isinstance(v, VEnum):
                if var not in v.vs:
                    continue
                v = VEnum(v.ty, {var: v.vs[var]})
            rets = self.ret_ints(v)
            good = True
            for c in self.post.get(var, ()):
                if c[0] == '>=' and c[1] in nv:
                    good = good and s.assume(('ge', nv[c[1]][1] - old[c[1]][1]))
                elif c[0] == '<=in' and c[1] in nv:
                    good = good and s.assume(('ge', old[c[1]][1] - nv[c[1]][1]))
                elif c[0] == '<=len' and c[1] in nv and c[2] in nv:
                    good = good and s.assume(('ge', nv[c[2]][1] - nv[c[1]][1]))
                elif c[0] == 'progress' and c[1] in nv:
                    if st.facts.implies(old[c[2]][1] - old[c[1]][1] - 1):
                        good = good and s.assume(('ge', nv[c[1]][1] - old[c[1]][1] - 1))
                elif c[0] == 'r>=' and c[1] in rets:
                    good = good and s.assume(('ge', rets[c[1]] - old[c[2]][1]))
                elif c[0] == 'rprogress' and c[1] in rets:
                    if st.facts.implies(old[c[3]][1] - old[c[2]][1] - 1):
                        good = good and s.assume(('ge', rets[c[1]] - old[c[2]][1] - 1))
                elif c[0] == 'r<=len' and c[1] in rets:
                    good = good and s.assume(('ge', old[c[2]][1] - rets[c[1]]))
            if good:
                out.append((s, v))
        return out

    LIMIT = 4096

    def measure(self, st, lv):
        """a leaf that goes up by at least one and stays below a constant, or down above zero from
        a start that is a constant: the depth of the recursion is bounded"""
        for p, x in self.entry.items():
            if x[0] != 'int' or p not in lv:
                continue
            if st.facts.implies(lv[p][1] - x[1] - 1) and st.facts.implies(K(self.LIMIT) - lv[p][1]):
                return p
            if st.facts.implies(x[1] - lv[p][1] - 1) and st.facts.implies(lv[p][1]) and st.facts.implies(K(self.LIMIT) - x[1]):
                return p
        return None
