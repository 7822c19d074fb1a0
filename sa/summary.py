"""Summaries of functions of plain data.

A function whose parameters are plain values (no mutable reference, no handle, no closure) and which
reaches a recursive function is analysed once, for arbitrary arguments; when that fires no event a
rule could object to, every call is answered with what it returned then, made fresh."""
from .lin import Lin, K, V, S, Facts, fresh
from .values import *
from .state import State

PLAIN = {'std::string::String', 'std::vec::Vec', 'std::option::Option', 'std::result::Result', 'std::collections::HashMap',
         'std::collections::VecDeque', 'std::collections::BTreeMap', 'std::boxed::Box'}
OPAQUE = {'std::str::Utf8Error', 'std::num::ParseIntError', 'std::num::TryFromIntError', 'std::io::Error', 'std::string::FromUtf8Error',
          'std::array::TryFromSliceError', 'std::alloc::Global', 'std::hash::RandomState', 'std::collections::hash_map::RandomState'}
BENIGN = {'call', 'loop', 'recursion', 'obligation', 'push', 'map_insert', 'store', 'sorted', 'escape', 'alloc', 'unknown', 'digest'}


def self_crate(P):
    return 'rust_bit'


def plain(P, ty, memo, ref_ok=True):
    if ty in memo:
        return memo[ty]
    memo[ty] = True
    t = P.ty(ty)
    k = t['k']
    if k in ('uint', 'int', 'char', 'bool', 'str', 'float'):
        r = True
    elif k == 'ref':
        r = not t.get('mut') and t.get('e') is not None and plain(P, t['e'], memo)
    elif k in ('slice', 'array'):
        r = plain(P, t['e'], memo)
    elif k == 'tuple':
        r = all(plain(P, a, memo) for a in t['a'])
    elif k == 'adt':
        p = t['path']
        if p in OPAQUE:
            r = True
        elif p in PLAIN:
            r = all(plain(P, a, memo) for a in t.get('a', []) if isinstance(a, int))
        elif t.get('crate') == self_crate(P) and t.get('v') is not None:
            r = all(plain(P, f[1], memo) for v in t['v'] for f in v['f'])
        else:
            r = False
    else:
        r = False
    memo[ty] = r
    return r


class Recorder:
    """what happens in a function that is analysed for arbitrary arguments; a place that panics unless
    a condition on the lengths of the arguments holds is taken as a precondition"""
    def __init__(self, lens):
        self.kinds = set()
        self.pre = []
        self.lens = lens
        self.skip = False

    def on(self, eng, kind, st, fr, kw):
        if kind == 'obligation' and not kw.get('ok'):
            h = kw.get('holds')
            xs = set()
            collect_syms(h, xs, None)
            if h is not None and xs and xs <= self.lens:
                self.pre.append(h)
                self.skip = True
                return
            kind = 'failed obligation'
        if kind == 'panic' and self.skip:
            self.skip = False
            return
        self.skip = False
        if (kind == 'loop' and kw.get('measure') is None or kind == 'recursion' and not kw.get('bounded') or
                kind == 'alloc' and kw['size'].const() is None):
            kind = 'unbounded ' + kind
        self.kinds.add(kind)

    def mark(self):
        return set(self.kinds), list(self.pre)

    def reset(self, m):
        self.kinds, self.pre = set(m[0]), list(m[1])


class Summaries:
    def __init__(self, eng):
        self.e = eng
        self.done = {}
        self.memo = {}
        self.reach = self.graph = None
        self.busy = set()

    def eligible(self, name):
        P = self.e.P
        i = P.inst[name]
        if not str(i.get('span', '')).startswith('src') or i['kind'] != 'fn':
            return False
        if name in P.recursive():
            return False
        if name not in P.reaches_recursive() and not (name in P.reaches_loop() and
                                                      (self.e.flags.get('cut_loops') or self.only_flags(i['locals'][0]))):
            return False
        if self.effects(name):
            return False
        return all(plain(P, i['locals'][k], self.memo) for k in range(i['argc'] + 1)) and i['argc'] > 0

    def effects(self, name):
        """whether something is reachable that does more than compute"""
        from .graph import Graph
        from .rules.concurrency import blocking
        if self.graph is None:
            self.graph = Graph(self.e.P)
        return any(kind == 'lib' and (blocking(self.e.P, x, t) or x.endswith(('do_send', 'try_send')))
                   for n, kind, x, t, _ in self.graph.walk(name))

    def only_flags(self, ty):
        """a collection of booleans: nothing is ever related to what is in it"""
        t = self.e.P.ty(ty)
        return t['k'] == 'adt' and t['path'] == 'std::vec::Vec' and self.e.P.ty(t['a'][0])['k'] == 'bool'

    def get(self, name):
        """the summary, or None when the function has to be followed"""
        if name in self.done:
            return self.done[name]
        self.done[name] = None
        if name in self.e.no_summary or not self.eligible(name):
            return None
        e = self.e
        st = State()
        i = e.P.inst[name]
        args = [e.top(i['locals'][k + 1], st, f'{name.split("::")[-1]}{k}') for k in range(i['argc'])]
        lens = {}
        for k, a in enumerate(args):
            n = length_of(e, st, a)
            if n is not None and len(n.t) == 1 and n.c == 0 and n.t[0][1] == 1:
                lens[n.t[0][0]] = k
        rules, rec = e.rules, Recorder(set(lens))
        e.rules = [rec]
        try:
            outs = e.call_body(name, args, st, None, ('summary', name))
        finally:
            e.rules = rules
        if rec.kinds - BENIGN:
            e.stats['inlined'] = e.stats.get('inlined', set()) | {(name, tuple(sorted(rec.kinds - BENIGN)))}
            return None
        tpl = []
        for s, v in outs:
            x = self.template(s, v)
            if x is None:
                return None
            tpl.append(x)
        e.stats['summaries'] = e.stats.get('summaries', set()) | {name}
        pre = [(h, lens) for h in rec.pre]
        self.done[name] = (tpl, pre)
        return self.done[name]

    def holds(self, sm, args, st):
        """do these arguments meet the preconditions, and is nothing better known about them?"""
        tpl, pre = sm
        for h, lens in pre:
            m = {}
            for x, k in lens.items():
                n = length_of(self.e, st, args[k])
                if n is None:
                    return False
                m[x] = n
            if st.truth(subst(h, m, None)) is not True:
                return False
        for a in args:
            # text that the program put together itself is followed in detail
            q = seq_of(self.e, st, a)
            if q is not None and q.segs and any(s[0] in ('dec', 'c') for s in q.segs):
                return False
        return True

    def template(self, s, v):
        cells, todo = {}, [v]
        while todo:
            rs = []
            if not shared_refs(todo.pop(), rs):
                return None
            for r in rs:
                if r not in cells:
                    if r not in s.mem or r[0] not in ('k', 'h', 'j'):
                        return None
                    cells[r] = no_atoms(s.mem[r])
                    todo.append(cells[r])
        syms, ids = set(), set()
        v = no_atoms(v)
        collect_syms(v, syms, ids)
        for r, x in cells.items():
            if r[0] != 'k':
                collect_syms(x, syms, ids)
        ge = set()
        grew = True
        while grew and len(ge) < 200:
            grew = False
            for l in s.facts.ge:
                if l not in ge and any(y in syms for y, _ in l.t):
                    x = set()
                    collect_syms(l, x, ids)
                    ge.add(l)
                    if not x <= syms:
                        syms |= x
                        grew = True
        ne = {l for l in s.facts.ne if all(y in syms for y, _ in l.t)}
        ce = set()
        for p in s.facts.ce:
            i2, y2 = set(), set()
            collect_syms(p, y2, i2)
            if i2 <= ids and y2 <= syms:
                ce.add(p)
        mem = cells
        return v, ge, ne, ce, mem, syms, ids

    def apply(self, sm, st):
        from .engine import rename_state
        tpl = sm[0]
        out = []
        for v, ge, ne, ce, mem, syms, ids in tpl:
            m = {x: V(S.fresh(S.lo[x], S.hi[x], S.name[x])) for x in syms if S.term[x] is None}
            cm = {i: new_id(i[0]) for i in ids if i[0] != 'k'}
            roots = {}
            for k in mem:
                if k[0] != 'k':
                    n = 0
                    while ('h', self.e.at, ('s', n)) in st.mem or ('h', self.e.at, ('s', n)) in roots.values():
                        n += 1
                    roots[k] = ('h', self.e.at, ('s', n))
            own = {roots[k]: move_roots(x, roots) for k, x in mem.items() if k in roots}
            t = rename_state(State({('r', 0): move_roots(v, roots), **{('c', k): x for k, x in own.items()}}, Facts(frozenset(ge), frozenset(ne), {}, frozenset(ce)), {}), m, cm)
            s = st.copy()
            for k, x in mem.items():
                if k not in roots:
                    s.mem.setdefault(k, x)
            for k in own:
                s.mem[k] = t.mem[('c', k)]
            f = s.facts
            for l in t.facts.ge:
                f = f.add_ge(l) or f
            for l in t.facts.ne:
                f = f.add_ne(l) or f
            for p in t.facts.ce:
                a, b = tuple(p) if len(p) == 2 else (None, None)
                if a is not None:
                    f = f.add_ce(a, b) or f
            s.facts = f
            out.append((s, no_atoms(t.mem[('r', 0)])))
        return out


def seq_of(e, st, a):
    if isinstance(a, VRef):
        try:
            a = e.load(st, a.root, a.path)
        except Exception:
            return None
    if isinstance(a, VSlice):
        try:
            return e.seq_val(st, a)
        except Exception:
            return None
    return a if isinstance(a, VSeq) else None


def length_of(e, st, a):
    if isinstance(a, VSlice):
        return a.len
    q = seq_of(e, st, a)
    return q.len if q is not None else None


def shared_refs(v, out):
    """the cells a value refers to; False when one of them could be written through it"""
    if isinstance(v, (VRef, VSlice)):
        if v.mut:
            return False
        out.append(v.root)
        return True
    if isinstance(v, (VAgg, VMod)):
        return all(shared_refs(x, out) for x in v.fs if isinstance(x, Val))
    if isinstance(v, VEnum):
        return all(shared_refs(x, out) for fs in v.vs.values() for x in fs)
    if isinstance(v, VSeq):
        return all(shared_refs(x, out) for x in v.elems or ()) and (not isinstance(v.summ, Val) or shared_refs(v.summ, out))
    return True


def move_roots(v, m):
    if not m:
        return v
    if isinstance(v, VRef):
        return VRef(m.get(v.root, v.root), v.path, v.mut)
    if isinstance(v, VSlice):
        return VSlice(m.get(v.root, v.root), v.path, v.off, v.len, v.mut)
    if isinstance(v, VAgg):
        return VAgg(v.ty, [move_roots(x, m) if isinstance(x, Val) else x for x in v.fs])
    if isinstance(v, VMod):
        return VMod(v.kind, [move_roots(x, m) if isinstance(x, Val) else x for x in v.fs], v.ty)
    if isinstance(v, VEnum):
        return VEnum(v.ty, {k: tuple(move_roots(x, m) for x in fs) for k, fs in v.vs.items()}, v.att)
    if isinstance(v, VSeq):
        return VSeq(v.len, None if v.elems is None else tuple(move_roots(x, m) for x in v.elems),
                    move_roots(v.summ, m) if isinstance(v.summ, Val) else v.summ, v.segs, v.ety)
    return v


def atoms_in(o):
    if isinstance(o, tuple):
        if o and o[0] in ('atom', 'phi'):
            return True
        return any(atoms_in(x) for x in o)
    if isinstance(o, (VInt, Lin, int, str)) or o is None:
        return False
    return False


def no_atoms(v):
    if isinstance(v, VBool):
        return VBool(('atom', new_id('b')[1])) if v.f not in (True, False) else v
    if isinstance(v, VAgg):
        return VAgg(v.ty, [no_atoms(x) if isinstance(x, Val) else x for x in v.fs])
    if isinstance(v, VMod):
        return VMod(v.kind, [no_atoms(x) if isinstance(x, Val) else x for x in v.fs], v.ty)
    if isinstance(v, VEnum):
        return VEnum(v.ty, {k: tuple(no_atoms(x) for x in fs) for k, fs in v.vs.items()},
                     {k: tuple(f for f in fs if not atoms_in(f)) for k, fs in v.att.items()})
    if isinstance(v, VSeq):
        return VSeq(v.len, None if v.elems is None else tuple(no_atoms(x) for x in v.elems),
                    no_atoms(v.summ) if isinstance(v.summ, Val) else v.summ, v.segs, v.ety)
    return v

