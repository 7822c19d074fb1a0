"""Abstract values."""
from .lin import Lin, K, V, S


class Val:
    __slots__ = ()


class VInt(Val):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l if isinstance(l, Lin) else K(l)

    def __repr__(self):
        return f"int({self.l})"


class VBool(Val):
    """f: True, False, ('ge',lin), ('eq',lin), ('not',f), ('and',f,g), ('or',f,g), ('ce',c1,c2),
    ('atom',id), ('phi',id,true_facts,false_facts)"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"bool({str(self.f)[:80]})"


class VAgg(Val):
    """struct, tuple, closure or coroutine"""
    __slots__ = ('ty', 'fs')

    def __init__(self, ty, fs):
        self.ty, self.fs = ty, tuple(fs)

    def __repr__(self):
        return f"agg{list(self.fs)}"


class VEnum(Val):
    """vs: {variant: fields}; att: {variant: facts that hold when it is that variant}"""
    __slots__ = ('ty', 'vs', 'att')

    def __init__(self, ty, vs, att=None):
        self.ty, self.vs, self.att = ty, vs, att or {}

    def __repr__(self):
        return f"enum{self.vs}"


class VRef(Val):
    __slots__ = ('root', 'path', 'mut')

    def __init__(self, root, path=(), mut=False):
        self.root, self.path, self.mut = root, path, mut

    def __repr__(self):
        return f"&{self.root}{list(self.path)}"


class VSlice(Val):
    """reference to len elements, from off, of the sequence at (root, path)"""
    __slots__ = ('root', 'path', 'off', 'len', 'mut')

    def __init__(self, root, path, off, ln, mut=False):
        self.root, self.path, self.off, self.len, self.mut = root, path, off, ln, mut

    def __repr__(self):
        return f"&{self.root}{list(self.path)}[{self.off}..+{self.len}]"


class VSeq(Val):
    """owned sequence. elems: known elements or None; summ: what every element looks like;
    segs: for bytes, the content as a tuple of segments"""
    __slots__ = ('len', 'elems', 'summ', 'segs', 'ety')

    def __init__(self, ln, elems=None, summ=None, segs=None, ety=None):
        self.len, self.elems, self.summ, self.segs, self.ety = ln, elems, summ, segs, ety

    def __repr__(self):
        return f"seq(len={self.len}, {self.elems if self.elems is not None else self.segs if self.segs is not None else self.summ})"


class VMod(Val):
    """value of a modelled library type: a kind and fields (values, or anything comparable)"""
    __slots__ = ('kind', 'fs', 'ty')

    def __init__(self, kind, fs=(), ty=None):
        self.kind, self.fs, self.ty = kind, tuple(fs), ty

    def __repr__(self):
        return f"<{self.kind} {list(self.fs)}>"


class VFn(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"fn({self.f.get('inst') or self.f.get('path')})"


class VTop(Val):
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return f"top({self.ty})"


UNIT = VAgg(None, ())

# ------------------------------------------------------------------ byte contents
# segments: ('c', bytes) ('be', n, lin) ('le', n, lin) ('b', lin) ('sub', id, off, len)
#           ('dec', lin, lenlin) ('h', id, args.., lenlin) ('fill', lin, len)

_next = [0]


def new_id(tag):
    _next[0] += 1
    return (tag, _next[0])


def seg_len(s):
    k = s[0]
    if k == 'c':
        return K(len(s[1]))
    if k in ('be', 'le'):
        return K(s[1])
    if k == 'b':
        return K(1)
    return s[-1]


def segs_len(segs):
    r = K(0)
    for s in segs:
        r = r + seg_len(s)
    return r


def norm_segs(segs, facts=None):
    out = []
    for s in segs:
        n = seg_len(s)
        if n.const() == 0:
            continue
        if s[0] == 'b' and s[1].const() is not None:
            s = ('c', bytes([s[1].const() & 255]))
        elif s[0] in ('be', 'le') and s[2].const() is not None:
            s = ('c', (s[2].const() & ((1 << (8 * s[1])) - 1)).to_bytes(s[1], 'big' if s[0] == 'be' else 'little'))
        elif s[0] == 'fill' and s[1].const() is not None and n.const() is not None and n.const() <= 4096:
            s = ('c', bytes([s[1].const()]) * n.const())
        elif s[0] == 'dec' and s[1].const() is not None:
            s = ('c', str(s[1].const()).encode())
        if out:
            p = out[-1]
            if p[0] == 'c' and s[0] == 'c':
                out[-1] = ('c', p[1] + s[1])
                continue
            if p[0] == 'sub' and s[0] == 'sub' and p[1] == s[1] and p[2] + p[3] == s[2]:
                out[-1] = ('sub', p[1], p[2], p[3] + s[3])
                continue
        out.append(s)
    return tuple(out)


def sub_segs(segs, off, ln, facts):
    """content[off .. off+ln], or None when it cannot be expressed"""
    out = []
    pos = K(0)
    todo = ln
    started = False
    for s in segs:
        n = seg_len(s)
        if todo.const() == 0:
            break
        if not started:
            rel = off - pos
            if rel.const() is None:
                if facts.implies(n - rel - ln) and facts.implies(rel):
                    pass  # wholly inside this segment
                elif facts.implies(rel - n):
                    pos = pos + n
                    continue
                else:
                    return None
            else:
                if n.const() is not None and rel.const() >= n.const():
                    pos = pos + n
                    continue
                if n.const() is None and not facts.implies(n - rel - 1):
                    if facts.implies(rel - n):
                        pos = pos + n
                        continue
                    if not (facts.implies(n - rel - ln)):
                        return None
            started = True
            start = rel
        else:
            start = K(0)
        avail = n - start
        if facts.implies(avail - todo):
            take = todo
        elif facts.implies(todo - avail):
            take = avail
        else:
            return None
        p = cut(s, start, take)
        if p is None:
            return None
        out.append(p)
        todo = todo - take
        pos = pos + n
    if todo.const() != 0:
        if not facts.equal(todo, K(0)):
            return None
    return norm_segs(out)


def cut(s, start, take):
    n = seg_len(s)
    if start.const() == 0 and take == n:
        return s
    a, b = start.const(), take.const()
    if s[0] == 'c':
        if a is None or b is None:
            return None
        return ('c', s[1][a:a + b])
    if s[0] == 'sub':
        return ('sub', s[1], s[2] + start, take)
    if s[0] == 'fill':
        return ('fill', s[1], take)
    if s[0] in ('be', 'le') and a is not None and b is not None:
        return ('sub', ('bytes', s), start, take)
    return ('sub', ('part', s), start, take)


def byte_at(segs, i, facts):
    """the byte at index i as a lin"""
    r = sub_segs(segs, i, K(1), facts)
    if r is None or len(r) != 1:
        return None
    s = r[0]
    if s[0] == 'c':
        return K(s[1][0])
    if s[0] == 'b':
        return s[1]
    if s[0] == 'fill':
        return s[1]
    if s[0] == 'be' and s[1] == 1:
        return s[2]
    return V(S.of_term(('byte', s), 0, 255, 'byte'))


# ------------------------------------------------------------------ structural substitution

def subst(o, m, cm=None):
    """replace symbols (m: sym -> Lin) and content ids (cm: id -> id or segs) throughout o"""
    if isinstance(o, Lin):
        if not o.t:
            return o
        r = None
        for s, k in o.t:
            x = m.get(s)
            if x is None and S.term[s] is not None:
                x = subst_term(s, m, cm)
            if x is not None:
                if r is None:
                    r = o
                r = r + Lin(0, ((s, -k),)) + x * k
        return o if r is None else r
    if isinstance(o, tuple):
        if cm and len(o) == 2 and o in cm:
            return cm[o]
        new = tuple(subst(x, m, cm) for x in o)
        return o if all(a is b for a, b in zip(o, new)) else new
    if isinstance(o, frozenset):
        new = frozenset(subst(x, m, cm) for x in o)
        return new
    if isinstance(o, VInt):
        l = subst(o.l, m, cm)
        return o if l is o.l else VInt(l)
    if isinstance(o, VBool):
        f = subst(o.f, m, cm)
        return o if f is o.f else VBool(f)
    if isinstance(o, VAgg):
        f = subst(o.fs, m, cm)
        return o if f is o.fs else VAgg(o.ty, f)
    if isinstance(o, VEnum):
        ch = False
        vs, att = {}, {}
        for k, f in o.vs.items():
            vs[k] = subst(f, m, cm)
            ch = ch or vs[k] is not f
        for k, f in o.att.items():
            att[k] = subst(f, m, cm)
            ch = ch or att[k] is not f
        return VEnum(o.ty, vs, att) if ch else o
    if isinstance(o, VRef):
        p = subst(o.path, m, cm)
        return o if p is o.path else VRef(o.root, p, o.mut)
    if isinstance(o, VSlice):
        p, a, b = subst(o.path, m, cm), subst(o.off, m, cm), subst(o.len, m, cm)
        return o if p is o.path and a is o.off and b is o.len else VSlice(o.root, p, a, b, o.mut)
    if isinstance(o, VSeq):
        a, e, u, g = subst(o.len, m, cm), subst(o.elems, m, cm), subst(o.summ, m, cm), subst(o.segs, m, cm)
        if g is not o.segs and g is not None:
            g = flat_segs(g)
        return o if a is o.len and e is o.elems and u is o.summ and g is o.segs else VSeq(a, e, u, g, o.ety)
    if isinstance(o, VMod):
        f = subst(o.fs, m, cm)
        return o if f is o.fs else VMod(o.kind, f, o.ty)
    return o


def flat_segs(g):
    return norm_segs(g)


_tcache = {}


def term_syms(s):
    """all symbols inside the definition of s (transitively)"""
    r = _tcache.get(s)
    if r is None:
        r = set()
        collect_syms(S.term[s], r, None)
        _tcache[s] = r
    return r


def subst_term(s, m, cm):
    t = S.term[s]
    inner = term_syms(s)
    if not cm and not any(x in m for x in inner):
        return None
    n = subst(t, m, cm)
    if n == t:
        return None
    n = simplify_term(n)
    if isinstance(n, Lin):
        return n
    return V(S.of_term(n, S.lo[s], S.hi[s], S.name[s]))


def simplify_term(t):
    if t[0] == 'mul':
        a, b = t[1], t[2]
        if a.const() is not None:
            return b * a.const()
        if b.const() is not None:
            return a * b.const()
    return t


def collect_syms(o, out, ids):
    if isinstance(o, Lin):
        for s, _ in o.t:
            if s not in out:
                out.add(s)
                if S.term[s] is not None:
                    collect_syms(S.term[s], out, ids)
    elif isinstance(o, (tuple, frozenset, list)):
        if ids is not None and isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str) and isinstance(o[1], int):
            ids.add(o)
        for x in o:
            collect_syms(x, out, ids)
    elif isinstance(o, VInt):
        collect_syms(o.l, out, ids)
    elif isinstance(o, VBool):
        collect_syms(o.f, out, ids)
    elif isinstance(o, (VAgg, VMod)):
        collect_syms(o.fs, out, ids)
    elif isinstance(o, VEnum):
        for f in o.vs.values():
            collect_syms(f, out, ids)
        for f in o.att.values():
            collect_syms(f, out, ids)
    elif isinstance(o, VRef):
        collect_syms(o.path, out, ids)
    elif isinstance(o, VSlice):
        collect_syms(o.path, out, ids)
        collect_syms(o.off, out, ids)
        collect_syms(o.len, out, ids)
    elif isinstance(o, VSeq):
        collect_syms(o.len, out, ids)
        collect_syms(o.elems, out, ids)
        collect_syms(o.summ, out, ids)
        collect_syms(o.segs, out, ids)
