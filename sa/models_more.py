"""Functions of the standard library that the crate does not use today but that changes to it may well bring in."""
from .lin import K, S, fresh, ISIZE_MAX
from .values import *
from .state import window
from .engine import Unsupported
from .models import (model, num, opt, deref_val, elem_ty, m_own_next, m_slice_next, m_slice_next_back, mk_iter, minmax, push_val, weak_summ, range_of, append_segs,
                     unknown, escape)


def at(c, st, r):
    root, path, off, ln = c.e.seq_at(st, r)
    return root, path, c.e.load(st, root, path)


def glue(st, a, b):
    """one sequence after the other"""
    n = a.len + b.len
    elems = a.elems + b.elems if a.elems is not None and b.elems is not None else None
    segs = norm_segs(a.segs + b.segs) if a.segs is not None and b.segs is not None else None
    summ = a.summ if a.summ is b.summ else None
    return VSeq(n, elems, summ, segs, a.ety)


@model('std::vec::Vec::<T, A>::drain', 'std::collections::VecDeque::<T, A>::drain')
def m_drain(c, st, r, rng):
    root, path, q = at(c, st, r)
    lim = range_of(c, st, rng, q.len)
    if lim is None:
        return unknown(c, st, r, rng)
    a, b = lim
    if not c.e.oblige(st, c.fr, 'range of drain', ('ge', b - a), sp=c.t.get('sp')) or not c.e.oblige(st, c.fr, 'range of drain', ('ge', q.len - b), sp=c.t.get('sp')):
        return None
    out = window(q, a, b - a, st.facts)
    c.e.store(st, root, path, glue(st, window(q, K(0), a, st.facts), window(q, b, q.len - b, st.facts)))
    return VMod('own_iter', (out, VInt(K(0))), c.ret_ty)


model("<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next", "<std::collections::vec_deque::Drain<'_, T, A> as std::iter::Iterator>::next",
      "<std::str::Bytes<'_> as std::iter::Iterator>::next")(m_own_next)


@model('core::str::<impl str>::bytes')
def m_bytes(c, st, a):
    return VMod('own_iter', (c.e.seq_val(st, a), VInt(K(0))), c.ret_ty)


@model('std::vec::Vec::<T, A>::split_off', 'std::string::String::split_off')
def m_split_off(c, st, r, n):
    root, path, q = at(c, st, r)
    if not c.e.oblige(st, c.fr, 'split index', ('ge', q.len - n.l), sp=c.t.get('sp')):
        return None
    c.e.store(st, root, path, window(q, K(0), n.l, st.facts))
    return window(q, n.l, q.len - n.l, st.facts)


@model('std::vec::Vec::<T, A>::resize')
def m_resize(c, st, r, n, x):
    root, path, q = at(c, st, r)
    c.e.fire('alloc', st, c.fr, size=n.l)
    out = []
    s1 = st.copy()
    if s1.assume(('ge', q.len - n.l)):
        c.e.store(s1, root, path, window(q, K(0), n.l, s1.facts))
        out.append((s1, UNIT))
    if st.assume(('ge', n.l - q.len - 1)):
        segs = None
        if q.segs is not None and isinstance(x, VInt):
            k = (n.l - q.len).const()
            segs = q.segs + ((('b', x.l),) * k if k is not None and k <= 64 else (('sub', new_id('resize'), K(0), n.l - q.len),))
            segs = norm_segs(segs)
        c.e.store(st, root, path, VSeq(n.l, None, None if q.segs is not None else weak_summ(c, st, q, x), segs, q.ety))
        out.append((st, UNIT))
    return out


@model('std::vec::Vec::<T, A>::retain', 'std::collections::VecDeque::<T, A>::retain', 'std::vec::Vec::<T, A>::dedup', 'std::vec::Vec::<T, A>::retain_mut')
def m_retain(c, st, r, *f):
    root, path, q = at(c, st, r)
    for x in f:
        escape(c, st, x)
    n = fresh(0, ISIZE_MAX)
    st.facts = st.facts.add_ge(q.len - n) or st.facts
    st.set_ghost(**{'~nu': True})
    c.e.store(st, root, path, VSeq(n, None, q.summ, None if q.segs is None else (('sub', new_id('kept'), K(0), n),), q.ety))
    return UNIT


@model('core::slice::<impl [T]>::swap')
def m_swap(c, st, r, i, j):
    root, path, off, ln = c.e.seq_at(st, r)
    for x in (i, j):
        if not c.e.oblige(st, c.fr, 'index out of bounds', ('ge', ln - x.l - 1), sp=c.t.get('sp')):
            return None
    q = c.e.load(st, root, path)
    a, b = (off + i.l), (off + j.l)
    if q.elems is not None and a.const() is not None and b.const() is not None:
        es = list(q.elems)
        es[a.const()], es[b.const()] = es[b.const()], es[a.const()]
        c.e.store(st, root, path, VSeq(q.len, tuple(es), None, None, q.ety))
        return UNIT
    x, y = c.e.load(st, root, path + (('e', a),)), c.e.load(st, root, path + (('e', b),))
    c.e.store(st, root, path + (('e', a),), y)
    c.e.store(st, root, path + (('e', b),), x)
    return UNIT


@model('<std::vec::Vec<T> as std::default::Default>::default', '<std::string::String as std::default::Default>::default',
       '<std::collections::VecDeque<T> as std::default::Default>::default', 'core::slice::<impl std::default::Default for &[T]>::default')
def m_default_seq(c, st):
    t = c.e.P.ty(c.ret_ty)
    if t['k'] == 'ref':
        t = c.e.P.ty(t['e'])
        b = t['k'] == 'str' or t.get('e') == c.e.P.u8
        q = VSeq(K(0), None if b else (), None, () if b else None, c.e.P.u8 if b else t['e'])
        return VSlice(c.e.alloc(st, c.key('d'), q), (), K(0), K(0))
    b = t['path'].endswith('String') or t['a'][0] == c.e.P.u8
    return VSeq(K(0), None if b else (), None, () if b else None, c.e.P.u8 if b else t['a'][0])


@model('std::intrinsics::typed_swap_nonoverlapping')
def m_mem_swap(c, st, a, b):
    if not isinstance(a, VRef) or not isinstance(b, VRef):
        return unknown(c, st, a, b)
    x, y = c.e.load(st, a.root, a.path), c.e.load(st, b.root, b.path)
    c.e.store(st, a.root, a.path, y)
    c.e.store(st, b.root, b.path, x)
    return UNIT


@model('std::intrinsics::integer_min')
def m_int_min(c, st, a, b):
    return VInt(minmax(c, st, a.l, b.l, True))


# ---------------------------------------------------------------- VecDeque

@model('std::collections::VecDeque::<T, A>::remove')
def m_vd_remove(c, st, r, i):
    root, path, q = at(c, st, r)
    out = []
    s1 = st.copy()
    f = ('ge', q.len - i.l - 1)
    if s1.assume(f, False):
        out.append((s1, opt(c)))
    if st.assume(f):
        v = c.e.load(st, root, path + (('e', i.l),))
        if i.l.const() == 0:
            c.e.fire('pop', st, c.fr, seq=r)
            c.e.fire('popped', st, c.fr, seq=r, val=v, end='front', ety=q.ety)
        else:
            c.e.fire('removed', st, c.fr, seq=r, val=v)
        c.e.store(st, root, path, glue(st, window(q, K(0), i.l, st.facts), window(q, i.l + 1, q.len - i.l - 1, st.facts)))
        out.append((st, opt(c, v, none=False)))
    return out


@model('std::collections::VecDeque::<T, A>::insert')
def m_vd_insert(c, st, r, i, v):
    from .models import m_insert
    return m_insert(c, st, r, i, v)


@model('std::collections::VecDeque::<T, A>::back')
def m_vd_back(c, st, a):
    root, path, off, ln = c.e.seq_at(st, a)
    out = []
    s1 = st.copy()
    if s1.assume(('eq', ln)):
        out.append((s1, opt(c)))
    if st.assume(('ge', ln - 1)):
        out.append((st, opt(c, c.e.elem_ref(st, VSlice(root, path, off, ln), ln - 1, c.key('f')), none=False)))
    return out


@model('std::collections::VecDeque::<T, A>::iter_mut', "<&'a mut std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter")
def m_vd_iter_mut(c, st, a):
    return mk_iter(c, st, a, True)


model("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::next")(m_slice_next)
model("<std::collections::vec_deque::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")(m_slice_next_back)


@model('<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from', '<std::vec::Vec<T, A> as std::convert::From<std::collections::VecDeque<T, A>>>::from')
def m_vd_from(c, st, v):
    return v


@model('std::vec::Vec::<T, A>::extend_from_within')
def m_efw(c, st, r, rng):
    return unknown(c, st, r, rng)


# ---------------------------------------------------------------- parts of slices

def parts(c, st, a, n, make):
    """None when there are fewer than n, otherwise what make gives"""
    root, path, off, ln = c.e.seq_at(st, a)
    out = []
    s1 = st.copy()
    f = ('ge', ln - n)
    if s1.assume(f, False):
        out.append((s1, opt(c)))
    if st.assume(f):
        m = getattr(a, 'mut', False)
        out.append((st, opt(c, make(VSlice(root, path, off, n, m), VSlice(root, path, off + n, ln - n, m)), none=False)))
    return out


@model('core::slice::<impl [T]>::split_at_checked')
def m_split_at_checked(c, st, a, n):
    return parts(c, st, a, n.l, lambda x, y: VAgg(elem_ty(c, c.ret_ty), (x, y)))


def array_ref(c, st, sl):
    """a reference to an array of what the slice has"""
    return VRef(c.e.alloc(st, c.key('arr'), c.e.seq_val(st, sl)), ())


def array_len(c, ty, d=0):
    """N of the array in a type"""
    t = c.e.P.ty(ty)
    if t['k'] == 'array':
        return t['n']
    if d > 6:
        return None
    for k in ('t', 'a', 'e'):
        x = t.get(k)
        for y in (x if isinstance(x, (list, tuple)) else [x]):
            if isinstance(y, int):
                n = array_len(c, y, d + 1)
                if n is not None:
                    return n
    return None


@model('core::slice::<impl [T]>::first_chunk')
def m_first_chunk(c, st, a):
    n = array_len(c, c.ret_ty)
    if n is None:
        return unknown(c, st, a)
    return parts(c, st, a, K(n), lambda x, y: array_ref(c, st, x))


@model('core::slice::<impl [T]>::split_first_chunk')
def m_split_first_chunk(c, st, a):
    n = array_len(c, c.ret_ty)
    if n is None:
        return unknown(c, st, a)
    return parts(c, st, a, K(n), lambda x, y: VAgg(elem_ty(c, c.ret_ty), (array_ref(c, st, x), y)))


# ---------------------------------------------------------------- numbers

@model('std::cmp::Ord::clamp', *[f'std::cmp::impls::<impl std::cmp::Ord for {t}>::clamp' for t in 'u8 u16 u32 u64 usize i32 i64 isize'.split()])
def m_clamp(c, st, x, a, b):
    if not all(isinstance(v, VInt) for v in (x, a, b)):
        return NotImplemented
    if not c.e.oblige(st, c.fr, 'clamp bounds', ('ge', b.l - a.l), sp=c.t.get('sp')):
        return None
    out = []
    for f, v in ((('ge', a.l - x.l - 1), a), (('ge', x.l - b.l - 1), b), (None, x)):
        s = st.copy()
        if f is None:
            if s.assume(('ge', x.l - a.l)) and s.assume(('ge', b.l - x.l)):
                out.append((s, v))
        elif s.assume(f):
            out.append((s, v))
    return out


# ---------------------------------------------------------------- maps

@model('std::collections::HashMap::<K, V, S, A>::remove')
def m_map_remove(c, st, r, k):
    m = deref_val(c, st, r)
    v = c.e.top(c.ret_ty, st)
    if isinstance(m, VMod) and m.kind == 'map':
        c.e.fire('map_remove', st, c.fr, map=r, key=k)
        ents, ln = m.fs[0], m.fs[1].l
        kc = None
        try:
            kc = c.e.seq_val(st, k).segs
        except Unsupported:
            pass
        if ents is not None and kc is not None and all(s[0] == 'c' for s in kc) and all(x[0] is not None and all(s[0] == 'c' for s in x[0]) for x in ents):
            old = [x[1] for x in ents if x[0] == kc]
            rest = tuple(x for x in ents if x[0] != kc)
            c.e.store(st, r.root, r.path, VMod('map', (rest, VInt(K(len(rest))), new_id('map')), m.ty))
            return opt(c, old[0], none=False) if old else opt(c)
        nl = fresh(0, ISIZE_MAX)
        st.facts = st.facts.add_ge(ln - nl) or st.facts
        st.facts = st.facts.add_ge(nl + 1 - ln) or st.facts
        c.e.store(st, r.root, r.path, VMod('map', (None, VInt(nl), new_id('map')), m.ty))
    return v


# ---------------------------------------------------------------- iterators whose items are not followed

def _opaque_iters():
    for n in ('std::str::CharIndices', 'std::str::Lines', 'std::str::Split', 'std::str::SplitN', 'std::str::RSplit', 'std::str::SplitWhitespace', 'std::slice::RChunks', 'std::str::SplitTerminator',
              'std::collections::hash_map::ValuesMut', 'std::collections::btree_map::Iter', 'std::collections::btree_map::Keys', 'std::collections::btree_map::Values',
              'std::collections::hash_set::Iter', 'std::collections::hash_map::IterMut', 'std::slice::ChunksMut', 'std::collections::hash_map::IntoKeys', 'std::collections::hash_map::IntoValues',
              'std::collections::btree_map::IntoIter', 'std::collections::hash_set::IntoIter'):
        for a in ("<'a>", "<'_>", "<'a, P>", "<'a, T>", "<'a, K, V>", "<'a, K>", '<K, V, A>', '<K, V>', '<K, A>', ''):
            model(f'<{n}{a} as std::iter::Iterator>::next')(lambda c, st, r: c.e.top(c.ret_ty, st))


_opaque_iters()


# ---------------------------------------------------------------- operations without a check; rules judge them (C37)

@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def m_get_unchecked(c, st, a, ix):
    root, path, off, ln = c.e.seq_at(st, a)
    mut = c.f['path'].endswith('mut')
    if isinstance(ix, VInt):
        if not st.assume(('ge', ln - ix.l - 1)):
            return None
        return c.e.elem_ref(st, VSlice(root, path, off, ln), ix.l, c.key('ix'), mut)
    r = range_of(c, st, ix, ln)
    if r is None:
        raise Unsupported('range')
    a0, b0 = r
    if not (st.assume(('ge', b0 - a0)) and st.assume(('ge', ln - b0))):
        return None
    return VSlice(root, path, off + a0, b0 - a0, mut)


@model('std::option::Option::<T>::unwrap_unchecked', 'std::result::Result::<T, E>::unwrap_unchecked')
def m_unwrap_unchecked(c, st, v):
    if not isinstance(v, VEnum):
        raise Unsupported('unwrap_unchecked')
    k = 0 if 'Result' in c.f['path'] else 1
    if k not in v.vs or not all(st.assume(x) for x in v.att.get(k, ())):
        return None
    return v.vs[k][0]
