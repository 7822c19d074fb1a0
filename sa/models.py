"""What the library functions do, as far as the analysis needs it."""
import itertools
import re
from .lin import Lin, K, V, S, Facts, fresh, term, U64, ISIZE_MAX
from .values import *
from .state import reduced, solved, window, summary, facts_as_list
from .engine import Unsupported, fnot, fand, Ctx, load_path

REG = {}
TOPS = {}
CONSTS = {}
CTORS = {}

# documented panics that cannot be reached from what the program does with them, with the reason
NO_PANIC = {
    'std::sync::Mutex::<T>::lock': 'panics only when the same thread already holds it (C21 forbids nested locking)',
    'tokio::task::spawn_blocking': 'panics outside a runtime; every caller is polled by one',
    'actix::clock::timeout': 'panics outside a runtime',
    '<actix::clock::Timeout<T> as std::future::Future>::poll': 'panics outside a runtime',
    '<tokio::task::JoinHandle<T> as std::future::Future>::poll': 'panics when polled after completion',
    'tokio::net::UdpSocket::bind::{closure#0}': 'panics outside a runtime',
    'tokio::net::UdpSocket::connect::{closure#0}': 'panics outside a runtime',
    'tokio::net::UdpSocket::send::{closure#0}': 'panics outside a runtime',
    'std::vec::Vec::<T, A>::push': 'capacity above isize::MAX',
    'std::vec::Vec::<T, A>::append': 'capacity above isize::MAX',
    'std::vec::Vec::<T, A>::extend_from_slice': 'capacity above isize::MAX',
    'std::vec::Vec::<T>::with_capacity': 'capacity above isize::MAX (C18 bounds it)',
    'std::string::String::push_str': 'capacity above isize::MAX',
    'std::slice::<impl [T]>::sort_by': 'panics only when the order is not total',
}


def model(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


class Models:
    def __init__(self):
        self.tops, self.consts, self.ctors = TOPS, CONSTS, CTORS
        self.summaries = {}

    def get(self, name, f):
        return REG.get(name)

    def local(self, eng, d):
        """models for functions of the crate: what #[derive] generates"""
        if d.get('derived'):
            tr = d.get('trait') or ''
            if tr == 'std::fmt::Debug':
                return lambda c, st, *a: ok(c, UNIT)
            if tr == 'std::clone::Clone':
                return lambda c, st, a: deref_val(c, st, a)
        if d['path'].startswith('<') and 'std::fmt::Display' in d['path'] or (d.get('trait') or '') in ('std::fmt::Display', 'std::fmt::Debug', 'std::error::Error'):
            return lambda c, st, *a: c.e.top(c.ret_ty, st)
        return None

    def ctor(self, eng, f, args, st, t):
        ty = t['dt'] if 'dt' in t else None
        tt = eng.P.ty(ty)
        name = f['path'].split('::')[-1]
        if tt.get('ak') == 'enum':
            for i, v in enumerate(tt['v']):
                if v['n'] == name:
                    return [(st, VEnum(ty, {i: tuple(args)}))]
        return [(st, VAgg(ty, args))]

    def drop(self, eng, fr, t, st):
        p = t['p']
        if len(p) != 1:
            return
        v = st.mem.get((fr.fid, p[0]))
        if v is not None and has_guard(v):
            eng.fire('unlock', st, fr)

    def transmute(self, eng, v, ty, st):
        return eng.top(ty, st)

    def recursive(self, eng, name, args, st, fr, site):
        c = eng.contracts.get(name)
        if c is not None:
            return c.apply(eng, args, st, fr, site)
        raise Unsupported(f'recursive call of {name}')

    def unknown(self, c, st, *args):
        return unknown(c, st, *args)

    def unknown_call(self, c, st, fv, args):
        havoc_args(c, st, args)
        return c.e.top(c.ret_ty, st)


def has_guard(v):
    if isinstance(v, VMod):
        return v.kind == 'guard' or any(has_guard(x) for x in v.fs if isinstance(x, Val))
    if isinstance(v, VEnum):
        return any(has_guard(x) for fs in v.vs.values() for x in fs)
    if isinstance(v, VAgg):
        return any(has_guard(x) for x in v.fs)
    return False


def unknown(c, st, *args):
    e = c.e
    name = c.f.get('resolved') or c.f.get('path')
    e.stats['unknown'].add(name)
    if c.f.get('panics') and name not in NO_PANIC:
        e.panic(st, c.fr, 'may panic: ' + name, sp=c.t.get('sp'))
    e.fire('unknown', st, c.fr, f=c.f, args=args, t=c.t)
    for a in args:
        escape(c, st, a)
    havoc_args(c, st, args)
    if c.ret_ty is None:
        return None
    if e.P.ty(c.ret_ty)['k'] == 'never':
        return None
    return e.top(c.ret_ty, st)


def escape(c, st, a):
    """closures and async blocks handed to code we do not see: they may run"""
    e = c.e
    for v in closures_in(c, st, a):
        c.e.fire('escape', st, c.fr, value=v, f=c.f)


def closures_in(c, st, v, depth=0):
    if depth > 3:
        return
    if isinstance(v, VAgg) and v.ty is not None and c.e.P.ty(v.ty)['k'] in ('closure', 'coroutine'):
        yield v
    elif isinstance(v, VAgg):
        for x in v.fs:
            yield from closures_in(c, st, x, depth + 1)
    elif isinstance(v, VMod):
        for x in v.fs:
            if isinstance(x, Val):
                yield from closures_in(c, st, x, depth + 1)


def havoc_args(c, st, args):
    seen = set()
    for a in args:
        havoc_val(c, st, a, seen)
    if seen:
        # what it wrote is not known
        st.set_ghost(**{'~nu': True})


def havoc_val(c, st, v, seen):
    if isinstance(v, (VRef, VSlice)):
        if not v.mut:
            return
        k = (v.root, v.path)
        if k in seen:
            return
        seen.add(k)
        try:
            old = c.e.load(st, v.root, v.path)
        except Unsupported:
            return
        if isinstance(v, VSlice):
            c.e.havoc_elems(st, v.root, v.path, old)
            return
        c.e.store(st, v.root, v.path, havoced(c, st, old, seen))
    elif isinstance(v, (VAgg, VMod)):
        for x in v.fs:
            if isinstance(x, Val):
                havoc_val(c, st, x, seen)
    elif isinstance(v, VEnum):
        for fs in v.vs.values():
            for x in fs:
                havoc_val(c, st, x, seen)


def havoced(c, st, old, seen):
    """an arbitrary value of the same type"""
    e = c.e
    if isinstance(old, VInt):
        b = [(S.lo[s], S.hi[s]) for s, _ in old.l.t]
        return VInt(fresh(None if not b else b[0][0], None if not b else b[0][1]))
    if isinstance(old, VBool):
        return VBool(('atom', new_id('b')[1]))
    if isinstance(old, (VAgg, VEnum, VTop)) and old.ty is not None:
        havoc_val(c, st, old, seen)
        return e.top(old.ty, st)
    if isinstance(old, VSeq):
        n = fresh(0, ISIZE_MAX)
        return VSeq(n, None, None, None if old.segs is None else (('sub', new_id('hv'), K(0), n),), old.ety)
    if isinstance(old, (VRef, VSlice)):
        havoc_val(c, st, old, seen)
        return old
    if isinstance(old, VMod):
        havoc_val(c, st, old, seen)
        return old
    return old


# ---------------------------------------------------------------- helpers

def opt(c, some=None, ty=None, none=True, att_some=(), att_none=()):
    ty = c.ret_ty if ty is None else ty
    vs, att = {}, {}
    if none:
        vs[0] = ()
        if att_none:
            att[0] = tuple(att_none)
    if some is not None:
        vs[1] = (some,)
        if att_some:
            att[1] = tuple(att_some)
    return VEnum(ty, vs, att)


def res(c, okv=None, err=True, ty=None, att_ok=(), att_err=(), st=None, errv=None):
    ty = c.ret_ty if ty is None else ty
    vs, att = {}, {}
    if okv is not None:
        vs[0] = (okv,)
        if att_ok:
            att[0] = tuple(att_ok)
    if err:
        t = c.e.P.ty(ty)
        ev = errv
        if ev is None:
            ev = c.e.top(t['v'][1]['f'][0][1], st) if st is not None else VTop(t['v'][1]['f'][0][1])
        vs[1] = (ev,)
        if att_err:
            att[1] = tuple(att_err)
    return VEnum(ty, vs, att)


def ok(c, v):
    return VEnum(c.ret_ty, {0: (v,)})


def gen_args(c):
    return c.f.get('args') or []


def deref_val(c, st, a):
    """the value behind one reference"""
    if isinstance(a, VRef):
        return c.e.load(st, a.root, a.path)
    return a


def deref_all(c, st, a):
    for _ in range(6):
        if isinstance(a, VRef):
            a = c.e.load(st, a.root, a.path)
        elif isinstance(a, VMod) and a.kind in ('box', 'cow') and a.fs:
            a = a.fs[0]
        else:
            break
    return a


def new_bytes(c, ln=None, tag='new'):
    ln = fresh(0, ISIZE_MAX, 'len') if ln is None else ln
    return VSeq(ln, None, None, (('sub', new_id(tag), K(0), ln),), c.e.P.u8)


def bytes_seq(c, segs):
    segs = norm_segs(segs)
    return VSeq(segs_len(segs), None, None, segs, c.e.P.u8)


def const_str(c, b):
    return VSeq(K(len(b)), None, None, (('c', b),) if b else (), c.e.P.u8)


def slice_ref(c, st, q, x='s', mut=False):
    k = c.e.alloc(st, c.key(x), q)
    return VSlice(k, (), K(0), q.len, mut)


def seg_content(c, st, v):
    q = c.e.seq_val(st, v)
    if q.segs is None:
        return None
    return q.segs


def elem_ty(c, ty, n=0):
    return c.e.P.ty(ty)['a'][n]


# ---------------------------------------------------------------- top values of library types

def top(path):
    def d(f):
        TOPS[path] = f
        return f
    return d


@top('std::vec::Vec')
def _(e, st, ty, t, name, depth, seen):
    return e.top_seq(t['a'][0], fresh(0, ISIZE_MAX, name + '.len'), st, name)


@top('std::collections::VecDeque')
def _(e, st, ty, t, name, depth, seen):
    return e.top_seq(t['a'][0], fresh(0, ISIZE_MAX, name + '.len'), st, name)


@top('std::string::String')
def _(e, st, ty, t, name, depth, seen):
    return e.top_seq(e.P.u8, fresh(0, ISIZE_MAX, name + '.len'), st, name)


@top('sha1::digest::generic_array::GenericArray')
def _(e, st, ty, t, name, depth, seen):
    return e.top_seq(e.P.u8, K(20) if 'UInt' in t['s'] else fresh(0, ISIZE_MAX), st, name)


@top('std::collections::HashMap')
def _(e, st, ty, t, name, depth, seen):
    return VMod('map', (None, VInt(fresh(0, ISIZE_MAX, 'maplen')), new_id('map')), ty)


@top('std::boxed::Box')
def _(e, st, ty, t, name, depth, seen):
    a = t['a'][0]
    if e.P.ty(a)['k'] in ('dyn',) or ty in seen or depth > 5:
        return VMod('opaque', (), ty)
    return VMod('box', (e.top(a, st, name, depth + 1, seen + (ty,)),), ty)


@top('std::sync::Arc')
def _(e, st, ty, t, name, depth, seen):
    return VMod('arc', (e.top(t['a'][0], st, name, depth + 1, seen + (ty,)),), ty)


@top('std::sync::Mutex')
def _(e, st, ty, t, name, depth, seen):
    return VMod('mutex', (e.top(t['a'][0], st, name, depth + 1, seen + (ty,)),), ty)


@top('std::net::TcpStream')
def _(e, st, ty, t, name, depth, seen):
    return new_tcp(ty, timeouts=False)


def new_tcp(ty, timeouts=False):
    # identity, read timeout set, write timeout set, position, bytes known to be available
    return VMod('tcp', (new_id('tcp'), VBool(timeouts), VBool(timeouts), VInt(K(0)), VInt(K(0))), ty)


@top('std::time::Duration')
def _(e, st, ty, t, name, depth, seen):
    return VMod('dur', (VInt(fresh(0, U64)),), ty)


@top('std::iter::StepBy')
def _(e, st, ty, t, name, depth, seen):
    return VMod('opaque', (), ty)


def _opaque(*paths):
    for p in paths:
        TOPS[p] = lambda e, st, ty, t, name, depth, seen: VMod('opaque', (), ty)


_opaque('std::net::SocketAddr', 'std::io::Error', 'url::Url', 'std::fs::File', 'std::fmt::Arguments', 'std::fmt::Formatter',
        'core::fmt::rt::Argument', 'std::str::Utf8Error', 'std::num::ParseIntError', 'std::num::TryFromIntError',
        'log::Record', 'std::path::Path', 'std::path::PathBuf', 'std::ffi::OsStr', 'serde_json::Error',
        'actix::Addr', 'actix::prelude::SendError', 'actix_web::HttpResponse', 'actix_web::HttpResponseBuilder',
        'ureq::Response', 'ureq::Request', 'ureq::Error', 'tokio::net::UdpSocket', 'std::task::Context', 'std::task::Waker',
        'std::fs::OpenOptions', 'std::array::TryFromSliceError', 'tokio::task::JoinError', 'tokio::task::JoinHandle',
        'actix::Context', 'actix::SyncContext')


@model('std::time::Duration::from_millis', 'std::time::Duration::from_secs')
def _(c, st, n):
    return VMod('dur', (VInt(n.l * (1000 if c.f['path'].endswith('secs') else 1)),), c.ret_ty)


def _dur_const(e, st, c, t):
    f = c.get('fs')
    if f and 'int' in f[0]:
        n = f[1]
        while 'int' not in n and n.get('fs'):
            n = n['fs'][0]
        return VMod('dur', (VInt(K(f[0]['int'] * 1000 + n.get('int', 0) // 1000000)),), c['ty'])
    b = c.get('abytes')
    if b and len(b) >= 12:
        b = bytes(b)
        secs = int.from_bytes(b[:8], 'little')
        nanos = int.from_bytes(b[8:12], 'little')
        return VMod('dur', (VInt(K(secs * 1000 + nanos // 1000000)),), c['ty'])
    return VMod('dur', (VInt(fresh(0, U64)),), c['ty'])


CONSTS['std::time::Duration'] = _dur_const


# ---------------------------------------------------------------- copies and conversions

@model('std::clone::Clone::clone', '<std::string::String as std::clone::Clone>::clone', '<std::vec::Vec<T, A> as std::clone::Clone>::clone',
       '<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone', 'std::clone::impls::<impl std::clone::Clone for usize>::clone',
       '<actix::Addr<A> as std::clone::Clone>::clone', '<url::Url as std::clone::Clone>::clone', 'std::borrow::ToOwned::to_owned',
       '<T as std::borrow::ToOwned>::to_owned', 'std::option::Option::<&T>::cloned', '<actix_web::web::Data<T> as std::clone::Clone>::clone')
def m_clone(c, st, a):
    if c.f.get('path', '').endswith('cloned'):
        return NotImplemented
    f = c.f
    if f.get('inst') and not c.e.P.inst[f['inst']].get('derived'):
        return NotImplemented
    if isinstance(a, VSlice):
        return c.e.seq_val(st, a)
    return deref_val(c, st, a)


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
       'std::slice::<impl [T]>::into_vec', 'std::boxed::box_assume_init_into_vec_unsafe', 'std::borrow::Cow::<\'_, B>::into_owned', 'std::string::String::into_bytes',
       'std::string::String::from', '<std::string::String as std::convert::From<&str>>::from', '<std::vec::Vec<T> as std::convert::From<&[T]>>::from',
       '<std::vec::Vec<T> as std::convert::From<[T; N]>>::from', 'std::str::<impl str>::to_string', 'std::str::<impl str>::into_string',
       '<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from', 'core::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_owned',
       'std::string::String::from_utf8_unchecked', '<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from')
def m_to_vec(c, st, a):
    if isinstance(a, VMod) and a.kind == 'boxuninit':
        a = c.e.load(st, a.fs[0].root, ()) if isinstance(a.fs[0], VRef) else a.fs[0]
    if isinstance(a, (VTop,)) or (isinstance(a, VMod) and a.kind == 'opaque'):
        return c.e.top(c.ret_ty, st)
    q = c.e.seq_val(st, a)
    return q


@model('<T as std::string::ToString>::to_string', 'std::string::ToString::to_string')
def m_to_string(c, st, a):
    segs = display(c, st, a, gen_args(c)[0] if gen_args(c) else None)
    return bytes_seq(c, segs)


def display(c, st, a, ty):
    """what formatting a value with {} gives"""
    v = deref_all(c, st, a)
    if isinstance(v, (VSeq, VSlice)):
        q = c.e.seq_val(st, v)
        if q.segs is not None:
            return q.segs
    if isinstance(v, VInt):
        t = c.e.P.ty(ty) if ty is not None else None
        while t is not None and t['k'] == 'ref':
            t = c.e.P.ty(t['e'])
        if t is None or t['k'] in ('uint', 'int'):
            n = term(('declen', v.l), 1, 39, 'declen')
            return (('dec', v.l, n),)
    if isinstance(v, VMod) and v.kind == 'ip' and isinstance(v.fs[0], VSeq) and v.fs[0].segs is not None:
        bs = []
        for s in v.fs[0].segs:
            bs += [K(x) for x in s[1]] if s[0] == 'c' else [s[1]] if s[0] == 'b' else [None]
        if len(bs) == 4 and None not in bs:
            out = []
            for x in bs:
                out += [('c', b'.'), ('c', b'%d' % x.const()) if x.const() is not None else ('dec', x, term(('declen', x), 1, 3, 'declen'))]
            return norm_segs(tuple(out[1:]))
    n = fresh(0, ISIZE_MAX, 'fmtlen')
    return (('sub', new_id('fmt'), K(0), n),)


@model('std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::as_str', 'std::vec::Vec::<T, A>::as_slice',
       'std::array::<impl [T; N]>::as_slice', 'sha1::digest::generic_array::GenericArray::<T, N>::as_slice', '<std::string::String as std::ops::Deref>::deref',
       '<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
       'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', '<sha1::digest::generic_array::GenericArray<T, N> as std::ops::Deref>::deref',
       'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut', 'std::path::Path::new', 'std::str::<impl str>::as_ref',
       'std::array::<impl [T; N]>::as_mut_slice', 'core::slice::<impl [T]>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow',
       'std::str::from_utf8_unchecked', 'std::path::Path::as_os_str', 'std::string::String::as_mut_str', '<std::borrow::Cow<\'_, B> as std::ops::Deref>::deref')
def m_as_slice(c, st, a):
    try:
        root, path, off, ln = c.e.seq_at(st, a)
    except Unsupported:
        return c.e.top(c.ret_ty, st)
    return VSlice(root, path, off, ln, getattr(a, 'mut', False))


@model('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len', 'std::string::String::len', 'core::str::<impl str>::len', 'std::collections::VecDeque::<T, A>::len')
def m_len(c, st, a):
    try:
        return VInt(c.e.seq_at(st, a)[3])
    except Unsupported:
        return c.e.top(c.ret_ty, st)


@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'std::string::String::is_empty', 'core::str::<impl str>::is_empty', 'std::collections::VecDeque::<T, A>::is_empty')
def m_is_empty(c, st, a):
    return VBool(c.e.compare('Eq', VInt(c.e.seq_at(st, a)[3]), VInt(K(0)), st))


@model('std::vec::Vec::<T>::new', 'std::string::String::new', 'std::vec::Vec::<T>::with_capacity', 'std::string::String::with_capacity',
       'std::collections::VecDeque::<T>::new', 'std::collections::VecDeque::<T>::with_capacity')
def m_vec_new(c, st, *a):
    t = c.e.P.ty(c.ret_ty)
    ety = c.e.P.u8 if t['path'].endswith('String') else t['a'][0]
    if a:
        c.e.fire('alloc', st, c.fr, size=a[0].l)
    return VSeq(K(0), None if ety == c.e.P.u8 else (), None, () if ety == c.e.P.u8 else None, ety)


@model('std::vec::from_elem')
def m_from_elem(c, st, x, n):
    ety = c.e.P.ty(c.ret_ty)['a'][0]
    c.e.fire('alloc', st, c.fr, size=n.l)
    if ety == c.e.P.u8 and isinstance(x, VInt):
        return VSeq(n.l, None, None, norm_segs((('fill', x.l, n.l),)), ety)
    k = n.l.const()
    if k is not None and k <= 32:
        return VSeq(n.l, (x,) * k, None, None, ety)
    return VSeq(n.l, None, x, None, ety)


@model('std::boxed::Box::<T>::new')
def m_box_new(c, st, x):
    return VMod('box', (x,), c.ret_ty)


@model('std::boxed::Box::<T>::new_uninit')
def m_box_uninit(c, st):
    k = c.e.alloc(st, c.key('bx'), VTop(None))
    return VMod('boxuninit', (VRef(k, (), True),), c.ret_ty)


@model('std::sync::Arc::<T>::new')
def m_arc_new(c, st, x):
    return VMod('arc', (x,), c.ret_ty)


@model('<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut')
def m_arc_deref(c, st, a):
    v = deref_val(c, st, a)
    if isinstance(v, VMod) and v.fs:
        return VRef(a.root, a.path + (('b',),), a.mut)
    return c.e.top(c.ret_ty, st)


@model('std::sync::Mutex::<T>::new')
def m_mutex_new(c, st, x):
    return VMod('mutex', (x,), c.ret_ty)


@model('std::sync::Mutex::<T>::lock', 'std::sync::Mutex::<T>::try_lock')
def m_lock(c, st, a):
    c.e.fire('lock', st, c.fr, mutex=a)
    v = deref_val(c, st, a)
    if isinstance(v, VMod) and v.kind == 'mutex':
        inner = v.fs[0]
        st2 = havoced(c, st, inner, set())
        c.e.store(st, a.root, a.path + (('b',),), st2)
        g = VMod('guard', (VRef(a.root, a.path + (('b',),), True),), c.e.P.ty(c.ret_ty)['a'][0])
        t = c.e.P.ty(c.ret_ty)
        if c.e.flags.get('no_poison') and c.f['path'].endswith('::lock'):
            return VEnum(c.ret_ty, {0: (g,)})
        return VEnum(c.ret_ty, {0: (g,), 1: (VMod('poison', (g,), t['a'][1]),)})
    return c.e.top(c.ret_ty, st)


@model("<std::sync::MutexGuard<'_, T> as std::ops::DerefMut>::deref_mut", "<std::sync::MutexGuard<'_, T> as std::ops::Deref>::deref")
def m_guard_deref(c, st, a):
    v = deref_val(c, st, a)
    if isinstance(v, VMod) and v.kind == 'guard':
        return v.fs[0]
    return c.e.top(c.ret_ty, st)


@model('std::hint::must_use', '<F as std::future::IntoFuture>::into_future', '<I as std::iter::IntoIterator>::into_iter', 'std::convert::identity',
       'std::pin::Pin::<Ptr>::new_unchecked', '<T as std::convert::From<T>>::from', 'std::pin::Pin::<Ptr>::new')
def m_id(c, st, a):
    if c.f['path'].startswith('std::pin'):
        return VMod('pin', (a,), c.ret_ty)
    return a


@model('std::future::get_context')
def m_get_context(c, st, a):
    loc = ('k', 'context')
    st.mem.setdefault(loc, VMod('opaque', (), None))
    return VRef(loc, (), True)


@model('std::io::Cursor::<T>::new', 'std::io::Cursor::<T>::set_position')
def m_cursor(c, st, *a):
    return c.e.top(c.ret_ty, st)


@model('std::io::Cursor::<T>::position')
def m_cursor_pos(c, st, a):
    return VInt(fresh(0, U64, 'pos'))


@model('std::char::convert::<impl std::convert::From<u8> for char>::from')
def m_char_from(c, st, a):
    return a


# ---------------------------------------------------------------- sequences

def push_val(c, st, r, v, front=False):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    if q.ety == c.e.P.u8 and isinstance(v, VInt):
        if q.segs is None:
            nq = VSeq(q.len + 1, None, None, None, q.ety)
        else:
            nq = VSeq(q.len + 1, None, None, norm_segs((('b', v.l),) + q.segs if front else q.segs + (('b', v.l),)), q.ety)
    elif q.elems is not None and len(q.elems) < 24:
        nq = VSeq(q.len + 1, (v,) + q.elems if front else q.elems + (v,), None, None, q.ety)
    else:
        nq = VSeq(q.len + 1, None, weak_summ(c, st, q, v), None, q.ety)
    c.e.store(st, root, path, nq)


def weak_summ(c, st, q, v):
    s = summary(q) if q.elems is None or len(q.elems) <= 1 else None
    if s is None:
        if q.len.const() == 0 or (q.elems is not None and not q.elems):
            return v
        return None
    from .state import Joiner
    J = Joiner(st, st)
    try:
        r = J.val(s, v)
    except Exception:
        return None
    if J.newheap:
        for k, x in J.newheap.items():
            st.mem[k] = x
    return r


@model('std::vec::Vec::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back', 'std::string::String::push')
def m_push(c, st, r, v):
    if c.f['path'].endswith('String::push'):
        return m_push_char(c, st, r, v)
    c.e.fire('push', st, c.fr, seq=r, val=v, end='back')
    push_val(c, st, r, v)
    return UNIT


@model('std::collections::VecDeque::<T, A>::push_front')
def m_push_front(c, st, r, v):
    c.e.fire('push', st, c.fr, seq=r, val=v, end='front')
    push_val(c, st, r, v, True)
    return UNIT


def m_push_char(c, st, r, v):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    if st.facts.implies(K(127) - v.l):
        seg = ('b', v.l)
    else:
        n = fresh(1, 4)
        seg = ('sub', new_id('char'), K(0), n)
    append_segs(c, st, root, path, q, (seg,))
    return UNIT


def append_segs(c, st, root, path, q, segs):
    if q.segs is None or segs is None:
        n = fresh(0, ISIZE_MAX)
        st.facts = st.facts.add_ge(n - q.len) or st.facts
        c.e.store(st, root, path, VSeq(n, None, None, (('sub', new_id('ap'), K(0), n),), q.ety))
        return
    s = norm_segs(q.segs + segs)
    c.e.store(st, root, path, VSeq(q.len + segs_len(segs), None, None, s, q.ety))


@model('std::string::String::push_str', 'std::vec::Vec::<T, A>::extend_from_slice')
def m_extend_slice(c, st, r, s):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    x = c.e.seq_val(st, s)
    append_seq(c, st, root, path, q, x)
    return UNIT


def append_seq(c, st, root, path, q, x):
    if q.ety == c.e.P.u8:
        append_segs(c, st, root, path, q, x.segs)
    elif q.elems is not None and x.elems is not None and len(q.elems) + len(x.elems) < 24:
        c.e.store(st, root, path, VSeq(q.len + x.len, q.elems + x.elems, None, None, q.ety))
    else:
        c.e.store(st, root, path, VSeq(q.len + x.len, None, None, None, q.ety))


@model('std::vec::Vec::<T, A>::append')
def m_append(c, st, r, s):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    r2, p2, _, _ = c.e.seq_at(st, s)
    x = c.e.load(st, r2, p2)
    append_seq(c, st, root, path, q, x)
    c.e.store(st, r2, p2, VSeq(K(0), None if x.ety == c.e.P.u8 else (), None, () if x.ety == c.e.P.u8 else None, x.ety))
    return UNIT


@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear', 'std::collections::VecDeque::<T, A>::clear')
def m_clear(c, st, r):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    b = q.ety == c.e.P.u8
    c.e.store(st, root, path, VSeq(K(0), None if b else (), None, () if b else None, q.ety))
    return UNIT


@model('std::vec::Vec::<T, A>::truncate', 'std::string::String::truncate')
def m_truncate(c, st, r, n):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    m = minmax(c, st, q.len, n.l, True)
    c.e.store(st, root, path, window(q, K(0), m, st.facts))
    return UNIT


@model('std::vec::Vec::<T, A>::reserve', 'std::string::String::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit')
def m_reserve(c, st, r, *n):
    if n:
        c.e.fire('alloc', st, c.fr, size=n[0].l)
    return UNIT


@model('std::vec::Vec::<T, A>::pop', 'std::collections::VecDeque::<T, A>::pop_front', 'std::collections::VecDeque::<T, A>::pop_back')
def m_pop(c, st, r):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    c.e.fire('pop', st, c.fr, seq=r)
    front = c.f['path'].endswith('front')
    out = []
    s1 = st.copy()
    if s1.assume(('eq', q.len)):
        c.e.fire('popped', s1, c.fr, seq=r, val=None, end='front' if front else 'back', ety=q.ety)
        out.append((s1, opt(c)))
    if st.assume(('ge', q.len - 1)):
        if q.elems is not None and q.elems:
            v = q.elems[0] if front else q.elems[-1]
            nq = VSeq(q.len - 1, q.elems[1:] if front else q.elems[:-1], None, None, q.ety)
        else:
            i = K(0) if front else q.len - 1
            v = c.e.load(st, root, path + (('e', i),))
            if q.segs is not None:
                nq = window(q, K(1) if front else K(0), q.len - 1, st.facts)
            else:
                nq = VSeq(q.len - 1, None, q.summ, None, q.ety)
        c.e.store(st, root, path, nq)
        c.e.fire('popped', st, c.fr, seq=r, val=v, end='front' if front else 'back', ety=q.ety)
        out.append((st, opt(c, v, none=False)))
    return out


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def m_remove(c, st, r, i):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    if not c.e.oblige(st, c.fr, 'index out of bounds', ('ge', q.len - i.l - 1), sp=c.t.get('sp')):
        return None
    v = c.e.load(st, root, path + (('e', i.l),))
    elems, segs = None, None
    k = i.l.const()
    if c.f['path'].endswith('::remove'):
        if q.elems is not None and k is not None:
            elems = q.elems[:k] + q.elems[k + 1:]
        if q.segs is not None:
            a, b = window(q, K(0), i.l, st.facts), window(q, i.l + 1, q.len - i.l - 1, st.facts)
            segs = None if a.segs is None or b.segs is None else norm_segs(a.segs + b.segs)
    if q.segs is not None and segs is None:
        segs = (('sub', new_id('rm'), K(0), q.len - 1),)
    c.e.store(st, root, path, VSeq(q.len - 1, elems, None if elems is not None else q.summ, segs, q.ety))
    return v


@model('std::vec::Vec::<T, A>::insert')
def m_insert(c, st, r, i, v):
    root, path, off, ln = c.e.seq_at(st, r)
    q = c.e.load(st, root, path)
    if not c.e.oblige(st, c.fr, 'insertion index out of bounds', ('ge', q.len - i.l), sp=c.t.get('sp')):
        return None
    if i.l.const() == 0 or st.facts.equal(i.l, q.len):
        front = i.l.const() == 0 and q.len.const() != 0
        c.e.fire('push', st, c.fr, seq=r, val=v, end='front' if front else 'back')
        push_val(c, st, r, v, front)
        return UNIT
    k = i.l.const()
    c.e.fire('push', st, c.fr, seq=r, val=v, end='middle')
    if q.elems is not None and k is not None:
        nq = VSeq(q.len + 1, q.elems[:k] + (v,) + q.elems[k:], None, None, q.ety)
    elif q.segs is not None and isinstance(v, VInt):
        a, b = window(q, K(0), i.l, st.facts), window(q, i.l, q.len - i.l, st.facts)
        nq = VSeq(q.len + 1, None, None, None if a.segs is None or b.segs is None else norm_segs(a.segs + (('b', v.l),) + b.segs), q.ety)
    else:
        nq = VSeq(q.len + 1, None, weak_summ(c, st, q, v), None if q.segs is None else (('sub', new_id('ins'), K(0), q.len + 1),), q.ety)
    c.e.store(st, root, path, nq)
    return UNIT


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'std::collections::VecDeque::<T, A>::front')
def m_first(c, st, a):
    root, path, off, ln = c.e.seq_at(st, a)
    out = []
    s1 = st.copy()
    if s1.assume(('eq', ln)):
        out.append((s1, opt(c)))
    if st.assume(('ge', ln - 1)):
        i = ln - 1 if c.f['path'].endswith('last') else K(0)
        out.append((st, opt(c, c.e.elem_ref(st, VSlice(root, path, off, ln), i, c.key('f')), none=False)))
    return out


def range_of(c, st, ix, ln):
    """(start, end, formula that has to hold) of an index range over a sequence of length ln"""
    s = c.e.P.s(ix.ty) if getattr(ix, 'ty', None) is not None else ''
    fs = [x.l if isinstance(x, VInt) else None for x in getattr(ix, 'fs', ())]
    if 'RangeFull' in s:
        return K(0), ln
    if 'RangeFrom' in s:
        return fs[0], ln
    if 'RangeToInclusive' in s:
        return K(0), fs[0] + 1
    if 'RangeTo' in s:
        return K(0), fs[0]
    if 'RangeInclusive' in s:
        return fs[0], fs[1] + 1
    if 'Range' in s:
        return fs[0], fs[1]
    return None


def do_index(c, st, a, ix, mut=False):
    root, path, off, ln = c.e.seq_at(st, a)
    if isinstance(ix, VInt):
        if not c.e.oblige(st, c.fr, 'index out of bounds', fand(('ge', ln - ix.l - 1), ('ge', ix.l)), sp=c.t.get('sp')):
            return None
        return c.e.elem_ref(st, VSlice(root, path, off, ln), ix.l, c.key('ix'), mut)
    r = range_of(c, st, ix, ln)
    if r is None:
        c.e.panic(st, c.fr, 'index not understood', sp=c.t.get('sp'))
        return c.e.top(c.ret_ty, st)
    a0, b0 = r
    if not c.e.oblige(st, c.fr, 'slice range', fand(('ge', b0 - a0), ('ge', ln - b0)), sp=c.t.get('sp')):
        return None
    return VSlice(root, path, off + a0, b0 - a0, mut)


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', '<std::string::String as std::ops::Index<I>>::index',
       'core::str::traits::<impl std::ops::Index<I> for str>::index', 'std::ops::Index::index', '<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index')
def m_index(c, st, a, ix):
    if 'String' in c.e.P.s(c.t['at'][0]) or '&str' == c.e.P.s(c.t['at'][0]):
        c.e.panic(st, c.fr, 'string slice on a char boundary', sp=c.t.get('sp'))
    m = deref_val(c, st, a)
    if isinstance(m, VMod) and m.kind == 'map':
        has = map_has(c, st, m, ix)
        if has is None:
            c.e.panic(st, c.fr, 'key of a map', sp=c.t.get('sp'))
        elif not c.e.oblige(st, c.fr, 'key of a map', ('ge', has - 1), sp=c.t.get('sp')):
            return None
        for kk, v in m.fs[0] or ():
            if kk == c.e.seq_val(st, ix).segs:
                return VRef(c.e.alloc(st, c.key('mi'), v), ())
        return c.e.top(c.ret_ty, st)
    try:
        return do_index(c, st, a, ix)
    except Unsupported:
        c.e.panic(st, c.fr, 'index not understood', sp=c.t.get('sp'))
        return c.e.top(c.ret_ty, st)


@model('<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut', 'std::ops::IndexMut::index_mut')
def m_index_mut(c, st, a, ix):
    return do_index(c, st, a, ix, True)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get', 'std::collections::VecDeque::<T, A>::get')
def m_get(c, st, a, ix):
    mut = c.f['path'].endswith('_mut')
    root, path, off, ln = c.e.seq_at(st, a)
    if isinstance(ix, VInt):
        f = ('ge', ln - ix.l - 1)
        out = []
        s1 = st.copy()
        if s1.assume(f, False):
            out.append((s1, opt(c)))
        if st.assume(f):
            out.append((st, opt(c, c.e.elem_ref(st, VSlice(root, path, off, ln), ix.l, c.key('g'), mut), none=False)))
        return out
    r = range_of(c, st, ix, ln)
    if r is None:
        return c.e.top(c.ret_ty, st)
    a0, b0 = r
    f = fand(('ge', b0 - a0), ('ge', ln - b0))
    out = []
    s1 = st.copy()
    if s1.assume(f, False):
        out.append((s1, opt(c)))
    if st.assume(f):
        out.append((st, opt(c, VSlice(root, path, off + a0, b0 - a0, mut), none=False)))
    return out


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def m_split_at(c, st, a, n):
    root, path, off, ln = c.e.seq_at(st, a)
    if not c.e.oblige(st, c.fr, 'split index', ('ge', ln - n.l), sp=c.t.get('sp')):
        return None
    m = getattr(a, 'mut', False)
    return VAgg(c.ret_ty, (VSlice(root, path, off, n.l, m), VSlice(root, path, off + n.l, ln - n.l, m)))


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_split_first(c, st, a):
    root, path, off, ln = c.e.seq_at(st, a)
    out = []
    s1 = st.copy()
    if s1.assume(('eq', ln)):
        out.append((s1, opt(c)))
    if st.assume(('ge', ln - 1)):
        last = c.f['path'].endswith('last')
        e = c.e.elem_ref(st, VSlice(root, path, off, ln), ln - 1 if last else K(0), c.key('sf'))
        rest = VSlice(root, path, off if last else off + 1, ln - 1)
        out.append((st, opt(c, VAgg(elem_ty(c, c.ret_ty), (e, rest)), none=False)))
    return out


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copy_from_slice(c, st, d, s):
    r, p, o, n = c.e.seq_at(st, d)
    x = c.e.seq_val(st, s)
    if not c.e.oblige(st, c.fr, 'copy_from_slice length', ('eq', n - x.len), sp=c.t.get('sp')):
        return None
    write_window(c, st, r, p, o, n, x.segs)
    return UNIT


def write_window(c, st, r, p, o, n, segs):
    """overwrite n bytes at offset o of the sequence at (r, p)"""
    q = c.e.load(st, r, p)
    if q.segs is None:
        c.e.havoc_elems(st, r, p, q)
        return
    if segs is None:
        segs = (('sub', new_id('ww'), K(0), n),)
    a = sub_segs(q.segs, K(0), o, st.facts)
    b = sub_segs(q.segs, o + n, q.len - o - n, st.facts)
    if a is None or b is None:
        if o.const() == 0 and (q.len - n).const() == 0:
            a = b = ()
        else:
            c.e.havoc_elems(st, r, p, q)
            return
    c.e.store(st, r, p, VSeq(q.len, None, None, norm_segs(a + segs + b), q.ety))


@model('std::slice::<impl [T]>::concat', 'std::slice::<impl [S]>::concat', 'std::slice::<impl [V]>::concat')
def m_concat(c, st, a):
    q = c.e.seq_val(st, a)
    ety = c.e.P.u8 if c.e.P.s(c.ret_ty).endswith('String') else elem_ty(c, c.ret_ty)
    if q.elems is not None:
        parts = [c.e.seq_val(st, x) for x in q.elems]
        if ety == c.e.P.u8 and all(p.segs is not None for p in parts):
            return bytes_seq(c, sum((p.segs for p in parts), ()))
        ln = K(0)
        for p in parts:
            ln = ln + p.len
        if ety == c.e.P.u8:
            return new_bytes(c, ln, 'cat')
        if all(p.elems is not None for p in parts):
            return VSeq(ln, sum((p.elems for p in parts), ()), None, None, ety)
        return VSeq(ln, None, None, None, ety)
    return c.e.top(c.ret_ty, st)


@model('std::slice::<impl [T]>::join', 'std::slice::<impl [S]>::join')
def m_join(c, st, a, sep):
    try:
        q = c.e.seq_val(st, a)
        if q.elems is not None:
            parts = [c.e.seq_val(st, x) for x in q.elems]
            sp = c.e.seq_val(st, sep)
            if all(p.segs is not None for p in parts) and sp.segs is not None:
                segs = ()
                for i, p in enumerate(parts):
                    segs += (sp.segs if i else ()) + p.segs
                return bytes_seq(c, segs)
    except Unsupported:
        pass
    return c.e.top(c.ret_ty, st)


@model('core::slice::<impl [T]>::strip_prefix', 'core::str::<impl str>::strip_prefix')
def m_strip_prefix(c, st, a, p):
    root, path, off, ln = c.e.seq_at(st, a)
    try:
        x = c.e.seq_val(st, p)
    except Unsupported:
        return c.e.top(c.ret_ty, st)
    w = window(c.e.load(st, root, path), off, ln, st.facts)
    out = []
    s1 = st.copy()
    out.append((s1, opt(c)))
    if st.assume(('ge', ln - x.len)):
        if w.segs is not None and x.segs is not None:
            pre = sub_segs(w.segs, K(0), x.len, st.facts)
            if pre is not None and not st.assume(('ce', pre, x.segs)):
                return out
        out.append((st, opt(c, VSlice(root, path, off + x.len, ln - x.len), none=False)))
    return out


@model('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_starts_with(c, st, a, p):
    try:
        w, x = c.e.seq_val(st, a), c.e.seq_val(st, p)
    except Unsupported:
        return c.e.top(c.ret_ty, st)
    s1 = st.copy()
    out = [(s1, VBool(False))]
    if st.assume(('ge', w.len - x.len)):
        if w.segs is not None and x.segs is not None:
            o = w.len - x.len if c.f['path'].endswith('ends_with') else K(0)
            pre = sub_segs(w.segs, o, x.len, st.facts)
            if pre is not None and not st.assume(('ce', pre, x.segs)):
                return out
        out.append((st, VBool(True)))
    return out


@model('core::slice::<impl [T]>::contains', 'core::str::<impl str>::contains', 'core::slice::<impl [T]>::binary_search')
def m_contains(c, st, a, x):
    return c.e.top(c.ret_ty, st)


@model('core::slice::<impl [T]>::fill')
def m_fill(c, st, a, x):
    r, p, o, n = c.e.seq_at(st, a)
    write_window(c, st, r, p, o, n, (('fill', x.l, n),) if isinstance(x, VInt) else None)
    return UNIT


def order_of(e, st, v):
    """the order of two values that a comparison gives, when there is only one: -1, 0 or 1"""
    if isinstance(v, VTop):
        v = e.expand(v, st)
    if not isinstance(v, VEnum):
        return None
    o = [i for i in v.vs if len(v.vs) == 1 or all(st.truth(x) is True for x in v.att.get(i, ()))]
    return o[0] - 1 if len(o) == 1 else None


def compare_values(e, st, a, b):
    """the order of two values of the same kind when they are known: -1, 0 or 1"""
    for _ in range(4):
        a = e.load(st, a.root, a.path) if isinstance(a, VRef) else a
        b = e.load(st, b.root, b.path) if isinstance(b, VRef) else b
    if isinstance(a, VInt) and isinstance(b, VInt):
        d = (a.l - b.l).const()
        return None if d is None else (d > 0) - (d < 0)
    if isinstance(a, VAgg) and isinstance(b, VAgg) and len(a.fs) == len(b.fs):
        for x, y in zip(a.fs, b.fs):
            o = compare_values(e, st, x, y)
            if o != 0:
                return o
        return 0
    try:
        x, y = e.seq_val(st, a), e.seq_val(st, b)
    except Unsupported:
        return None
    if x.segs is None or y.segs is None or any(s[0] != 'c' for q in (x, y) for s in q.segs):
        return None
    x, y = (b''.join(s[1] for s in q.segs) for q in (x, y))
    return (x > y) - (x < y)


def sort_known(c, st, q, how, f):
    """[(state, elements in order)] for a few known elements, or None"""
    e = c.e
    if not e.flags.get('exact') or q.elems is None or len(q.elems) > 4 or q.len.const() != len(q.elems):
        return None
    done = []

    def place(st, left, right, x, rest):
        """x goes behind the elements of left that are not greater"""
        if not left:
            return step(st, [x] + right, rest)
        y = left[-1]
        res = []
        if how == 'plain':
            res = [(st, compare_values(e, st, y, x))]
        else:
            ry, rx = (VRef(e.alloc(st, c.key('srt'), z, pin=True), ()) for z in (y, x))
            if how == 'key':
                for s1, k1 in e.call_value(f, [ry], st, c.fr, (c.site, 'k1'), c.t):
                    for s2, k2 in e.call_value(f, [rx], s1, c.fr, (c.site, 'k2'), c.t):
                        res.append((s2, compare_values(e, s2, k1, k2)))
            else:
                for s1, v in e.call_value(f, [ry, rx], st, c.fr, (c.site, 'cmp'), c.t):
                    res.append((s1, order_of(e, s1, v)))
        for s1, o in res:
            if o is None or not (place(s1, left[:-1], [y] + right, x, rest) if o > 0 else step(s1, left + [x] + right, rest)):
                return False
        return True

    def step(st, sorted_, rest):
        if not rest:
            done.append((st, tuple(sorted_)))
            return True
        return place(st, sorted_, [], rest[0], rest[1:])
    return done if step(st.copy(), [], list(q.elems)) else None


@model('core::slice::<impl [T]>::reverse', 'std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable', '<[T] as rand::prelude::SliceRandom>::shuffle', 'rand::prelude::SliceRandom::shuffle')
def m_shuffle(c, st, a, *rest):
    r, p, o, n = c.e.seq_at(st, a)
    q = c.e.load(st, r, p)
    s = summary(q) if q.elems is None or len(q.elems) <= 1 else None
    c.e.fire('sorted', st, c.fr, seq=a, by=None)
    if 'sort' in c.f['path']:
        done = sort_known(c, st, q, 'plain', None)
        if done is not None:
            for s1, el in done:
                c.e.store(s1, r, p, VSeq(q.len, el, None, None, q.ety))
            return [(s1, UNIT) for s1, _ in done]
    if c.f['path'].endswith('reverse') and q.elems is not None and q.len.const() == len(q.elems):
        c.e.store(st, r, p, VSeq(q.len, tuple(reversed(q.elems)), None, None, q.ety))
        return UNIT
    c.e.store(st, r, p, VSeq(q.len, None, s, None if q.segs is None else (('sub', new_id('sh'), K(0), q.len),), q.ety))
    return UNIT


# ---------------------------------------------------------------- iterators

def mk_iter(c, st, a, mut=False):
    root, path, off, ln = c.e.seq_at(st, a)
    return VMod('slice_iter', (VSlice(root, path, off, ln, mut),), c.ret_ty)


@model('core::slice::<impl [T]>::iter', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", 'std::slice::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       'std::collections::VecDeque::<T, A>::iter', "<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter")
def m_iter(c, st, a):
    return mk_iter(c, st, a)


@model('core::slice::<impl [T]>::iter_mut', "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", 'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter')
def m_iter_mut(c, st, a):
    return mk_iter(c, st, a, True)


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter',
       '<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter')
def m_into_iter(c, st, a):
    return VMod('own_iter', (a, VInt(K(0))), c.ret_ty)


def fire_iter(c, st, item=None):
    """the option that the iterator returns"""
    if c.e.flags.get('iters'):
        c.e.fire('iter', st, c.fr, item=item, ty=c.ret_ty, t=c.t)
    return opt(c, item, none=item is None)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::next")
def m_slice_next(c, st, r):
    v = deref_val(c, st, r)
    if not (isinstance(v, VMod) and v.kind == 'slice_iter'):
        return c.e.top(c.ret_ty, st)
    sl = v.fs[0]
    out = []
    s1 = st.copy()
    if s1.assume(('eq', sl.len)):
        out.append((s1, fire_iter(c, s1)))
    if st.assume(('ge', sl.len - 1)):
        e = c.e.elem_ref(st, sl, K(0), c.key('n'), sl.mut)
        c.e.store(st, r.root, r.path, VMod('slice_iter', (VSlice(sl.root, sl.path, sl.off + 1, sl.len - 1, sl.mut),), v.ty))
        out.append((st, fire_iter(c, st, e)))
    return out


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def m_slice_next_back(c, st, r):
    v = deref_val(c, st, r)
    if not (isinstance(v, VMod) and v.kind == 'slice_iter'):
        return c.e.top(c.ret_ty, st)
    sl = v.fs[0]
    out = []
    s1 = st.copy()
    if s1.assume(('eq', sl.len)):
        out.append((s1, fire_iter(c, s1)))
    if st.assume(('ge', sl.len - 1)):
        e = c.e.elem_ref(st, sl, sl.len - 1, c.key('n'), sl.mut)
        c.e.store(st, r.root, r.path, VMod('slice_iter', (VSlice(sl.root, sl.path, sl.off, sl.len - 1, sl.mut),), v.ty))
        out.append((st, fire_iter(c, st, e)))
    return out


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', '<std::array::IntoIter<T, N> as std::iter::Iterator>::next', '<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::next')
def m_own_next(c, st, r):
    v = deref_val(c, st, r)
    if not (isinstance(v, VMod) and v.kind == 'own_iter'):
        return c.e.top(c.ret_ty, st)
    q, i = v.fs[0], v.fs[1].l
    out = []
    s1 = st.copy()
    if s1.assume(('ge', i - q.len)):
        out.append((s1, fire_iter(c, s1)))
    if st.assume(('ge', q.len - i - 1)):
        e = c.e.load(st, r.root, r.path + (('f', 0), ('e', i)))
        c.e.store(st, r.root, r.path, VMod('own_iter', (q, VInt(i + 1)), v.ty))
        out.append((st, fire_iter(c, st, e)))
    return out


@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def m_range_next(c, st, r):
    v = deref_val(c, st, r)
    if isinstance(v, VTop):
        v = c.e.expand(v, st)
    a, b = v.fs[0], v.fs[1]
    if not (isinstance(a, VInt) and isinstance(b, VInt)):
        return c.e.top(c.ret_ty, st)
    out = []
    s1 = st.copy()
    if s1.assume(('ge', a.l - b.l)):
        out.append((s1, opt(c)))
    if st.assume(('ge', b.l - a.l - 1)):
        c.e.store(st, r.root, r.path, VAgg(v.ty, (VInt(a.l + 1), b)))
        out.append((st, opt(c, a, none=False)))
    return out


@model('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def m_range_next_back(c, st, r):
    v = deref_val(c, st, r)
    a, b = v.fs[0], v.fs[1]
    out = []
    s1 = st.copy()
    if s1.assume(('ge', a.l - b.l)):
        out.append((s1, opt(c)))
    if st.assume(('ge', b.l - a.l - 1)):
        c.e.store(st, r.root, r.path, VAgg(v.ty, (a, VInt(b.l - 1))))
        out.append((st, opt(c, VInt(b.l - 1), none=False)))
    return out


@model('std::ops::RangeInclusive::<Idx>::new')
def m_range_incl(c, st, a, b):
    return VAgg(c.ret_ty, (a, b, VBool(False)))


@model('std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next')
def m_range_incl_next(c, st, r):
    v = deref_val(c, st, r)
    if not isinstance(v, VAgg) or len(v.fs) < 3:
        return c.e.top(c.ret_ty, st)
    a, b, ex = v.fs[:3]
    out = []
    s1 = st.copy()
    if s1.assume(('ge', a.l - b.l - 1)):
        out.append((s1, opt(c)))
    if st.assume(('ge', b.l - a.l)):
        # a wider counter than the real one: the last value is followed by the end
        c.e.store(st, r.root, r.path, VAgg(v.ty, (VInt(a.l + 1), b, ex)))
        out.append((st, opt(c, a, none=False)))
    return out


@model('std::ops::Range::<Idx>::is_empty', 'std::ops::Range::<Idx>::contains')
def m_range_misc(c, st, r, *x):
    v = deref_val(c, st, r)
    if c.f['path'].endswith('is_empty'):
        return VBool(c.e.compare('Ge', v.fs[0], v.fs[1], st))
    y = deref_val(c, st, x[0])
    return VBool(fand(c.e.compare('Ge', y, v.fs[0], st), c.e.compare('Lt', y, v.fs[1], st)))


@model('std::iter::Iterator::step_by')
def m_step_by(c, st, it, n):
    if not c.e.oblige(st, c.fr, 'step_by zero', ('ge', n.l - 1), sp=c.t.get('sp')):
        return None
    return VMod('step_by', (it, n), c.ret_ty)


def ceil_div(c, st, n, k):
    """ceil(n / k) for n >= 0, k >= 1"""
    if n.const() is None:
        m = reduced(n, solved(st.facts))
        n = m if m.const() is not None else n
    if n.const() is not None and k.const() is not None:
        return K(-(-n.const() // k.const()))
    s = st
    if not st.facts.implies(n):
        # negative ranges are empty
        n2 = fresh(0, None)
        st.facts = st.facts.add_ge(n2 - n) or st.facts
        n = n2
    r = term(('ceil', n, k), 0, U64, 'ceil')
    m = c.e.mul(r, k, st)
    st.facts = st.facts.add_ge(m - n) or st.facts
    st.facts = st.facts.add_ge(n + k - 1 - m) or st.facts
    st.facts = st.facts.add_ge(n - r) or st.facts
    return r


def iter_len(c, st, v):
    if isinstance(v, VAgg) and re.match(r'\w+::ops::(range::)?Range<', c.e.P.s(v.ty)):
        return v.fs[1].l - v.fs[0].l, True
    if isinstance(v, VMod) and v.kind == 'step_by':
        n, _ = iter_len(c, st, v.fs[0])
        if n is None:
            return None, False
        return ceil_div(c, st, n, v.fs[1].l), False
    if isinstance(v, VMod) and v.kind == 'slice_iter':
        return v.fs[0].len, False
    if isinstance(v, VMod) and v.kind == 'own_iter':
        return v.fs[0].len - v.fs[1].l, False
    if isinstance(v, VMod) and v.kind in ('chunks_exact', 'chunks'):
        return ceil_div(c, st, v.fs[0].len, v.fs[1].l), False
    return None, False


@model('std::iter::ExactSizeIterator::len')
def m_exact_len(c, st, r):
    v = deref_val(c, st, r)
    n, neg = iter_len(c, st, v)
    if n is None:
        return NotImplemented
    if neg and not st.facts.implies(n):
        m = fresh(0, U64)
        st.facts = st.facts.add_ge(m - n) or st.facts
        return VInt(m)
    return VInt(n)


@model('core::str::<impl str>::chars')
def m_chars(c, st, a):
    try:
        root, path, off, ln = c.e.seq_at(st, a)
    except Unsupported:
        return c.e.top(c.ret_ty, st)
    return VMod('chars', (VSlice(root, path, off, ln, False),), c.ret_ty)


@model("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def m_chars_next(c, st, r):
    v = deref_val(c, st, r)
    if not isinstance(v, VMod) or v.kind != 'chars':
        return NotImplemented
    sl = v.fs[0]
    out = []
    s1 = st.copy()
    if s1.assume(('eq', sl.len)):
        out.append((s1, opt(c)))
    if st.assume(('ge', sl.len - 1)):
        # a character has one to four bytes
        n = fresh(1, 4, 'charlen')
        st.facts = st.facts.add_ge(sl.len - n) or st.facts
        front = not c.f['path'].endswith('back')
        c.e.store(st, r.root, r.path, VMod('chars', (VSlice(sl.root, sl.path, sl.off + n if front else sl.off, sl.len - n, False),), v.ty))
        x = c.e.top(c.ret_ty, st, 'char')
        out.append((st, VEnum(c.ret_ty, {1: x.vs[1]}) if isinstance(x, VEnum) else x))
    return out


@model("<std::str::Chars<'a> as std::iter::Iterator>::count")
def m_chars_count(c, st, v):
    if isinstance(v, VMod) and v.kind == 'chars':
        q = c.e.seq_val(st, v.fs[0])
        if q.segs is not None:
            if all(x[0] == 'c' and x[1].isascii() for x in q.segs):
                return VInt(q.len)
            n = term(('chars', q.segs), 0, ISIZE_MAX, 'chars')
            st.facts = st.facts.add_ge(q.len - n) or st.facts
            return VInt(n)
        return VInt(fresh(0, ISIZE_MAX, 'chars'))
    return NotImplemented


@model('std::iter::Iterator::count')
def m_count(c, st, v):
    n, neg = iter_len(c, st, v)
    if n is None:
        return NotImplemented
    return VInt(n)


@model('<std::iter::StepBy<I> as std::iter::Iterator>::next')
def m_step_next(c, st, r):
    v = deref_val(c, st, r)
    if not (isinstance(v, VMod) and v.kind == 'step_by' and isinstance(v.fs[0], VAgg)):
        return c.e.top(c.ret_ty, st)
    rg, n = v.fs
    a, b = rg.fs[0], rg.fs[1]
    out = []
    s1 = st.copy()
    if s1.assume(('ge', a.l - b.l)):
        out.append((s1, opt(c)))
    if st.assume(('ge', b.l - a.l - 1)):
        c.e.store(st, r.root, r.path, VMod('step_by', (VAgg(rg.ty, (VInt(a.l + n.l), b)), n), v.ty))
        out.append((st, opt(c, a, none=False)))
    return out


@model('<std::iter::adapters::flatten::FlattenCompat<I, U> as std::iter::Iterator>::next')
def m_flatten_next(c, st, r):
    """the bytes of a sequence of byte vectors: some byte, or the end when there is no next vector"""
    e = c.e
    t = e.P.ty(c.ret_ty)
    it = e.P.ty(t['a'][0]) if t.get('a') else {}
    v = deref_val(c, st, r)
    if it.get('k') != 'uint' or not isinstance(v, VAgg) or not c.f.get('inst'):
        return NotImplemented
    inner = None
    for b in e.P.inst[c.f['inst']]['blocks']:
        if b['t']['k'] == 'call' and isinstance(b['t']['f'], dict) and b['t']['f'].get('path') == 'std::iter::adapters::fuse::FuseImpl::next':
            inner = b['t']
    if inner is None:
        return NotImplemented
    out = []
    byte = lambda s: opt(c, e.top(t['a'][0], s), none=False)
    s1 = st.copy()
    out.append((s1, byte(s1)))
    ref = VRef(r.root, r.path + (('f', 0),), True)
    for s, o in e.call_fn(inner['f'], [ref], st, c.fr, ('flat', c.site), inner):
        for s2, var, fs in e.variants(s, o):
            if var == 0:
                out.append((s2, opt(c)))
                continue
            # how many vectors were skipped because they are empty is not known
            x = e.load(s2, ref.root, ref.path)
            e.store(s2, ref.root, ref.path, skip_some(x, s2))
            out.append((s2, byte(s2)))
    return out


def skip_some(v, st):
    if isinstance(v, VMod) and v.kind == 'slice_iter':
        sl = v.fs[0]
        k = fresh(0, ISIZE_MAX, 'skip')
        st.assume(('ge', sl.len - k))
        return VMod('slice_iter', (VSlice(sl.root, sl.path, sl.off + k, sl.len - k, sl.mut),), v.ty)
    if isinstance(v, VMod) and v.kind == 'own_iter':
        k = fresh(0, ISIZE_MAX, 'skip')
        return VMod('own_iter', (v.fs[0], VInt(v.fs[1].l + k)), v.ty)
    if isinstance(v, VAgg):
        return VAgg(v.ty, [skip_some(x, st) if isinstance(x, Val) else x for x in v.fs])
    if isinstance(v, VMod):
        return VMod(v.kind, [skip_some(x, st) if isinstance(x, Val) else x for x in v.fs], v.ty)
    if isinstance(v, VEnum):
        return VEnum(v.ty, {i: tuple(skip_some(x, st) for x in fs) for i, fs in v.vs.items()}, v.att)
    return v


@model('core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::windows')
def m_chunks(c, st, a, n):
    if not c.e.oblige(st, c.fr, 'chunk size zero', ('ge', n.l - 1), sp=c.t.get('sp')):
        return None
    root, path, off, ln = c.e.seq_at(st, a)
    if c.f['path'].endswith('chunks_exact'):
        known = reduced(ln, solved(st.facts)).const()
        if known is not None and n.l.const():
            return VMod('chunks_exact', (VSlice(root, path, off, K(known - known % n.l.const())), n), c.ret_ty)
        q, r = c.e.divrem(ln, n.l, st)
        return VMod('chunks_exact', (VSlice(root, path, off, ln - r), n), c.ret_ty)
    if c.f['path'].endswith('chunks'):
        return VMod('chunks', (VSlice(root, path, off, ln), n), c.ret_ty)
    return VMod('windows', (VSlice(root, path, off, ln), n), c.ret_ty)


@model("<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::next", "<std::slice::Chunks<'a, T> as std::iter::Iterator>::next", "<std::slice::Windows<'a, T> as std::iter::Iterator>::next")
def m_chunks_next(c, st, r):
    v = deref_val(c, st, r)
    if not isinstance(v, VMod) or v.kind not in ('chunks_exact', 'chunks', 'windows'):
        return c.e.top(c.ret_ty, st)
    sl, n = v.fs[0], v.fs[1].l
    out = []
    s1 = st.copy()
    full = ('ge', sl.len - n)
    if v.kind == 'chunks':
        if s1.assume(('eq', sl.len)):
            out.append((s1, opt(c)))
        s2 = st.copy()
        if s2.assume(full, False) and s2.assume(('ge', sl.len - 1)):
            c.e.store(s2, r.root, r.path, VMod(v.kind, (VSlice(sl.root, sl.path, sl.off + sl.len, K(0)), v.fs[1]), v.ty))
            out.append((s2, opt(c, sl, none=False)))
    elif s1.assume(full, False):
        out.append((s1, opt(c)))
    if st.assume(full):
        step = K(1) if v.kind == 'windows' else n
        c.e.store(st, r.root, r.path, VMod(v.kind, (VSlice(sl.root, sl.path, sl.off + step, sl.len - step), v.fs[1]), v.ty))
        out.append((st, opt(c, VSlice(sl.root, sl.path, sl.off, n), none=False)))
    return out


@model('std::iter::Iterator::nth')
def m_nth(c, st, r, i):
    v = deref_val(c, st, r)
    if isinstance(v, VMod) and v.kind == 'chunks_exact' and v.fs[1].l.const() is not None:
        sl, n = v.fs[0], v.fs[1].l.const()
        f = ('ge', sl.len - (i.l + 1) * n)
        out = []
        s1 = st.copy()
        if s1.assume(f, False):
            out.append((s1, opt(c)))
        if st.assume(f):
            o = sl.off + i.l * n
            c.e.store(st, r.root, r.path, VMod(v.kind, (VSlice(sl.root, sl.path, o + n, sl.len - (i.l + 1) * n), v.fs[1]), v.ty))
            out.append((st, opt(c, VSlice(sl.root, sl.path, o, K(n)), none=False)))
        return out
    if isinstance(v, VMod) and v.kind == 'slice_iter':
        sl = v.fs[0]
        f = ('ge', sl.len - i.l - 1)
        out = []
        s1 = st.copy()
        if s1.assume(f, False):
            out.append((s1, opt(c)))
        if st.assume(f):
            e = c.e.elem_ref(st, sl, i.l, c.key('n'), sl.mut)
            c.e.store(st, r.root, r.path, VMod(v.kind, (VSlice(sl.root, sl.path, sl.off + i.l + 1, sl.len - i.l - 1, sl.mut),), v.ty))
            out.append((st, opt(c, e, none=False)))
        return out
    return NotImplemented


@model('core::slice::<impl [T]>::split')
def m_split(c, st, a, pred):
    root, path, off, ln = c.e.seq_at(st, a)
    return VMod('split', (VSlice(root, path, off, ln), VBool(False), pred), c.ret_ty)


@model("<std::slice::Split<'a, T, P> as std::iter::Iterator>::next")
def m_split_next(c, st, r):
    v = deref_val(c, st, r)
    if not (isinstance(v, VMod) and v.kind == 'split'):
        return c.e.top(c.ret_ty, st)
    sl, done = v.fs[0], v.fs[1].f
    if done is True:
        return opt(c)
    # the piece up to the next separator, or everything that is left
    s1 = st.copy()
    c.e.store(s1, r.root, r.path, VMod('split', (VSlice(sl.root, sl.path, sl.off + sl.len, K(0)), VBool(True), v.fs[2]), v.ty))
    out = [(s1, opt(c, sl, none=False))]
    n = fresh(0, ISIZE_MAX, 'piece')
    if st.assume(('ge', sl.len - n - 1)):
        c.e.store(st, r.root, r.path, VMod('split', (VSlice(sl.root, sl.path, sl.off + n + 1, sl.len - n - 1), VBool(False), v.fs[2]), v.ty))
        out.append((st, opt(c, VSlice(sl.root, sl.path, sl.off, n), none=False)))
    return out


def drive(c, st, it, body, on_round=None):
    """run an iterator to its end.  body(state, item) -> [state].  An analysis of the synthetic
    loop `while let Some(x) = it.next() { body }`, to a fixed point."""
    from .engine import LoopHead
    e = c.e
    nxt = c.f.get('next')
    root = c.e.alloc(st, c.key('it'), it, pin=True)
    oty = None
    if e.flags.get('exact'):
        # a bounded analysis follows every turn on its own
        todo, exits, n = [st], [], 0
        while todo:
            n += 1
            if n > (2000 if e.flags['exact'] is True else e.flags['exact']):
                raise Unsupported('too many turns of an iteration')
            if on_round and n == 1:
                on_round()
            for s, o in next_item(c, todo.pop(), VRef(root, (), True), nxt):
                for s2, var, fs in e.variants(s, o):
                    if var == 0:
                        s2.mem.pop(root, None)
                        exits.append(s2)
                    else:
                        todo += body(s2, fs[0])
        return e.merge(exits, None) if exits else []
    heads = [LoopHead(st)]
    n = 0
    while True:
        n += 1
        marks = [r.mark() for r in e.rules]
        exits, back = [], []
        if on_round:
            on_round()
        for h in heads:
            for s, o in next_item(c, h.st.copy(), VRef(root, (), True), nxt):
                for s2, var, fs in e.variants(s, o):
                    if var == 0:
                        exits.append(s2)
                    else:
                        back += body(s2, fs[0])
        back = e.merge(back, None) if back else []
        changed = False
        for b in back:
            if e.absorb(heads, b, n):
                changed = True
        if not changed:
            for x in exits:
                x.mem.pop(root, None)
            return e.merge(exits, None) if exits else []
        for r, m in zip(e.rules, marks):
            r.reset(m)
        if n > 20:
            raise Unsupported('iteration does not stabilise')


def next_item(c, st, ref, nxt):
    e = c.e
    if nxt is None:
        raise Unsupported('iterator without next')
    t = dict(c.t)
    t['dt'] = nxt.get('rt', c.ret_ty)
    return e.call_fn(nxt, [ref], st, c.fr, ('next', c.site), t)


def take_refs(c, st, v):
    """reference values yielded by an iterator, kept in a collection: fine as they are"""
    return v


@model('std::iter::Iterator::collect')
def m_collect(c, st, it):
    rt = c.e.P.ty(c.ret_ty)
    return collect_into(c, st, it, c.ret_ty)


@model('std::iter::FromIterator::from_iter', '<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter', '<std::string::String as std::iter::FromIterator<char>>::from_iter')
def m_from_iter(c, st, it):
    into = c.f.get('into_iter')
    if into is not None and not isinstance(it, VMod):
        out = []
        for s, v in c.e.call_fn(into, [it], st, c.fr, ('ii', c.site), c.t):
            out += collect_into(c, s, v, c.ret_ty)
        return out
    return collect_into(c, st, it, c.ret_ty)


@model('std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_ascii_uppercase')
def m_case(c, st, a):
    q = c.e.seq_val(st, a)
    if q.segs is not None and all(s[0] == 'c' and s[1].isascii() for s in q.segs):
        return bytes_seq(c, tuple(('c', s[1].lower() if 'lower' in c.f['path'] else s[1].upper()) for s in q.segs))
    return c.e.top(c.ret_ty, st)


def bytes_left(c, st, it):
    """[(state, content)] of an iterator over bytes whose bytes are known, or None"""
    e = c.e
    if isinstance(it, VMod) and it.kind == 'own_iter' and isinstance(it.fs[0], VSeq):
        q, i = it.fs[0], it.fs[1].l
        if q.ety != e.P.u8 or q.segs is None:
            return None
        x = q.segs if i.const() == 0 else sub_segs(q.segs, i, q.len - i, st.facts)
        return None if x is None else [(st, x)]
    if isinstance(it, VMod) and it.kind == 'slice_iter':
        try:
            q = e.seq_val(st, it.fs[0])
        except Unsupported:
            return None
        return None if q.ety != e.P.u8 or q.segs is None else [(st, q.segs)]
    if not isinstance(it, VAgg) or it.ty is None:
        return None
    p = e.P.ty(it.ty).get('path')
    if p in ('std::iter::Copied', 'std::iter::Cloned'):
        return bytes_left(c, st, it.fs[0])
    if p == 'std::iter::Chain':
        out = [(st, ())]
        for o in it.fs:
            if not isinstance(o, VEnum) or len(o.vs) != 1:
                return None
            if 1 in o.vs:
                nxt = []
                for s, x in out:
                    r = bytes_left(c, s, o.vs[1][0])
                    if r is None:
                        return None
                    nxt += [(s2, x + y) for s2, y in r]
                out = nxt
        return out
    if p in ('std::iter::Skip', 'std::iter::Take') and isinstance(it.fs[1], VInt):
        r = bytes_left(c, st, it.fs[0])
        if r is None:
            return None
        n, out = it.fs[1].l, []
        for s, x in r:
            ln = segs_len(x)
            s1 = s.copy()
            if s1.assume(('ge', ln - n)):
                y = sub_segs(x, n, ln - n, s1.facts) if p.endswith('Skip') else sub_segs(x, K(0), n, s1.facts)
                if y is None:
                    return None
                out.append((s1, y))
            if s.assume(('ge', n - ln - 1)):
                out.append((s, () if p.endswith('Skip') else x))
        return out
    return None


def flat_bytes(c, st, it, nxt):
    """[(state, content)] of a flattened iterator over byte sequences, followed turn by turn, or None"""
    e = c.e
    if not e.flags.get('exact') or not isinstance(it, VAgg) or it.ty is None or e.P.ty(it.ty).get('path') not in ('std::iter::FlatMap', 'std::iter::Flatten'):
        return None
    compat = it.fs[0]
    if not isinstance(compat, VAgg) or not nxt or not nxt.get('inst') or any(not isinstance(o, VEnum) or list(o.vs) != [0] for o in compat.fs[1:3]):
        return None

    def calls(name):
        return [b['t'] for b in e.P.inst[name]['blocks'] if b['t']['k'] == 'call' and isinstance(b['t']['f'], dict)]
    step = [t['f']['inst'] for t in calls(nxt['inst']) if 'FlattenCompat' in (t['f'].get('resolved') or '') and t['f'].get('inst')]
    if len(step) != 1:
        return None
    ts = {t['f'].get('path'): t for t in calls(step[0])}
    inner, into = ts.get('std::iter::adapters::fuse::FuseImpl::next'), ts.get('std::iter::IntoIterator::into_iter')
    if inner is None or into is None:
        return None
    root = e.alloc(st, c.key('flat'), it, pin=True)
    ref = VRef(root, (('f', 0), ('f', 0)), True)
    todo, out, n = [(st, ())], [], 0
    while todo:
        n += 1
        if n > 200:
            return None
        s0, acc = todo.pop()
        for s, o in e.call_fn(inner['f'], [ref], s0, c.fr, ('flat', c.site), inner):
            for s2, var, fs in e.variants(s, o):
                if var == 0:
                    s2.mem.pop(root, None)
                    out.append((s2, acc))
                    continue
                for s3, x in e.call_fn(into['f'], [fs[0]], s2, c.fr, ('into', c.site), into):
                    r = bytes_left(c, s3, x)
                    if r is None:
                        return None
                    todo += [(s4, acc + y) for s4, y in r]
    return out


def collect_into(c, st, it, ty):
    e = c.e
    t = e.P.ty(ty)
    path = t.get('path', '')
    if path == 'std::vec::Vec' and t['a'][0] == e.P.u8:
        r = bytes_left(c, st, it) or flat_bytes(c, st.copy(), it, c.f.get('next'))
        if r is not None:
            return [(s, VSeq(segs_len(x), None, None, norm_segs(x), e.P.u8)) for s, x in r]
    if path in ('std::vec::Vec', 'std::collections::VecDeque', 'std::string::String'):
        ety = e.P.u8 if path.endswith('String') else t['a'][0]
        q0 = VSeq(K(0), None if ety == e.P.u8 else (), None, () if ety == e.P.u8 else None, ety)
        acc = e.alloc(st, c.key('acc'), q0, pin=True)
        known = None
        if path != 'std::string::String':
            known, _ = iter_len(c, st, it)

        def body(s, item):
            if path.endswith('String'):
                if isinstance(item, VInt):
                    m_push_char(c, s, VRef(acc, (), True), item)
                else:
                    q = e.load(s, acc, ())
                    append_segs(c, s, acc, (), q, None)
            else:
                push_val(c, s, VRef(acc, (), True), item)
            return [s]
        out = []
        for s in drive(c, st, it, body):
            q = s.mem.pop(acc)
            if known is not None:
                s.assume(('eq', q.len - known))
                q = sized(q, known)
            out.append((s, q))
        return out
    if path in ('std::option::Option', 'std::result::Result'):
        return collect_try(c, st, it, ty)
    if path == 'std::collections::HashMap':
        st2 = st

        def body(s, item):
            return [s]
        return [(s, e.top(ty, s)) for s in drive(c, st, it, body)]
    raise Unsupported(f'collect into {t["s"]}')


def sized(q, n):
    """the same sequence with its length written as a constant"""
    if n.const() is None or q.len.const() is not None or q.segs is None or len(q.segs) != 1 or q.segs[0][0] != 'sub' or q.segs[0][3] != q.len:
        return q
    return VSeq(n, q.elems, q.summ, (('sub', q.segs[0][1], q.segs[0][2], n),), q.ety)


def collect_try(c, st, it, ty):
    """collect::<Option<C>> and collect::<Result<C, E>>: stop at the first failure"""
    e = c.e
    t = e.P.ty(ty)
    is_opt = t['path'] == 'std::option::Option'
    inner = t['a'][0]
    ti = e.P.ty(inner)
    if ti.get('path') != 'std::vec::Vec':
        return [(st, e.top(ty, st))]
    ety = ti['a'][0]
    q0 = VSeq(K(0), None if ety == e.P.u8 else (), None, () if ety == e.P.u8 else None, ety)
    acc = e.alloc(st, c.key('acc'), q0, pin=True)
    known, _ = iter_len(c, st, it if not (isinstance(it, VAgg) and it.fs and isinstance(it.fs[0], VMod)) else it.fs[0])
    fails = []
    good = 1 if is_opt else 0

    def body(s, item):
        res_ = []
        for s2, var, fs in e.variants(s, item):
            if var == good:
                push_val(c, s2, VRef(acc, (), True), fs[0])
                res_.append(s2)
            else:
                s2.mem.pop(acc, None)
                fails.append((s2, fs))
        return res_
    outs = []
    done = drive(c, st, it, body, fails.clear)
    for s in done:
        q = s.mem.pop(acc)
        if known is not None:
            s.assume(('eq', q.len - known))
            q = sized(q, known)
        outs.append((s, VEnum(ty, {good: (q,)})))
    for s, fs in fails:
        outs.append((s, VEnum(ty, {1 - good: tuple(fs) if not is_opt else ()})))
    return outs


@model('std::iter::Extend::extend', '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def m_extend(c, st, r, src):
    e = c.e
    root, path, off, ln = e.seq_at(st, r)
    q = e.load(st, root, path)
    try:
        x = e.seq_val(st, src) if not isinstance(src, VMod) else None
    except Unsupported:
        x = None
    if x is not None:
        append_seq(c, st, root, path, q, x)
        return UNIT
    into = c.f.get('into_iter')
    items = [(st, src)]
    if into is not None:
        items = e.call_fn(into, [src], st, c.fr, ('ii', c.site), c.t)
    out = []
    for s, it in items:
        known = bytes_left(c, s, it) if q.ety == e.P.u8 else None
        if known is not None:
            for s2, x in known:
                append_segs(c, s2, root, path, e.load(s2, root, path), x)
                out.append((s2, UNIT))
            continue

        def body(s2, item):
            v = item
            if isinstance(v, VRef) and q.ety is not None and e.P.ty(q.ety)['k'] != 'ref':
                v = e.load(s2, v.root, v.path)
            push_val(c, s2, r, v)
            return [s2]
        for s3 in drive(c, s, it, body):
            out.append((s3, UNIT))
    return out


@model('std::iter::Iterator::rev')
def m_rev(c, st, it):
    return VMod('rev', (it,), c.ret_ty)


@model('std::iter::Iterator::sum', 'std::iter::Iterator::product', 'std::iter::Iterator::min', 'std::iter::Iterator::max', 'std::iter::Iterator::min_by_key', 'std::iter::Iterator::max_by_key')
def m_sum(c, st, it):
    if c.f['path'].endswith(('sum', 'product')):
        c.e.panic(st, c.fr, 'sum may overflow', sp=c.t.get('sp'))
    return c.e.top(c.ret_ty, st)


@model('std::iter::Iterator::by_ref')
def m_by_ref(c, st, it):
    return it


@model('std::iter::Iterator::size_hint', '<std::iter::StepBy<I> as std::iter::Iterator>::size_hint')
def m_size_hint(c, st, r):
    return c.e.top(c.ret_ty, st)


# ---------------------------------------------------------------- maps

@model('std::collections::HashMap::<K, V>::new', 'std::collections::HashMap::<K, V>::with_capacity', '<std::collections::HashMap<K, V, S> as std::default::Default>::default')
def m_map_new(c, st, *a):
    return VMod('map', ((), VInt(K(0)), new_id('map')), c.ret_ty)


@model('<std::collections::HashMap<K, V> as std::convert::From<[(K, V); N]>>::from')
def m_map_from(c, st, a):
    if isinstance(a, VSeq) and a.elems is not None and not a.elems:
        return VMod('map', ((), VInt(K(0)), new_id('map')), c.ret_ty)
    return c.e.top(c.ret_ty, st)


def map_ty(c, v):
    t = c.e.P.ty(v.ty)
    return t['a'][0], t['a'][1]


@model('std::collections::HashMap::<K, V, S, A>::insert')
def m_map_insert(c, st, r, k, v):
    m = deref_val(c, st, r)
    c.e.fire('map_insert', st, c.fr, map=r, key=k, val=v)
    if isinstance(m, VMod) and m.kind == 'map':
        ents = m.fs[0]
        n = None
        if ents is not None and len(ents) < 8:
            try:
                kc = c.e.seq_val(st, k).segs
            except Unsupported:
                kc = None
            if kc is not None and (not kc or all(s[0] == 'c' for s in kc)) and all(x[0] is not None for x in ents):
                n = tuple(x for x in ents if x[0] != kc) + ((kc, v),)
        ln = m.fs[1].l
        nl = fresh(0, ISIZE_MAX)
        st.facts = st.facts.add_ge(nl - ln) or st.facts
        st.facts = st.facts.add_ge(ln + 1 - nl) or st.facts
        if n is not None:
            nl = K(len(n))
        c.e.store(st, r.root, r.path, VMod('map', (n, VInt(nl), new_id('map')), m.ty))
    return c.e.top(c.ret_ty, st)


@model('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S, A>::get_mut')
def m_map_get(c, st, r, k):
    m = deref_val(c, st, r)
    mut = c.f['path'].endswith('mut')
    if isinstance(m, VMod) and m.kind == 'map':
        if m.fs[0] is not None:
            try:
                kc = c.e.seq_val(st, k).segs
            except Unsupported:
                kc = None
            if kc is not None and all(s[0] == 'c' for s in kc):
                for kk, v in m.fs[0]:
                    if kk == kc:
                        return opt(c, VRef(c.e.alloc(st, c.key('mg'), v), (), mut), none=False)
                return opt(c)
        kt, vt = map_ty(c, m)
        v = c.e.top(vt, st, 'mapval')
        if isinstance(v, VInt) and not mut:
            try:
                kc = c.e.seq_val(st, k).segs
                if kc is not None:
                    lo, hi = S.lo[v.l.t[0][0]], S.hi[v.l.t[0][0]]
                    v = VInt(term(('mapget', m.fs[2], kc), lo, hi, 'mapget'))
            except Unsupported:
                pass
        has = map_has(c, st, m, k)
        if mut:
            c.e.store(st, r.root, r.path, VMod('map', (None, m.fs[1], new_id('map')), m.ty))
        v = opt(c, VRef(c.e.alloc(st, c.key('mg'), v), (), mut))
        if has is not None and isinstance(v, VEnum) and len(v.vs) == 2:
            v = VEnum(v.ty, v.vs, {0: (('eq', has),), 1: (('ge', has - 1),)})
        return v
    return c.e.top(c.ret_ty, st)


def map_has(c, st, m, k):
    """1 when a map has a key, as a number; None when the key is not known"""
    try:
        kc = c.e.seq_val(st, k).segs
    except Unsupported:
        return None
    if kc is None:
        return None
    if m.fs[0] is not None and all(s[0] == 'c' for s in kc) and all(x[0] is not None for x in m.fs[0]):
        return K(1 if any(x[0] == kc for x in m.fs[0]) else 0)
    return term(('maphas', m.fs[2], kc), 0, 1, 'maphas')


@model('std::collections::HashMap::<K, V, S, A>::contains_key')
def m_map_contains(c, st, r, k):
    m = deref_val(c, st, r)
    has = map_has(c, st, m, k) if isinstance(m, VMod) and m.kind == 'map' else None
    if has is not None:
        return VBool(c.e.compare('Eq', VInt(has), VInt(K(1)), st))
    return c.e.top(c.ret_ty, st)


@model('std::collections::HashMap::<K, V, S, A>::len')
def m_map_len(c, st, r):
    return deref_val(c, st, r).fs[1]


@model('std::collections::HashMap::<K, V, S, A>::is_empty')
def m_map_empty(c, st, r):
    return VBool(c.e.compare('Eq', deref_val(c, st, r).fs[1], VInt(K(0)), st))


@model('std::collections::HashMap::<K, V, S, A>::iter', "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
       '<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter', 'std::collections::HashMap::<K, V, S, A>::keys', 'std::collections::HashMap::<K, V, S, A>::values')
def m_map_iter(c, st, r):
    m = deref_val(c, st, r)
    if c.e.flags.get('exact') and isinstance(m, VMod) and m.kind == 'map' and m.fs[0] is not None and len(m.fs[0]) <= 3 and all(k is not None for k, _ in m.fs[0]):
        # the entries come in any order
        kt = map_ty(c, m)[0]
        ents = []
        for k, v in m.fs[0]:
            q = VSeq(segs_len(k), None, None, k, c.e.P.u8)
            ents.append(VAgg(None, (q, v, VRef(c.e.alloc(st, c.key('mk'), q, pin=True), ()), VRef(c.e.alloc(st, c.key('mv'), v, pin=True), ()))))
        out = []
        for order in itertools.permutations(ents):
            out.append((st.copy(), VMod('map_iter', (VInt(K(len(ents))), VInt(K(0)), VAgg(None, order)), c.ret_ty)))
        return out
    return VMod('map_iter', (m.fs[1] if isinstance(m, VMod) and m.kind == 'map' else VInt(fresh(0, U64)), VInt(K(0))), c.ret_ty)


@model("<std::collections::hash_map::Keys<'a, K, V> as std::iter::Iterator>::next", "<std::collections::hash_map::Values<'a, K, V> as std::iter::Iterator>::next",
       "<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next", '<std::collections::hash_map::IntoIter<K, V, A> as std::iter::Iterator>::next')
def m_map_next(c, st, r):
    v = deref_val(c, st, r)
    if isinstance(v, VMod) and v.kind == 'map_iter':
        n, i = v.fs[0].l, v.fs[1].l
        if len(v.fs) > 2:
            k = i.const()
            if k == n.const():
                return opt(c)
            kv, vv, kr, vr = v.fs[2].fs[k].fs
            c.e.store(st, r.root, r.path, VMod('map_iter', (v.fs[0], VInt(i + 1), v.fs[2]), v.ty))
            it = c.e.P.ty(c.e.P.ty(c.ret_ty)['a'][0])
            if it['k'] == 'tuple':
                ref = c.e.P.ty(it['a'][0])['k'] == 'ref'
                return opt(c, VAgg(c.e.P.ty(c.ret_ty)['a'][0], (kr, vr) if ref else (kv, vv)), none=False)
            if 'Keys' in c.e.P.s(v.ty):
                return opt(c, kr, none=False)
            if 'Values' in c.e.P.s(v.ty):
                return opt(c, vr, none=False)
            return c.e.top(c.ret_ty, st)
        out = []
        s1 = st.copy()
        if s1.assume(('ge', i - n)):
            out.append((s1, opt(c)))
        if st.assume(('ge', n - i - 1)):
            c.e.store(st, r.root, r.path, VMod('map_iter', (v.fs[0], VInt(i + 1)), v.ty))
            x = c.e.top(c.ret_ty, st, 'entry')
            out.append((st, VEnum(c.ret_ty, {1: x.vs[1]}) if isinstance(x, VEnum) else x))
        return out
    return c.e.top(c.ret_ty, st)


@model('std::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by', 'core::slice::<impl [T]>::sort_unstable_by_key')
def m_sort_by(c, st, a, f):
    r, p, o, n = c.e.seq_at(st, a)
    q = c.e.load(st, r, p)
    c.e.fire('sorted', st, c.fr, seq=a, by=f)
    done = sort_known(c, st, q, 'key' if c.f['path'].endswith('key') else 'cmp', f)
    if done is not None:
        for s1, el in done:
            c.e.store(s1, r, p, VSeq(q.len, el, None, None, q.ety))
        return [(s1, UNIT) for s1, _ in done]
    c.e.store(st, r, p, VSeq(q.len, None, summary(q) if q.elems is None or len(q.elems) <= 1 else None, None, q.ety))
    return UNIT


# ---------------------------------------------------------------- numbers

def int_ty(c):
    return c.e.P.ty(c.t['at'][0])


def num(name, *tys):
    tys = tys or ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize')
    return [f'core::num::<impl {t}>::{name}' for t in tys]


def bits_of(c, ty):
    t = c.e.P.ty(ty)
    return t['bits']


@model(*num('to_be_bytes'))
def m_to_be(c, st, x):
    n = bits_of(c, c.t['at'][0]) // 8
    return bytes_seq(c, (('be', n, x.l),))


@model(*num('to_le_bytes'), *num('to_ne_bytes'))
def m_to_le(c, st, x):
    n = bits_of(c, c.t['at'][0]) // 8
    return bytes_seq(c, (('le', n, x.l),))


@model(*num('from_be_bytes'), *num('from_le_bytes'), *num('from_ne_bytes'))
def m_from_be(c, st, a):
    k = 'be' if 'from_be' in c.f['path'] else 'le'
    from .engine import int_range
    lo, hi = int_range(c.e.P.ty(c.ret_ty))
    segs = a.segs if isinstance(a, VSeq) else None
    if segs is not None:
        if len(segs) == 1 and segs[0][0] == k and segs[0][1] == bits_of(c, c.ret_ty) // 8:
            return VInt(segs[0][2])
        if len(segs) == 1 and segs[0][0] == 'c':
            return VInt(K(int.from_bytes(segs[0][1], 'big' if k == 'be' else 'little')))
        if lo == 0 and any(x[0] == 'b' for x in segs) and all(x[0] in 'bc' for x in segs):
            r = K(0)
            bs = [y for x in segs for y in ([K(z) for z in x[1]] if x[0] == 'c' else [x[1]])]
            for x in bs if k == 'be' else reversed(bs):
                r = r * 256 + x
            return VInt(r)
        return VInt(term(('from_' + k, segs), lo, hi, 'from_' + k))
    return c.e.top(c.ret_ty, st)


@model(*num('is_ascii_digit', 'u8'))
def m_is_digit(c, st, a):
    v = deref_val(c, st, a)
    return VBool(fand(('ge', v.l - 48), ('ge', K(57) - v.l)))


def in_range(c, st, l):
    from .engine import int_range
    lo, hi = int_range(c.e.P.ty(c.t['at'][0]))
    return fand(('ge', l - lo), ('ge', K(hi) - l))


def arith(c, st, a, b):
    m = c.f['path'].split('::')[-1]
    if 'add' in m:
        return a.l + b.l
    if 'sub' in m:
        return a.l - b.l
    return c.e.mul(a.l, b.l, st)


@model(*num('checked_add'), *num('checked_sub'), *num('checked_mul'))
def m_checked(c, st, a, b):
    x = arith(c, st, a, b)
    f = in_range(c, st, x)
    t = st.truth(f)
    out = []
    if t is not True:
        s1 = st.copy()
        if s1.assume(f, False):
            out.append((s1, opt(c)))
    if t is not False and st.assume(f):
        out.append((st, opt(c, VInt(x), none=False)))
    return out


@model(*num('checked_div'), *num('checked_rem'))
def m_checked_div(c, st, a, b):
    out = []
    s1 = st.copy()
    if s1.assume(('eq', b.l)):
        out.append((s1, opt(c)))
    if st.assume(('ge', b.l - 1)):
        q, r = c.e.divrem(a.l, b.l, st)
        out.append((st, opt(c, VInt(q if 'div' in c.f['path'] else r), none=False)))
    return out


@model(*num('saturating_add'), *num('saturating_sub'), *num('saturating_mul'))
def m_saturating(c, st, a, b):
    from .engine import int_range
    x = arith(c, st, a, b)
    lo, hi = int_range(c.e.P.ty(c.t['at'][0]))
    f = in_range(c, st, x)
    t = st.truth(f)
    if t is True:
        return VInt(x)
    if lo == 0 and x.t and not c.f['path'].endswith('_sub'):
        # a sum or product of naturals that stops at the top
        if c.e.flags.get('no_saturation'):
            return VInt(x) if st.assume(f) else None
        if st.facts.implies(x - hi):
            return VInt(K(hi))
        m = term(('clamp', hi, x), 0, hi, 'sat')
        st.assume(('ge', x - m))
        if c.f['path'].endswith('_add'):
            st.assume(('ge', m - a.l))
            st.assume(('ge', m - b.l))
        return VInt(m)
    out = []
    for side, val in ((('ge', K(lo) - 1 - x), lo), (('ge', x - hi - 1), hi)):
        s1 = st.copy()
        if side[1].t or side[1].c >= 0:
            if s1.assume(side):
                if val == hi and c.e.flags.get('no_saturation'):
                    continue
                out.append((s1, VInt(K(val))))
    if st.assume(f):
        out.append((st, VInt(x)))
    return out


@model(*num('wrapping_add'), *num('wrapping_sub'), *num('wrapping_mul'))
def m_wrapping(c, st, a, b):
    from .engine import int_range
    x = arith(c, st, a, b)
    if st.truth(in_range(c, st, x)) is True:
        return VInt(x)
    t = c.e.P.ty(c.t['at'][0])
    lo, hi = int_range(t)
    return VInt(term(('wrap', t['s'], x), lo, hi, 'wrap'))


@model(*num('div_ceil'), *num('next_multiple_of'))
def m_div_ceil(c, st, a, b):
    if not c.e.oblige(st, c.fr, 'division by zero', ('ge', b.l - 1), sp=c.t.get('sp')):
        return None
    r = ceil_div(c, st, a.l, b.l)
    return VInt(r)


@model(*num('pow'), *num('abs'))
def m_pow(c, st, a, *b):
    if a.l.const() is not None and b and b[0].l.const() is not None:
        return VInt(K(a.l.const() ** b[0].l.const()))
    c.e.panic(st, c.fr, 'overflow', sp=c.t.get('sp'))
    return c.e.top(c.ret_ty, st)


@model(*num('is_power_of_two'), *num('leading_zeros'), *num('trailing_zeros'), *num('count_ones'), *num('abs_diff'))
def m_misc_num(c, st, *a):
    return c.e.top(c.ret_ty, st)


def minmax(c, st, a, b, is_min):
    if st.facts.implies(b - a):
        return a if is_min else b
    if st.facts.implies(a - b):
        return b if is_min else a
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    r = term(('min' if is_min else 'max', x, y), None, None, 'min' if is_min else 'max')
    if is_min:
        st.facts = st.facts.add_ge(a - r) or st.facts
        st.facts = st.facts.add_ge(b - r) or st.facts
    else:
        st.facts = st.facts.add_ge(r - a) or st.facts
        st.facts = st.facts.add_ge(r - b) or st.facts
    return r


def m_minmax(c, st, a, b):
    is_min = 'min' in c.f['path'].split('::')[-1]
    if isinstance(a, VRef):
        return NotImplemented
    if not (isinstance(a, VInt) and isinstance(b, VInt)):
        return NotImplemented
    # one state per side: what is compared usually decides how the program goes on
    if st.facts.implies(b.l - a.l):
        return a if is_min else b
    if st.facts.implies(a.l - b.l):
        return b if is_min else a
    s1 = st.copy()
    out = []
    if s1.assume(('ge', b.l - a.l)):
        out.append((s1, a if is_min else b))
    if st.assume(('ge', a.l - b.l - 1)):
        out.append((st, b if is_min else a))
    return out


model('std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::Ord::max',
      *[f'std::cmp::impls::<impl std::cmp::Ord for {t}>::{m}' for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize') for m in ('min', 'max')])(m_minmax)


@model('<u8 as std::ops::BitAnd<&u8>>::bitand', '<&u8 as std::ops::BitAnd<u8>>::bitand', '<&u8 as std::ops::BitAnd>::bitand', '<&usize as std::ops::Add<usize>>::add', '<usize as std::ops::Add<&usize>>::add', '<&usize as std::ops::Sub<usize>>::sub', '<&usize as std::ops::Mul<usize>>::mul',
       '<&usize as std::ops::Div<usize>>::div', '<u8 as std::ops::Sub<&u8>>::sub', '<&u8 as std::ops::Sub<u8>>::sub', '<&u8 as std::ops::Shr<i32>>::shr', '<&u8 as std::ops::Shr<usize>>::shr')
def m_refop(c, st, a, b):
    x, y = deref_val(c, st, a), deref_val(c, st, b)
    m = c.f['path'].split('::')[-1] if '::' in c.f['path'] else ''
    op = {'bitand': 'BitAnd', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'shr': 'Shr'}[m]
    t = c.e.P.ty(c.ret_ty)
    if op in ('Add', 'Sub', 'Mul'):
        l = arith(c, st, x, y)
        from .engine import int_range
        lo, hi = int_range(t)
        if not c.e.oblige(st, c.fr, 'overflow', fand(('ge', l - lo), ('ge', K(hi) - l)), sp=c.t.get('sp')):
            return None
        return VInt(l)
    if op == 'Div' and not c.e.oblige(st, c.fr, 'division by zero', ('ge', y.l - 1), sp=c.t.get('sp')):
        return None
    return c.e.bin_val(op, x, y, t, c.ret_ty, st)


def m_try_from_int(c, st, a):
    from .engine import int_range
    t = c.e.P.ty(c.ret_ty)
    to = c.e.P.ty(t['a'][0])
    if to['k'] not in ('uint', 'int') or not isinstance(a, VInt):
        return NotImplemented
    lo, hi = int_range(to)
    f = fand(('ge', a.l - lo), ('ge', K(hi) - a.l))
    tv = st.truth(f)
    out = []
    if tv is not True:
        s1 = st.copy()
        if s1.assume(f, False):
            out.append((s1, VEnum(c.ret_ty, {1: (VMod('opaque', (), t['a'][1]),)})))
    if tv is not False and st.assume(f):
        out.append((st, VEnum(c.ret_ty, {0: (a,)})))
    return out


for _a in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize'):
    for _b in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize'):
        for _m in ('ptr_try_from_impls', 'private'):
            REG[f'std::convert::num::{_m}::<impl std::convert::TryFrom<{_a}> for {_b}>::try_from'] = m_try_from_int
        REG[f'std::convert::num::<impl std::convert::TryFrom<{_a}> for {_b}>::try_from'] = m_try_from_int
        REG[f'std::convert::num::<impl std::convert::From<{_a}> for {_b}>::from'] = lambda c, st, a: a


@model('std::convert::num::<impl std::convert::From<bool> for usize>::from', 'std::convert::num::<impl std::convert::From<bool> for u8>::from')
def m_from_bool(c, st, a):
    f = a.f
    if f in (True, False):
        return VInt(K(int(f)))
    s1 = st.copy()
    out = []
    if s1.assume(f):
        out.append((s1, VInt(K(1))))
    if st.assume(f, False):
        out.append((st, VInt(K(0))))
    return out


@model('std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from')
def m_arr_try_from(c, st, a):
    q = c.e.seq_val(st, a)
    t = c.e.P.ty(c.ret_ty)
    n = c.e.P.ty(t['a'][0])['n']
    out = []
    f = ('eq', q.len - n)
    s1 = st.copy()
    if st.truth(f) is not True and s1.assume(f, False):
        out.append((s1, VEnum(c.ret_ty, {1: (VMod('opaque', (), t['a'][1]),)})))
    if st.assume(f):
        segs = q.segs
        if segs is not None and len(segs) == 1 and segs[0][0] == 'sub' and segs[0][3].const() is None:
            segs = (segs[0][:3] + (K(n),),)
        out.append((st, VEnum(c.ret_ty, {0: (VSeq(K(n), q.elems, q.summ, segs, q.ety),)})))
    return out


@model('std::convert::TryInto::try_into', '<T as std::convert::TryInto<U>>::try_into', 'std::convert::Into::into', '<T as std::convert::Into<U>>::into')
def m_try_into(c, st, a):
    if c.f.get('inst'):
        return NotImplemented
    if isinstance(a, VInt):
        r = m_try_from_int(c, st, a)
        if r is not NotImplemented:
            return r
    if isinstance(a, (VSlice, VRef)) and c.f['path'].endswith('try_into'):
        return m_arr_try_from(c, st, a)
    return c.e.top(c.ret_ty, st)


@model('core::str::<impl str>::parse', 'std::str::FromStr::from_str')
def m_parse(c, st, a):
    t = c.e.P.ty(c.ret_ty)
    okv = c.e.top(t['a'][0], st, 'parsed')
    if isinstance(okv, VInt):
        try:
            seg = c.e.seq_val(st, a).segs
        except Unsupported:
            seg = None
        if seg is not None:
            s = okv.l.t[0][0]
            okv = VInt(term(('parse', c.e.P.s(t['a'][0]), seg), S.lo[s], S.hi[s], 'parse'))
    elif isinstance(okv, VMod) and okv.kind == 'opaque':
        okv = VMod('parsed', (seg_content(c, st, a),), okv.ty)
    return VEnum(c.ret_ty, {0: (okv,), 1: (c.e.top(t['a'][1], st),)})


@model('std::str::from_utf8', 'std::string::String::from_utf8', 'core::str::from_utf8')
def m_from_utf8(c, st, a):
    t = c.e.P.ty(c.ret_ty)
    v = a
    if isinstance(a, VRef):
        v = m_as_slice(c, st, a)
    return VEnum(c.ret_ty, {0: (v,), 1: (c.e.top(t['a'][1], st),)})


@model('std::string::String::from_utf8_lossy')
def m_lossy(c, st, a):
    try:
        q = c.e.seq_val(st, a)
    except Unsupported:
        q = None
    if q is None or q.segs is None:
        return VMod('cow', (new_bytes(c),), c.ret_ty)
    if all(s[0] == 'c' and s[1].isascii() for s in q.segs):
        return VMod('cow', (bytes_seq(c, q.segs),), c.ret_ty)
    # what is not text is replaced: other bytes than before
    return VMod('cow', (bytes_seq(c, (('sub', ('lossy', q.segs), K(0), fresh(0, ISIZE_MAX)),)),), c.ret_ty)


# ---------------------------------------------------------------- comparison

def eq_formula(c, st, a, b, depth=0):
    a, b = deref_all(c, st, a), deref_all(c, st, b)
    if isinstance(a, VInt) and isinstance(b, VInt):
        return c.e.compare('Eq', a, b, st)
    if isinstance(a, VBool) and isinstance(b, VBool):
        return c.e.compare('Eq', a, b, st)
    if isinstance(a, (VSeq, VSlice)) and isinstance(b, (VSeq, VSlice)):
        x, y = c.e.seq_val(st, a), c.e.seq_val(st, b)
        if x.segs is not None and y.segs is not None:
            f = ('ce', x.segs, y.segs)
            t = st.truth(f)
            if t is not None:
                return t
            # a short known content: also byte by byte
            for p, q in ((x, y), (y, x)):
                if len(q.segs) == 1 and q.segs[0][0] == 'c' and len(q.segs[0][1]) <= 8 and len(p.segs) >= 1:
                    pass
            c.e.fire('compared', st, c.fr, x=x, y=y, f=f, t=c.t)
            return f
        return ('atom', new_id('b')[1])
    if isinstance(a, VAgg) and isinstance(b, VAgg) and len(a.fs) == len(b.fs):
        f = True
        for x, y in zip(a.fs, b.fs):
            f = fand(f, eq_formula(c, st, x, y, depth + 1))
        return f
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        if not set(a.vs) & set(b.vs):
            return False
        if len(a.vs) == 1 and len(b.vs) == 1:
            (i, fa), = a.vs.items()
            fb = b.vs[i]
            f = True
            for x, y in zip(fa, fb):
                f = fand(f, eq_formula(c, st, x, y, depth + 1))
            return f
    return ('atom', new_id('b')[1])


def m_eq(c, st, a, b):
    f = c.f
    if f.get('inst') and not c.e.P.inst[f['inst']].get('derived'):
        return NotImplemented
    if f.get('inst'):
        va, vb = deref_all(c, st, a), deref_all(c, st, b)
        if not (isinstance(va, (VInt, VSeq, VSlice, VBool)) and isinstance(vb, (VInt, VSeq, VSlice, VBool))):
            return NotImplemented
    x = eq_formula(c, st, a, b)
    return VBool(x if f.get('m', f['path'].split('::')[-1]) == 'eq' else fnot(x))


model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')(m_eq)


def m_ord(c, st, a, b):
    f = c.f
    if f.get('inst'):
        return NotImplemented
    x, y = deref_all(c, st, a), deref_all(c, st, b)
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[f.get('m', f['path'].split('::')[-1])]
    return VBool(c.e.compare(op, x, y, st))


model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')(m_ord)


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp', '<std::string::String as std::cmp::Ord>::cmp')
def m_cmp(c, st, a, b):
    if c.f.get('inst'):
        return NotImplemented
    x, y = deref_all(c, st, a), deref_all(c, st, b)
    ty = c.ret_ty
    if c.f['path'].endswith('cmp') and c.e.P.s(ty) == 'std::cmp::Ordering' and not isinstance(x, VInt):
        o = compare_values(c.e, st, x, y)
        if o is not None:
            return VEnum(ty, {o + 1: ()})
    if c.f['path'].endswith('cmp') and isinstance(x, VInt) and isinstance(y, VInt) and c.e.P.s(ty) == 'std::cmp::Ordering':
        return VEnum(ty, {0: (), 1: (), 2: ()}, {0: (('ge', y.l - x.l - 1),), 1: (('eq', x.l - y.l),), 2: (('ge', x.l - y.l - 1),)})
    return c.e.top(ty, st)


# ---------------------------------------------------------------- formatting

@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug")
def m_fmt_arg(c, st, a):
    ga = gen_args(c)
    if c.f['path'].endswith('display') or c.e.P.ty(ga[0])['k'] in ('uint', 'int') or (c.e.P.ty(ga[0])['k'] == 'ref' and c.e.P.ty(c.e.P.ty(ga[0])['e'])['k'] in ('uint', 'int')):
        try:
            segs = display(c, st, a, ga[0] if ga else None)
        except Unsupported:
            segs = None
    else:
        segs = None
    return VMod('fmtarg', (segs,), c.ret_ty)


@model("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const", "std::fmt::rt::<impl std::fmt::Arguments<'a>>::new")
def m_fmt_args(c, st, tpl, args=None):
    try:
        q = c.e.seq_val(st, tpl)
        raw = q.segs[0][1] if q.segs and q.segs[0][0] == 'c' else b''
        if args is None:
            return VMod('fmt', (q.segs,), c.ret_ty)
        av = c.e.seq_val(st, args).elems or ()
        out, i, n = (), 0, 0
        while i < len(raw):
            b = raw[i]
            if b == 0:
                break
            if b == 0xC0:
                s = av[n].fs[0] if n < len(av) and isinstance(av[n], VMod) else None
                n += 1
                out += s if s is not None else (('sub', new_id('fmt'), K(0), fresh(0, ISIZE_MAX)),)
                i += 1
            elif b < 0x80:
                out += (('c', raw[i + 1:i + 1 + b]),)
                i += 1 + b
            else:
                raise Unsupported('format')
        return VMod('fmt', (norm_segs(out),), c.ret_ty)
    except Unsupported:
        return VMod('fmt', ((('sub', new_id('fmt'), K(0), fresh(0, ISIZE_MAX)),),), c.ret_ty)


@model('std::fmt::format')
def m_format(c, st, a):
    if isinstance(a, VMod) and a.kind == 'fmt' and a.fs[0] is not None:
        return bytes_seq(c, a.fs[0])
    return new_bytes(c)


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'a>::write_str")
def m_fmt_write(c, st, *a):
    return c.e.top(c.ret_ty, st)


@model('log::max_level', 'log::__private_api::loc', '<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::partial_cmp', '<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::le')
def m_log_pure(c, st, *a):
    if c.f.get('m') == 'le':
        return VBool(('atom', new_id('b')[1]))
    return c.e.top(c.ret_ty, st)


@model('log::__private_api::log')
def m_log(c, st, *a):
    return UNIT


# ---------------------------------------------------------------- panics

@model('std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed', 'core::panicking::panic', 'core::panicking::panic_fmt',
       'core::panicking::assert_failed', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'std::rt::begin_panic', 'std::rt::panic_fmt',
       'core::panicking::panic_display', 'core::panicking::panic_bounds_check', 'std::process::abort', 'std::process::exit', 'core::panicking::panic_str_2015', 'core::panicking::unreachable')
def m_panic(c, st, *a):
    n = c.f['path'].split('::')
    c.e.panic(st, c.fr, {'unwrap_failed': 'unwrap', 'expect_failed': 'expect'}.get(n[-1], n[-1]), sp=c.t.get('sp'))
    return None


# ---------------------------------------------------------------- hashing

@model('<D as sha1::Digest>::digest', 'sha1::Digest::digest')
def m_sha1(c, st, a):
    segs = seg_content(c, st, a) if not isinstance(a, VSeq) else a.segs
    if segs is None:
        return new_bytes(c, K(20))
    c.e.fire('digest', st, c.fr, segs=norm_segs(segs))
    return bytes_seq(c, (('h', 'sha1', norm_segs(segs), K(20)),))


@model('<D as sha1::Digest>::new', 'sha1::Digest::new', '<sha1::Sha1 as std::default::Default>::default')
def m_sha1_new(c, st):
    return VMod('hasher', ((),), c.ret_ty)


@model('<D as sha1::Digest>::update', 'sha1::Digest::update')
def m_sha1_update(c, st, r, a):
    h = deref_val(c, st, r)
    segs = seg_content(c, st, a) if not isinstance(a, VSeq) else a.segs
    cur = h.fs[0] if isinstance(h, VMod) and h.kind == 'hasher' else None
    c.e.store(st, r.root, r.path, VMod('hasher', (None if cur is None or segs is None else norm_segs(cur + segs),), h.ty))
    return UNIT


@model('<D as sha1::Digest>::chain_update', 'sha1::Digest::chain_update')
def m_sha1_chain(c, st, h, a):
    segs = seg_content(c, st, a) if not isinstance(a, VSeq) else a.segs
    cur = h.fs[0] if isinstance(h, VMod) and h.kind == 'hasher' else None
    return VMod('hasher', (None if cur is None or segs is None else norm_segs(cur + segs),), h.ty)


@model('<D as sha1::Digest>::finalize', 'sha1::Digest::finalize')
def m_sha1_final(c, st, h):
    if isinstance(h, VMod) and h.kind == 'hasher' and h.fs[0] is not None:
        c.e.fire('digest', st, c.fr, segs=h.fs[0])
        return bytes_seq(c, (('h', 'sha1', h.fs[0], K(20)),))
    return new_bytes(c, K(20))


# ---------------------------------------------------------------- fn pointers and closures

@model('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call')
def m_call(c, st, f, args):
    a = list(args.fs) if isinstance(args, VAgg) else [args]
    return c.e.call_value(f, a, st, c.fr, c.site, c.t)


from . import models_io  # noqa: E402,F401
from . import models_more  # noqa: E402,F401
