"""Sockets, files, threads, futures, actors, the web framework."""
from .lin import K, S, fresh, term, U64, ISIZE_MAX
from .values import *
from .state import window
from .engine import Unsupported, fnot, fand, Ctx
from .models import (model, REG, TOPS, opt, res, ok, deref_val, deref_all, new_bytes, bytes_seq, slice_ref, gen_args,
                     write_window, unknown, havoc_args, closures_in, new_tcp, m_id)


def opaque(ty):
    return VMod('opaque', (), ty)


def top_result(c, st):
    return c.e.top(c.ret_ty, st)


def variant_ty(c, ty, i, f=0):
    return c.e.P.ty(ty)['v'][i]['f'][f][1]


# ---------------------------------------------------------------- TCP
# fields of 'tcp': identity, read timeout set, write timeout set, position, bytes known to be there

@model('std::net::TcpStream::connect_timeout')
def _(c, st, addr, dur):
    c.e.fire('blocking', st, c.fr, op='connect', bounded=True, t=c.t)
    return connected(c, st)


def connected(c, st):
    v = new_tcp(variant_ty(c, c.ret_ty, 0))
    if c.e.flags.get('iters'):
        s1 = st.copy()
        c.e.fire('connected', st, c.fr, t=c.t)
        return [(st, res(c, v, err=False)), (s1, res(c, None, st=s1))]
    return res(c, v, st=st)


@model('std::net::TcpStream::connect')
def _(c, st, *a):
    c.e.fire('blocking', st, c.fr, op='connect', bounded=False, t=c.t)
    return connected(c, st)


def find_tcp(c, st, v):
    """(root, path) of the socket behind a reference, or None"""
    for _ in range(6):
        if isinstance(v, VRef):
            x = c.e.load(st, v.root, v.path)
            if isinstance(x, VTop):
                n = c.e.expand(x, st)
                if not isinstance(n, VTop):
                    c.e.store(st, v.root, v.path, n)
                    x = n
            if isinstance(x, (VRef,)):
                v = x
                continue
            if isinstance(x, VMod) and x.kind == 'tcp':
                return v.root, v.path
            if isinstance(x, VMod) and x.kind in ('box', 'guard', 'arc'):
                v = VRef(v.root, v.path + (('b',),)) if x.kind != 'guard' else x.fs[0]
                continue
            if isinstance(x, VEnum):
                for i, fs in x.vs.items():
                    for j, y in enumerate(fs):
                        if isinstance(y, VMod) and y.kind == 'tcp':
                            return v.root, v.path + (('d', i), ('f', j))
            if isinstance(x, VAgg):
                for j, y in enumerate(x.fs):
                    if isinstance(y, VMod) and y.kind == 'tcp':
                        return v.root, v.path + (('f', j),)
            return None
        return None
    return None


def tcp_of(c, st, v):
    p = find_tcp(c, st, v)
    if p is None:
        return None, None
    t = c.e.load(st, *p)
    if isinstance(t, VMod) and t.kind == 'tcp':
        return p, t
    return None, None


def tcp_upd(c, st, p, t, **kw):
    fs = list(t.fs)
    for k, v in kw.items():
        fs[('id', 'rto', 'wto', 'pos', 'avail').index(k)] = v
    c.e.store(st, p[0], p[1], VMod('tcp', fs, t.ty))


@model('std::net::TcpStream::set_read_timeout', 'std::net::TcpStream::set_write_timeout')
def _(c, st, r, d):
    p, t = tcp_of(c, st, r)
    which = 'rto' if 'read' in c.f['path'] else 'wto'
    out = []
    s1 = st.copy()
    out.append((s1, res(c, None, st=s1)))
    for s, i, fs in c.e.variants(st, d):
        if p is not None:
            ok_ = i == 1
            if ok_ and isinstance(fs[0], VMod) and fs[0].kind == 'dur' and s.truth(('ge', fs[0].fs[0].l - 60001)) is not False:
                ok_ = False     # longer than a minute is not a bound worth the name
            tcp_upd(c, s, p, t, **{which: VBool(ok_)})
        out.append((s, res(c, UNIT, err=False)))
    return out


@model('std::net::TcpStream::set_nonblocking', 'std::net::TcpStream::set_nodelay', 'std::net::TcpStream::shutdown', 'std::net::TcpStream::peer_addr')
def _(c, st, *a):
    return top_result(c, st)


def tcp_in(c, st, r, buf, consume, exact=False):
    """peek, read and read_exact"""
    e = c.e
    p, t = tcp_of(c, st, r)
    if p is None:
        havoc_args(c, st, [r, buf])
        e.fire('blocking', st, c.fr, op='read', bounded=None, t=c.t)
        return top_result(c, st)
    e.fire('blocking', st, c.fr, op='read', bounded=st.truth(t.fs[1].f) is True, t=c.t)
    root, path, off, ln = e.seq_at(st, buf)
    tid, pos, avail = t.fs[0], t.fs[3].l, t.fs[4].l
    out = []

    def took(x, how):
        e.fire('net_read', x, c.fr, how=how, size=ln, taken=consume, t=c.t)
    s1 = st.copy()
    if exact:
        # failed half way: an unknown number of bytes is gone
        n = fresh(0, ISIZE_MAX)
        s1.facts = s1.facts.add_ge(ln - n) or s1.facts
        tcp_upd(c, s1, p, t, pos=VInt(pos + n), avail=VInt(K(0)))
        write_window(c, s1, root, path, off, ln, (('sub', new_id('junk'), K(0), ln),))
        if s1.truth(('ge', avail - ln)) is not True:
            took(s1, 'junk')
            out.append((s1, res(c, None, st=s1)))
        write_window(c, st, root, path, off, ln, (('sub', tid, pos, ln),))
        tcp_upd(c, st, p, t, pos=VInt(pos + ln), avail=VInt(K(0)) if st.truth(('ge', avail - ln)) is not True else VInt(avail - ln))
        took(st, 'all')
        out.append((st, res(c, UNIT, err=False)))
        return out
    took(s1, 'error')
    out.append((s1, res(c, None, st=s1)))
    # the whole buffer
    s2 = st.copy()
    write_window(c, s2, root, path, off, ln, (('sub', tid, pos, ln),))
    rest = VInt(avail - ln) if s2.truth(('ge', avail - ln)) is True else VInt(K(0))
    if consume:
        tcp_upd(c, s2, p, t, pos=VInt(pos + ln), avail=rest)
    elif rest.l.const() == 0:
        tcp_upd(c, s2, p, t, avail=VInt(ln))
    took(s2, 'all')
    out.append((s2, res(c, VInt(ln), err=False)))
    # or a part of it
    if st.truth(('ge', avail - ln)) is not True:
        n = fresh(0, ISIZE_MAX, 'part')
        if st.assume(('ge', ln - n - 1)):
            write_window(c, st, root, path, off, ln, (('sub', new_id('part'), K(0), ln),))
            if consume:
                tcp_upd(c, st, p, t, pos=VInt(pos + n), avail=VInt(K(0)))
            took(st, 'part')
            out.append((st, res(c, VInt(n), err=False)))
    return out


@model('<std::net::TcpStream as std::io::Read>::read', "<&std::net::TcpStream as std::io::Read>::read")
def _(c, st, r, buf):
    return tcp_in(c, st, r, buf, True)


@model('std::net::TcpStream::peek')
def _(c, st, r, buf):
    return tcp_in(c, st, r, buf, False)


@model('std::io::Read::read_exact', 'std::io::Read::read_to_end', 'std::io::Read::read', '<std::net::TcpStream as std::io::Read>::read_exact')
def m_read_exact(c, st, r, buf):
    if c.f['path'].endswith('read_to_end'):
        return m_read_to_end(c, st, r, buf)
    return tcp_in(c, st, r, buf, True, c.f['path'].endswith('exact'))


def m_read_to_end(c, st, r, buf):
    e = c.e
    v = deref_all(c, st, r)
    bounded = isinstance(v, VMod) and v.kind == 'reader' and v.fs[0].f is True
    e.fire('blocking', st, c.fr, op='read_to_end', bounded=bounded, t=c.t)
    root, path, off, ln = e.seq_at(st, buf)
    q = e.load(st, root, path)
    n = fresh(0, ISIZE_MAX)
    e.store(st, root, path, VSeq(q.len + n, None, None, None if q.segs is None else norm_segs(q.segs + (('sub', new_id('rte'), K(0), n),)), q.ety))
    return res(c, VInt(n), st=st)


REG['alloc::io::impls::<impl std::io::Read for std::boxed::Box<R, A>>::read_to_end'] = m_read_to_end


@model('std::io::Write::write_all', 'std::io::Write::flush', '<std::net::TcpStream as std::io::Write>::flush', '<std::net::TcpStream as std::io::Write>::write',
       'std::io::Write::write', 'std::io::Write::write_fmt', "<&std::net::TcpStream as std::io::Write>::write", '<std::net::TcpStream as std::io::Write>::write_all')
def m_write(c, st, r, *a):
    m = c.f.get('m', c.f['path'].split('::')[-1])
    e = c.e
    if m == 'write_fmt':
        e.fire('write_fmt', st, c.fr, t=c.t)
        return top_result(c, st)
    if m == 'flush':
        return top_result(c, st)
    p, t = tcp_of(c, st, r)
    if p is None:
        x = deref_all(c, st, r)
        if isinstance(x, VMod) and x.kind == 'file':
            e.fire('fs_write', st, c.fr, file=x, data=seq_or_none(c, st, a[0]), off=None, full=m == 'write_all', t=c.t)
            q = seq_or_none(c, st, a[0])
            if m == 'write':
                n = fresh(0, ISIZE_MAX)
                if q is not None:
                    st.facts = st.facts.add_ge(q.len - n) or st.facts
                return fs_res(c, st, VInt(n), n, q)
            return fs_res(c, st, UNIT, None, q)
        e.fire('net_write', st, c.fr, data=seq_or_none(c, st, a[0]), full=m == 'write_all', stream=None, bounded=False, t=c.t)
        return top_result(c, st)
    q = seq_or_none(c, st, a[0])
    e.fire('blocking', st, c.fr, op='write', bounded=st.truth(t.fs[2].f) is True, t=c.t)
    e.fire('net_write', st, c.fr, data=q, full=m == 'write_all', stream=t, bounded=st.truth(t.fs[2].f) is True, t=c.t)
    if m == 'write_all':
        return res(c, UNIT, st=st)
    n = fresh(0, ISIZE_MAX)
    if q is not None:
        st.facts = st.facts.add_ge(q.len - n) or st.facts
    return res(c, VInt(n), st=st)


def seq_or_none(c, st, a):
    try:
        return c.e.seq_val(st, a)
    except Unsupported:
        return None


@model('std::thread::sleep')
def _(c, st, d):
    b = isinstance(d, VMod) and d.kind == 'dur' and st.truth(('ge', d.fs[0].l - 10001)) is False
    c.e.fire('blocking', st, c.fr, op='sleep', bounded=b, t=c.t)
    return UNIT


# ---------------------------------------------------------------- files
# 'file': content of its path, create, write

def fs_res(c, st, v, n=None, q=None):
    """result of a file system call; with the flag fs its outcomes are told apart"""
    if not c.e.flags.get('fs'):
        return res(c, v, st=st)
    t = c.e.P.ty(c.ret_ty)
    s1 = st.copy()
    c.e.fire('fs_failed', s1, c.fr, op=c.f['path'], t=c.t)
    c.e.fire('fs_ok', st, c.fr, op=c.f['path'], n=n, data=q, t=c.t)
    return [(st, VEnum(c.ret_ty, {0: (v,)})), (s1, VEnum(c.ret_ty, {1: (c.e.top(t['a'][1], s1),)}))]


@model('std::fs::File::open', 'std::fs::File::create')
def _(c, st, p):
    w = c.f['path'].endswith('create')
    q = seq_or_none(c, st, p)
    c.e.fire('blocking', st, c.fr, op='file', bounded=True, t=c.t)
    c.e.fire('fs_open', st, c.fr, path=q, write=w, op=c.f['path'], t=c.t)
    return fs_res(c, st, VMod('file', (q.segs if q is not None else None,), variant_ty(c, c.ret_ty, 0)))


@model('std::fs::OpenOptions::new')
def _(c, st):
    return VMod('openopts', (frozenset(),), c.ret_ty)


def m_oo_set(c, st, r, b):
    o = deref_val(c, st, r)
    n = c.f['path'].split('::')[-1]
    s = o.fs[0] if isinstance(o, VMod) and o.kind == 'openopts' else frozenset()
    if b.f is not False:
        s = s | {n}
    else:
        s = s - {n}
    c.e.store(st, r.root, r.path, VMod('openopts', (s,), o.ty))
    return r


for _n in ('write', 'read', 'append', 'create', 'create_new', 'truncate'):
    REG['std::fs::OpenOptions::' + _n] = m_oo_set


@model('std::fs::OpenOptions::open')
def _(c, st, r, p):
    o = deref_val(c, st, r)
    q = seq_or_none(c, st, p)
    s = o.fs[0] if isinstance(o, VMod) and o.kind == 'openopts' else frozenset(('write',))
    c.e.fire('blocking', st, c.fr, op='file', bounded=True, t=c.t)
    c.e.fire('fs_open', st, c.fr, path=q, write=bool(s & {'write', 'append', 'create', 'create_new', 'truncate'}), opts=s, op=c.f['path'], t=c.t)
    return fs_res(c, st, VMod('file', (q.segs if q is not None else None, s), variant_ty(c, c.ret_ty, 0)))


def m_fs_path(c, st, p, *rest):
    q = seq_or_none(c, st, p)
    c.e.fire('blocking', st, c.fr, op='file', bounded=True, t=c.t)
    c.e.fire('fs_open', st, c.fr, path=q, write=True, op=c.f['path'], t=c.t)
    if rest and c.f['path'].endswith('fs::write'):
        c.e.fire('fs_write', st, c.fr, file=VMod('file', (q.segs if q else None,), None), data=seq_or_none(c, st, rest[0]), off=K(0), full=True, t=c.t)
    t = c.e.P.ty(c.ret_ty)
    v = c.e.P.ty(t['a'][0])
    return fs_res(c, st, UNIT if v['s'] == '()' else c.e.top(t['a'][0], st))


for _n in ('create_dir_all', 'create_dir', 'remove_file', 'remove_dir', 'remove_dir_all', 'write', 'set_permissions'):
    REG['std::fs::' + _n] = m_fs_path


@model('std::fs::rename', 'std::fs::copy', 'std::fs::hard_link')
def _(c, st, a, b):
    m_fs_path(c, st, a)
    return m_fs_path(c, st, b)


@model('std::fs::read', 'std::fs::read_to_string', 'std::fs::metadata', 'std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::is_dir', 'std::fs::exists', 'std::path::Path::try_exists')
def _(c, st, p):
    c.e.fire('blocking', st, c.fr, op='file', bounded=True, t=c.t)
    return top_result(c, st)


@model('std::os::unix::fs::FileExt::write_all_at', 'std::os::unix::fs::FileExt::write_at')
def _(c, st, f, buf, off):
    x = deref_all(c, st, f)
    full = c.f['path'].endswith('all_at')
    q = seq_or_none(c, st, buf)
    c.e.fire('fs_write', st, c.fr, file=x, data=q, off=off.l, full=full, t=c.t)
    if full:
        return fs_res(c, st, UNIT, None, q)
    n = fresh(0, ISIZE_MAX)
    if q is not None:
        st.facts = st.facts.add_ge(q.len - n) or st.facts
    return fs_res(c, st, VInt(n), n, q)


@model('<std::fs::File as std::io::Seek>::seek', 'std::io::Seek::seek', 'std::fs::File::sync_all', 'std::fs::File::sync_data', 'std::fs::File::set_len', 'std::fs::File::metadata')
def _(c, st, *a):
    c.e.fire('blocking', st, c.fr, op='file', bounded=True, t=c.t)
    t = c.e.P.ty(c.ret_ty)
    if c.e.flags.get('fs') and t.get('path') == 'std::result::Result':
        return fs_res(c, st, c.e.top(t['a'][0], st))
    return top_result(c, st)


@model('<std::fs::File as std::io::Read>::read_to_string', '<std::fs::File as std::io::Read>::read_to_end', '<std::fs::File as std::io::Read>::read')
def _(c, st, f, buf):
    c.e.fire('blocking', st, c.fr, op='file', bounded=True, t=c.t)
    havoc_args(c, st, [buf])
    return top_result(c, st)


@model('std::path::Path::file_name', 'std::path::Path::extension', 'std::path::Path::file_stem')
def _(c, st, p):
    return opt(c, slice_ref(c, st, new_bytes(c)))


@model('std::path::Path::parent')
def _(c, st, p):
    q = seq_or_none(c, st, p)
    if q is None or q.segs is None:
        return opt(c, slice_ref(c, st, new_bytes(c)))
    n = fresh(0, ISIZE_MAX)
    return opt(c, slice_ref(c, st, VSeq(n, None, None, (('sub', ('parent', q.segs), K(0), n),), c.e.P.u8)))


@model('std::path::Path::join')
def _(c, st, a, b):
    x, y = seq_or_none(c, st, a), seq_or_none(c, st, b)
    n = fresh(0, ISIZE_MAX)
    if x is None or y is None or x.segs is None or y.segs is None:
        return new_bytes(c)
    return VSeq(n, None, None, (('sub', ('pjoin', x.segs, y.segs), K(0), n),), c.e.P.u8)


@model('std::path::Path::is_absolute', 'std::path::Path::has_root', 'std::path::Path::is_relative')
def _(c, st, p):
    q = seq_or_none(c, st, p)
    if q is None or q.segs is None:
        return top_result(c, st)
    a = ('atom', ('nocomp', 'RootDir', q.segs))
    return VBool(a if c.f['path'].endswith('relative') else fnot(a))


@model('std::path::Path::components')
def _(c, st, p):
    q = seq_or_none(c, st, p)
    return VMod('components', (q.segs if q is not None else None,) + (VBool(False),) * 5, c.ret_ty)


COMPONENTS = ('Prefix', 'RootDir', 'CurDir', 'ParentDir', 'Normal')


@model("<std::path::Components<'a> as std::iter::Iterator>::next")
def _(c, st, r):
    v = deref_val(c, st, r)
    if not (isinstance(v, VMod) and v.kind == 'components'):
        return top_result(c, st)
    s1 = st.copy()
    for i, n in enumerate(COMPONENTS):
        if v.fs[1 + i].f is False and v.fs[0] is not None:
            s1.assume(('atom', ('nocomp', n, v.fs[0])))
    out = [(s1, opt(c))]
    ct = variant_ty(c, c.ret_ty, 1)
    cv = c.e.P.ty(ct)['v']
    for i, n in enumerate(COMPONENTS):
        vi = [k for k, x in enumerate(cv) if x['n'] == n]
        if not vi:
            continue
        s = st.copy()
        a = ('atom', ('nocomp', n, v.fs[0]))
        if s.truth(a) is True:
            continue
        s.assume(a, False)
        fs = list(v.fs)
        fs[1 + i] = VBool(True)
        c.e.store(s, r.root, r.path, VMod('components', fs, v.ty))
        x = VEnum(ct, {vi[0]: tuple(c.e.top(f[1], s) for f in cv[vi[0]]['f'])})
        out.append((s, opt(c, x, none=False)))
    return out


@model('serde_json::from_str', 'serde_json::from_slice', 'serde_json::from_reader')
def _(c, st, a):
    c.e.fire('deserialize', st, c.fr, t=c.t)
    return top_result(c, st)


@model('serde_json::to_writer', 'serde_json::to_string', 'serde_json::to_vec', 'serde_json::to_writer_pretty')
def _(c, st, *a):
    if 'writer' in c.f['path']:
        c.e.fire('blocking', st, c.fr, op='file', bounded=True, t=c.t)
    return top_result(c, st)


@model('urlencoding::encode_binary', 'urlencoding::encode')
def _(c, st, a):
    q = seq_or_none(c, st, a)
    n = fresh(0, ISIZE_MAX, 'urlenc')
    if q is None or q.segs is None:
        return VMod('cow', (new_bytes(c),), c.ret_ty)
    st.facts = st.facts.add_ge(n - q.len) or st.facts
    return VMod('cow', (VSeq(n, None, None, (('sub', ('urlenc', q.segs), K(0), n),), c.e.P.u8),), c.ret_ty)


@model('base32::decode')
def _(c, st, alpha, a):
    q = seq_or_none(c, st, a)
    if q is None or q.segs is None:
        return opt(c, new_bytes(c))
    d, _ = c.e.divrem(q.len * 5, K(8), st)
    return opt(c, VSeq(d, None, None, (('sub', ('base32', q.segs), K(0), d),), c.e.P.u8))


# ---------------------------------------------------------------- urls, http

@model('url::Url::parse')
def _(c, st, a):
    q = seq_or_none(c, st, a)
    if q is not None and q.segs and len(q.segs) == 1 and q.segs[0][0] == 'c':
        s = q.segs[0][1]
        import re
        if re.fullmatch(rb'(udp|http|https)://[0-9A-Za-z.\-]+(:[0-9]{1,4})?(/[A-Za-z0-9/_.\-]*)?', s):
            # a plainly valid address: parsing it succeeds
            return res(c, VMod('url', (s,), variant_ty(c, c.ret_ty, 0)), err=False)
    return res(c, opaque(variant_ty(c, c.ret_ty, 0)), st=st)


@model('url::Url::as_str', 'url::Url::scheme', 'url::Url::path')
def _(c, st, a):
    n = fresh(0, ISIZE_MAX)
    return slice_ref(c, st, VSeq(n, None, None, (('sub', new_id('url'), K(0), n),), c.e.P.u8))


@model('url::Url::host_str')
def _(c, st, a):
    return opt(c, slice_ref(c, st, new_bytes(c, tag='host')))


@model('url::Url::port', 'url::Url::port_or_known_default')
def _(c, st, a):
    return opt(c, VInt(fresh(0, 65535)))


@model('ureq::get')
def _(c, st, url):
    q = seq_or_none(c, st, url)
    return VMod('request', (VBool(False), q if q is not None else VTop(None)), c.ret_ty)


@model('ureq::Request::set')
def _(c, st, r, *a):
    return r


@model('ureq::Request::query')
def _(c, st, r, k, v):
    k, v = seq_or_none(c, st, k), seq_or_none(c, st, v)
    if not isinstance(r, VMod) or r.kind != 'request':
        return r
    u = r.fs[1] if len(r.fs) > 1 else None
    if not isinstance(u, VSeq) or k is None or v is None or u.segs is None or k.segs is None or v.segs is None:
        return VMod('request', (r.fs[0], VTop(None)), r.ty)
    n = fresh(0, ISIZE_MAX, 'urlenc')
    segs = norm_segs(tuple(u.segs) + (('c', b'&'),) + tuple(k.segs) + (('c', b'='), ('sub', ('urlenc', v.segs), K(0), n)))
    return VMod('request', (r.fs[0], VSeq(u.len + k.len + n + 2, None, None, segs, c.e.P.u8)), r.ty)


@model('ureq::Request::timeout')
def _(c, st, r, d):
    b = isinstance(d, VMod) and d.kind == 'dur' and st.truth(('ge', d.fs[0].l - 60001)) is False
    return VMod('request', (VBool(b),) + tuple(r.fs[1:] if isinstance(r, VMod) and r.kind == 'request' else ()), c.ret_ty)


@model('ureq::Request::call')
def _(c, st, r):
    b = isinstance(r, VMod) and r.kind == 'request' and r.fs[0].f is True
    u = r.fs[1] if isinstance(r, VMod) and r.kind == 'request' and len(r.fs) > 1 else None
    c.e.fire('http', st, c.fr, url=u if isinstance(u, VSeq) else None, t=c.t)
    c.e.fire('blocking', st, c.fr, op='http', bounded=b, t=c.t)
    return res(c, VMod('response', (VBool(b),), variant_ty(c, c.ret_ty, 0)), st=st)


@model('ureq::Response::into_reader')
def _(c, st, r):
    b = r.fs[0] if isinstance(r, VMod) and r.kind == 'response' else VBool(False)
    return VMod('reader', (b,), c.ret_ty)


def m_http(c, st, *a):
    # answers with different statuses stay apart
    st.set_ghost(answer=c.f['path'].split('::')[-1])
    return VMod('http', (c.f['path'].split('::')[-1],), c.ret_ty)


for _n in ('Ok', 'BadRequest', 'ServiceUnavailable', 'InternalServerError', 'NotFound', 'Accepted', 'Created', 'UnprocessableEntity', 'Conflict', 'Forbidden', 'NoContent', 'BadGateway', 'GatewayTimeout', 'TooManyRequests', 'Found', 'build'):
    REG[f'actix_web::response::http_codes::<impl actix_web::HttpResponse>::{_n}'] = m_http
    REG[f'actix_web::HttpResponse::{_n}'] = m_http


@model('actix_web::HttpResponseBuilder::body', 'actix_web::HttpResponseBuilder::finish', 'actix_web::HttpResponseBuilder::json')
def _(c, st, b, *a):
    v = deref_all(c, st, b)
    return VMod('http', v.fs, c.ret_ty) if isinstance(v, VMod) and v.kind == 'http' else VMod('http', ('?',), c.ret_ty)


@model('<actix_web::web::Data<T> as std::ops::Deref>::deref')
def _(c, st, a):
    return VMod('dataref', (), c.ret_ty) if False else c.e.top(c.ret_ty, st)


# ---------------------------------------------------------------- UDP and futures

def fut(c, *fs):
    return VMod('fut', fs, c.ret_ty)


for _n in ('bind', 'connect', 'send', 'recv', 'recv_from', 'send_to', 'readable', 'writable'):
    REG['tokio::net::UdpSocket::' + _n] = (lambda n: lambda c, st, *a: VMod('fut', (n,) + tuple(a), c.ret_ty))(_n)

for _n in ('actix::clock::timeout', 'tokio::time::timeout', 'actix_web::rt::time::timeout'):
    REG[_n] = lambda c, st, d, f: VMod('timeout', (d, f), c.ret_ty)

for _n in ('tokio::time::sleep', 'actix::clock::sleep', 'actix_web::rt::time::sleep'):
    REG[_n] = lambda c, st, d: VMod('fut', ('sleep', d), c.ret_ty)


def run_elsewhere(c, st, v, ctx):
    """run a closure on another thread: its effects are seen, its results returned"""
    old = st.ghost.get('ctx')
    st.set_ghost(ctx=ctx)
    out = []
    for s, r in c.e.call_value(v, [], st, c.fr, ('thr', c.site), c.t):
        s.set_ghost(ctx=old)
        out.append((s, r))
    return out


@model('tokio::task::spawn_blocking', 'actix_web::web::block', 'actix_web::rt::task::spawn_blocking')
def _(c, st, f):
    out = []
    s0 = st.copy()
    for s, r in run_elsewhere(c, st, f, 'thread'):
        out.append((s, VMod('join', (r,), c.ret_ty)))
    if not out:
        out.append((s0, VMod('join', (None,), c.ret_ty)))
    return out


@model('std::thread::spawn')
def _(c, st, f):
    s0 = st.copy()
    run_elsewhere(c, st, f, 'thread')
    c.e.fire('spawn', s0, c.fr, t=c.t)
    return [(s0, VMod('jh', (), c.ret_ty))]


@model('std::thread::JoinHandle::<T>::join')
def _(c, st, h):
    c.e.fire('blocking', st, c.fr, op='join', bounded=False, t=c.t)
    return top_result(c, st)


@model('<F as actix::WrapFuture<A>>::into_actor', 'actix::WrapFuture::into_actor', 'actix::fut::wrap_future')
def _(c, st, f, *a):
    return VMod('actorfut', (f,) + tuple(a), c.ret_ty)


@model('actix::ActorFutureExt::map', 'actix::fut::ActorFutureExt::map', 'actix::ActorFutureExt::then', 'actix::fut::ActorFutureExt::then')
def _(c, st, f, g):
    return VMod('actormap', (f, g, c.f['path'].split('::')[-1]), c.ret_ty)


def actor_of(v):
    while isinstance(v, VMod) and v.kind == 'actormap':
        v = v.fs[0]
    return v.fs[1] if isinstance(v, VMod) and v.kind == 'actorfut' and len(v.fs) > 1 else None


@model('<T as actix::prelude::ContextFutureSpawner<A>>::spawn', 'actix::prelude::ContextFutureSpawner::spawn', 'actix::AsyncContext::spawn', '<actix::Context<A> as actix::AsyncContext<A>>::spawn',
       'actix::prelude::ContextFutureSpawner::wait', '<T as actix::prelude::ContextFutureSpawner<A>>::wait', 'actix::AsyncContext::wait', '<actix::Context<A> as actix::AsyncContext<A>>::wait',
       'actix::spawn', 'actix_web::rt::spawn', 'tokio::task::spawn', 'tokio::spawn', 'tokio::task::spawn_local', 'actix::Arbiter::spawn', 'actix_web::rt::Arbiter::spawn')
def _(c, st, f, *a):
    vs = [x for x in (f,) + a if (isinstance(x, VMod) and x.kind in ('actorfut', 'actormap', 'fut', 'timeout', 'join')) or (isinstance(x, VAgg) and x.ty is not None and c.e.P.ty(x.ty)['k'] == 'coroutine')]
    v = vs[0] if vs else None
    s0 = st.copy()
    if v is not None:
        act = actor_of(v)
        if isinstance(act, VRef) and not c.f['path'].endswith('wait'):
            # other messages are handled before the future is done
            st.set_ghost(interleaved=True)
        c.e.fire('spawn', st, c.fr, t=c.t)
        c.e.fire('spawned', s0, c.fr, t=c.t)
        for s1, _ in poll_value(c, st, v, None):
            c.e.fire('task_done', s1, c.fr, t=c.t)
    else:
        unknown(c, s0.copy(), f, *a)
    return [(s0, UNIT if c.e.P.s(c.ret_ty) == '()' else c.e.top(c.ret_ty, s0))]


def poll_value(c, st, v, out_ty):
    """[(state, output)] of running a future to its end"""
    e = c.e
    for _ in range(5):
        if isinstance(v, VRef):
            v = e.load(st, v.root, v.path)
        elif isinstance(v, VMod) and v.kind in ('pin', 'box'):
            v = v.fs[0]
        else:
            break
    if isinstance(v, VAgg) and v.ty is not None and e.P.ty(v.ty)['k'] == 'coroutine':
        name = e.P.ty(v.ty)['inst']
        inst = e.P.inst.get(name)
        if inst is not None:
            args = [v] + [VTop(None)] * (inst['argc'] - 1)
            return e.call_inst(name, args, st, c.fr, ('await', c.site))
    if isinstance(v, VMod) and v.kind == 'actorfut':
        return poll_value(c, st, v.fs[0], out_ty)
    if isinstance(v, VMod) and v.kind == 'actormap':
        inner, g, how = v.fs
        act = actor_of(v)
        gt, inst = None, None
        if isinstance(g, VAgg) and g.ty is not None and e.P.ty(g.ty).get('inst') in e.P.inst:
            inst = e.P.inst[e.P.ty(g.ty)['inst']]
            gt = inst['locals'][2] if inst['argc'] >= 2 else None
        out = []
        for s, r in poll_value(c, st, inner, gt):
            if isinstance(act, VRef) and s.ghost.get('interleaved'):
                x = e.load(s, act.root, act.path)
                if getattr(x, 'ty', None) is not None:
                    e.store(s, act.root, act.path, e.top(x.ty, s, 'actor'))
            args = [r]
            if inst is not None:
                while len(args) < inst['argc'] - 1:
                    args.append(e.top(inst['locals'][len(args) + 2], s, 'arg'))
                if isinstance(act, VRef) and len(args) > 1:
                    args[1] = VRef(act.root, act.path, True)
            for s2, r2 in e.call_value(g, args, s, c.fr, ('map', c.site), c.t):
                if how == 'then':
                    out += poll_value(c, s2, r2, None)
                else:
                    out.append((s2, r2))
        return out
    if isinstance(v, VMod) and v.kind == 'join':
        t = e.P.ty(out_ty) if out_ty is not None else None
        if t is not None and t.get('path') == 'std::result::Result':
            vs = {1: (e.top(t['a'][1], st),)}
            if v.fs[0] is not None:
                vs[0] = (v.fs[0],)
                if e.flags.get('iters'):
                    s1 = st.copy()
                    e.fire('join_failed', s1, c.fr)
                    return [(st, VEnum(out_ty, {0: vs[0]})), (s1, VEnum(out_ty, {1: vs[1]}))]
            return [(st, VEnum(out_ty, vs))]
        return [(st, v.fs[0] if v.fs[0] is not None else VTop(out_ty))]
    if isinstance(v, VMod) and v.kind == 'timeout':
        d, f = v.fs
        ms = d.fs[0].l if isinstance(d, VMod) and d.kind == 'dur' else None
        bounded = ms is not None and st.truth(('ge', ms - 60001)) is False
        t = e.P.ty(out_ty)
        old = st.ghost.get('bounded')
        s1 = st.copy()
        # the time is up: whatever the future wrote so far is unknown
        havoc_fut(c, s1, f)
        out = [(s1, VEnum(out_ty, {1: (e.top(t['a'][1], s1),)}))]
        if bounded:
            st.set_ghost(bounded=True)
        for s, r in poll_value(c, st, f, t['a'][0]):
            s.set_ghost(bounded=old)
            out.append((s, VEnum(out_ty, {0: (r,)})))
        return out
    if isinstance(v, VMod) and v.kind == 'fut':
        return poll_ext(c, st, v, out_ty)
    e.fire('await', st, c.fr, op='?', bounded=bool(st.ghost.get('bounded')), t=c.t)
    return [(st, e.top(out_ty, st) if out_ty is not None else UNIT)]


def havoc_fut(c, st, f):
    if isinstance(f, VMod) and f.kind == 'fut':
        havoc_args(c, st, [x for x in f.fs if isinstance(x, (VRef, VSlice))])


def poll_ext(c, st, v, out_ty):
    e = c.e
    op = v.fs[0]
    e.fire('await', st, c.fr, op=op, bounded=bool(st.ghost.get('bounded')), args=v.fs[1:], t=c.t)
    if out_ty is None:
        return [(st, UNIT)]
    t = e.P.ty(out_ty)
    if op in ('recv', 'recv_from'):
        buf = v.fs[2]
        root, path, off, ln = e.seq_at(st, buf)
        s1 = st.copy()
        out = [(s1, VEnum(out_ty, {1: (e.top(t['a'][1], s1),)}))]
        n = fresh(0, ISIZE_MAX, 'pktlen')
        if st.assume(('ge', ln - n)):
            pid = ('pkt', n.t[0][0])
            write_window(c, st, root, path, off, ln, (('sub', pid, K(0), ln),))
            e.fire('udp_recv', st, c.fr, size=n, t=c.t)
            val = VInt(n)
            if op == 'recv_from':
                val = VAgg(t['a'][0], (VInt(n), e.top(e.P.ty(t['a'][0])['a'][1], st)))
            out.append((st, VEnum(out_ty, {0: (val,)})))
        return out
    if op in ('send', 'send_to'):
        q = seq_or_none(c, st, v.fs[2])
        e.fire('udp_send', st, c.fr, data=q, t=c.t)
        return [(st, VEnum(out_ty, {0: (VInt(fresh(0, ISIZE_MAX)),), 1: (e.top(t['a'][1], st),)}))]
    if op == 'bind':
        return [(st, VEnum(out_ty, {0: (VMod('udp', (), t['a'][0]),), 1: (e.top(t['a'][1], st),)}))]
    return [(st, e.top(out_ty, st))]


@model('std::future::Future::poll', '<actix::clock::Timeout<T> as std::future::Future>::poll', '<tokio::task::JoinHandle<T> as std::future::Future>::poll')
def _(c, st, pin, cx):
    v = pin.fs[0] if isinstance(pin, VMod) and pin.kind == 'pin' else pin
    out_ty = variant_ty(c, c.ret_ty, 0)
    return [(s, VEnum(c.ret_ty, {0: (r,)})) for s, r in poll_value(c, st, v, out_ty)]


# ---------------------------------------------------------------- actors

@model('actix::Addr::<A>::do_send', 'actix::Addr::<A>::try_send', 'actix::Addr::<A>::send', 'actix::Recipient::<M>::do_send', 'actix::Recipient::<M>::try_send',
       'actix::AsyncContext::notify', '<actix::Context<A> as actix::AsyncContext<A>>::notify', 'actix::AsyncContext::notify_later', '<actix::Context<A> as actix::AsyncContext<A>>::notify_later')
def _(c, st, a, m, *rest):
    kind = c.f['path'].split('::')[-1]
    st.set_ghost(sent=True)
    c.e.fire('send', st, c.fr, how=kind, addr=a, msg=m, msg_ty=c.t['at'][1], t=c.t)
    if kind == 'try_send':
        s2 = st.copy()
        s2.set_ghost(sent=st.ghost.get('sent'), delivered=True)
        st.set_ghost(delivered=st.ghost.get('delivered', False))
        t = c.e.P.ty(c.ret_ty)
        return [(s2, VEnum(c.ret_ty, {0: (UNIT,)})), (st, VEnum(c.ret_ty, {1: (c.e.top(t['a'][1], st),)}))]
    if kind == 'send':
        return VMod('fut', ('actor_send',), c.ret_ty)
    if c.e.P.s(c.ret_ty) == '()':
        return UNIT
    return top_result(c, st)


@model('<actix::Context<A> as actix::AsyncContext<A>>::address', 'actix::AsyncContext::address', 'actix::SyncContext::<A>::address')
def _(c, st, *a):
    return opaque(c.ret_ty)


@model('actix::Actor::start')
def _(c, st, a):
    c.e.fire('start', st, c.fr, actor=a, t=c.t)
    return opaque(c.ret_ty)


@model('actix::SyncArbiter::<A>::start')
def _(c, st, n, f):
    c.e.fire('start', st, c.fr, actor=f, count=n, t=c.t)
    return opaque(c.ret_ty)


# ---------------------------------------------------------------- random numbers, logging, the web server

@model('rand::thread_rng', 'chrono::Local::now', 'chrono::DateTime::<Tz>::format')
def _(c, st, *a):
    return top_result(c, st)


@model('rand::Rng::sample_iter')
def _(c, st, rng, d):
    return VMod('dist', (), c.ret_ty)


@model('<rand::distributions::DistIter<D, R, T> as std::iter::Iterator>::next')
def _(c, st, r):
    it = variant_ty(c, c.ret_ty, 1)
    v = c.e.top(it, st, 'rand')
    if isinstance(v, VInt):
        v = VInt(fresh(48, 122, 'alnum'))
    return opt(c, v, none=False)


def m_quiet(c, st, *a):
    """library calls that neither fail nor change anything the analysis looks at"""
    return c.e.top(c.ret_ty, st)


for _n in ('actix_web::web::Data::<T>::new', 'actix_web::App::<T>::app_data', 'actix_web::App::<T>::service', 'actix_web::App::<actix_web::app_service::AppEntry>::new',
           'actix_web::Resource::<T>::guard', 'actix_web::Resource::<T>::name', 'actix_web::Resource::<T>::to', 'actix_web::Resource::new', 'actix_web::guard::Post',
           "log::Record::<'a>::args", "log::Record::<'a>::file", "log::Record::<'a>::level", "log::Record::<'a>::line", 'std::error::Error::source',
           "<&T as thiserror::__private::AsDisplay<'a>>::as_display", "<T as thiserror::__private::AsDynError<'a>>::as_dyn_error",
           'alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new', 'std::io::Error::other', 'std::io::Error::kind'):
    REG.setdefault(_n, m_quiet)


@model('std::net::Ipv4Addr::new', 'core::net::Ipv4Addr::new')
def _(c, st, *a):
    if all(x.l.const() is not None for x in a):
        return VMod('ip', (VSeq(K(4), None, None, (('c', bytes(x.l.const() for x in a)),), c.e.P.u8),), c.ret_ty)
    return VMod('ip', (VSeq(K(4), None, None, norm_segs(tuple(('b', x.l) if x.l.const() is None else ('c', bytes([x.l.const()])) for x in a)), c.e.P.u8),), c.ret_ty)


def m_address(c, st, *a):
    return VMod('addr', tuple(a), c.ret_ty)


for _n in ('<std::net::SocketAddr as std::convert::From<(I, u16)>>::from', '<std::net::IpAddr as std::convert::From<[u8; 4]>>::from',
           '<std::net::Ipv4Addr as std::convert::From<[u8; 4]>>::from', 'std::net::SocketAddr::new', 'std::net::SocketAddrV4::new'):
    for _p in ('std', 'core'):
        REG.setdefault(_n.replace('<std::net', f'<{_p}::net').replace('std::net', f'{_p}::net'), m_address)


@model('actix_web::HttpServer::<F, I, S, B>::bind', 'actix_web::HttpServer::<F, I, S, B>::listen', 'actix_web::HttpServer::<F, I, S, B>::bind_auto_h2c')
def _(c, st, s, addr):
    c.e.fire('http_bind', st, c.fr, addr=addr, t=c.t)
    return res(c, opaque(variant_ty(c, c.ret_ty, 0)), st=st)


@model('std::intrinsics::discriminant_value')
def _(c, st, r):
    v = deref_all(c, st, r)
    if isinstance(v, VEnum):
        t = c.e.P.ty(v.ty)
        if len(v.vs) == 1:
            i, = v.vs
            return VInt(K(int(t['v'][i].get('d', i))))
        out = []
        for i, fs in v.vs.items():
            s = st.copy()
            if not s.assume_list(v.att.get(i, ())):
                continue
            if isinstance(r, VRef):
                c.e.store(s, r.root, r.path, VEnum(v.ty, {i: fs}))
            out.append((s, VInt(K(int(t['v'][i].get('d', i))))))
        return out
    return top_result(c, st)


@model('std::intrinsics::unreachable')
def _(c, st, *a):
    return None
