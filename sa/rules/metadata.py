"""Metadata of a torrent that does not fit together, and what the client does with it."""
import re
from .base import *
from ..graph import Graph, handlers, web_handlers
from .panics import NoPanic, PanicProp
from .content import named, fetchers, Stored
from ..lin import K
from ..values import *

SELF = ('pin', 'the actor')
INFO, POOL = 'Info', 'PiecePool'


def parts(P, v):
    """piece length, length and files of an Info, found by their types"""
    t = P.ty(v.ty)
    fs = {}
    for k, f in enumerate(t['v'][0]['f']):
        fs.setdefault(P.s(f[1]), []).append(k)
    def one(pat):
        c = [k for s, ks in fs.items() for k in ks if pat(s)]
        return c[0] if len(c) == 1 else None
    return (one(lambda s: s == 'usize'), one(lambda s: 'Option<usize>' in s), one(lambda s: 'Option<' in s and 'Vec<' in s))


def is_info(P, v):
    return named(P, v)[0] == INFO


def consistent(e, st, v, files):
    """the value as it is when it fits together; files: whether it has a list of files"""
    if isinstance(v, VEnum):
        return VEnum(v.ty, {k: tuple(consistent(e, st, x, files) for x in xs) for k, xs in v.vs.items()}, v.att)
    if not isinstance(v, VAgg):
        return v
    if not is_info(e.P, v):
        return VAgg(v.ty, [consistent(e, st, x, files) for x in v.fs])
    n, ln, fl = parts(e.P, v)
    fs = list(v.fs)
    if n is not None and isinstance(fs[n], VInt):
        st.assume(('ge', fs[n].l - K(1)))
    for k, only in ((fl, 1 if files else 0), (ln, None if files else 1)):
        if k is not None and only is not None and isinstance(fs[k], VEnum) and only in fs[k].vs:
            fs[k] = VEnum(fs[k].ty, {only: fs[k].vs[only]})
    return VAgg(v.ty, fs)


def fetched(e, st, v):
    """what a function that fetches metadata returns (shown on its own for these functions)"""
    if INFO not in e.P.s(getattr(v, 'ty', None)) if getattr(v, 'ty', None) is not None else True:
        return [(st, v)]
    out = []
    for k in v.vs if isinstance(v, VEnum) else (None,):
        for files in (True, False):
            s = st.copy()
            if k is not None and not all(s.assume(f) for f in v.att.get(k, ())):
                continue
            w = v if k is None else VEnum(v.ty, {k: v.vs[k]})
            x = consistent(e, s, w, files)
            if x is w and out and not files:
                continue
            if x is not w:
                s.set_ghost(kind='files' if files else 'length')      # keeps the cases apart
            out.append((s, x))
            if k is not None and not any(is_info(e.P, y) for y in v.vs[k]):
                break
    return out


def fits(eng, st, v):
    """does an Info fit together: True, False, None"""
    n, ln, fl = parts(eng.P, v)
    if n is None or not isinstance(v.fs[n], VInt):
        return None
    if st.truth(('ge', v.fs[n].l - K(1))) is not True:
        return False
    kinds = []
    for k in (fl, ln):
        if k is None or not isinstance(v.fs[k], VEnum):
            return None
        kinds.append(v.fs[k])
    if any(0 not in x.vs for x in kinds):
        return True
    s = st.copy()
    for x in kinds:
        for f in x.att.get(0, ()):
            if not s.assume(f):
                return True
    return False


def only(st, v, variant):
    """the state in which v is this variant, or None"""
    if variant not in v.vs:
        return None
    if set(v.vs) != {variant}:
        st = st.copy()
        for f in v.att.get(variant, ()):
            if not st.assume(f):
                return None
    return st


class Fits(Rule):
    """the Info that a function returns fits together"""
    name = 'consistency'

    def __init__(self, what):
        super().__init__()
        self.what = what

    def finish(self, eng, outs):
        for st, v in outs or ():
            self.look(eng, st, v)

    def look(self, eng, st, v):
        if isinstance(v, VEnum):
            for k, xs in v.vs.items():
                s = only(st, v, k)
                if s is not None:
                    for x in xs:
                        self.look(eng, s, x)
        elif is_info(eng.P, v):
            ok = fits(eng, st, v)
            key = f'{self.what}: metadata returned'
            if ok:
                self.j.append((GOOD, key, 'the metadata has a piece length above zero and a length or a list of files', '', ()))
            elif ok is None or st.ghost.get('~nu'):
                self.j.append((UNSURE, key, 'the metadata returned was not followed', '', ()))
            else:
                self.j.append((BAD, key, 'metadata may be returned that has piece length zero, or neither a length nor files', '', ()))
        elif isinstance(v, VAgg):
            for x in v.fs:
                self.look(eng, st, x)
        elif v is not None and not isinstance(v, (VInt, VBool)) and INFO in eng.P.s(getattr(v, 'ty', None) or 0):
            self.j.append((UNSURE, f'{self.what}: metadata returned', 'the metadata returned was not followed', '', ()))


def actor_fields(P, v):
    out = {}
    for f, x in named(P, v)[1].items():
        s = P.s(x.ty) if isinstance(x, VEnum) else ''
        for k in (INFO, POOL):
            if 'Option<' in s and k in s:
                out[k] = f
    return out


class Kept(Rule):
    """an actor that has metadata has metadata that fits together, and a pool of pieces"""
    name = 'actor state'

    def on_task_done(self, eng, st, fr, t):
        self.finish(eng, [(st, None)])

    def finish(self, eng, outs):
        key = 'the metadata of the actor'
        for st, _ in outs or ():
            r = st.mem.get(SELF)
            v = eng.load(st, r.root, r.path) if isinstance(r, VRef) else None
            fs = actor_fields(eng.P, v) if isinstance(v, VAgg) else {}
            d = named(eng.P, v)[1] if isinstance(v, VAgg) else {}
            i, p = d.get(fs.get(INFO)), d.get(fs.get(POOL))
            if not isinstance(i, VEnum) or not isinstance(p, VEnum):
                self.j.append((UNSURE, key, 'the state of the actor was not followed', '', ()))
                continue
            s = only(st, i, 1)
            if s is None:
                self.j.append((GOOD, key, 'the actor has no metadata', '', ()))
                continue
            ok = fits(eng, s, i.vs[1][0]) if i.vs[1] and isinstance(i.vs[1][0], VAgg) else None
            if ok and (only(s, p, 0) is None):
                self.j.append((GOOD, key, 'the metadata fits together and there is a pool of pieces', '', ()))
            elif ok is None or st.ghost.get('~nu'):
                self.j.append((UNSURE, key, 'the metadata of the actor was not followed', '', ()))
            else:
                self.j.append((BAD, key, 'the actor may keep metadata that does not fit together, or metadata without a pool of pieces', '', ()))


def actor(info, files=False):
    def fix(e, st, inst, args):
        r = args[0]
        st.mem[SELF] = r
        v = e.load(st, r.root, r.path)
        fs, d = actor_fields(e.P, v), named(e.P, v)[1]
        xs, names = list(v.fs), list(d)
        for k in (INFO, POOL):
            if k in fs:
                o = d[fs[k]]
                if info:
                    o = VEnum(o.ty, {1: o.vs[1]})
                    if k == INFO:
                        o = consistent(e, st, o, files)
                elif k == INFO:
                    o = VEnum(o.ty, {0: o.vs[0]})
                xs[names.index(fs[k])] = o
        for x in xs if info else ():
            # pieces are asked for, and reported, only after a peer was found
            if isinstance(x, VSeq) and 'Peer' in e.P.s(x.ety):
                st.assume(('ge', x.len - K(1)))
        e.store(st, r.root, r.path, VAgg(v.ty, xs))
        return args
    return fix


NET = re.compile(r'TcpStream|UdpSocket|ureq|std::net::')


def makers(P):
    """functions of the crate that return metadata by value and do not talk to anyone"""
    g, out = Graph(P), []
    for n, i in P.inst.items():
        if not str(i.get('span') or '').startswith('src/') or '{closure' in n or n.startswith('<'):
            continue
        if not re.search(r'(?<!&)torrent::info::Info\b', P.s(i['locals'][0])):
            continue
        if any(NET.search(f'{x}') for _, _, x, _, _ in g.walk(n)):
            continue
        out.append(n)
    return out


def sources(P):
    """{function: where} of every place that puts an Info together or reads one in"""
    out = {}
    for n, i in P.inst.items():
        if not str(i.get('span') or '').startswith('src/') or ' as std::clone::Clone>' in n:
            continue
        for b in i['blocks']:
            for s in b['s']:
                if isinstance(s, list) and len(s) > 2 and isinstance(s[2], dict) and s[2].get('k') == 'adt' \
                        and str(s[2].get('adt', '')).endswith('torrent::info::Info'):
                    out[n] = s[3] if len(s) > 3 else i['span']
            t = b['t']
            if t['k'] == 'call' and isinstance(t['f'], dict) and t['f'].get('inst') not in P.inst and t.get('d') \
                    and 'serde' in str(t['f'].get('path')) and re.search(r'torrent::info::Info\b', P.s(i['locals'][t['d'][0]])):
                out[n] = t.get('sp')
    return out


def built(P, results, which):
    state = {}
    for r in results:
        mine = [j for j in r['judgements'] if j[0] == 'consistency']
        if not mine:
            continue
        r['judgements'] = [j for j in r['judgements'] if j[0] != 'consistency']
        vs = {j[1] for j in mine}
        state[r['entry']] = UNSURE if UNSURE in vs or r['status'] != 'complete' or BAD in vs and r['unsure'] else BAD if BAD in vs else GOOD
    out, g, src = [], Graph(P), sources(P)
    for n, v in sorted(state.items()):
        if v == GOOD:
            out.append((GOOD, f'{n}: metadata returned', 'the metadata has a piece length above zero and a length or a list of files',
                        P.inst[n].get('span'), ()))
    reached = {}
    for root in [n for n, *_ in handlers(P)] + web_handlers(P):
        todo, seen = [(root, (root,))], {root}
        while todo:
            n, chain = todo.pop()
            if state.get(n) == GOOD:
                continue
            if n in src and (n not in reached or len(chain) < len(reached[n])):
                reached[n] = chain
            for kind, x, _ in g.calls(n):
                if kind == 'in' and x not in seen:
                    seen.add(x)
                    todo.append((x, chain + (x,)))
    for n, at in sorted(src.items()):
        if not which(n):
            continue
        key = f'{n}: puts metadata together'
        c = reached.get(n)
        if c is None:
            out.append((GOOD, key, 'what is built here passes a function that is shown to return only metadata that fits together', at, ()))
        elif any(state.get(x) == UNSURE for x in c) or not any(x in state for x in c):
            out.append((UNSURE, key, 'whether the metadata built here fits together was not decided', at, c[::-1]))
        else:
            out.append((BAD, key, 'metadata built here may have piece length zero, or neither a length nor files', at, c[::-1]))
    return out


class C09(Prop):
    about = 'operations on metadata that can panic, and the metadata that is kept'
    rule = PanicProp.rule + ('. Metadata that is put together or read in reaches the rest of the program only through functions that return it with a '
                             'piece length above zero and with a length or files, and the torrent actor keeps only such metadata, with a pool of pieces')
    explain = ('Forward abstract interpretation of the MIR from the entry points below. Files, piece and index that reach the writer are arbitrary. '
               'Each function that returns metadata is analysed for what it returns; the call graph shows that every place that builds an Info is '
               'inside one of those for which this was proved. The torrent actor starts in any state in which the metadata it keeps has the '
               'property, and ends in such a state.')
    technique = 'abstract interpretation of MIR; call graph'

    def jobs(self, P, tier):
        out = []
        mk = lambda n, e, rules, fl=None, args=None, caps=(10, 2): out.append(Job(e, rules, fl or {}, args=args, name=n, caps=caps))
        for n in makers(P):
            mk(n, n, lambda n=n: [NoPanic(), Fits(n)], caps=(10, 100, 2))
        for n in ('get_file_writers', 'writer::write', 'Info::get_files', 'Info::verify_piece'):
            e = entry(P, n)
            if e:
                mk(n, e, lambda: [NoPanic()])
        mk('piece ready', handler(P, 'WriterActor', 'PieceReady'), lambda: [NoPanic()])
        targets, op = fetchers(P)
        T = 'TorrentActor'
        mine = {n for n, i in P.inst.items() if '{closure' not in n and str(i.get('span') or '').startswith('src/') and not n.startswith('<')
                and re.search(r'(?<!&)torrent::info::Info\b', P.s(i['locals'][0]))}
        fl = {'opaque': set(op) | mine, 'opaque_result': fetched, 'iters': True}
        both = lambda: [NoPanic(), Kept()]
        for m in ('PeerFound', 'PieceDownloadSuccessfull', 'PieceDownloadFailed'):
            if m == 'PeerFound':
                mk(f'{m}, no metadata yet', handler(P, T, m), both, fl, actor(False))
            for files in (True, False):
                mk(f'{m}, metadata with {"files" if files else "one length"}', handler(P, T, m), both, fl, actor(True, files))
        return out

    def direct(self, P, tier, results):
        return built(P, results, lambda n: True)


class Fallback(Rule):
    """what becomes of the torrent when the cache is no use"""
    name = 'fallback'

    def on_spawned(self, eng, st, fr, t):
        st.set_ghost(fetch='started')

    def on_task_done(self, eng, st, fr, t):
        self.finish(eng, [(st, None)])

    def on_join_failed(self, eng, st, fr, **kw):
        st.set_ghost(fetch='crashed')

    def finish(self, eng, outs):
        key = 'metadata after a peer was found'
        for st, _ in outs or ():
            r = st.mem.get(SELF)
            v = eng.load(st, r.root, r.path) if isinstance(r, VRef) else None
            fs = actor_fields(eng.P, v) if isinstance(v, VAgg) else {}
            i = named(eng.P, v)[1].get(fs.get(INFO)) if fs else None
            if not isinstance(i, VEnum):
                self.j.append((UNSURE, key, 'the state of the actor was not followed', '', ()))
                continue
            how = st.ghost.get('fetch')
            none = only(st, i, 0) is not None
            if not none:
                self.j.append((GOOD, key, 'the torrent has metadata', '', ()))
            elif how in ('failed', 'crashed', 'started'):
                self.j.append((GOOD, key, 'without metadata only after a peer was asked in vain, or while a task is asking', '', ()))
            else:
                what = ('metadata that a peer delivered may be dropped' if how == 'done' else
                        'the torrent may stay without metadata although no peer was asked')
                self.j.append((UNSURE if st.ghost.get('~nu') else BAD, key, what, '', ()))


def outcome(e, st, v):
    """both results of asking a peer"""
    out = []
    for s, x in fetched(e, st, v):
        if isinstance(x, VEnum) and len(x.vs) == 1:
            s.set_ghost(fetch='done' if any(is_info(e.P, y) for ys in x.vs.values() for y in ys) else 'failed')
        out.append((s, x))
    return out


class C34(Prop):
    about = 'reading of the cache file and what follows'
    rule = ('every operation that can panic while the cache is read, for arbitrary content of the file and every failure, is discharged; metadata that '
            'is read in reaches the rest of the program only through a function that returns only consistent metadata; on every path on which the '
            'handler of a found peer ends without metadata a peer was asked for it without success; metadata from the cache is kept only '
            'when its digest was found equal to the info hash')
    explain = ('Forward abstract interpretation of the MIR of the functions that read metadata in, and of the handler of a found peer with the '
               'exchange with the peer left open; call graph.')
    technique = 'abstract interpretation of MIR; call graph'

    def jobs(self, P, tier):
        src = {n for n, how in sources(P).items() if reads_in(P, n)}
        g = Graph(P)
        out = []
        for n in makers(P):
            if n in src or any(x in src for _, _, x, _, _ in g.walk(n)):
                out.append(Job(n, lambda n=n: [NoPanic(), Fits(n)], name=n, caps=(10, 100, 2)))
        targets, op = fetchers(P)
        out.append(Job(handler(P, 'TorrentActor', 'PeerFound'), lambda: [NoPanic(), Fallback(), Stored(targets)],
                       {'opaque': set(op), 'opaque_result': outcome, 'iters': True}, args=actor(False), name='peer found', caps=(10, 30, 2)))
        return out

    def direct(self, P, tier, results):
        return built(P, results, lambda n: reads_in(P, n))


def reads_in(P, n):
    return any(b['t']['k'] == 'call' and isinstance(b['t']['f'], dict) and 'serde' in str(b['t']['f'].get('path')) for b in P.inst[n]['blocks'])
