"""What is reported, asked for and taken as true about the content of torrents."""
from .base import *
from .peers import only_tcp, struct_field, fields, unknown_content, segs_of
from ..graph import opaque
from ..lin import K, Lin
from ..values import *


def named(P, v):
    """(name of the struct, {field: value})"""
    if not isinstance(v, VAgg) or v.ty is None:
        return None, {}
    t = P.ty(v.ty)
    if t.get('k') != 'adt' or not t.get('v'):
        return None, {}
    return t['path'].split('::')[-1], dict(zip([f[0] for f in t['v'][0]['f']], v.fs))


def same_seq(st, x, y):
    """whether two byte sequences are equal: True, False (nothing says so) or None (content lost)"""
    if not isinstance(x, VSeq) or not isinstance(y, VSeq):
        return None
    if x.segs is None or y.segs is None:
        return None
    a, b = tuple(x.segs), tuple(y.segs)
    if len(a) == len(b):
        ok = True
        for s, t in zip(a, b):
            if s == t:
                continue
            if s[0] == t[0] == 'sub' and s[1] == t[1] and st.facts.equal(s[2], t[2]) and st.facts.equal(s[3], t[3]):
                continue
            ok = False
        if ok:
            return True
    if frozenset((a, b)) in st.facts.ce:
        return True
    if unknown_content(x) or unknown_content(y):
        return None
    return False


def int_of(v):
    return v.l if isinstance(v, VInt) else None


# ---------------------------------------------------------------- C01

class Digests(Rule):
    """which digests were computed, and whether one of them was compared in a way the analysis knows"""
    def __init__(self):
        super().__init__()
        self.digests, self.compared = set(), False

    def on_digest(self, eng, st, fr, segs):
        self.digests.add(tuple(segs))

    def on_compared(self, eng, st, fr, x, y, f, t):
        if 'sha1' in str(x.segs) or 'sha1' in str(y.segs):
            self.compared = True

    def unseen(self):
        """a digest was computed, but what it was compared with was not seen"""
        return bool(self.digests) and not self.compared


def hashes_known(st):
    """[(bytes, other side)] of the equalities between a SHA-1 digest and other bytes that hold here"""
    out = []
    for pair in st.facts.ce:
        for a in pair:
            if len(a) == 1 and a[0][0] == 'h' and a[0][1] == 'sha1':
                out.append((tuple(a[0][2]), next(iter(pair - {a}), a)))
    return out


class Reported(Digests):
    name = 'verified content'

    def on_send(self, eng, st, fr, how, addr, msg, msg_ty, t):
        n, m = named(eng.P, msg)
        if n != 'PieceDownloadSuccessfull':
            return
        piece, idx = m.get('piece'), int_of(m.get('piece_idx'))
        if not isinstance(piece, VSeq) or idx is None or piece.segs is None:
            return self.say(UNSURE, st, fr, 'report of success', 'the content that is reported was not followed', t)
        known = hashes_known(st)
        why = ''
        for whole, o in known:
            if whole != tuple(piece.segs):
                continue
            if len(o) == 1 and o[0][0] == 'sub' and 'pieces' in str(o[0][1]):
                if st.facts.equal(o[0][2], idx * 20) and st.facts.equal(o[0][3], K(20)):
                    return self.say(GOOD, st, fr, 'report of success',
                                    'reached only when the digest of the piece equals the 20 bytes of the metadata at 20 * index', t)
                why = f': it was compared with {o[0][3]} bytes at {o[0][2]}'
            else:
                why = ': it was compared with other bytes than the hashes of the metadata'
        v = UNSURE if self.unseen() else BAD
        self.say(v, st, fr, 'report of success', 'is reached although the digest of the reported bytes was not found equal to the hash '
                 'of that piece in the metadata' + why, t)


class C01(Prop):
    about = 'reports of downloaded pieces'
    rule = ('wherever a message that reports a downloaded piece is sent, the path condition contains that the SHA-1 digest of exactly the bytes in the '
            'message equals 20 bytes of the hashes of the metadata at 20 times the index in the message')
    explain = 'Forward abstract interpretation of the MIR from the handler of piece requests, with digests as uninterpreted functions of byte sequences.'

    def jobs(self, P, tier):
        return [Job(handler(P, 'ConnectionActor', 'PieceRequested'), lambda: [Reported()], args=only_tcp, name='piece download')]


# ---------------------------------------------------------------- C22

BLOCK = 16384


def block_fields(eng, st, v):
    """(piece length, index, total length) of a Downloadable::Block, if the value is certainly one"""
    if isinstance(v, VEnum):
        for fs in v.vs.values():
            if len(fs) == 1 and isinstance(fs[0], VAgg) and len(fs[0].fs) == 3 and all(isinstance(x, VInt) for x in fs[0].fs):
                return [x.l for x in fs[0].fs], len(v.vs) == 1
    return None, False


class Requests(Rule):
    name = 'block request'
    ARGS = ('pin', 'block')

    def on_net_write(self, eng, st, fr, data, full, stream, bounded, t):
        (n, i), rest = fields(data, (4, 1))
        if i is None or i.const() != 6:
            if i is None and unknown_content(data):
                self.say(UNSURE, st, fr, 'request', 'a message whose id is not known', t)
            return
        (_, _, idx, begin, ln), rest = fields(data, (4, 1, 4, 4, 4))
        a = st.mem.get(self.ARGS)
        if idx is None or begin is None or ln is None or a is None:
            v = UNSURE if unknown_content(data) or a is None else BAD
            return self.say(v, st, fr, 'request', 'the fields of the request are not known', t)
        pl, index, total, start = [x.l for x in a.fs]
        f = st.facts
        bad = []
        if not f.equal(idx, index):
            bad.append('the index is not the index of the piece')
        if begin.c % BLOCK or any(k % BLOCK for _, k in begin.t):
            bad.append(f'begin {begin} is not known to be a multiple of {BLOCK}')
        if not f.implies(ln - 1):
            bad.append('the length may be 0')
        if not f.implies(K(BLOCK) - ln):
            bad.append(f'the length may be above {BLOCK}')
        if not f.implies(pl - begin - ln):
            bad.append('it may reach beyond the piece')
        elif not f.implies(total - start - begin - ln):
            bad.append('it may reach beyond the end of the torrent')
        if bad:
            self.say(BAD, st, fr, 'request', 'a block request of which ' + '; '.join(bad), t)
        else:
            self.say(GOOD, st, fr, 'request', f'index of the piece, begin a multiple of {BLOCK}, length in 1..{BLOCK}, inside the piece and the torrent', t)


U64 = (1 << 64) - 1


def block_args(where):
    """the piece begins inside the torrent, beyond it, or even beyond what a number can hold"""
    def fix(e, st, inst, args):
        args = only_tcp(e, st, inst, args)
        v = e.load(st, args[0].root, args[0].path) if isinstance(args[0], VRef) else args[0]
        if isinstance(v, VEnum):
            for k, fs in v.vs.items():
                if len(fs) == 1 and isinstance(fs[0], VAgg) and len(fs[0].fs) == 3 and all(isinstance(x, VInt) for x in fs[0].fs):
                    e.store(st, args[0].root, args[0].path, VEnum(v.ty, {k: fs}))
                    pl, index, total = [x.l for x in fs[0].fs]
                    start = e.mul(pl, index, st)
                    st.assume({'inside': ('ge', total - start - 1), 'beyond': ('ge', start - total), 'far beyond': ('ge', start - U64 - 1)}[where])
                    if where == 'beyond':
                        st.assume(('ge', K(U64) - start))
                    st.mem[Requests.ARGS] = VAgg(None, tuple(map(VInt, (pl, index, total, start))))
        return args
    return fix


class Asked(Rule):
    """what the download of a block is given"""
    name = 'arguments of the download'

    def __init__(self, target):
        super().__init__()
        self.target = target

    def on_call(self, eng, st, fr, f, args, t):
        if f.get('inst') != self.target or not isinstance(args[0], VRef):
            return
        v = eng.load(st, args[0].root, args[0].path)
        for fs in v.vs.values() if isinstance(v, VEnum) else ():
            if len(fs) == 1 and isinstance(fs[0], VAgg) and len(fs[0].fs) == 3:
                pl, index, total = [int_of(x) for x in fs[0].fs]
                if pl is None or index is None or total is None:
                    return self.say(UNSURE, st, fr, 'download of a block', 'which block is downloaded was not followed', t)
                bad = []
                for l, want in ((pl, 'piece_length'), (index, 'piece_idx')):
                    if not str(l).split('#')[0].endswith(want):
                        bad.append(f'{l} is given as the {want}')
                if total.const() is not None or st.facts.equal(total, pl) or st.facts.equal(total, index):
                    bad.append(f'{total} is given as the total length')
                if bad:
                    self.say(BAD, st, fr, 'download of a block', '; '.join(bad), t)
                else:
                    self.say(GOOD, st, fr, 'download of a block', 'piece length of the metadata, index of the request, total length', t)


class C22(Prop):
    about = 'writes of block requests and the arguments they are computed from'
    rule = ('for every write with id 6: index = index of the piece; begin has only multiples of 16384 as coefficients; the facts imply '
            '1 <= length <= 16384, begin + length <= piece length and index * piece length + begin + length <= total length; the arguments are those '
            'of the request and the metadata')
    explain = 'Forward abstract interpretation of the MIR with linear arithmetic, for arbitrary piece lengths, indexes, totals and peers.'

    def jobs(self, P, tier):
        d = entry(P, 'Downloadable::download')
        return [*[Job(d, lambda: [Requests()], args=block_args(w), name=f'blocks of a piece that begins {w} the torrent')
                  for w in ('inside', 'beyond', 'far beyond')],
                Job(handler(P, 'ConnectionActor', 'PieceRequested'), lambda: [Asked(d)], args=only_tcp, name='piece download', caps=(2,))]


# ---------------------------------------------------------------- C02

INFO = 'torrent::info::Info'


def fetchers(P):
    """functions that fetch metadata from a peer, and the functions that need not be followed to see what becomes of it"""
    op = opaque(P, r'serde_json::|std::fs::|std::fs::File')
    out = [n for n in op if INFO in P.s(P.inst[n]['locals'][0])]
    from ..graph import Graph
    g = Graph(P)
    inner = {x for n in out for _, kind, x, _, _ in g.walk(n) if kind == 'in' and x in out}
    return sorted(set(out) - inner), op


class Fetched(Digests):
    name = 'metadata of a peer'
    DECODED = ('pin', 'decoded')

    def __init__(self, target):
        super().__init__()
        self.target = target

    def on_call(self, eng, st, fr, f, args, t):
        if f.get('inst') == self.target and args and isinstance(args[0], VSeq):
            st.mem[self.DECODED] = args[0]

    def finish(self, eng, outs):
        for st, v in outs or ():
            if isinstance(v, VEnum) and 0 not in v.vs:
                continue
            if isinstance(v, VEnum) and 1 in v.vs:
                st = st.copy()
                if not all(st.assume(f) for f in v.att.get(0, ())):
                    continue
            q = st.mem.get(self.DECODED)
            v = BAD
            text = 'metadata is returned although its digest was not found equal to the info hash that was asked for'
            for whole, o in hashes_known(st):
                mine = len(o) == 1 and o[0][0] == 'sub' and str(o[0][1][0]).startswith('in:') and st.facts.equal(o[0][2], K(0))
                if mine and isinstance(q, VSeq) and q.segs is not None and whole == tuple(q.segs):
                    v, text = GOOD, 'returned only when the digest of the bytes it was decoded from equals the info hash'
                    break
                if mine:
                    v, text = UNSURE, 'whether the bytes whose digest was compared are those that are used'
            if v == BAD and (self.unseen() or q is None or st.ghost.get('~nu')):
                v = UNSURE
            self.j.append((v, 'metadata of a peer', text, '', ()))


class Stored(Digests):
    """no metadata that was read from the disk becomes that of the torrent before its digest was compared"""
    name = 'metadata of the cache'
    CLEAN = ('pin', 'clean')

    def __init__(self, fetch):
        super().__init__()
        self.fetch = set(fetch)

    def on_deserialize(self, eng, st, fr, **kw):
        st.mem[self.CLEAN] = VBool(False)

    def on_opaque(self, eng, st, fr, name):
        if name in self.fetch:
            st.mem[self.CLEAN] = VBool(True)

    def on_compared(self, eng, st, fr, x, y, f, t):
        super().on_compared(eng, st, fr, x, y, f, t)
        for a, b in ((x.segs, y.segs), (y.segs, x.segs)):
            if a and len(a) == 1 and a[0][0] == 'h' and b and len(b) == 1 and b[0][0] == 'sub' and 'info_hash' in str(b[0][1]) \
                    and st.facts.equal(b[0][2], K(0)):
                if not self.is_true(st):
                    st.mem[self.CLEAN] = VBool(f)

    def is_true(self, st):
        v = st.mem.get(self.CLEAN)
        return v is not None and st.truth(v.f) is True

    def on_store(self, eng, st, fr, root, path, val, place):
        if root[0] != 'h' or not isinstance(val, VEnum) or val.ty is None or INFO not in eng.P.s(val.ty) or 1 not in val.vs:
            return
        if self.is_true(st):
            return self.say(GOOD, st, fr, 'metadata of the torrent', 'stored only when fetched and compared, or when the digest of what was read equals the info hash')
        v = st.mem.get(self.CLEAN)
        self.say(UNSURE if v is None or self.unseen() else BAD, st, fr, 'metadata of the torrent',
                 'metadata that was read from the disk is stored although its digest was not found equal to the info hash')


class C02(Prop):
    about = 'results of the metadata exchange and stores to the metadata of a torrent'
    rule = ('a function that fetches metadata returns it only on paths whose condition contains that the SHA-1 digest of the bytes that were decoded '
            'equals the info hash it was given; the torrent actor stores metadata only from such a function, or from the disk on paths on which the '
            'digest of its encoding was found equal to the info hash of the torrent')
    explain = 'Forward abstract interpretation of the MIR with digests as uninterpreted functions of byte sequences.'

    def jobs(self, P, tier):
        fetch, op = fetchers(P)
        dec = entry(P, 'Info::from_bytes')
        return [*[Job(n, lambda: [Fetched(dec)], args=only_tcp, name=f'metadata exchange {n.split("::")[-1]}') for n in fetch or [None]],
                Job(handler(P, 'TorrentActor', 'PeerFound'), lambda: [Stored(fetch)], {'opaque': op}, name='peer found')]
