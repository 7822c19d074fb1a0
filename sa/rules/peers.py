"""What is sent to peers, and what is done with what they send."""
from .base import *
from ..lin import K, Lin
from ..values import *

HANDSHAKE = b'\x13BitTorrent protocol'
IDS = {0: 1, 1: 1, 2: 1, 3: 1, 4: 5, 6: 13, 8: 13}      # messages of fixed size, with their length field


def segs_of(q):
    return None if q is None or q.segs is None else q.segs


def fields(q, widths):
    """integers of the given widths at the start of the bytes, as linear forms; None where they are not known"""
    out = []
    segs = list(segs_of(q) or ())
    for w in widths:
        v = None
        if segs and segs[0][0] == 'be' and segs[0][1] == w:
            v = segs[0][2]
            segs.pop(0)
        elif segs and segs[0][0] == 'b' and w == 1:
            v = segs[0][1]
            segs.pop(0)
        else:
            b = b''
            while len(b) < w and segs and segs[0][0] == 'c':
                take = segs[0][1][:w - len(b)]
                b += take
                rest = segs[0][1][len(take):]
                if rest:
                    segs[0] = ('c', rest)
                else:
                    segs.pop(0)
            if len(b) == w:
                v = K(int.from_bytes(b, 'big'))
            else:
                return out + [None] * (len(widths) - len(out)), segs
        out.append(v if isinstance(v, Lin) else K(v))
    return out, segs


def unknown_content(q):
    """whether some of the bytes were put together in a way the analysis lost"""
    return q is None or q.segs is None or any(s[0] == 'sub' and isinstance(s[1], tuple) and s[1][0] in ('phi', 'view', 'junk') for s in q.segs)


def own(segs):
    """bytes that were handed to the entry point, whole"""
    return segs is not None and len(segs) == 1 and segs[0][0] == 'sub' and str(segs[0][1][0]).startswith('in:') and segs[0][2].const() == 0


def foreign(segs):
    return segs is not None and not any('in:' in str(s) for s in segs)


class PeerRule(Rule):
    """knows which write is the first one on a connection, and whether the info hash has been compared"""
    FIRST, PROVED = ('pin', 'first'), ('pin', 'proved')

    def on_blocking(self, eng, st, fr, op, bounded, t):
        if op == 'connect':
            st.mem[self.FIRST] = VBool(True)
            st.mem[self.PROVED] = VBool(False)

    def on_compared(self, eng, st, fr, x, y, f, t):
        for a, b in ((x.segs, y.segs), (y.segs, x.segs)):
            if own(a) and foreign(b):
                old = st.mem.get(self.PROVED)
                if old is None or st.truth(old.f) is not True:
                    st.mem[self.PROVED] = VBool(f)

    def on_net_write(self, eng, st, fr, data, full, stream, bounded, t):
        b = st.mem.get(self.FIRST)
        first = None if b is None else st.truth(b.f)
        self.write(eng, st, fr, data, first, full, t)
        st.mem[self.FIRST] = VBool(False)


class Handshake(PeerRule):
    name = 'handshake layout'

    def write(self, eng, st, fr, q, first, full, t):
        if first is False:
            return
        if q is None or q.segs is None or first is None:
            return self.say(UNSURE, st, fr, 'first write', 'the bytes of the first write are not known', t)
        segs = list(q.segs)
        text, f = None, st.facts
        head = b''
        while segs and segs[0][0] == 'c':
            head += segs.pop(0)[1]
        if not head.startswith(HANDSHAKE):
            text = f'does not start with the protocol name: {head[:20]!r}'
        elif len(head) < 28 and not segs:
            text = f'ends after {len(head)} bytes'
        elif len(head) != 28:
            if len(head) > 28 or segs and segs[0][0] != 'sub':
                return self.say(UNSURE, st, fr, 'first write', 'a layout of the handshake that the rule does not know', t)
            text = f'has {len(head) - 20} reserved bytes'
        elif not head[25] & 0x10:
            text = 'does not have the bit of the extension protocol set'
        elif len(segs) != 2 or not own((segs[0],)):
            if any(s[0] == 'sub' and s[1][0] in ('phi', 'view', 'junk') for s in segs[:1]):
                return self.say(UNSURE, st, fr, 'first write', 'where the info hash comes from is not known', t)
            text = f'does not have the info hash of the torrent at offset 28 and the peer id after it'
        elif 'info_hash' not in str(segs[0][1][0]) and not str(segs[0][1][0]) in ('in:a0', 'in:info_hash'):
            text = 'has something else than the info hash at offset 28'
        elif not f.equal(seglen(segs[1]), K(20)):
            text = 'has a peer id that is not 20 bytes long'
        if text:
            self.say(BAD, st, fr, 'first write', 'the first message ' + text, t)
        else:
            self.say(GOOD, st, fr, 'first write', 'handshake with protocol name, extension bit, info hash and a peer id of 20 bytes', t)


def seglen(s):
    from ..values import segs_len
    return segs_len((s,))


class Silence(PeerRule):
    name = 'nothing before the proof'

    def write(self, eng, st, fr, q, first, full, t):
        if first is True:
            s = segs_of(q)
            if s and s[0][0] == 'c' and s[0][1].startswith(HANDSHAKE[:1]):
                return self.say(GOOD, st, fr, 'write to a peer', 'the first write is the handshake', t)
        p = st.mem.get(self.PROVED)
        ok = st.truth(p.f) if p is not None else None
        if ok is True:
            st.mem[self.PROVED] = VBool(True)
            self.say(GOOD, st, fr, 'write to a peer', 'sent only after the info hash received was found equal to the own one', t)
        else:
            self.say(BAD if p is not None else UNSURE, st, fr, 'write to a peer',
                     'is reached although no info hash received on this connection has been found equal to the own one', t)


class Framing(PeerRule):
    name = 'framing'

    def write(self, eng, st, fr, q, first, full, t):
        if first is True:
            return
        if q is None or q.segs is None:
            return self.say(UNSURE, st, fr, 'message', 'bytes not known', t)
        if not full:
            self.say(BAD, st, fr, 'message', 'written with a call that may write only a part of it', t)
        (n, i), rest = fields(q, (4, 1))
        if n is None or i is None:
            v = UNSURE if unknown_content(q) else BAD
            return self.say(v, st, fr, 'message', 'no length and id at the start', t)
        f = st.facts
        if not f.equal(n, q.len - 4):
            if f.distinct(n, q.len - 4) or not unknown_content(q):
                return self.say(BAD, st, fr, 'message', f'length field {n}, but {q.len - 4} bytes follow', t)
            return self.say(UNSURE, st, fr, 'message', 'whether the length field is the number of bytes that follow', t)
        k = i.const()
        if k in IDS and not f.equal(n, K(IDS[k])):
            return self.say(BAD, st, fr, 'message', f'message {k} with length {n}', t)
        self.say(GOOD, st, fr, 'message', f'length field equals the number of bytes that follow; id {i}', t)


def struct_field(eng, st, struct, field):
    """the values of a field in all values of a struct of the crate"""
    P, out = eng.P, []

    def walk(v):
        if isinstance(v, VAgg):
            ty = P.ty(v.ty) if v.ty is not None else {}
            if ty.get('k') == 'adt' and ty['path'].split('::')[-1] == struct and ty.get('v'):
                names = [f[0] for f in ty['v'][0]['f']]
                if field in names:
                    out.append(v.fs[names.index(field)])
            for x in v.fs:
                if isinstance(x, Val):
                    walk(x)
        elif isinstance(v, VEnum):
            for fs in v.vs.values():
                for x in fs:
                    walk(x)
        elif isinstance(v, VMod):
            for x in v.fs:
                if isinstance(x, Val):
                    walk(x)
    for v in st.mem.values():
        walk(v)
    return out


class Unchoked(PeerRule):
    name = 'choke state'

    def write(self, eng, st, fr, q, first, full, t):
        (n, i), rest = fields(q, (4, 1))
        if first is True or i is None or i.const() != 6:
            return
        xs = struct_field(eng, st, 'Peer', 'choked')
        if not xs or not all(isinstance(x, VBool) for x in xs):
            return self.say(UNSURE, st, fr, 'request', 'the choke state was not found', t)
        if all(st.truth(x.f) is False for x in xs):
            self.say(GOOD, st, fr, 'request', 'sent only when the peer is known not to choke', t)
        else:
            self.say(BAD, st, fr, 'request', 'is reached while the peer may be choking', t)


class Initial(Rule):
    """the state of a peer from which nothing has come"""
    name = 'initial state'
    WANT = {'choked': True, 'active': False}

    def finish(self, eng, outs):
        for st, v in outs or ():
            t = eng.P.ty(v.ty) if isinstance(v, VAgg) and v.ty is not None else {}
            names = [f[0] for f in t['v'][0]['f']] if t.get('v') else []
            for f, want in self.WANT.items():
                x = v.fs[names.index(f)] if f in names else None
                got = st.truth(x.f) if isinstance(x, VBool) else None
                verdict = GOOD if got is want else BAD if isinstance(x, VBool) else UNSURE
                self.j.append((verdict, f'{f} of a new peer', f'{f} of a new peer is {want}' if got is want else f'it is not known that {f} of a new peer is {want}', '', ()))


class Bounded(Rule):
    name = 'bounded in time'
    ops = ('connect', 'read', 'write', 'read_to_end')

    def on_blocking(self, eng, st, fr, op, bounded, t):
        if op not in self.ops:
            return
        if bounded is None:
            return self.say(UNSURE, st, fr, op, f'{op}: which stream is used is not known', t)
        if bounded:
            self.say(GOOD, st, fr, op, f'{op} with a time limit set before', t)
        else:
            self.say(BAD, st, fr, op, f'{op} without a time limit', t)


class Alloc(Rule):
    name = 'bounded allocation'
    LIMIT = 1 << 24

    def on_alloc(self, eng, st, fr, size):
        if st.facts.implies(K(self.LIMIT) - size):
            self.say(GOOD, st, fr, 'allocation', f'at most {self.LIMIT} elements')
        else:
            self.say(BAD, st, fr, 'allocation', f'of {size} elements, a number without a constant bound')


def only_tcp(e, st, inst, args):
    """the stream that is used in production"""
    def fix(v):
        if isinstance(v, VEnum):
            k = [i for i, fs in v.vs.items() if any(isinstance(x, VMod) and x.kind == 'tcp' for x in fs)]
            if k and len(v.vs) > 1:
                return VEnum(v.ty, {i: v.vs[i] for i in k})
            return v
        if isinstance(v, VAgg):
            fs = [fix(x) if isinstance(x, Val) else x for x in v.fs]
            return VAgg(v.ty, fs)
        return v
    for k in list(st.mem):
        st.mem[k] = fix(st.mem[k])
    return [fix(a) for a in args]


class PeerProp(Prop):
    rules = ()
    caps = (2, 10, 1)
    level = 'other'
    explain = ('Forward abstract interpretation of the MIR of the working tree, from the handler that downloads a piece and the function '
               'that fetches metadata, for arbitrary arguments and arbitrary bytes received; every write to a socket is judged with its bytes '
               'as constants, big-endian integers over symbols and parts of inputs.')

    def jobs(self, P, tier):
        mk = lambda: [r() for r in self.rules]
        return [Job(handler(P, 'ConnectionActor', 'PieceRequested'), mk, name='piece download', caps=self.caps),
                Job(entry(P, 'get_info'), mk, name='metadata exchange', caps=self.caps)]


class C04(PeerProp):
    rules = (Silence,)
    about = 'writes to peer sockets'
    rule = ('every write to a peer socket after the handshake is reached only in states in which a comparison of the own info hash with bytes '
            'received on the same connection had the result equal')


class C05(PeerProp):
    rules = (Unchoked,)
    about = 'writes of block requests'
    rule = 'every write of a message with id 6 is reached only in states in which the choke state of the peer is false; a new peer is choking'

    def jobs(self, P, tier):
        return super().jobs(P, tier)[:1] + [Job(entry(P, 'peer::Peer::new'), lambda: [Initial()], name='new peer')]


class C12(PeerProp):
    rules = (Framing,)
    caps = (2,)
    about = 'writes to peer sockets after the handshake'
    rule = ('for every write after the handshake the first four bytes, read as a big-endian number, equal the number of bytes after them in '
            'the same call, which hands over all bytes; messages of fixed size have that size')


class C13(PeerProp):
    rules = (Handshake,)
    about = 'first writes on peer connections'
    rule = 'the first write on every connection consists of the constants, the info hash of the torrent and a peer id of 20 bytes at their offsets'


class C17(PeerProp):
    rules = (Bounded,)
    about = 'operations on sockets'
    rule = 'for every connect, read and write on a socket, a time limit of at most a minute is set on every path before'

    def jobs(self, P, tier):
        return super().jobs(P, tier) + [Job(entry(P, 'is_reachable'), lambda: [Bounded()], name='reachability test')]


class C18(PeerProp):
    rules = (Alloc,)
    about = 'allocations of a size that depends on what is read'
    rule = 'the size of every allocation made while a message is read is at most 2^24 in every abstract state'
    explain = 'Forward abstract interpretation of the MIR of the function that reads a message, for an arbitrary stream.'

    def jobs(self, P, tier):
        return [Job(entry(P, 'read_stream'), lambda: [Alloc()], args=only_tcp, name='reading a message')]
