"""Bytes from outside, and what they are taken for."""
from .base import *
from .content import named, same_seq
from .peers import only_tcp
from ..engine import Unsupported
from ..lin import K, V, S, fresh, term, of_bits
from ..refute import differ
from ..values import *


def bytes_in(st, n, name='b'):
    """n arbitrary bytes, each with its own name"""
    xs = [fresh(0, 255, name) for _ in range(n)]
    return xs, VSeq(K(n), None, None, tuple(('b', x) for x in xs))


def give(e, st, arg, q):
    """the same argument with other content"""
    if isinstance(arg, VSlice):
        old = e.load(st, arg.root, arg.path)
        e.store(st, arg.root, arg.path, VSeq(q.len, None, None, q.segs, old.ety))
        return VSlice(arg.root, arg.path, K(0), q.len, arg.mut)
    if isinstance(arg, VRef):
        old = e.load(st, arg.root, arg.path)
        e.store(st, arg.root, arg.path, VSeq(q.len, None, None, q.segs, old.ety))
        return arg
    if isinstance(arg, VSeq):
        return VSeq(q.len, None, None, q.segs, arg.ety)
    raise Unsupported('bytes expected')


def dotted(st, segs, xs):
    """whether a text is the numbers xs in decimal with dots between: True, False or None"""
    if segs is None:
        return None
    out = []
    for s in segs:
        if s[0] == 'c':
            out += [bytes([x]) for x in s[1]]
        elif s[0] == 'dec':
            out.append(s[1])
        else:
            return None
    if len(out) != 2 * len(xs) - 1:
        return False if all(not isinstance(x, bytes) or x == b'.' for x in out) else None
    for i, x in enumerate(out):
        if i % 2:
            if x != b'.':
                return False
        elif isinstance(x, bytes) or st.truth(('eq', x - xs[i // 2])) is not True:
            return False
    return True


class Endpoints(Rule):
    """the list of addresses made of n bytes"""
    name = 'peer addresses'

    def __init__(self, xs):
        super().__init__()
        self.xs = xs

    def finish(self, eng, outs):
        P, n = eng.P, len(self.xs)
        ip, port = entry(P, 'PeerEndpoint::ip'), entry(P, 'PeerEndpoint::port')
        for st, v in outs or ():
            if not isinstance(v, VSeq) or v.elems is None or v.len.const() != len(v.elems):
                self.add(st, UNSURE, 'addresses', f'what is made of {n} bytes was not followed')
                continue
            if len(v.elems) != n // 6 and not (n % 6 and not v.elems):
                self.add(st, BAD, 'number of addresses', f'{n} bytes are taken for {len(v.elems)} addresses')
                continue
            self.add(st, GOOD, 'number of addresses', f'{n} bytes are {n // 6} addresses, what is left is ignored')
            for i, e in enumerate(v.elems):
                xs = self.xs[6 * i:6 * i + 6]
                s = st.copy()
                r = VRef(eng.alloc(s, ('entry', i), e, pin=True), (), False)
                for f, judge in ((ip, self.ip), (port, self.port)):
                    if f is None:
                        self.add(st, UNSURE, 'address', 'no function gives the parts of an address')
                        continue
                    for s2, x in eng.call_inst(f, [r], s.copy(), None, 'entry'):
                        judge(eng, s2, x, xs)

    def add(self, st, v, key, text):
        self.j.append((UNSURE if v == BAD and st.ghost.get('~nu') else v, key, text, 'src/tracker/peer_endpoint.rs', ()))

    def ip(self, eng, st, x, xs):
        ok = dotted(st, x.segs, xs[:4]) if isinstance(x, VSeq) else None
        if ok is None:
            return self.add(st, UNSURE, 'host', 'the text of the host was not followed')
        self.add(st, GOOD if ok else BAD, 'host', 'the host is bytes 0 to 3 of its entry, in order' if ok else 'the host is not bytes 0 to 3 of its entry in order')

    def port(self, eng, st, x, xs):
        if not isinstance(x, VInt):
            return self.add(st, UNSURE, 'port', 'the number was not followed')
        d = x.l - xs[4] * 256 - xs[5]
        ok = st.truth(('eq', d)) is True
        mine = {y for z in self.xs for y, _ in z.t}
        if not ok and not {y for y, _ in x.l.t} <= mine and not differ(st, x.l, xs[4] * 256 + xs[5], mine):
            return self.add(st, UNSURE, 'port', 'the number was not followed')
        self.add(st, GOOD if ok else BAD, 'port', 'the port is bytes 4 and 5 of its entry, high byte first' if ok else 'the port is not bytes 4 and 5 of its entry, high byte first')


class WholeList(Rule):
    """all of the list that was received is parsed"""
    name = 'list of peers'
    SIZE = ('pin', 'size')

    def on_udp_recv(self, eng, st, fr, size, t):
        st.mem[self.SIZE] = VInt(size)

    def on_call(self, eng, st, fr, f, args, t):
        if not (f.get('inst') or '').endswith('PeerEndpoint::from_bytes'):
            return
        q = None
        try:
            q = eng.seq_val(st, args[0])
        except Unsupported:
            pass
        if not isinstance(q, VSeq) or q.segs is None or len(q.segs) > 1 or q.segs and q.segs[0][0] != 'sub':
            return self.say(UNSURE, st, fr, 'bytes', 'where the bytes come from was not followed', t)
        if not q.segs:
            return
        _, src, off, n = q.segs[0]
        src = str(src[0]) if isinstance(src, tuple) else str(src)
        size = st.mem.get(self.SIZE)
        if 'pkt' in src and isinstance(size, VInt):
            ok = st.truth(('eq', off - 20)) is True and st.truth(('eq', off + n - size.l)) is True
            return self.say(GOOD if ok else BAD, st, fr, 'datagram', 'the list is everything from byte 20 of the datagram on' if ok else f'the list is taken from byte {off} on, {n} bytes', t)
        if off.const() == 0:
            return self.say(GOOD, st, fr, 'text', 'the list starts where the value starts', t)
        if off.const() is not None and 'map' in src:
            return self.say(BAD, st, fr, 'text', f'the first {off} bytes of the list are left out', t)
        self.say(UNSURE, st, fr, 'bytes', 'where the bytes come from was not followed', t)


class C29(Prop):
    about = 'addresses made of the bytes of peer lists'
    rule = ('what is made of n bytes is n/6 addresses (or none, when n is not a multiple of 6); the host of entry i is bytes 6i to 6i+3 in decimal '
            'in that order with dots between, its port is 256 times byte 6i+4 plus byte 6i+5; the bytes given to the parser are all of the list received')
    explain = ('Forward abstract interpretation of the MIR of the parser with every byte an own symbol, exactly for all lengths up to 13 (quick) or 31 (thorough) bytes, '
               'and of the function that asks a tracker for where the bytes come from.')
    required = 3

    def jobs(self, P, tier):
        f, out = entry(P, 'PeerEndpoint::from_bytes'), []
        for n in (0, 5, 6, 7, 12, 13) if tier == 'quick' else range(32):
            xs = []

            def start(e, st, inst, args, n=n, xs=xs):
                xs[:], q = bytes_in(st, n)
                return [give(e, st, args[0], q)]
            out.append(Job(f, lambda xs=xs: [Endpoints(xs)], {'exact': True}, args=start, name=f'{n} bytes', caps=(400,)))
        out.append(Job(entry(P, 'tracker::get_peers_by_tracker', 'get_peers_by_tracker'), lambda: [WholeList()], run_async=True, name='asking a tracker'))
        return out


def variant(P, v):
    """(name of the only variant, its values)"""
    if not isinstance(v, VEnum) or len(v.vs) != 1:
        return None, ()
    (i, fs), = v.vs.items()
    t = P.ty(v.ty)
    return t['v'][i]['n'] if 'n' in t['v'][i] else None, fs


class Parsed(Rule):
    """what a message body is taken for"""
    name = 'parsed message'

    def __init__(self, mid):
        super().__init__()
        self.mid = mid

    def finish(self, eng, outs):
        P = eng.P
        for st, v in outs or ():
            body = st.mem[('pin', 'body')]
            if not isinstance(v, VEnum):
                self.add(st, UNSURE, 'result', 'the result was not followed')
                continue
            s = st.copy()
            if 1 in v.vs and all(s.assume(x) for x in v.att.get(1, ())):
                self.refused(s, body)
            if 0 not in v.vs or not all(st.assume(x) for x in v.att.get(0, ())):
                continue
            _, m = named(P, v.vs[0][0])
            mid = m.get('id')
            if not isinstance(mid, VInt) or st.truth(('eq', mid.l - st.mem[('pin', 'id')].l)) is not True:
                self.add(st, BAD if isinstance(mid, VInt) else UNSURE, 'id', 'the message has another id than the one received')
            self.content(P, st, m.get('content'), body)

    def add(self, st, v, key, text):
        self.j.append((UNSURE if v == BAD and st.ghost.get('~nu') else v, f'message {self.mid}: {key}', text, 'src/messages/mod.rs', ()))

    NEED = {19: 68, 7: 8, 6: 8, 5: 0, 2: 0}

    def refused(self, st, body):
        n = self.NEED.get(self.mid)
        if n is None:
            return
        s = st.copy()
        if s.assume(('ge', body.len - n)):
            return self.add(st, BAD, 'complete messages', f'a message with a body of {n} bytes or more may be refused')
        self.add(st, GOOD, 'truncated messages', f'only bodies shorter than {n} bytes are refused')

    def content(self, P, st, c, body):
        want = {19: 'Handshake', 7: 'Request', 6: 'Request', 5: 'Bitfield', 2: 'Interested', 20: 'Extension', None: 'Nothing'}[self.mid]
        kind, fs = variant(P, c)
        if kind is None:
            return self.add(st, UNSURE, 'kind', 'the kind of the content was not followed')
        if kind != want:
            return self.add(st, BAD, 'kind', f'the content is taken for {kind} and not for {want}')
        self.add(st, GOOD, 'kind', f'the content is {want}')
        if not fs:
            return
        _, f = named(P, fs[0])
        src, n = body.segs[0][1], body.len
        part = lambda o, ln: (('sub', src, K(o), ln),)
        if kind == 'Handshake':
            self.seq(st, f, 'info_hash', part(28, K(20)))
            self.seq(st, f, 'peer_id', part(48, K(20)))
        elif kind == 'Request':
            self.num(st, f, 'piece_index', part(0, K(4)))
            self.num(st, f, 'block_index', part(4, K(4)))
            self.seq(st, f, 'block_data', part(8, n - 8))
        elif kind == 'Bitfield':
            self.seq(st, f, 'bitfield', body.segs)

    def seq(self, st, f, name, want):
        v = f.get(name)
        if not isinstance(v, VSeq) or v.segs is None:
            return self.add(st, UNSURE, name, 'the bytes were not followed')
        ok = same_seq(st, v, VSeq(segs_len(want), None, None, want))
        if not ok and ok is not None and any(s[0] != 'sub' or s[1] != want[0][1] for s in v.segs):
            ok = None
        self.add(st, GOOD if ok else UNSURE if ok is None else BAD, name, f'{name} is the bytes at its place in the body' if ok else f'{name} is other bytes than those at its place in the body')

    def num(self, st, f, name, want):
        v = f.get(name)
        if not isinstance(v, VInt):
            return self.add(st, UNSURE, name, 'the number was not followed')
        ok = st.truth(('eq', v.l - term(('from_be', want)))) is True
        if not ok:
            t = S.term[v.l.t[0][0]] if len(v.l.t) == 1 else None
            if not (t and t[0] in ('from_be', 'from_le') and isinstance(t[1], tuple) and t[1] and t[1][0][0] == 'sub') and not differ(
                    st, v.l, term(('from_be', want)), {x for x, _ in st.mem[('pin', 'body')].len.t}, {want[0][1]}):
                return self.add(st, UNSURE, name, 'how the number is made was not followed')
        self.add(st, GOOD if ok else BAD, name, f'{name} is the big-endian number at its place in the body' if ok else f'{name} is not the big-endian number at its place in the body')


class BitOrder(Rule):
    """bit by bit"""
    name = 'bitfield'

    def __init__(self, bits):
        super().__init__()
        self.bits = bits

    def finish(self, eng, outs):
        n = len(self.bits)
        for st, v in outs or ():
            if not isinstance(v, VSeq) or v.elems is None or not all(isinstance(x, VBool) for x in v.elems):
                self.add(st, UNSURE, 'the flags were not followed')
                continue
            if len(v.elems) != n:
                self.add(st, BAD, f'{n} bits give {len(v.elems)} flags')
                continue
            bad = unsure = 0
            for x, b in zip(v.elems, self.bits):
                f = x.f if x.f is True or x.f is False else st.truth(x.f)
                w = b if b is True or b is False else st.truth(('ge', b - 1))
                if f is None or w is None:
                    other = st.facts.at or any(S.term[y] is not None for l in st.facts.ge for y, _ in l.t)
                    if (x.f is True or x.f is False) and not other:
                        # the flag is set or cleared whatever the bit is
                        bad += 1
                    else:
                        unsure += 1
                elif f != w:
                    bad += 1
            self.add(st, BAD if bad else UNSURE if unsure else GOOD, 'a flag differs from its bit, highest bit first' if bad else 'the flags were not followed' if unsure
                     else 'flag i is bit 7 - i mod 8 of byte i / 8')

    def add(self, st, v, text):
        self.j.append((UNSURE if v == BAD and st.ghost.get('~nu') else v, 'order of the bits', text, 'src/messages/bitfield.rs', ()))


class C27(Prop):
    about = 'parsers of message bodies'
    rule = ('for every id and an arbitrary body: the content has the kind of the id; info hash and peer id are bytes 28 to 47 and 48 to 67, index and offset are '
            'the big-endian numbers at 0 and 4, the block is everything from 8 on, a bitfield is the whole body; a body that has all its fields is not refused; '
            'flag i of the availability map is bit 7 - i mod 8 of byte i / 8')
    explain = ('Forward abstract interpretation of the MIR of the constructor of received messages for each id with arbitrary bodies, and of the expansion of bitfields '
               'with every bit an own symbol (byte by byte, among bytes with other values).')
    required = 6

    def jobs(self, P, tier):
        n, out = entry(P, 'Message::new_raw'), []
        for mid in (2, 5, 6, 7, 19, 20, None):
            def start(e, st, inst, args, mid=mid):
                args = list(args)
                b = next(i for i, a in enumerate(args) if isinstance(a, VSeq))
                k = next(i for i, a in enumerate(args) if isinstance(a, VInt) and P.ty(inst['locals'][i + 1]).get('bits') == 8)
                if mid is not None:
                    args[k] = VInt(K(mid))
                else:
                    for x in (2, 5, 6, 7, 19, 20):
                        st.assume(('not', ('eq', args[k].l - x)))
                st.mem[('pin', 'body')], st.mem[('pin', 'id')] = args[b], args[k]
                return args
            out.append(Job(n, lambda mid=mid: [Parsed(mid)], args=start, name=f'message {mid if mid is not None else "with another id"}'))
        f = entry(P, 'get_bitfield_as_bit_vector')
        for before, after in ((b'', b''), (b'\x00', b''), (b'', b'\xff'), (b'\x80', b'\x01')):
            bits = []

            def bits_in(e, st, inst, args, bits=bits, before=before, after=after):
                const = lambda bs: [bool(x >> (7 - i) & 1) for x in bs for i in range(8)]
                own = [fresh(0, 1, 'bit') for _ in range(8)]
                byte = of_bits({7 - i: x.t[0][0] for i, x in enumerate(own)})
                bits[:] = const(before) + own + const(after)
                v = e.load(st, args[0].root, args[0].path)
                v = e.expand(v, st) if isinstance(v, VTop) else v
                segs = tuple((('c', before),) if before else ()) + (('b', byte),) + tuple((('c', after),) if after else ())
                fs = [VSeq(K(len(before) + 1 + len(after)), None, None, segs, x.ety) if isinstance(x, VSeq) else x for x in v.fs]
                e.store(st, args[0].root, args[0].path, VAgg(v.ty, fs))
                return args
            out.append(Job(f, lambda bits=bits: [BitOrder(bits)], {'exact': True}, args=bits_in, name=f'bitfield of {len(before) + 1 + len(after)} bytes', caps=(3000,)))
        return out


class Boundary(Rule):
    """the stream stands at the start of a message when reading returns"""
    name = 'bytes taken'

    def on_net_read(self, eng, st, fr, how, size, taken, t):
        # keeps apart what was seen and taken in different ways
        n = size.const()
        if not taken:
            return st.set_ghost(seen=f'{how} {"of a message" if n is None else n}')
        if how == 'error':
            return
        st.set_ghost(took=(st.ghost.get('took', '') + f' {how} {"of a message" if n is None else n}')[-90:])

    def finish(self, eng, outs):
        for st, v in outs or ():
            self.one(eng, st, v)

    def add(self, st, v, key, text):
        self.j.append((UNSURE if v == BAD and st.ghost.get('~nu') else v, key, text, 'src/peer/stream.rs', ()))

    def one(self, eng, st, v):
        from ..models_io import find_tcp
        c = type('C', (), {'e': eng})
        p = find_tcp(c, st, st.mem[('pin', 'stream')])
        t = eng.load(st, *p) if p else None
        if not isinstance(t, VMod) or t.kind != 'tcp' or not isinstance(v, VEnum):
            return self.add(st, UNSURE, 'position', 'the stream was not followed')
        tid, pos = t.fs[0], t.fs[3].l
        for k, fs in v.vs.items():
            s = st.copy()
            if all(s.assume(x) for x in v.att.get(k, ())):
                if k == 0:
                    self.nothing(s, tid, pos)
                else:
                    self.message(eng, s, tid, pos, fs[0])

    def length(self, tid):
        return term(('from_be', (('sub', tid, K(0), K(4)),)))

    def nothing(self, st, tid, pos):
        if st.truth(('eq', pos)) is True:
            return self.add(st, GOOD, 'nothing read', 'when no message is returned no byte is taken')
        n = self.length(tid)
        if st.truth(('eq', n)) is True and st.truth(('eq', pos - 4)) is True:
            return self.add(st, GOOD, 'keep-alive', 'a message of length 0 is taken as a whole')
        s = st.copy()
        self.add(st, BAD, 'nothing read', 'bytes may be taken although no message is returned')

    def message(self, eng, st, tid, pos, v):
        v = v.fs if isinstance(v, VAgg) else ()
        body, mid, ln = (list(v) + [None] * 3)[:3]
        if not isinstance(body, VSeq) or body.segs is None or not isinstance(mid, VInt) or not isinstance(ln, VInt):
            return self.add(st, UNSURE, 'message', 'the message was not followed')
        if not body.segs and st.truth(('eq', body.len)) is not True or any(s[0] != 'sub' or s[1] != tid for s in body.segs):
            return self.add(st, UNSURE, 'message', 'the bytes of the message were not followed')
        n = self.length(tid)
        whole = (('sub', tid, K(0), K(68)),)
        if st.truth(('eq', pos - 68)) is True and st.truth(('eq', mid.l - 19)) is True and same_seq(st, body, VSeq(K(68), None, None, whole)):
            return self.add(st, GOOD, 'handshake', 'a handshake is taken as a whole')
        if st.truth(('eq', pos - n - 4)) is not True:
            return self.add(st, BAD, 'bytes taken', 'the number of bytes taken is not that of the message and its length')
        if same_seq(st, body, VSeq(n - 1, None, None, (('sub', tid, K(5), n - 1),))) is not True:
            return self.add(st, BAD, 'body', 'the body is not the bytes after the id')
        if st.truth(('eq', ln.l - n + 1)) is not True:
            return self.add(st, BAD, 'length', 'the length returned is not that of the body')
        self.add(st, GOOD, 'message', 'a message is taken as a whole: length, id and body')
        b = byte_at((('sub', tid, K(0), n + 4),), K(4), st.facts)
        if mid.l.t and S.term[mid.l.t[0][0]] and S.term[mid.l.t[0][0]][0] == 'byte':
            w = S.term[mid.l.t[0][0]]
            if st.truth(('eq', mid.l - b)) is not True:
                return self.add(st, BAD if w[1][0] == 'sub' and w[1][1] == tid and st.truth(('eq', w[1][2] - 4)) is False else UNSURE, 'id', 'the id is another byte than the one after the length')
            return self.add(st, GOOD, 'id', 'the id is the byte after the length')
        self.add(st, UNSURE, 'id', 'where the id comes from was not followed')


class C19(Prop):
    about = 'results of reading a message from a peer'
    rule = ('whenever reading returns, the position in the stream is where it was (no message), or 68 bytes further (handshake: these bytes are returned), '
            'or 4 plus the big-endian number of the first 4 bytes further; then the id is byte 4, the body is bytes 5 to the end, and a number of 0 is a keep-alive without message')
    explain = ('Forward abstract interpretation of the MIR of the function that reads a message, for an arbitrary stream: every peek and read may return less than asked, or fail.')
    required = 3

    def jobs(self, P, tier):
        def start(e, st, inst, args):
            args = only_tcp(e, st, inst, args)
            st.mem[('pin', 'stream')] = args[0]
            return args
        return [Job(entry(P, 'read_stream'), lambda: [Boundary()], args=start, name='reading a message', caps=(10, 40, 2))]
