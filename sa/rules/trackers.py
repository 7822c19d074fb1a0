"""Requests to trackers, and what is taken from their answers."""
import re
from .base import *
from ..harness import TopFrame
from .peers import segs_of
from ..lin import K, Lin
from ..values import *

MAGIC = bytes.fromhex('0000041727101980')
CONNECT, ANNOUNCE = bytes(4), b'\0\0\0\1'


def at(q, st, off, ln):
    """the segments of ln bytes at an offset, or None where the boundaries are not known"""
    try:
        return sub_segs(tuple(q.segs), K(off), K(ln), st.facts)
    except Exception:
        return None


def const(segs):
    if segs is not None and all(s[0] == 'c' for s in segs):
        return b''.join(s[1] for s in segs)
    return None


def one_sub(segs):
    return segs[0] if segs is not None and len(segs) == 1 and segs[0][0] == 'sub' else None


def kind_of(q, st):
    """'connect', 'announce', or None when the packet is neither for certain"""
    if q is None or q.segs is None:
        return None
    n = q.len.const()
    if st.facts.equal(q.len, K(16)) or const(at(q, st, 0, 8)) is not None and n is not None and n < 20:
        return 'connect'
    return 'announce'


def twenty(e, st, v, name):
    """a slice of 20 bytes from outside"""
    if isinstance(v, VSlice):
        st.assume(('eq', v.len - 20))
    return v


def call_args(e, st, inst, args):
    for v in args:
        twenty(e, st, v, '')
    st.mem[('pin', 'size')] = VInt(K(0))
    return args


class Packets(Rule):
    name = 'request to a tracker'

    def on_udp_send(self, eng, st, fr, data, t):
        k = kind_of(data, st)
        if k is None:
            return self.say(UNSURE, st, fr, 'datagram', 'the bytes of a datagram were not followed', t)
        getattr(self, k)(eng, st, fr, data, t)

    def connect(self, eng, st, fr, q, t):
        bad = []
        if not st.facts.equal(q.len, K(16)):
            bad.append(f'is {q.len} bytes long')
        head, act = const(at(q, st, 0, 8)), const(at(q, st, 8, 4))
        if head != MAGIC:
            bad.append(f'begins with {head.hex() if head else "something else"} instead of the constant of the protocol')
        if act != CONNECT:
            bad.append(f'has the action {act.hex() if act else "?"}')
        self.say(BAD if bad else GOOD, st, fr, 'connect request',
                 'a connect request that ' + '; '.join(bad) if bad else '16 bytes: constant of the protocol, action 0, transaction id', t)

    def announce(self, eng, st, fr, q, t):
        bad, open_ = [], []
        if not st.facts.equal(q.len, K(98)):
            (bad if q.len.const() is not None or not self.vague(q) or st.facts.distinct(q.len, K(98)) else open_).append(f'is {q.len} bytes long')
        conn = one_sub(at(q, st, 0, 8))
        if conn is None:
            c = const(at(q, st, 0, 8))
            (bad if c is not None else open_).append('does not begin with the connection id that was received')
        elif str(conn[1][0]).startswith('in:'):
            bad.append('begins with bytes that are not from the answer of the tracker')
        elif not st.facts.equal(conn[2], K(8)):
            lost = conn[1][0] != 'pkt' and const(at(q, st, 8, 4)) is None
            (open_ if lost else bad).append(f'begins with the bytes of the answer at {conn[2]} instead of those at 8')
        act = const(at(q, st, 8, 4))
        if act != ANNOUNCE:
            (bad if act is not None else open_).append(f'has the action {act.hex() if act else "?"}')
        ih = one_sub(at(q, st, 16, 20))
        if ih is None or not str(ih[1][0]).startswith('in:'):
            (open_ if at(q, st, 16, 20) is None or ih is not None and ih[1][0] in ('phi', 'view', 'junk') else bad).append('does not have the info hash at offset 16')
        elif 'info_hash' not in ih[1][0] and not st.facts.equal(ih[2], K(0)):
            bad.append(f'has {ih[1][0][3:]} at offset 16 instead of the info hash')
        pid = one_sub(at(q, st, 36, 20))
        if pid is None:
            (bad if at(q, st, 36, 20) is not None and const(at(q, st, 36, 20)) is not None else open_).append('does not have a peer id at offset 36')
        elif str(pid[1][0]).startswith('in:'):
            bad.append('has the info hash at offset 36')
        if bad:
            self.say(BAD, st, fr, 'announce request', 'an announce request that ' + '; '.join(bad), t)
        elif open_:
            self.say(UNSURE, st, fr, 'announce request', 'an announce request of which was not followed whether it ' + '; '.join(open_), t)
        else:
            self.say(GOOD, st, fr, 'announce request', '98 bytes: connection id of the answer, action 1, transaction id, info hash at 16, peer id of 20 bytes at 36', t)

    def vague(self, q):
        return any(s[0] == 'sub' and s[1][0] in ('phi', 'view', 'junk') and s[3].const() is None for s in q.segs)


class C14(Prop):
    about = 'datagrams sent to a tracker'
    rule = ('the bytes of every datagram that is sent are known as a sequence of constants, inputs and received bytes; at the offsets of the protocol '
            'they are the constant, the action, the connection id (bytes 8 to 16 of an answer), the info hash that was given and 20 bytes of a peer id')
    explain = 'Forward abstract interpretation of the MIR from the function that asks a tracker, for an arbitrary info hash of 20 bytes.'
    floor = 2

    def jobs(self, P, tier):
        return [Job(entry(P, 'tracker::get_peers_by_tracker', 'get_peers_by_tracker'), lambda: [Packets()], args=call_args, run_async=True, name='asking a tracker')]


class Query(Rule):
    """the parameters of a request to an HTTP tracker"""
    name = 'request to an HTTP tracker'

    def on_http(self, eng, st, fr, url, t):
        if url is None or url.segs is None:
            return self.say(UNSURE, st, fr, 'address', 'the address that is asked for was not followed', t)
        bad, open_ = [], []
        for key, what in ((b'info_hash', self.info_hash), (b'peer_id', self.peer_id)):
            v = self.value(url.segs, key)
            if v is None:
                lost = any(s[0] != 'c' and st.truth(('ge', K(40) - seg_len(s))) is not True and
                           not (s[0] == 'sub' and (str(s[1][0]).startswith('in:') or s[1][0] in ('url', 'urlenc', 'lossy'))) for s in url.segs)
                (open_ if lost else bad).append(f'has no parameter {key.decode()}')
            else:
                r, text = what(st, v)
                if r != GOOD:
                    (bad if r == BAD else open_).append(text)
        if bad:
            self.say(BAD, st, fr, 'announce request', 'an HTTP request that ' + '; '.join(bad), t)
        elif open_:
            self.say(UNSURE, st, fr, 'announce request', 'an HTTP request of which was not followed whether it ' + '; '.join(open_), t)
        else:
            self.say(GOOD, st, fr, 'announce request', 'info_hash is the percent-encoded info hash, peer_id has 20 bytes', t)

    def value(self, segs, key):
        """the segments between `key=` and the next & or the end"""
        out, on, before = [], False, b''
        for s in segs:
            if s[0] != 'c':
                if on:
                    out.append(s)
                before = None
                continue
            parts = s[1].split(b'&')
            for i, x in enumerate(parts):
                if on and i:
                    return out
                if on:
                    if x:
                        out.append(('c', x))
                    continue
                # the parameter starts after ? or &
                y = x.rsplit(b'?', 1)[-1] if i == 0 else x
                if y.startswith(key + b'=') and (i or b'?' in x):
                    on = True
                    if y[len(key) + 1:]:
                        out.append(('c', y[len(key) + 1:]))
        return out if on else None

    def info_hash(self, st, v):
        if len(v) != 1 or v[0][0] != 'sub':
            if any(s[0] == 'sub' and s[1][0] in ('urlenc', 'lossy') for s in v) or all(s[0] == 'c' for s in v):
                return BAD, 'has another info_hash than the torrent'
            return UNSURE, 'has the info hash of the torrent'
        src = v[0][1]
        if str(src[0]).startswith('in:') or src[0] == 'lossy':
            return BAD, 'has an info_hash that is not percent-encoded'
        if src[0] != 'urlenc' or not st.facts.equal(v[0][2], K(0)):
            return UNSURE, 'has the info hash of the torrent'
        w = src[1]
        if len(w) == 1 and w[0][0] == 'sub' and str(w[0][1][0]).startswith('in:'):
            if st.facts.equal(w[0][2], K(0)) and st.facts.equal(w[0][3], K(20)):
                return GOOD, ''
            return BAD, f'has only {w[0][3]} bytes of the info hash, from {w[0][2]}'
        if all(s[0] == 'c' for s in w) or len(w) == 1 and w[0][0] == 'sub' and w[0][1][0] in ('urlenc', 'lossy'):
            return BAD, 'has another info_hash than the torrent'
        return UNSURE, 'has the info hash of the torrent'

    def peer_id(self, st, v):
        n = K(0)
        for s in v:
            if s[0] == 'sub' and s[1][0] == 'urlenc':
                if not s[1][1] or any(x[0] == 'sub' and (str(x[1][0]).startswith('in:') or x[1][0] in ('urlenc', 'lossy')) for x in s[1][1]):
                    return BAD, 'has something else as peer_id'
                n = n + segs_len(s[1][1])
            elif s[0] == 'sub' and str(s[1][0]).startswith('in:'):
                return BAD, 'has something else as peer_id'
            else:
                n = n + seg_len(s)
        if st.facts.equal(n, K(20)):
            return GOOD, ''
        return (BAD if n.const() is not None else UNSURE), f'has a peer_id of {n} bytes'


class C36(Prop):
    about = 'addresses asked for from HTTP trackers'
    rule = ('at every HTTP request the address is known as a sequence of constants and values; it has a parameter info_hash whose value is the percent-encoding '
            'of exactly the info hash that was given, and a parameter peer_id of 20 bytes')
    explain = 'Forward abstract interpretation of the MIR from the function that asks a tracker, for an arbitrary info hash of 20 bytes and an arbitrary address.'

    def jobs(self, P, tier):
        return [Job(entry(P, 'tracker::get_peers_by_tracker', 'get_peers_by_tracker'), lambda: [Query()], args=call_args, run_async=True, name='asking a tracker')]


def says(st, base, off, want):
    """whether the bytes of an answer at an offset are known to be those that are wanted"""
    return st.truth(('ce', (('sub', base, K(off), K(len_of(want))),), tuple(want)))


def len_of(segs):
    n = segs_len(tuple(segs)).const()
    return 0 if n is None else n


class Answers(Rule):
    name = 'answer of a tracker'
    SIZE, SENT = ('pin', 'size'), ('pin', 'sent')

    def __init__(self):
        super().__init__()
        self.fr = None

    def on_udp_recv(self, eng, st, fr, size, t):
        st.mem[self.SIZE] = VInt(size)

    def on_udp_send(self, eng, st, fr, data, t):
        k = kind_of(data, st)
        if k == 'announce':
            conn = one_sub(at(data, st, 0, 8))
            if conn is not None and not str(conn[1][0]).startswith('in:'):
                self.judge(st, fr, conn, CONNECT, K(8), 'connection id', t)
            elif conn is not None or const(at(data, st, 0, 8)) is not None:
                self.say(BAD, st, fr, 'connection id', 'the announce request does not carry bytes of an answer', t)
            else:
                self.say(UNSURE, st, fr, 'connection id', 'where the connection id comes from was not followed', t)
        if data is not None and data.segs is not None:
            st.mem[self.SENT] = data
        else:
            st.mem.pop(self.SENT, None)

    def judge(self, st, fr, part, action, off, what, t):
        """part of an answer is used: what is known of that answer?"""
        base, f = part[1], st.facts
        sent, size = st.mem.get(self.SENT), st.mem.get(self.SIZE)
        tx = at(sent, st, 12, 4) if isinstance(sent, VSeq) else None
        bad = []
        if not f.equal(part[2], off):
            bad.append(f'it is taken from offset {part[2]}')
        if says(st, base, 0, (('c', action),)) is not True:
            bad.append('the action was not found to be that of the request')
        if tx is None:
            return self.say(UNSURE, st, fr, what, 'the transaction id that was sent was not followed', t)
        if says(st, base, 4, tx) is not True:
            bad.append('the transaction id was not found to be that of the request')
        if isinstance(size, VInt) and not f.implies(size.l - part[2] - part[3]):
            bad.append('more bytes are used than were received')
        if bad:
            self.say(BAD, st, fr, what, f'{what} of an answer of which ' + '; '.join(bad), t)
        else:
            self.say(GOOD, st, fr, what, f'used only when the answer has the action and the transaction id of the request; the bytes from {off} that were received', t)

    def finish(self, eng, outs):
        for st, v in outs or ():
            if not isinstance(v, VEnum) or 0 not in v.vs:
                continue
            st = st.copy()
            if not all(st.assume(x) for x in v.att.get(0, ())):
                continue
            q = v.vs[0][0]
            if isinstance(q, VEnum):
                continue
            fr = self.top
            if not isinstance(q, VSeq) or q.segs is None:
                self.j.append((UNSURE, 'list of peers', 'what is returned was not followed', '', ()))
                continue
            part = one_sub(q.segs)
            if part is None or str(part[1][0]) in ('in:', 'view', 'junk'):
                if not q.segs:
                    continue
                self.j.append((UNSURE, 'list of peers', 'what is returned was not followed', '', ()))
                continue
            self.judge(st, fr, part, ANNOUNCE, K(20), 'list of peers', None)

    top = None


class C15(Prop):
    about = 'uses of datagrams received from a tracker'
    rule = ('where bytes of an answer are used (as connection id in the announce request, or returned as list of peers) the path condition contains that its '
            'first four bytes equal the action and the next four the transaction id of the request sent last, and the bytes used are those received from offset 8 or 20')
    explain = 'Forward abstract interpretation of the MIR of the exchange with a UDP tracker; contents of buffers are sequences of received bytes, comparisons are facts about them.'
    floor = 2

    def jobs(self, P, tier):
        e = entry(P, 'tracker::udp_tracker::call', 'udp_tracker::call')

        def rules():
            r = Answers()
            r.top = TopFrame(P, e)
            return [r]
        return [Job(e, rules, args=call_args, run_async=True, name='exchange with a UDP tracker')]


WAIT = re.compile(r'^(recv|recv_from|readable|peek|peek_from|accept)$')


class Waits(Rule):
    """every wait for an answer has a time limit, and there are only so many of them"""
    name = 'bounded wait'

    def __init__(self):
        super().__init__()
        self.memo = {}

    def waits(self, P, n):
        from ..graph import Graph
        from .concurrency import blocking
        if n not in self.memo:
            self.memo[n] = any(kind == 'lib' and (blocking(P, x, t) or re.search(r'^tokio::net::|Future(>)?::poll$', x))
                               for _, kind, x, t, _ in Graph(P).walk(n))
        return self.memo[n]

    def here(self, fr):
        return any(str(f.inst.get('span') or '').startswith('src/tracker/') for f in fr.chain())

    def on_await(self, eng, st, fr, op, bounded, args, t=None):
        if WAIT.search(str(op)) and self.here(fr):
            if bounded:
                self.say(GOOD, st, fr, f'await {op}', f'{op} is awaited with a time limit', t)
            else:
                self.say(BAD, st, fr, f'await {op}', f'{op} is awaited without a time limit of at most a minute', t)

    def on_blocking(self, eng, st, fr, op, bounded, t):
        if op != 'connect' and self.here(fr):
            if bounded:
                self.say(GOOD, st, fr, f'{op}', f'{op} has a time limit', t)
            else:
                self.say(BAD, st, fr, f'{op}', f'{op} has no time limit of at most a minute', t)

    def on_loop(self, eng, st, fr, measure, head):
        n = fr.inst['name']
        if not str(fr.inst.get('span') or '').startswith('src/tracker/') or not self.waits(eng.P, n):
            return
        if measure is None:
            self.say(BAD, st, fr, 'loop', f'a loop of {n} for which no quantity was found that is bounded and changes in every round: it may wait again and again',
                     fr.body.blocks[head]['t'])
        else:
            self.say(GOOD, st, fr, 'loop', f'in every round of a loop of {n} a bounded quantity makes progress: {measure}'[:200], fr.body.blocks[head]['t'])


class C16(Prop):
    about = 'waits for the answer of a tracker'
    rule = ('every receive on a UDP socket is awaited inside a timeout whose constant is at most a minute, every HTTP request carries such a timeout, and '
            'every loop around them has a quantity that is bounded and moves in every round')
    explain = 'Forward abstract interpretation of the MIR from the function that asks a tracker, with the duration of timeouts and the configuration of requests as values.'
    floor = 2

    def jobs(self, P, tier):
        return [Job(entry(P, 'tracker::get_peers_by_tracker', 'get_peers_by_tracker'), lambda: [Waits()], {'loops': True}, run_async=True, name='asking a tracker', caps=(2, 10, 1))]
