"""The control interface, and the actors behind it."""
import re
from .base import *
from ..graph import Graph
from ..lin import K, S
from ..values import *

LOOPBACK = re.compile(rb'^(127\.\d+\.\d+\.\d+|localhost|\[::1\]|::1)(:|$)')


def literal(eng, st, v, depth=0):
    """the constant text at the start of an address: bytes, 'other' (known not to be text of the program) or None"""
    if depth > 6:
        return None
    if isinstance(v, (VRef, VSlice)):
        try:
            q = eng.seq_val(st, v)
        except Exception:
            q = None
        if q is None and isinstance(v, VRef):
            try:
                q = eng.load(st, v.root, v.path)
            except Exception:
                return None
        return literal(eng, st, q, depth + 1)
    if isinstance(v, VSeq):
        if v.segs and v.segs[0][0] == 'c':
            return v.segs[0][1]
        return 'other' if v.segs and str(v.segs[0][1]).find('in:') >= 0 else None
    if isinstance(v, VAgg) and v.fs:
        return literal(eng, st, v.fs[0], depth + 1)
    if isinstance(v, VEnum) and len(v.vs) == 1:
        fs, = v.vs.values()
        return literal(eng, st, fs[0], depth + 1) if fs else None
    if isinstance(v, VMod) and v.kind in ('ip', 'addr') and v.fs:
        return literal(eng, st, v.fs[0], depth + 1)
    return None


class Bound(Rule):
    name = 'loopback only'

    def on_http_bind(self, eng, st, fr, addr, t):
        b = literal(eng, st, addr)
        if b is None:
            self.say(UNSURE, st, fr, 'address', 'which address is bound was not followed', t)
        elif b == 'other':
            self.say(BAD, st, fr, 'address', 'the address comes from outside of the program', t)
        elif LOOPBACK.match(b) or len(b) == 4 and b[0] == 127 or b == bytes(15) + b'\x01':
            self.say(GOOD, st, fr, 'address', f'a loopback address: {b!r}', t)
        else:
            self.say(BAD, st, fr, 'address', f'not a loopback address: {b!r}', t)


class C32(Prop):
    about = 'addresses that the HTTP server is bound to'
    rule = 'at every call that binds the HTTP server, the address starts with the constant text of a loopback address'
    explain = 'Forward abstract interpretation of the MIR of the body of main, in which constants are values.'

    def jobs(self, P, tier):
        g = Graph(P)
        roots = ['main::{closure#0}'] if 'main::{closure#0}' in P.inst else []
        if not roots:
            roots = [n for n, i in P.inst.items() if any(b['t']['k'] == 'call' and isinstance(b['t']['f'], dict) and
                     re.search(r'^actix_web::HttpServer.*::(bind|listen)', b['t']['f'].get('path') or '') for b in i['blocks'])]
        return [Job(n, lambda: [Bound()], name=n) for n in roots or [None]]


class Drained(Rule):
    """a loop over elements of a type reaches its end, and what is owed for an element is done before the next one"""

    def __init__(self, ty, what):
        super().__init__()
        self.ty, self.what = re.compile(ty), what
        self.fr = None

    def on_iter(self, eng, st, fr, item, ty, t):
        if self.ty.search(eng.P.s(ty)):
            self.step(st, fr, item is not None, t)

    def on_popped(self, eng, st, fr, seq, val, end, ety):
        if ety is not None and self.ty.search(eng.P.s(ety)):
            self.step(st, fr, val is not None, None)

    def step(self, st, fr, more, t):
        self.fr = fr
        self.settle(st, fr, t)
        st.set_ghost(done='no' if more else 'yes', owed='yes' if more and self.each else 'no')

    each = False

    def settle(self, st, fr, t):
        if 'owed' not in st.ghost:
            return
        if st.ghost['owed'] == 'no':
            self.say(GOOD, st, fr, 'passed on', 'every ' + self.what + ' was dealt with', t)
        else:
            self.say(BAD, st, fr, 'passed on', self.owed_text, t)

    def over(self, st, fr, t=None):
        if 'done' not in st.ghost:
            return
        if st.ghost['done'] == 'yes':
            self.say(GOOD, st, fr, 'loop', f'ends only when no {self.what} is left', t)
        else:
            self.say(BAD, st, fr, 'loop', f'may end although a {self.what} is left', t)
        self.settle(st, fr, t)

    def on_task_done(self, eng, st, fr, t):
        self.over(st, fr, t)

    def finish(self, eng, outs):
        for st, _ in outs or ():
            self.over(st, self.fr)
        if outs and not any(j[1].endswith(': message') for j in self.j):
            self.j.append((BAD, 'no message', f'no message is sent for any {self.what}', '', ()))


class EachTracker(Drained):
    name = 'every tracker is asked'
    owed_text = 'a tracker may be left out: its actor gets no message'
    each = True

    def on_send(self, eng, st, fr, how, addr, msg, msg_ty, t):
        if 'TorrentRegistered' in eng.P.s(msg_ty):
            st.set_ghost(owed='no')
            self.say(GOOD, st, fr, 'message', 'a tracker is asked by its own actor', t)


class EachPeer(Drained):
    name = 'every reachable peer is passed on'
    owed_text = 'a peer that was reached may be left out: it is not passed on to the torrent'

    def on_connected(self, eng, st, fr, t):
        if 'done' in st.ghost:
            st.set_ghost(owed='yes')

    def on_join_failed(self, eng, st, fr):
        if 'owed' in st.ghost:
            st.set_ghost(owed='no')

    def on_send(self, eng, st, fr, how, addr, msg, msg_ty, t):
        if 'PeerFound' in eng.P.s(msg_ty):
            st.set_ghost(owed='no')
            self.say(GOOD, st, fr, 'message', 'a peer is passed on to the torrent', t)


STOPS = re.compile(r'ActorContext(>)?::(stop|terminate)$|actix::System::stop|Arbiter::stop|^std::process::(exit|abort)$|^actix::prelude::ActorContext::')


class C33(Prop):
    about = 'loops over trackers and over the peers they report'
    rule = ('in the actor that registers a torrent with the trackers every path through the loop over the tracker actors posts the message before the next '
            'one, and the loop ends only when none is left; in the actor of one tracker the same holds for the peers it reports and those that were reached; '
            'no call that stops an actor or the program is reachable from these handlers')
    explain = 'Forward abstract interpretation of the MIR of both handlers, and reachability in the call graph.'
    floor = 4

    def jobs(self, P, tier):
        from ..graph import Graph
        a, b = handler(P, 'TrackersInterfaceActor', 'TorrentRegistered'), handler(P, 'TrackerActor', 'TorrentRegistered')
        return [Job(a, lambda: [EachTracker('Addr<.*TrackerActor>', 'tracker')], {'iters': True}, name='registration with the trackers'),
                Job(b, lambda: [EachPeer('PeerEndpoint', 'peer')], {'iters': True}, name='one tracker')]

    def direct(self, P, tier, results):
        g = Graph(P)
        out = []
        for h in ('TrackersInterfaceActor', 'TrackerActor'):
            root = handler(P, h, 'TorrentRegistered')
            if root is None:
                continue
            bad, k = 0, 0
            for n, kind, x, t, chain in g.walk(root):
                k += 1
                if kind == 'lib' and STOPS.search(x):
                    bad += 1
                    out.append((BAD, f'{h}: {x}', f'{x} ends more than the work with one tracker', str(t.get('sp')), tuple(reversed(chain))))
            if not bad:
                out.append((GOOD, f'{h}: goes on', f'{k} calls reachable, none stops an actor or the program', str(P.inst[root]['span']), ()))
        return out


SUCCESS = {'Ok', 'Created', 'Accepted', 'NoContent', 'NonAuthoritativeInformation', 'ResetContent', 'PartialContent'}


class Answer(Rule):
    """what the endpoint answers against what was handed on"""
    name = 'answer'

    def on_send(self, eng, st, fr, how, addr, msg, msg_ty, t):
        if 'TorrentRegistered' not in eng.P.s(msg_ty):
            return
        v = eng.expand(msg, st) if isinstance(msg, VTop) else msg
        q = [x for x in (v.fs if isinstance(v, VAgg) else ()) if isinstance(x, VSeq)]
        ok = [st.truth(('eq', x.len - 20)) for x in q]
        # a length that is only known to come from several places is not a finding
        lost = not q or False not in ok and any(S.term[y] is None and (not x.segs or any(s[0] == 'sub' and s[1][0] == 'phi' for s in x.segs)) for x in q for y, _ in x.len.t)
        self.say(GOOD if True in ok else UNSURE if lost else BAD, st, fr, 'info hash', 'the torrent handed on has an info hash of 20 bytes' if True in ok
                 else 'the torrent handed on may have an info hash of another length', t)

    def finish(self, eng, outs):
        for st, v in outs or ():
            w = v.fs[0] if isinstance(v, VMod) and v.kind == 'http' else '?'
            if w == '?':
                w = st.ghost.get('answer', '?')
            done = st.ghost.get('delivered') is True
            if w == '?':
                self.add(st, UNSURE, 'the status of the answer was not followed')
            elif w not in SUCCESS:
                self.add(st, GOOD, f'{w}: an error is answered')
            elif done:
                self.add(st, GOOD, f'{w}: success is answered after the torrent was accepted')
            elif st.ghost.get('sent'):
                self.add(st, BAD if st.ghost.get('delivered') is False else UNSURE, f'{w}: success is answered although the torrent may have been refused')
            else:
                self.add(st, BAD, f'{w}: success is answered although no torrent was handed on')

    def add(self, st, v, text):
        self.j.append((UNSURE if v == BAD and st.ghost.get('~nu') else v, 'answer', text, 'src/main.rs', ()))


class C11(Prop):
    about = 'answers of the endpoint that adds a torrent'
    rule = ('on every path through the endpoint that ends with an answer of success the torrent was accepted by the mailbox of the part that contacts the trackers, '
            'with an info hash of exactly 20 bytes; no construct that can panic is reached with values that make it panic')
    explain = 'Forward abstract interpretation of the MIR of every endpoint, for an arbitrary request and a mailbox that accepts or refuses the message.'
    required = 0
    floor = 3

    def jobs(self, P, tier):
        from .panics import NoPanic
        out = []
        for n, i in P.inst.items():
            if n.endswith('::{closure#0}') and P.s(i['locals'][0]).endswith('HttpResponse') and n[:-len('::{closure#0}')] in P.inst and str(i.get('span', '')).startswith('src/'):
                out.append(Job(n[:-len('::{closure#0}')], lambda: [Answer(), NoPanic()], {'lens': True}, run_async=True, name='endpoint', caps=(10, 40, 2)))
        return out
