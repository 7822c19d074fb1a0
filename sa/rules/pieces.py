"""The set of pieces that a torrent starts with, and the pieces of metadata that are asked for."""
from types import SimpleNamespace
from .base import *
from .content import named, fetchers, int_of
from .metadata import INFO, POOL, SELF, actor, actor_fields, fetched, is_info, makers, only, parts
from .pool import MSG, find_pool, is_pool
from ..lin import K, S, U64, V, term
from ..refute import bases, differ
from ..state import reduced, solved
from ..values import *


def plain(st, v):
    """inputs: the symbols of a value that stand for nothing else"""
    return {s for s, _ in v.t if S.term[s] is None}


def count(st, n):
    """the number, as an expression of inputs where the path says which"""
    n = reduced(n, solved(st.facts))
    if any(S.term[s] is None for s, _ in n.t):
        for l in st.facts.ge:
            for s, _ in l.t:
                if S.term[s] is not None and S.term[s][0] in ('ceil', 'div', 'rem', 'mul') and st.facts.equal(n, V(s)):
                    return V(s)
    return n


def without(st):
    """the path condition without the counters that are known in terms of inputs"""
    eqs = solved(st.facts)
    ge = []
    for l in st.facts.ge:
        l = reduced(l, eqs)
        used = set()
        bases(l, used)
        if l.t and not used & set(eqs):
            ge.append(l)
    return SimpleNamespace(facts=SimpleNamespace(ge=ge, ne=st.facts.ne, at=st.facts.at, ce=st.facts.ce))


class AllPieces(Rule):
    """a torrent that has metadata has a pool with one entry per piece"""
    name = 'pool of pieces'
    KEY = 'pool of the torrent when its metadata is known'

    def on_task_done(self, eng, st, fr, t):
        self.finish(eng, [(st, None)])

    def finish(self, eng, outs):
        for st, _ in outs or ():
            r = st.mem.get(SELF)
            v = eng.load(st, r.root, r.path) if isinstance(r, VRef) else None
            fs = actor_fields(eng.P, v) if isinstance(v, VAgg) else {}
            d = named(eng.P, v)[1] if isinstance(v, VAgg) else {}
            i, p = d.get(fs.get(INFO)), d.get(fs.get(POOL))
            if not isinstance(i, VEnum) or not isinstance(p, VEnum):
                self.j.append((UNSURE, self.KEY, 'the state of the actor was not followed', '', ()))
                continue
            s = only(st, i, 1)
            if s is None:
                continue
            s = s.copy() if s is st else s
            self.judge(eng, s, i.vs[1][0] if i.vs[1] else None, p)

    def judge(self, eng, st, i, p):
        add = lambda v, text, kind='': self.j.append((UNSURE if v is BAD and st.ghost.get('~nu') else v, self.KEY + kind, text, '', ()))
        if only(st, p, 1) is None:
            return add(BAD, 'the torrent has metadata but no pool of pieces')
        q = find_pool(eng, st, p.vs[1][0]) if p.vs[1] else None
        if not isinstance(i, VAgg) or not is_info(eng.P, i) or not isinstance(q, VSeq):
            return add(UNSURE, 'the pool or the metadata was not followed')
        n, ln, fl = parts(eng.P, i)
        size = i.fs[n].l if n is not None and isinstance(i.fs[n], VInt) else None
        if size is None:
            return add(UNSURE, 'the piece length was not followed')
        n = count(st, q.len)
        total = None
        if fl is not None and isinstance(i.fs[fl], VEnum) and set(i.fs[fl].vs) == {0} and ln is not None and isinstance(i.fs[ln], VEnum) and 1 in i.fs[ln].vs:
            total = int_of(i.fs[ln].vs[1][0])
        if total is None:
            return self.several(st, n, size, add)
        m = eng.mul(n, size, st)
        want = ceil(eng, st, total, size)
        if st.facts.equal(q.len, want) or rounded(st, n, total, size) or st.facts.implies(m - total) and st.facts.implies(total + size - K(1) - m):
            return add(GOOD, 'one entry per piece: the total length divided by the piece length, rounded up')
        if differ(without(st), n, want, plain(st, total) | plain(st, size)):
            return add(BAD, f'the pool has {n} entries instead of the total length divided by the piece length, rounded up')
        add(UNSURE, f'whether {n} is the number of pieces was not decided')

    def several(self, st, n, size, add):
        """the total is a sum over the files; the count must be this sum divided by the piece length, rounded up"""
        if rounded(st, n, None, size):
            return add(GOOD, 'one entry per piece: a length divided by the piece length, rounded up', ', several files')
        add(UNSURE, 'the number of pieces of a torrent with several files was not followed', ', several files')


def rounded(st, n, total, size):
    """is the number total / size, rounded up, on this path? total None: of any length"""
    seen = {s for l in list(st.facts.ge) + [n] for s, _ in l.t}
    for s in seen:
        t = S.term[s]
        if t and t[0] == 'ceil' and st.facts.equal(t[2], size) and (total is None or st.facts.equal(t[1], total)) and st.facts.equal(n, V(s)):
            return True
    return False


class SamePool(Rule):
    """a torrent that has metadata keeps its pool"""
    name = 'pool of pieces'

    def on_task_done(self, eng, st, fr, t):
        self.finish(eng, [(st, None)])

    def on_push(self, eng, st, fr, seq, val, end='back'):
        if is_pool(eng, st, seq):
            self.say(BAD, st, fr, 'pool of a torrent with metadata', 'a piece is put into a pool when a peer is found')

    def finish(self, eng, outs):
        key = 'pool of a torrent with metadata'
        for st, _ in outs or ():
            p, q = find_pool(eng, st, pool_of(eng, st)), find_pool(eng, st, st.mem.get(MSG))
            if p is None or q is None:
                self.j.append((UNSURE, key, 'the pool was not followed', '', ()))
                continue
            n = count(st, p.len)
            new = n.t and all(S.term[s] and S.term[s][0] in ('ceil', 'div') for s, _ in n.t) or st.facts.implies(p.len - q.len - K(1))
            if new:
                self.j.append((UNSURE if st.ghost.get('~nu') else BAD, key, 'pieces come back to the pool although they were taken before', '', ()))
            else:
                self.j.append((GOOD, key, 'no piece is put into the pool when another peer is found', '', ()))


def pool_of(eng, st):
    r = st.mem.get(SELF)
    v = eng.load(st, r.root, r.path) if isinstance(r, VRef) else None
    fs = actor_fields(eng.P, v) if isinstance(v, VAgg) else {}
    p = named(eng.P, v)[1].get(fs.get(POOL)) if fs else None
    return p.vs[1][0] if isinstance(p, VEnum) and p.vs.get(1) else None


def keep(e, st, inst, args):
    args = actor(True)(e, st, inst, args)
    st.mem[MSG] = pool_of(e, st)
    return args


def ceil(eng, st, n, k):
    return term(('ceil', n, k), 0, U64, 'ceil')


class C38(Prop):
    about = 'ends of the handler that learns the metadata'
    rule = ('on every path on which the handler of a found peer ends with metadata, the pool of the torrent has n entries with '
            '(n - 1) * piece length < total length <= n * piece length; with metadata known before, the handler puts nothing into the pool')
    explain = 'Forward abstract interpretation of the MIR of the handler, with the exchange with the peer left open.'
    assume = COMMON + ['mutexes are not poisoned', 'a new pool of n entries holds 0 .. n - 1 (C21)', 'metadata fits together (C09)']

    def jobs(self, P, tier):
        targets, op = fetchers(P)
        return [Job(handler(P, 'TorrentActor', 'PeerFound'), lambda: [AllPieces()],
                    {'opaque': set(op) | set(makers(P)), 'opaque_result': fetched, 'no_poison': True}, args=actor(False), name='peer found', caps=(10, 30, 2)),
                Job(handler(P, 'TorrentActor', 'PeerFound'), lambda: [SamePool()],
                    {'opaque': set(op) | set(makers(P)), 'opaque_result': fetched, 'no_poison': True}, args=keep, name='another peer found', caps=(10, 30, 2))]
