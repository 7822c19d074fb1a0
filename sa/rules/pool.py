"""The pool of missing pieces: what is taken from it and put back."""
from .base import *
from .content import named, int_of, same_seq
from .peers import only_tcp
from ..graph import opaque
from ..lin import K
from ..values import *

TAKEN, INDEX, BACK, MSG, DONE = [('pin', x) for x in ('taken', 'index', 'back', 'message', 'reported')]
OPS = r'pop_front|pop_back|push_back|push_front|VecDeque|do_send|try_send|Addr::<\w+>::send|Mutex'


def truth(st, cell):
    v = st.mem.get(cell)
    return None if v is None else st.truth(v.f)


def is_pool(eng, st, seq):
    try:
        root, path, _, _ = eng.seq_at(st, seq)
        q = eng.load(st, root, path)
        return isinstance(q, VSeq) and eng.P.s(q.ety) == 'usize'
    except Exception:
        return False


def remember(e, st, inst, args):
    st.mem[TAKEN] = VBool(False)
    st.mem[BACK] = VBool(False)
    st.mem[DONE] = VBool(False)
    st.mem[MSG] = args[1] if len(args) > 1 else VAgg(None, ())
    return args


class Asked(Rule):
    name = 'taken and asked for'

    def on_popped(self, eng, st, fr, seq, val, end, ety):
        if eng.P.s(ety) != 'usize' or val is None:
            return
        if truth(st, TAKEN) is not False:
            self.say(BAD, st, fr, 'index taken', 'another index is taken from the pool although the one before it was not sent to a worker')
        st.mem[TAKEN], st.mem[INDEX] = VBool(True), val

    def on_send(self, eng, st, fr, how, addr, msg, msg_ty, t):
        n, m = named(eng.P, msg)
        if n != 'PieceRequested':
            return
        i, had = int_of(m.get('piece_idx')), truth(st, TAKEN)
        j = int_of(st.mem.get(INDEX))
        if i is None:
            self.say(UNSURE, st, fr, 'request', 'which index is asked for was not followed', t)
        elif had is True and j is not None and st.facts.equal(i, j):
            if how == 'try_send':
                self.say(BAD, st, fr, 'request', 'is sent in a way that loses it when the mailbox is full', t)
            else:
                self.say(GOOD, st, fr, 'request', 'the index taken from the pool is sent to a worker', t)
        elif had is None:
            self.say(UNSURE, st, fr, 'request', 'whether an index was taken was not followed', t)
        else:
            self.say(BAD, st, fr, 'request', f'asks for {i}, which is not the index taken from the pool' if had else 'asks for an index that was not taken from the pool', t)
        st.mem[TAKEN] = VBool(False)

    def finish(self, eng, outs):
        for st, v in outs or ():
            had = truth(st, TAKEN)
            if had is not False:
                self.end(eng, st, BAD if had else UNSURE, 'ends with an index taken from the pool that was sent to no worker')
                return
        if outs:
            self.end(eng, outs[0][0], GOOD, 'no index that was taken is kept')

    def end(self, eng, st, v, text):
        if v == BAD and st.ghost.get('~nu'):
            v = UNSURE
        self.j.append((v, 'end of the handler', text, self.where, ()))

    where = ''


class PutBack(Rule):
    name = 'put back on failure'

    def on_push(self, eng, st, fr, seq, val, end='back'):
        if not is_pool(eng, st, seq):
            return
        i = int_of(val)
        j = int_of(named(eng.P, st.mem.get(MSG))[1].get('piece_idx'))
        if i is None or j is None:
            return self.say(UNSURE, st, fr, 'index put back', 'which index is put back was not followed')
        if not st.facts.equal(i, j):
            return self.say(BAD, st, fr, 'index put back', f'puts back {i}, which is not the index of the failed piece')
        if truth(st, BACK) is not False:
            return self.say(BAD, st, fr, 'index put back', 'the index may be put back twice')
        st.mem[BACK] = VBool(True)
        self.say(GOOD, st, fr, 'index put back', 'the index of the failed piece is put back')

    def finish(self, eng, outs):
        for st, v in outs or ():
            b = truth(st, BACK)
            if b is not True:
                v = UNSURE if b is None or st.ghost.get('~nu') else BAD
                self.j.append((v, 'end of the handler', 'ends without having put back the index of the failed piece', '', ()))
                return


class Report(Rule):
    name = 'one report per request'
    MESSAGES = ('PieceDownloadSuccessfull', 'PieceDownloadFailed')

    def on_send(self, eng, st, fr, how, addr, msg, msg_ty, t):
        n, m = named(eng.P, msg)
        if n not in self.MESSAGES:
            return
        _, q = named(eng.P, st.mem.get(MSG))
        i, j = int_of(m.get('piece_idx')), int_of(q.get('piece_idx'))
        if i is None or j is None:
            return self.say(UNSURE, st, fr, 'report', 'which index is reported was not followed', t)
        bad = []
        if not st.facts.equal(i, j):
            bad.append(f'is about index {i}')
        if same_seq(st, m.get('endpoint'), q.get('endpoint')) is False:
            bad.append('names another peer')
        if how == 'try_send':
            bad.append('is lost when the mailbox is full')
        if truth(st, DONE) is not False:
            bad.append('may be the second one')
        st.mem[DONE] = VBool(True)
        if bad:
            self.say(BAD, st, fr, 'report', 'a report that ' + ', '.join(bad), t)
        else:
            self.say(GOOD, st, fr, 'report', 'same index and peer as the request, none before it', t)

    def finish(self, eng, outs):
        for st, v in outs or ():
            b = truth(st, DONE)
            if b is not True:
                v = UNSURE if b is None or st.ghost.get('~nu') else BAD
                self.j.append((v, 'end of the handler', 'the handler may end without a report', '', ()))
                return


class C20(Prop):
    about = 'takings from the pool, requests to workers, reports of workers'
    rule = ('in the handlers of the torrent actor every index popped from the pool is the index of a request that is sent before the next pop '
            'and before the end, and requests name no other index; the handler of failures pushes exactly the index of its message; the worker sends '
            'exactly one report on every path, with index and peer of the request')
    explain = ('Forward abstract interpretation of the MIR of the four handlers. Functions that do network operations and reach neither the pool '
               'nor an actor are replaced by their result type in the handlers of the torrent actor.')
    assume = COMMON + ['mutexes are not poisoned (a critical section never panics: C21)']

    def jobs(self, P, tier):
        fl = {'opaque': opaque(P, OPS), 'no_poison': True}
        mk = lambda: [Asked()]
        return [Job(handler(P, 'TorrentActor', 'PieceDownloadSuccessfull'), mk, fl, remember, name='piece downloaded'),
                Job(handler(P, 'TorrentActor', 'PieceDownloadFailed'), lambda: [Asked(), PutBack()], fl, remember, name='piece failed'),
                Job(handler(P, 'TorrentActor', 'PeerFound'), mk, fl, remember, name='peer found'),
                Job(handler(P, 'ConnectionActor', 'PieceRequested'), lambda: [Report()], {},
                    lambda e, st, i, a: remember(e, st, i, only_tcp(e, st, i, a)), name='piece requested')]


# ---------------------------------------------------------------- C21

HELD, SECTIONS = ('pin', 'held'), ('pin', 'sections')


class Section(Rule):
    """one operation of the pool"""

    def __init__(self, op):
        super().__init__()
        self.op, self.name, self.seen = op, op, False

    def on_lock(self, eng, st, fr, mutex):
        if truth(st, SECTIONS) is not False:
            self.say(BAD, st, fr, self.op, 'the pool is locked a second time: what was read before may have changed')
        st.mem[SECTIONS] = st.mem[HELD] = VBool(True)

    def on_unlock(self, eng, st, fr):
        st.mem[HELD] = VBool(False)

    def access(self, eng, st, fr, what, end, want):
        self.seen = True
        h = truth(st, HELD)
        if h is not True:
            self.say(BAD if h is False else UNSURE, st, fr, self.op, f'{what} outside of the critical section')
        elif end != want:
            self.say(BAD, st, fr, self.op, f'{what} at the {end}')
        elif truth(st, DONE) is not False:
            self.say(BAD, st, fr, self.op, f'{what} may happen twice')
        else:
            self.say(GOOD, st, fr, self.op, f'{what} at the {end}, within the only critical section')
        st.mem[DONE] = VBool(True)

    def on_popped(self, eng, st, fr, seq, val, end, ety):
        self.access(eng, st, fr, 'taking an index', end, 'front') if self.op == 'pop' else self.other(st, fr)
        st.mem[INDEX] = val if val is not None else VAgg(None, ())

    def on_push(self, eng, st, fr, seq, val, end='back'):
        if self.op != 'insert':
            return self.other(st, fr)
        self.access(eng, st, fr, 'putting an index', end, 'back')
        i, j = int_of(val), int_of(st.mem.get(MSG))
        if i is not None and j is not None and not st.facts.equal(i, j):
            self.say(BAD, st, fr, self.op, 'another index is put into the pool than the one given')

    def other(self, st, fr):
        self.say(BAD, st, fr, self.op, f'{self.op} does something else to the pool')

    def finish(self, eng, outs):
        if not self.seen:
            if outs is not None:
                self.j.append((UNSURE, self.op, 'no access to the pool was seen', '', ()))
            return
        for st, v in outs or ():
            d = truth(st, DONE)
            if d is not True:
                v = UNSURE if d is None or st.ghost.get('~nu') else BAD
                self.j.append((v, self.op, f'{self.op} may end without having changed the pool', '', ()))
                return
            if self.op == 'pop' and isinstance(v, VEnum):
                x, got = st.mem.get(INDEX), v.vs.get(1)
                if isinstance(x, VInt) and 0 not in v.vs and got and isinstance(got[0], VInt) and not st.facts.equal(got[0].l, x.l):
                    self.j.append((BAD, self.op, 'returns something else than the index taken', '', ()))
                elif isinstance(x, VInt) and 1 not in v.vs or isinstance(x, VAgg) and 0 not in v.vs:
                    self.j.append((BAD, self.op, 'does not return the index taken', '', ()))


class Filled(Rule):
    name = 'new pool'

    def on_push(self, eng, st, fr, seq, val, end='back'):
        root, path, _, _ = eng.seq_at(st, seq)
        q = eng.load(st, root, path)
        i = int_of(val)
        if end == 'back' and i is not None and st.facts.equal(i, q.len):
            self.say(GOOD, st, fr, 'index put into a new pool', 'the number of indexes before it')
        else:
            self.say(BAD, st, fr, 'index put into a new pool', f'{i} at the {end} of {q.len} indexes')

    def on_popped(self, eng, st, fr, seq, val, end, ety):
        self.say(BAD, st, fr, 'index put into a new pool', 'and taken again')

    def finish(self, eng, outs):
        for st, v in outs or ():
            q = find_pool(eng, st, v)
            n = int_of(st.mem.get(MSG))
            if q is None or n is None:
                self.j.append((UNSURE, 'new pool', 'the pool was not found in the result', '', ()))
            elif st.facts.equal(q.len, n):
                self.j.append((GOOD, 'new pool', 'has as many indexes as were asked for', '', ()))
            else:
                self.j.append((BAD if st.facts.distinct(q.len, n) or not st.ghost.get('~nu') else UNSURE, 'new pool',
                               f'has {q.len} indexes instead of {n}', '', ()))


def find_pool(eng, st, v, depth=0):
    if isinstance(v, VSeq):
        return v
    if isinstance(v, (VAgg, VMod)) and depth < 8:
        for x in v.fs:
            r = find_pool(eng, st, x, depth + 1) if isinstance(x, Val) else None
            if r is not None:
                return r
    if isinstance(v, VRef) and depth < 8:
        try:
            return find_pool(eng, st, eng.load(st, v.root, v.path), depth + 1)
        except Exception:
            return None
    return None


def pool_args(arg):
    def fix(e, st, inst, args):
        for c in (DONE, HELD, SECTIONS):
            st.mem[c] = VBool(False)
        st.mem[MSG] = args[arg] if arg < len(args) else VAgg(None, ())
        return args
    return fix


class C21(Prop):
    about = 'operations of the pool of missing pieces'
    rule = ('on every path through pop and insert there is one acquisition of the lock, the queue is changed exactly once and while the lock is held, '
            'pop takes from the front and returns what it took, insert puts its argument at the back; a new pool receives at each push the number of '
            'indexes already in it and ends with as many as asked for')
    explain = 'Forward abstract interpretation of the MIR of the three operations.'
    assume = COMMON + ['mutexes are not poisoned']

    def jobs(self, P, tier):
        fl = {'no_poison': True}
        return [Job(entry(P, 'PiecePool::pop'), lambda: [Section('pop')], fl, pool_args(9), name='pop'),
                Job(entry(P, 'PiecePool::insert'), lambda: [Section('insert')], fl, pool_args(1), name='insert'),
                Job(entry(P, 'PiecePool::new'), lambda: [Filled()], fl, pool_args(0), name='new')]
