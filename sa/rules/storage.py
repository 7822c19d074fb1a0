"""Pieces on their way to the disk."""
from .base import *
from .content import named, int_of, fetchers, same_seq
from .metadata import actor
from ..graph import Graph, handlers
from ..lin import K
from ..values import *

LEFT = ('pin', 'left')


def comps(st, segs):
    """which kinds of components the path is known not to have"""
    return {n for n in ('RootDir', 'ParentDir', 'Prefix', 'CurDir') if st.truth(('atom', ('nocomp', n, segs))) is True}


def safe(st, segs, depth=0):
    """does the path stay below the working folder: True, False, or None"""
    if segs is None or depth > 6:
        return None
    segs = tuple(segs)
    if not segs:
        return True
    if {'RootDir', 'ParentDir'} <= comps(st, segs):
        return True
    if all(s[0] == 'c' for s in segs):
        x = b''.join(s[1] for s in segs)
        return not x.startswith(b'/') and b'..' not in x.split(b'/')
    if segs[0][0] == 'c' and segs[0][1] and not segs[0][1].startswith(b'/') and b'..' not in segs[0][1].split(b'/') and b'/' in segs[0][1] \
            and all(s[0] == 'c' and b'/' not in s[1] or s[0] == 'sub' and isinstance(s[1], tuple) and s[1][0] == 'urlenc' for s in segs[1:]):
        return True
    if len(segs) == 1 and segs[0][0] == 'sub' and isinstance(segs[0][1], tuple):
        a = segs[0][1]
        if a[0] == 'parent':
            return safe(st, a[1], depth + 1)
        if a[0] == 'pjoin':
            x, y = safe(st, a[1], depth + 1), safe(st, a[2], depth + 1)
            return False if x is False or y is False else True if x and y else None
    return False


class Inside(Rule):
    name = 'paths'

    def on_fs_open(self, eng, st, fr, path, write, op, t, opts=None):
        if not write:
            return
        what = op.split('::')[-1]
        if path is None or path.segs is None:
            return self.say(UNSURE, st, fr, f'path of {what}', 'the path was not followed', t)
        ok = safe(st, path.segs)
        if ok:
            return self.say(GOOD, st, fr, f'path of {what}', 'the path has no absolute and no parent-folder component', t)
        base = path.segs
        while len(base) == 1 and isinstance(base[0][1], tuple) and base[0][1][0] == 'parent':
            base = base[0][1][1]
        known = comps(st, tuple(base))
        if ok is None or not known and any(mentions(p, base) for p in st.facts.ce):
            return self.say(UNSURE, st, fr, f'path of {what}', 'the path was checked in a way the analysis does not know', t)
        names = {'RootDir': 'an absolute component', 'ParentDir': 'a parent-folder component'}
        miss = [names[n] for n in names if n not in known]
        self.say(BAD, st, fr, f'path of {what}', f'the path may have {" and ".join(miss)} when {what} is called', t)


def mentions(fact, segs):
    s = repr(fact)
    return any(repr(x[1]) in s for x in segs if x[0] == 'sub')


def writes_files(P):
    """handlers that can reach a call that changes the file system"""
    g, out = Graph(P), []
    for n, actor_, msg, _ in handlers(P):
        for _, kind, x, _, _ in g.walk(n):
            if kind != 'in' and ('std::fs::' in str(x) or 'std::os::unix::fs' in str(x)):
                out.append((n, actor_, msg))
                break
    return out


class C03(Prop):
    about = 'calls that create, open for writing or remove something in the file system'
    rule = ('where a path reaches a call that creates, opens for writing, renames or removes, it is a constant relative path without .. (extended by '
            'percent-encoded text as one component), or the conditions of the path through the code imply that it has no root and no '
            'parent-folder component')
    explain = ('Forward abstract interpretation of the MIR of every handler from which a file system call can be reached, for arbitrary messages '
               'and metadata; paths are symbolic contents, checks of their components are conditions.')
    required = 1

    def jobs(self, P, tier):
        out = []
        _, op = fetchers(P)
        for n, a, m in writes_files(P):
            fs = {x for x in op if not any(k != 'in' and 'std::fs' in str(y) for _, k, y, _, _ in Graph(P).walk(x))}
            out.append(Job(n, lambda: [Inside()], {'opaque': fs}, name=f'{a} {m}'))
        w = entry(P, 'write_to_filesystem')
        if w:
            out.append(Job(w, lambda: [Inside()], name='write_to_filesystem'))
        return out


class NoUnwrap(Rule):
    """a failure is not answered with a panic"""
    name = 'panics on failure'

    def on_obligation(self, eng, st, fr, what, ok, **kw):
        if ok and ('unwrap' in what or 'expect' in what):
            self.say(GOOD, st, fr, what, f'{what} cannot fail', kw.get('sp'))

    def on_panic(self, eng, st, fr, what, detail='', sp=None):
        if 'unwrap' in what or 'expect' in what or st.ghost.get('disk') == 'failed':
            self.say(BAD, st, fr, what, f'{what} {detail}'.strip() + ' may panic when the file system fails', sp)


class Reported(Rule):
    """a call that failed is answered with an error"""
    name = 'failures'
    again = False

    def on_fs_failed(self, eng, st, fr, op, t):
        st.set_ghost(disk='failed')
        self.say(GOOD, st, fr, op.split('::')[-1], 'a failure of this call is followed to the end of the handler', t)

    def on_fs_open(self, eng, st, fr, **kw):
        v = st.mem.get(LEFT)
        if isinstance(v, VInt) and st.truth(('ge', -v.l)) is True:
            st.mem[LEFT] = VInt(K(0))
            st.set_ghost(wrote='all')
        elif v is not None:
            st.set_ghost(wrote='short')

    def on_fs_ok(self, eng, st, fr, op, n, data, t):
        if 'write' not in op.split('::')[-1]:
            return
        if n is not None:
            st.mem[LEFT] = VInt(data.len - n) if data is not None else VTop(None)
            if st.ghost.get('wrote') == 'part':
                self.again = True           # the program goes on after a short write
            st.set_ghost(wrote='part')

    def finish(self, eng, outs):
        for st, v in outs or ():
            if not isinstance(v, VEnum):
                self.j.append((UNSURE, 'result', 'the result of the handler was not followed', '', ()))
                continue
            s = st.copy()
            if 0 not in v.vs or not all(s.assume(f) for f in v.att.get(0, ())):
                if st.ghost.get('disk') == 'failed':
                    self.j.append((GOOD, 'result after a failure', 'a failure of the file system ends in an error', '', ()))
                continue
            unsure = st.ghost.get('~nu')
            d = s.ghost.get('disk', 'fine')
            if d == 'failed':
                self.j.append((UNSURE if unsure else BAD, 'result after a failure', 'success may be answered although a file system call failed', '', ()))
            elif d is None:
                self.j.append((UNSURE, 'result after a failure', 'whether a file system call had failed was not followed', '', ()))
            left = s.mem.get(LEFT)
            if isinstance(left, VInt) and s.truth(('ge', -left.l)) is not True:
                self.j.append((UNSURE if unsure or self.again else BAD, 'short write', 'success may be answered although a write handed over only a part of its bytes', '', ()))
            elif left is not None and not isinstance(left, VInt):
                self.j.append((UNSURE, 'short write', 'how much was written was not followed', '', ()))
            else:
                self.j.append((GOOD, 'short write', 'all bytes were handed over when success is answered', '', ()))


class C23(Prop):
    about = 'file system calls made while a piece is written'
    rule = ('on every path through the handler that writes a piece on which a file system call fails, the result is an error; a write that may hand '
            'over fewer bytes than it was given is followed by a condition that all were taken wherever success is answered; nothing on the '
            'way can panic')
    explain = ('Forward abstract interpretation of the MIR of the handler, each file system call both succeeding and failing, for arbitrary pieces, '
               'files and paths.')
    required = 2

    def jobs(self, P, tier):
        def start(e, st, inst, args):
            st.set_ghost(wrote='all')
            st.mem[LEFT] = VInt(K(0))
            return args
        return [Job(handler(P, 'WriterActor', 'PieceReady'), lambda: [Reported(), NoUnwrap()], {'fs': True}, args=start, name='piece ready', caps=(10, 30, 2))]


class Cut:
    """judges the parts into which a piece was cut"""
    def part(self, st, P, v, START, plen, off):
        """(verdict, text, position in the piece, length) of one part; START is the position of its file"""
        kind, f = named(P, v)
        path, a, b, data = f.get('path'), f.get('start'), f.get('end'), f.get('piece')
        if not (isinstance(a, VInt) and isinstance(b, VInt) and isinstance(data, VSeq)) or data.segs is None:
            return UNSURE, 'the values of this part were not followed', None, None
        if data.segs == () or st.truth(('eq', data.len)) is True:
            if st.truth(('eq', b.l - a.l)) is not True:
                return BAD, 'the range of the part has another length than its bytes', None, None
            return GOOD, '', None, K(0)
        if len(data.segs) != 1 or data.segs[0][0] != 'sub':
            return UNSURE, 'the bytes of this part were not followed', None, None
        _, src, p, n = data.segs[0]
        own = st.mem.get(('pin', 'piece'))
        if not isinstance(own, VSeq) or not own.segs or src != own.segs[0][1]:
            return UNSURE, 'the bytes of this part are not those of the piece', None, None
        if st.truth(('eq', n - b.l + a.l)) is not True:
            return BAD, 'the range of the part has another length than its bytes', p, n
        if st.truth(('eq', START + a.l - off - p)) is not True:
            return BAD, 'the bytes of the part belong to another position of the file', p, n
        return GOOD, '', p, n


class CutBounded(Cut, Rule):
    """all parts of a piece for a given number of files of arbitrary lengths"""
    name = 'parts of a piece'

    def __init__(self, files):
        super().__init__()
        self.files = files

    def finish(self, eng, outs):
        P = eng.P
        for st, v in outs or ():
            self.one(eng.P, st, v)

    def one(self, P, st, v):
        say = lambda verdict, what, text: self.j.append((UNSURE if verdict == BAD and st.ghost.get('~nu') else verdict, what, text, '', ()))
        if not isinstance(v, VSeq) or v.elems is None or v.len.const() != len(v.elems):
            return say(UNSURE, 'parts', 'the parts were not followed')
        lens, paths, plen, off = st.mem[('pin', 'cut')].fs[:4]
        off, plen, NEXT, k = off.l, plen.l, K(0), 0
        starts = [K(0)]
        for x in lens.fs:
            starts.append(starts[-1] + x.l)
        for e in v.elems:
            _, f = named(P, e)
            path = f.get('path')
            i = next((i for i, q in enumerate(paths.fs) if isinstance(path, VSeq) and path.len == q.l), None)
            if i is None:
                say(UNSURE, 'path of a part', 'the path of the part is not that of one of the files')
                return
            r, text, p, n = self.part(st, P, e, starts[i], plen, off)
            if r != GOOD:
                return say(r, 'position of a part', text + f' ({self.files} files)')
            if p is not None and st.truth(('eq', p - NEXT)) is not True:
                return say(BAD, 'order of the parts', f'a part does not start where the one before it ended ({self.files} files)')
            if p is not None and st.truth(('ge', lens.fs[i].l - f['end'].l)) is not True:
                return say(BAD, 'end of a part', f'a part goes beyond the end of its file ({self.files} files)')
            NEXT = NEXT + n
        s = st.copy()
        if s.assume(('ge', plen - NEXT - 1)) and s.assume(('ge', starts[-1] - off - NEXT - 1)):
            return say(BAD, 'coverage', f'bytes of the piece that belong to a file may be missing ({self.files} files)')
        say(GOOD, 'parts', f'the parts follow each other, each lies in its file at its position, and together they are the piece ({self.files} files)')


class CutAny(Cut, Rule):
    """the same for any number of files, by what every turn of the loop keeps"""
    name = 'parts of a piece, any number of files'

    def on_iter(self, eng, st, fr, item, ty, t):
        if isinstance(item, VRef):
            item = eng.load(st, item.root, item.path)
        if isinstance(item, VTop):
            item = eng.expand(item, st)
        kind, f = named(eng.P, item)
        if item is None:
            st.set_ghost(cut='done' if st.ghost.get('cut') != 'lost' else 'lost')
            return
        if kind != 'File' or not isinstance(f.get('length'), VInt) or not isinstance(f.get('path'), VSeq):
            st.mem[END] = VTop(None)
            return
        if not isinstance(st.mem.get(END), VInt):
            return
        self.covered(st, fr, t)
        st.mem[START] = st.mem[END]
        st.mem[END] = VInt(st.mem[END].l + f['length'].l)
        st.mem[FILE] = VInt(f['path'].len)

    def covered(self, st, fr, t):
        """before the next file: everything up to the end of this one"""
        _, _, plen, off = st.mem[('pin', 'cut')].fs[:4]
        n, e = st.mem.get(NEXT), st.mem.get(END)
        s = st.copy()
        if not isinstance(n, VInt) or not isinstance(e, VInt):
            return self.say(UNSURE, st, fr, 'coverage', 'not followed', t)
        if s.assume(('ge', plen.l - n.l - 1)) and s.assume(('ge', e.l - off.l - n.l - 1)):
            return self.say(UNSURE, st, fr, 'coverage', 'bytes of a file may be missing', t)
        self.say(GOOD, st, fr, 'coverage', 'the piece is written up to the end of each file before the next', t)

    def on_push(self, eng, st, fr, seq, val, end, t=None):
        kind, f = named(eng.P, val)
        if not {'path', 'start', 'end', 'piece'} <= set(f):
            return
        _, _, plen, off = st.mem[('pin', 'cut')].fs[:4]
        s, e, n, q = (st.mem.get(x) for x in (START, END, NEXT, FILE))
        if not all(isinstance(x, VInt) for x in (s, e, n, q)):
            return self.say(UNSURE, st, fr, 'part', 'not followed', t)
        r, text, p, m = self.part(st, eng.P, val, s.l, plen.l, off.l)
        if r == GOOD and not (isinstance(f['path'], VSeq) and st.truth(('eq', f['path'].len - q.l)) is True):
            r, text = BAD, 'the part goes to another file than the one of this turn'
        if r == GOOD and p is not None and st.truth(('eq', p - n.l)) is not True:
            r, text = BAD, 'the part does not start where the one before it ended'
        if r == GOOD and p is not None and st.truth(('ge', e.l - s.l - f['end'].l)) is not True:
            r, text = BAD, 'the part goes beyond the end of its file'
        st.mem[NEXT] = VInt(n.l + m) if m is not None else VTop(None)
        self.say(GOOD if r == GOOD else UNSURE, st, fr, 'part', text or 'the part starts where the one before it ended and lies in its file at its position', t)

    def finish(self, eng, outs):
        for st, v in outs or ():
            _, _, plen, off = st.mem[('pin', 'cut')].fs[:4]
            n, e = st.mem.get(NEXT), st.mem.get(END)
            if not isinstance(n, VInt) or not isinstance(e, VInt):
                ok = False
            else:
                s = st.copy()
                ok = not (s.assume(('ge', plen.l - n.l - 1)) and (st.ghost.get('cut') != 'done' or s.assume(('ge', e.l - off.l - n.l - 1))))
            self.j.append((GOOD if ok else UNSURE, 'coverage at the end', 'all bytes of the piece that belong to a file are in a part' if ok else 'bytes may be missing', '', ()))


START, END, NEXT, FILE = (('pin', x) for x in ('start', 'end', 'next', 'file'))


class Placed(Rule):
    """a part is written to its path at its offset, and the rest of the file is kept"""
    name = 'write of a part'

    def on_fs_open(self, eng, st, fr, path, write, op, t, opts=None):
        if not write or op.split('::')[-1] in ('create_dir_all', 'create_dir'):
            return
        opts = opts or ()
        if 'truncate' in opts or op.split('::')[-1] in ('create', 'write', 'remove_file', 'rename', 'set_len', 'create_new'):
            return self.say(BAD, st, fr, 'opening', 'what was written to the file before may be lost', t)
        if 'append' in opts:
            return self.say(BAD, st, fr, 'opening', 'the file is opened for appending', t)
        if path is None or path.segs is None:
            return self.say(UNSURE, st, fr, 'path', 'the path was not followed', t)
        ok = len(path.segs) == 1 and path.segs[0][0] == 'sub' and not (isinstance(path.segs[0][1], tuple) and path.segs[0][1][:1] == ('parent',))
        self.say(GOOD if ok else UNSURE, st, fr, 'opening', 'the file of the part is opened without losing its content', t)

    def on_fs_write(self, eng, st, fr, file, data, off, full, t):
        own = st.mem[('pin', 'cut')].fs
        if not isinstance(data, VSeq) or data.segs is None:
            return self.say(UNSURE, st, fr, 'bytes', 'the bytes were not followed', t)
        same = same_seq(st, data, own[1])
        if same is not True:
            return self.say(BAD if same is False else UNSURE, st, fr, 'bytes', 'other bytes than those of the part are written', t)
        if off is None:
            return self.say(UNSURE, st, fr, 'offset', 'the offset was not followed', t)
        if st.truth(('eq', off - own[0].l)) is not True:
            return self.say(BAD, st, fr, 'offset', 'the bytes of the part may be written at another offset than its start', t)
        self.say(GOOD, st, fr, 'offset', 'the bytes of the part are written at its start', t)


class Handed(Rule):
    """what one part of the program hands to the next"""
    name = 'piece to be written'

    def on_call(self, eng, st, fr, f, args, t):
        if not (f.get('inst') or '').endswith('::get_file_writers'):
            return
        _, g = named(eng.P, st.mem.get(('pin', 'message')))
        vals = list(args)
        if len(vals) != 4 or not {'files', 'piece', 'piece_idx', 'piece_length'} <= set(g):
            return self.say(UNSURE, st, fr, 'arguments', 'the arguments were not followed', t)
        self.compare(st, fr, t, dict(zip(('files', 'piece', 'piece_idx', 'piece_length'), vals)), g)

    def on_send(self, eng, st, fr, msg, t, **kw):
        kind, f = named(eng.P, msg)
        if kind != 'PieceReady':
            return
        _, g = named(eng.P, st.mem.get(('pin', 'message')))
        info = st.mem.get(('pin', 'info'))
        w = {n: g.get(n) for n in ('piece', 'piece_idx')}
        if isinstance(info, VInt):
            w['piece_length'] = info
        if None in w.values():
            return self.say(UNSURE, st, fr, 'message', 'the message was not followed', t)
        self.compare(st, fr, t, {n: f.get(n) for n in w}, w)

    def compare(self, st, fr, t, vals, g):
        bad, unsure = [], []
        for n, v in vals.items():
            w = g[n]
            if isinstance(w, VInt):
                ok = st.truth(('eq', v.l - w.l)) is True if isinstance(v, VInt) else None
            elif isinstance(v, VSeq) and isinstance(w, VSeq) and w.segs is not None:
                ok = same_seq(st, v, w)
            elif isinstance(v, VSeq) and isinstance(w, VSeq):
                ok = st.truth(('eq', v.len - w.len)) is True
            else:
                ok = None
            if ok is False:
                bad.append(n)
            elif ok is None:
                unsure.append(n)
        if bad:
            return self.say(BAD, st, fr, 'arguments', f'{", ".join(bad)}: not what the message carries', t)
        self.say(UNSURE if unsure else GOOD, st, fr, 'arguments', f'{", ".join(unsure)}: not followed' if unsure else 'files, piece, index and piece length are those of the message', t)


class C24(Prop):
    about = 'the parts that a piece is cut into, and their writes'
    rule = ('for the list of parts of an arbitrary piece, index and piece length: every part has the path of one of the files and a range as long as its '
            'bytes, its bytes are those of the piece at the position that the range has in the torrent, the first starts at the start of the '
            'piece and every other where the one before ended, none goes beyond the end of its file, and together they have all bytes of the piece '
            'that belong to a file; a part is written at its start to its path without losing what the file holds')
    explain = ('Forward abstract interpretation of the MIR with linear relations between the lengths of arbitrary files: exactly for lists of one, two and three '
               'files (a violation is reported from these), and for any number of files by relations that every turn of the loop keeps.')
    required = 3
    assume = COMMON + ['the sum of the lengths of the files and the position of a piece stay below 2^64']

    def jobs(self, P, tier):
        w, out = entry(P, 'get_file_writers'), []

        def start(files):
            def hook(e, st, inst, args):
                fs, piece, idx, plen = args
                off = e.mul(idx.l, plen.l, st)
                lens = paths = VAgg(None, ())
                if files:
                    es = [e.expand(e.top(fs.ety, st, f'file{i}'), st) for i in range(files)]
                    kv = [named(P, x)[1] for x in es]
                    lens = VAgg(None, [x['length'] for x in kv])
                    paths = VAgg(None, [VInt(x['path'].len) for x in kv])
                    fs = VSeq(K(files), tuple(es), None, None, fs.ety)
                st.mem[('pin', 'cut')] = VAgg(None, (lens, paths, VInt(piece.len), VInt(off)))
                st.mem[('pin', 'piece')] = piece
                st.mem[START] = st.mem[END] = st.mem[NEXT] = VInt(K(0))
                st.mem[FILE] = VTop(None)
                return [fs, piece, idx, plen]
            return hook

        fl = {'iters': True, 'no_saturation': True}
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
            out.append(Job(w, lambda n=n: [CutBounded(n)], dict(fl, exact=True), args=start(n), name=f'{n} files', caps=(400,)))
        out.append(Job(w, lambda: [CutAny()], fl, args=start(0), name='any files', caps=(10, 30, 2)))

        def own(e, st, inst, args):
            v = e.load(st, args[0].root, args[0].path)
            _, f = named(P, e.expand(v, st) if isinstance(v, VTop) else v)
            st.mem[('pin', 'cut')] = VAgg(None, (f['start'], f['piece'], f['path']))
            return args
        out.append(Job(entry(P, 'write_to_filesystem'), lambda: [Placed()], args=own, name='write'))

        def msg(e, st, inst, args):
            m = e.expand(args[1], st) if isinstance(args[1], VTop) else args[1]
            st.mem[('pin', 'message')] = m
            return [args[0], m] + list(args[2:])
        out.append(Job(handler(P, 'WriterActor', 'PieceReady'), lambda: [Handed()], args=msg, name='piece ready'))

        def msg2(e, st, inst, args):
            args = msg(e, st, inst, args)
            _, f = named(P, e.load(st, args[0].root, args[0].path))
            info = f.get('info')
            for v in (info.vs.get(1) or ()) if isinstance(info, VEnum) else ():
                x = named(P, e.expand(v, st) if isinstance(v, VTop) else v)[1].get('piece_length')
                if isinstance(x, VInt):
                    st.mem[('pin', 'info')] = x
            return args
        out.append(Job(handler(P, 'TorrentActor', 'PieceDownloadSuccessfull'), lambda: [Handed()], args=msg2, name='piece downloaded'))
        return out
