"""What becomes of a piece that was downloaded: it is handed to storage and all of it is written."""
from .base import *
from .content import named, same_seq
from .control import Drained
from .metadata import consistent, is_info
from .pool import truth, DONE
from ..lin import K
from ..values import *


class ToStorage(Rule):
    name = 'handed to storage'

    def on_send(self, eng, st, fr, how, addr, msg, msg_ty, t):
        if named(eng.P, msg)[0] != 'PieceReady':
            return
        if truth(st, DONE) is not False:
            self.say(BAD if truth(st, DONE) else UNSURE, st, fr, 'message', 'the piece may be handed to storage twice', t)
        elif how == 'try_send':
            self.say(BAD, st, fr, 'message', 'the message is lost when the mailbox is full', t)
        else:
            self.say(GOOD, st, fr, 'message', 'the piece is handed to storage', t)
        st.mem[DONE] = VBool(True)

    def finish(self, eng, outs):
        for st, v in outs or ():
            b = truth(st, DONE)
            if b is not True:
                v = UNSURE if b is None or st.ghost.get('~nu') else BAD
                self.j.append((v, 'end of the handler', 'may end although the downloaded piece was not handed to storage', '', ()))
                return
        if outs:
            self.j.append((GOOD, 'end of the handler', 'the piece was handed to storage on every path', '', ()))


BYTES = ('pin', 'bytes due')


class EachPart(Drained):
    """every part is written before the next one, or the result is an error"""
    name = 'every part is written'
    owed_text = 'a part may be left out: its bytes are not written'
    each = True

    def on_iter(self, eng, st, fr, item, ty, t):
        if not self.ty.search(eng.P.s(ty)):
            return
        self.step(st, fr, item is not None, t)
        if isinstance(item, VRef):
            item = eng.load(st, item.root, item.path)
        if isinstance(item, VTop):
            item = eng.expand(item, st)
        d = named(eng.P, item)[1].get('piece') if item is not None else None
        st.mem[BYTES] = VInt(d.len) if isinstance(d, VSeq) else VTop(None)

    def on_fs_failed(self, eng, st, fr, op, t):
        st.set_ghost(disk='failed')

    def on_fs_ok(self, eng, st, fr, op, n, data, t):
        if 'write' in op.split('::')[-1]:
            st.set_ghost(owed='no', wrote='yes')
            self.say(GOOD, st, fr, 'write', 'a part is written', t)

    def settle(self, st, fr, t):
        if st.ghost.get('owed') == 'yes' and st.ghost.get('disk') != 'failed':
            n = st.mem.get(BYTES)
            s = st.copy()
            if not isinstance(n, VInt) or s.assume(('ge', n.l - 1)):
                st.set_ghost(skipped='yes' if isinstance(n, VInt) else 'perhaps')

    def over(self, st, fr, t=None):
        if st.ghost.get('done') == 'no' and st.ghost.get('disk') != 'failed':
            st.set_ghost(skipped=st.ghost.get('skipped') or 'rest')
        self.settle(st, fr, t)

    def on_task_done(self, eng, st, fr, t):
        pass

    def finish(self, eng, outs):
        for st, v in outs or ():
            s = st.copy()
            if isinstance(v, VEnum) and (0 not in v.vs or not all(s.assume(f) for f in v.att.get(0, ()))):
                self.j.append((GOOD, 'end', 'the handler ends with an error', '', ()))
                continue
            self.over(s, None)
            k = s.ghost.get('skipped')
            if k is None:
                self.j.append((GOOD, 'end', 'success is answered after every part was written', '', ()))
                continue
            sure = isinstance(v, VEnum) and k != 'perhaps' and not st.ghost.get('~nu')
            self.j.append((BAD if sure else UNSURE, 'end', 'success may be answered although ' +
                           ('parts are left' if k == 'rest' else 'a part with bytes was not written'), '', ()))
        if outs and not any(j[1].endswith(': write') for j in self.j):
            self.j.append((UNSURE, 'no write', 'no write of a part was followed', '', ()))


class C35(Prop):
    about = 'ends of the handler for downloaded pieces, and of the handler that writes a piece'
    rule = ('the handler for a downloaded piece posts exactly one message for storage on every path (the torrent has its metadata by then); the handler '
            'that writes a piece answers success only if every part with bytes was written or an empty rest is left')
    explain = 'Forward abstract interpretation of the MIR of both handlers; each file system call both succeeds and fails.'
    floor = 3
    assume = COMMON + ['a piece is reported as downloaded only after the torrent has got consistent metadata (C20, C09)']

    def jobs(self, P, tier):
        def start(files):
            def hook(e, st, inst, args):
                st.mem[DONE] = VBool(False)
                v = e.load(st, args[0].root, args[0].path)
                v = e.expand(v, st) if isinstance(v, VTop) else v
                if isinstance(v, VAgg):
                    fs = list(v.fs)
                    for i, f in enumerate(fs):
                        if isinstance(f, VEnum) and any(is_info(P, e.expand(x, st) if isinstance(x, VTop) else x) for x in f.vs.get(1, ())):
                            f = VEnum(f.ty, {1: tuple(e.expand(x, st) if isinstance(x, VTop) else x for x in f.vs[1])})
                            fs[i] = consistent(e, st, f, files)
                    e.store(st, args[0].root, args[0].path, VAgg(v.ty, fs))
                return args
            return hook

        def begin(e, st, inst, args):
            return args
        down = handler(P, 'TorrentActor', 'PieceDownloadSuccessfull')
        return [Job(down, lambda: [ToStorage()], args=start(f), name=f'piece downloaded, {"several files" if f else "one file"}') for f in (True, False)] + \
               [Job(handler(P, 'WriterActor', 'PieceReady'), lambda: [EachPart('FileWriter', 'part')], {'fs': True, 'iters': True}, args=begin,
                    name='piece ready', caps=(10, 30, 2))]
