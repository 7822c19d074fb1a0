"""What a peer's messages may change in what is known of the peer."""
import re
from .base import *
from .content import named
from .peers import Initial
from ..graph import Graph, handlers, web_handlers
from ..lin import K
from ..values import *

FIELDS = ('choked', 'bitfield', 'extensions', 'metadata_size', 'active')
CASE = ('pin', 'case')
BEFORE = ('pin', 'before')


def struct_at(eng, st, v, name):
    """the struct behind a reference, with its fields"""
    if isinstance(v, VRef):
        v = eng.load(st, v.root, v.path)
    n, d = named(eng.P, v)
    return d if n == name else {}


def unchanged(st, x, y):
    """True, False or None when it cannot be told"""
    if x is y:
        return True
    if isinstance(x, VBool) and isinstance(y, VBool):
        a, b = st.truth(x.f), st.truth(y.f)
        if x.f == y.f or a is not None and a == b:
            return True
        return False
    if isinstance(x, VInt) and isinstance(y, VInt):
        return st.facts.equal(x.l, y.l)
    if isinstance(x, VSeq) and isinstance(y, VSeq):
        if x.segs is not None or y.segs is not None:
            return x.segs == y.segs
        return st.facts.equal(x.len, y.len) and x.elems == y.elems
    if str(x) == str(y):
        return True
    return False if type(x) is type(y) else None


class Unchanged(Rule):
    """after a message of one kind, only the fields of that kind may be different"""
    name = 'state of the peer'

    def __init__(self, what, may, must=None):
        super().__init__()
        self.what, self.may, self.must = what, may, must or {}

    def finish(self, eng, outs):
        for st, _ in outs or ():
            peer = struct_at(eng, st, st.mem.get(CASE), 'Peer')
            old = named(eng.P, st.mem.get(BEFORE))[1]
            for f in FIELDS:
                if f not in peer or f not in old:
                    self.j.append((UNSURE, f'{f} after {self.what}', f'the field {f} was not found', '', ()))
                    continue
                if f in self.must:
                    t = st.truth(peer[f].f) if isinstance(peer[f], VBool) else None
                    ok = t is self.must[f]
                    text = f'{f} is {self.must[f]} after {self.what}'
                elif f in self.may:
                    continue
                else:
                    ok = unchanged(st, peer[f], old[f])
                    text = f'{f} is unchanged after {self.what}'
                if ok is None or not ok and st.ghost.get('~nu'):
                    self.j.append((UNSURE, f'{f} after {self.what}', 'not known whether ' + text, '', ()))
                elif ok:
                    self.j.append((GOOD, f'{f} after {self.what}', text, '', ()))
                else:
                    self.j.append((BAD, f'{f} after {self.what}', 'it does not hold that ' + text, '', ()))


class HashChecked(Rule):
    """the handshake state becomes the result of the comparison"""
    name = 'handshake state'

    def finish(self, eng, outs):
        for st, _ in outs or ():
            peer = struct_at(eng, st, st.mem.get(CASE), 'Peer')
            a = peer.get('active')
            if not isinstance(a, VBool):
                self.j.append((UNSURE, 'active after a handshake', 'the handshake state was not found', '', ()))
                continue
            s = st.copy()
            if st.truth(a.f) is False or not s.assume(a.f if a.f is not True else ('ge', K(0))):
                continue
            mine = [p for p in s.facts.ce if any('a0.' in str(x) for x in p) and any('a1.' in str(x) for x in p)]
            whole = [p for p in mine if all(len(x) == 1 and x[0][0] == 'sub' and s.facts.equal(x[0][2], K(0)) for x in p)]
            if whole:
                self.j.append((GOOD, 'active after a handshake', 'true only when the info hash of the handshake equals the own one', '', ()))
            else:
                v = UNSURE if st.ghost.get('~nu') else BAD
                self.j.append((v, 'active after a handshake', 'may be true although the info hash of the handshake was not found equal to the own one', '', ()))


def case(kind=None, not_kind=(), ids=None, not_ids=(), data=False):
    """apply_message on a message of one kind"""
    def fix(e, st, inst, args):
        peer, msg = args[0], args[1]
        v = e.load(st, msg.root, msg.path)
        n, d = named(e.P, v)
        names = list(d)
        t = e.P.ty(v.ty)
        c = d.get('content')
        fs = list(v.fs)
        if isinstance(c, VEnum):
            vn = {x['n']: k for k, x in enumerate(e.P.ty(c.ty)['v'])}
            keep = {k: c.vs[k] for n, k in vn.items() if k in c.vs and (kind is None or n == kind) and n not in not_kind}
            if data:
                for k, xs in list(keep.items()):
                    ys = []
                    for x in xs:
                        n2, d2 = named(e.P, x)
                        if 'metadata_size' in d2 and 'msg_type' in d2:
                            gs = list(x.fs)
                            for f, only in (('metadata_size', 0), ('msg_type', 1)):
                                o = d2[f]
                                gs[list(d2).index(f)] = VEnum(o.ty, {only: o.vs[only]})
                            x = VAgg(x.ty, gs)
                        ys.append(x)
                    keep[k] = tuple(ys)
            fs[names.index('content')] = VEnum(c.ty, keep)
        i = d.get('id')
        if isinstance(i, VInt):
            if ids is not None:
                fs[names.index('id')] = VInt(K(ids))
            for k in not_ids:
                st.facts = st.facts.add_ne(i.l - k) or st.facts
        e.store(st, msg.root, msg.path, VAgg(v.ty, fs))
        st.mem[CASE] = peer
        st.mem[BEFORE] = e.load(st, peer.root, peer.path)
        return args
    return fix


class C26(Prop):
    about = 'the fields of a peer after each kind of message, and the places that change them'
    rule = ('after apply_message, for an arbitrary peer and a message of each kind (id and content), every field of choke state, availability, '
            'extensions, metadata size and handshake state that this kind does not carry has its old value; choke and unchoke set the choke state to '
            'true and false; the handshake state is true only if the info hash of the message equals the own one. No function that changes these '
            'fields can be reached from a handler except through apply_message')
    explain = 'Forward abstract interpretation of the MIR of apply_message, one run per kind of message; call graph for the rest of the program.'
    technique = 'abstract interpretation of MIR; assignments to fields in the call graph'

    def jobs(self, P, tier):
        a = entry(P, 'Peer::apply_message')
        mk = lambda fix, *r: Job(a, lambda: [x() for x in r], args=fix, name='')
        out = []

        def add(name, fix, may, must=None, extra=()):
            out.append(Job(a, lambda: [Unchanged(name, may, must)] + [x() for x in extra], args=fix, name=name, caps=(10, 2)))
        add('choke', case(ids=0), (), {'choked': True})
        add('unchoke', case(ids=1), (), {'choked': False})
        add('bitfield', case('Bitfield', ids=5), ('bitfield',))
        add('a data message of an extension', case('Extension', ids=20, data=True), ())
        add('a message of the extension protocol', case('Extension', ids=20), ('extensions', 'metadata_size'))
        add('handshake', case('Handshake', ids=19), ('active',), extra=(HashChecked,))
        add('any other message', case(None, ('Bitfield', 'Extension', 'Handshake'), not_ids=(0, 1)), ())
        out.append(Job(entry(P, 'peer::Peer::new'), lambda: [Initial()], name='new peer'))
        return out

    def direct(self, P, tier, results):
        out = []
        a = entry(P, 'Peer::apply_message')
        g = Graph(P)
        writers = {}
        for n, i in P.inst.items():
            if not str(i.get('span') or '').startswith('src/'):
                continue
            fs = sorted(set(field_writes(P, i, 'peer::Peer', FIELDS)))
            if fs:
                writers[n] = fs
        roots = [n for n, *_ in handlers(P)] + web_handlers(P)
        reach = {}
        for r in roots:
            todo, seen = [(r, (r,))], {r}
            while todo:
                n, chain = todo.pop()
                for kind, x, t in g.calls(n):
                    if kind == 'in' and x not in seen and x != a:
                        seen.add(x)
                        todo.append((x, chain + (x,)))
                if n in writers and n not in reach:
                    reach[n] = chain
        for n, fs in sorted(writers.items()):
            at = P.inst[n].get('span')
            if n in reach:
                out.append((BAD, f'{n}: changes the state of a peer', f'{n} changes {", ".join(fs)} and is reached without a message being applied', at, reach[n][::-1]))
            else:
                out.append((GOOD, f'{n}: changes the state of a peer', f'{n} changes {", ".join(fs)} and is reached through apply_message only', at, ()))
        return out


def field_writes(P, inst, struct, names):
    """fields of the struct that a body assigns to or borrows mutably"""
    for b in inst['blocks']:
        for s in b['s']:
            for p in written(s):
                f = field_of(P, inst, p, struct)
                if f in names:
                    yield f
        t = b['t']
        if t['k'] == 'call' and t.get('d'):
            f = field_of(P, inst, t['d'], struct)
            if f in names:
                yield f


def written(s):
    """the places that a statement assigns to or borrows mutably"""
    if isinstance(s, list) and s and s[0] == '=':
        yield s[1]
        yield from mut_refs(s[2])


def mut_refs(r):
    if isinstance(r, dict) and r.get('k') in ('ref', 'rawptr', 'addr') and (r.get('mut') or r.get('m')):
        if 'p' in r:
            yield r['p']


def field_of(P, inst, place, struct):
    """the field of the struct that a place goes through"""
    ty = inst['locals'][place[0]]
    found = None
    for x in place[1:]:
        t = P.ty(ty) if ty is not None else {}
        if x == '*':
            ty = t.get('e') if t.get('k') in ('ref', 'rawptr', 'ptr') else (t.get('a') or [None])[0]
        elif isinstance(x, list) and x[0] == 'f':
            if t.get('k') == 'adt' and t.get('path') == struct and t.get('v'):
                found = t['v'][0]['f'][x[1]][0]
            ty = x[2] if len(x) > 2 else None
        elif isinstance(x, list) and x[0] == 'd':
            pass
        else:
            ty = t.get('e')
    return found
