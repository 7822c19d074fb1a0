"""Bencode output."""
from .base import *
from .content import same_seq
from .peers import only_tcp
from ..engine import Unsupported
from ..lin import K, Lin, S, fresh, term
from ..values import *


# the entries of the dictionaries of a torrent
NAMES = {'files', 'length', 'name', 'piece_length', 'pieces', 'path'}


class Shape:
    """the values that are encoded: which optional parts exist, how many elements lists have"""

    def __init__(self, P, some, count, keys):
        self.P, self.some, self.count, self.keys = P, some, count, keys
        self.n = 0

    def value(self, e, st, v):
        """the same value with this shape"""
        if isinstance(v, VTop):
            v = e.expand(v, st)
        if isinstance(v, VSeq) and v.ety is not None and self.P.s(v.ety) not in ('u8', 'char'):
            return VSeq(K(self.count), tuple(self.value(e, st, e.top(v.ety, st, 'element')) for _ in range(self.count)), None, None, v.ety)
        if isinstance(v, VAgg):
            return VAgg(v.ty, tuple(self.value(e, st, x) for x in v.fs))
        if isinstance(v, VEnum) and self.P.ty(v.ty)['s'].startswith('std::option::Option'):
            fs = v.vs.get(1)
            self.n += 1
            if not self.some >> (self.n - 1) & 1 or fs is None:
                return VEnum(v.ty, {0: ()})
            return VEnum(v.ty, {1: tuple(self.value(e, st, x) for x in fs)})
        if isinstance(v, VMod) and v.kind == 'map':
            vt = self.P.ty(v.ty)['a'][1]
            ents = tuple(((('c', k),), self.value(e, st, e.top(vt, st, 'value'))) for k in self.keys)
            return VMod('map', (ents, VInt(K(len(ents))), v.fs[2]), v.ty)
        return v

    # what the encoding has to be

    def text(self, segs, ln):
        n = term(('declen', ln), 1, 39, 'declen')
        return (('dec', ln, n), ('c', b':')) + tuple(segs)

    def want(self, st, v, ty):
        """the canonical encoding, or None when it is not known"""
        P = self.P
        t = P.ty(ty)
        if isinstance(v, VInt):
            n = term(('declen', v.l), 1, 39, 'declen')
            return (('c', b'i'), ('dec', v.l, n), ('c', b'e'))
        if isinstance(v, VSeq):
            if v.segs is not None and v.elems is None:
                return self.text(v.segs, v.len)
            out = [self.want(st, x, v.ety) for x in v.elems or ()]
            return None if None in out else (('c', b'l'),) + tuple(s for x in out for s in x) + (('c', b'e'),)
        if isinstance(v, VEnum) and len(v.vs) == 1 and t['s'].startswith('std::option::Option'):
            return self.want(st, v.vs[1][0], t['a'][0]) if 1 in v.vs else ()
        if isinstance(v, VMod) and v.kind == 'map' and v.fs[0] is not None:
            return self.dictionary(st, [(k[0][1], x, t['a'][1]) for k, x in v.fs[0]])
        if isinstance(v, VAgg) and t['k'] == 'adt' and len(t['v']) == 1:
            if any(f[0] not in NAMES for f in t['v'][0]['f']):
                return None
            return self.dictionary(st, [(f[0].replace('_', ' ').encode(), x, f[1]) for f, x in zip(t['v'][0]['f'], v.fs)])
        return None

    def dictionary(self, st, items):
        out = (('c', b'd'),)
        for k, x, ty in sorted(items, key=lambda i: i[0]):
            w = self.want(st, x, ty)
            if w is None:
                return None
            if w:
                out += self.text((('c', k),), K(len(k))) + w
        return out + (('c', b'e'),)


def atoms(x):
    """what a byte sequence is made of"""
    def walk(x):
        r = set()
        if isinstance(x, Lin):
            for y, _ in x.t:
                r |= walk(S.term[y]) if S.term[y] is not None else {('sym', y)}
        elif isinstance(x, tuple) and x and x[0] in ('sub', 'h'):
            r.add(('content', x[1]))
            for y in x[2:]:
                r |= walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                r |= walk(y)
        return r
    return walk(tuple(x))


class Canonical(Rule):
    name = 'encoding'

    def __init__(self, shape, what, where):
        super().__init__()
        self.shape, self.what, self.where = shape, what, where

    def finish(self, eng, outs):
        for st, v in outs or ():
            self.one(eng, st, v)

    def one(self, eng, st, v):
        x, ty = st.mem[('pin', 'value')], self.shape.ty
        w = self.shape.want(st, x, ty)
        if w is None or not isinstance(v, VSeq) or v.segs is None:
            return self.add(st, UNSURE, 'the encoding was not followed')
        r = same_seq(st, VSeq(v.len, None, None, norm_segs(v.segs), v.ety), VSeq(v.len, None, None, norm_segs(w), v.ety))
        if r is False and not atoms(v.segs) <= atoms(w):
            return self.add(st, UNSURE, 'the encoding was not followed')
        self.add(st, GOOD if r else UNSURE if r is None else BAD, 'the encoding is the canonical one' if r else 'the encoding is not the canonical one')

    def add(self, st, v, text):
        self.j.append((UNSURE if v == BAD and st.ghost.get('~nu') else v, self.what, text, self.where, ()))


class C25(Prop):
    about = 'encodings of values'
    rule = ('a string is encoded as the number of its bytes, a colon and its bytes; a number as i, its decimal digits, e; a list as l, the encodings of the elements in order, e; '
            'a dictionary as d, the entries in the order of the bytes of their keys, e, whatever order the entries come in; an absent value is left out together with its key')
    explain = ('Forward abstract interpretation of the MIR of each implementation of the encoder that the program uses, with arbitrary strings and numbers, lists of up to three elements, '
               'each combination of optional parts and dictionaries whose entries come in every order; the resulting byte sequence is compared with the canonical one.')
    required = 6

    def jobs(self, P, tier):
        out = []
        for name, inst in P.inst.items():
            if not name.endswith('Encode>::encode') or '{' in name:
                continue
            ty = inst['locals'][1]
            while P.ty(ty)['k'] == 'ref':
                ty = P.ty(ty)['e']
            s = P.ty(ty)['s']
            shapes = [(0, 1, (b'b',))]
            opts = s.count('Option<') + sum(P.ty(f[1])['s'].count('std::option::Option') for f in (P.ty(ty)['v'][0]['f'] if P.ty(ty)['k'] == 'adt' and s.startswith('torrent') else ()))
            for some in range(1 << opts):
                for count in ((0, 1, 2) if tier == 'quick' else (0, 1, 2, 3)):
                    shapes.append((some, count, ()))
            if 'HashMap' in s:
                shapes = [(0, 1, ()), (0, 1, (b'b',)), (0, 1, (b'b', b'aa', b'Z'))]
            elif 'Vec' not in s and not opts and P.ty(ty)['k'] != 'adt' or s == 'std::string::String' or s == 'std::vec::Vec<u8>':
                shapes = shapes[:1]
            for some, count, keys in shapes:
                shape = Shape(P, some, count, keys)

                def start(e, st, inst, args, shape=shape):
                    a = args[0]
                    shape.n = 0
                    while True:
                        if isinstance(a, VSlice):
                            shape.ty = P.find_ty('str') if P.find_ty('str') is not None else None
                            q = e.seq_val(st, a)
                            st.mem[('pin', 'value')] = q
                            return args
                        v = e.load(st, a.root, a.path)
                        if not isinstance(v, (VRef, VSlice)):
                            break
                        a = v
                    t = inst['locals'][1]
                    while P.ty(t)['k'] == 'ref':
                        t = P.ty(t)['e']
                    shape.ty = t
                    v = shape.value(e, st, v)
                    e.store(st, a.root, a.path, v)
                    st.mem[('pin', 'value')] = v
                    return args
                out.append(Job(name, lambda shape=shape, s=s, w=inst.get('span', ''): [Canonical(shape, s, str(w).split(':')[0])], {'exact': 100}, args=start,
                               name=f'{s} {some} {count} {len(keys)}', caps=(400,)))
        return out


# ---------------------------------------------------------------- C28

class Assembled(Rule):
    """what a download returns, for a peer that sends these messages"""
    name = 'assembled content'

    def __init__(self, script, want, what):
        super().__init__()
        self.script, self.want, self.what = script, want, what

    def finish(self, eng, outs):
        n = 0
        for st, v in outs or ():
            if not isinstance(v, VEnum) or 0 not in v.vs:
                continue
            n += 1
            if len(v.vs) > 1 and not all(st.assume(x) for x in v.att.get(0, ())):
                continue
            q = v.vs[0][0]
            if not isinstance(q, VSeq) or q.segs is None:
                self.add(st, UNSURE, 'the content was not followed')
                continue
            w = [s for i in self.want for s in self.script[i][2]]
            r = same_seq(st, VSeq(q.len, None, None, norm_segs(q.segs), q.ety), VSeq(q.len, None, None, norm_segs(tuple(w)), q.ety))
            if r is not True:
                r = r if atoms(q.segs) <= {a for m in self.script for a in atoms(m[1] + m[2])} else None
            self.add(st, GOOD if r else UNSURE if r is None else BAD, 'the content is the data of the blocks in the order in which they arrived' if r
                     else 'the content is not the data of the blocks in the order in which they arrived')
        if not n:
            self.add(None, UNSURE, 'no content was assembled')

    def add(self, st, v, text):
        self.j.append((UNSURE if v == BAD and st.ghost.get('~nu') else v, self.what, text, 'src/peer/download', ()))


class C28(Prop):
    about = 'contents assembled by downloads'
    rule = ('when the peer sends the given messages, the result of the download, if there is one, is the data of the block messages in the order of arrival, '
            'without anything of messages of other kinds, and nothing that comes after the last block that was due')
    explain = ('Forward abstract interpretation of the MIR of the download of a piece of one to three blocks, with reading from the peer replaced by a script: sequences of messages '
               'of all kinds with arbitrary contents and lengths, each followed on its own.')
    required = 3

    def jobs(self, P, tier):
        d, rd = entry(P, 'Downloadable::download'), entry(P, 'read_stream')
        if d is None or rd is None:
            return [Job(None, lambda: [], name='download')]
        # writing to the peer changes nothing that matters here
        quiet = {n for n, i in P.inst.items() if str(i.get('span', '')).startswith('src/') and n != rd and i['argc'] == 2 and
                 'StreamInterface' in P.s(i['locals'][1]) and P.s(i['locals'][2]) in ('&[u8]', 'std::vec::Vec<u8>', '&std::vec::Vec<u8>')
                 and not any('Read' in x for x in (n,))}
        out = []
        mine = lambda name: ('sub', ('script', name), K(0), fresh(1, 16384, 'size'))

        def script(what, *msgs):
            """P: a block, u: unchoke, h: have, b: bitfield, n: nothing in time, i: interested"""
            ms, want = [], []
            for i, m in enumerate(msgs):
                if m == 'P':
                    want.append(i)
                    ms.append((7, tuple(('b', fresh(0, 255)) for _ in range(8)), (mine(f'block {i}'),)))
                elif m == 'n':
                    ms.append((None, (), ()))
                else:
                    ms.append(({'u': 1, 'h': 4, 'b': 5, 'i': 2}[m], (mine(f'other {i}'),) if m == 'h' else (('c', b'\xa5'),) if m == 'b' else (), ()))
            return what, ms, want

        scripts = [(2, script('two blocks', 'u', 'P', 'P')), (1, script('one block', 'u', 'P')), (2, script('nothing in time between', 'u', 'P', 'n', 'P')),
                   (2, script('other messages between', 'u', 'b', 'P', 'h', 'i', 'P')), (2, script('more than was due', 'u', 'P', 'P', 'P')),
                   (3, script('three blocks', 'u', 'P', 'P', 'P')), (2, script('before unchoke', 'P', 'u', 'P'))]
        if tier != 'quick':
            scripts += [(2, script(f'{a}{b}', 'u', a, 'P', b, 'P')) for a in 'hbinu' for b in 'hbinu']
        for k, (what, ms, want) in scripts:
            def start(e, st, inst, args, k=k):
                v = e.load(st, args[0].root, args[0].path)
                v = e.expand(v, st) if isinstance(v, VTop) else v
                t = P.ty(v.ty)
                i = next(i for i, x in enumerate(t['v']) if x['n'] == 'Block')
                old = v.vs[i][0]
                old = e.expand(old, st) if isinstance(old, VTop) else old
                a = VAgg(old.ty, (VInt(K(16384 * k)), VInt(K(0)), VInt(K(16384 * k))))
                e.store(st, args[0].root, args[0].path, VEnum(v.ty, {i: (a,)}))
                args = only_tcp(e, st, inst, args)
                st.set_ghost(script=0)
                return args

            def reads(e, st, v, ms=ms):
                if not isinstance(v, VEnum) or 'u8, u32' not in P.s(v.ty):
                    return [(st, v)]
                i = st.ghost['script']
                st.set_ghost(script=i + 1)
                if i >= len(ms) or ms[i][0] is None:
                    return [(st, VEnum(v.ty, {0: ()}))]
                mid, a, b = ms[i]
                segs = a + b
                t = P.ty(v.ty)['a'][0]
                n = segs_len(segs)
                return [(st, VEnum(v.ty, {1: (VAgg(t, (VSeq(n, None, None, segs, P.u8), VInt(K(mid)), VInt(n))),)}))]
            due = want[:k]
            out.append(Job(d, lambda ms=ms, due=due, what=what: [Assembled(ms, due, what)], {'exact': 20000, 'opaque': {rd} | quiet, 'opaque_result': reads}, args=start, name=what, caps=(400,)))
        return out
