"""The abstract interpreter: forward analysis of the MIR from an entry point.  Calls are analysed
in the context of their caller; loops are iterated to a fixed point; states that reach the same
block are joined when they agree on the shape of memory (which enum variants, which booleans)."""
import re
import sys
import time
from .lin import Lin, K, V, S, Facts, fresh, term, bounds, bits_of, of_bits, U64, ISIZE_MAX
from .values import *
from .state import State, Joiner, RESULTS, skeleton, eqpattern, lenpattern, summary, window, forget

sys.setrecursionlimit(200000)


# unsafe calls that the compiler itself puts in for format strings, await and drops
GENERATED = re.compile(r"^std::fmt::(rt::.*)?Arguments|Pin::<Ptr>::new_unchecked$|^std::future::get_context$|^std::intrinsics::(unreachable|discriminant_value)$")


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def int_range(t):
    if t['k'] == 'uint':
        return 0, (1 << t['bits']) - 1
    if t['k'] == 'int':
        b = t['bits'] - 1
        return -(1 << b), (1 << b) - 1
    if t['k'] == 'char':
        return 0, 0x10FFFF
    return None, None


def load_path(v, path, st, eng=None):
    for i, p in enumerate(path):
        k = p[0]
        if k == 'f':
            if isinstance(v, (VAgg,)):
                v = v.fs[p[1]]
            elif isinstance(v, VMod):
                v = v.fs[p[1]]
            elif isinstance(v, VTop) and eng:
                raise Unsupported('field of an unknown value')
            else:
                raise Unsupported(f'field {p[1]} of {type(v).__name__}')
        elif k == 'd':
            if isinstance(v, VEnum):
                if p[1] not in v.vs:
                    raise Unsupported('variant not there')
                v = VAgg(v.ty, v.vs[p[1]])
            else:
                raise Unsupported(f'variant of {type(v).__name__}')
        elif k == 'e':
            v = elem_of(v, p[1], st)
        elif k == 'b':
            if isinstance(v, VMod) and v.fs:
                v = v.fs[0]
            else:
                raise Unsupported('box content')
        else:
            raise Unsupported(str(p))
    return v


def elem_of(q, i, st):
    if not isinstance(q, VSeq):
        raise Unsupported(f'element of {type(q).__name__}')
    if q.elems is not None:
        c = i.const()
        if c is not None and 0 <= c < len(q.elems):
            return q.elems[c]
        r = summary(q)
        if r is not None and len(q.elems) == 1:
            return r
        return None
    if q.segs is not None:
        b = byte_at(q.segs, i, st.facts)
        if b is None:
            b = term(('byte', ('view', q.segs, i)), 0, 255, 'byte')
        return VInt(b)
    return q.summ


def store_path(v, path, new, st, eng):
    if not path:
        return new
    p, rest = path[0], path[1:]
    k = p[0]
    if k == 'f':
        if isinstance(v, VTop):
            v = eng.expand(v, st)
        if isinstance(v, VAgg):
            fs = list(v.fs)
            fs[p[1]] = store_path(fs[p[1]], rest, new, st, eng)
            return VAgg(v.ty, fs)
        if isinstance(v, VMod):
            fs = list(v.fs)
            fs[p[1]] = store_path(fs[p[1]], rest, new, st, eng)
            return VMod(v.kind, fs, v.ty)
        if v is None:
            raise Unsupported('store into uninitialised')
        raise Unsupported(f'store field of {type(v).__name__}')
    if k == 'd':
        if isinstance(v, VEnum) and p[1] in v.vs:
            inner = store_path(VAgg(v.ty, v.vs[p[1]]), rest, new, st, eng)
            vs = dict(v.vs)
            vs[p[1]] = inner.fs
            return VEnum(v.ty, vs, v.att)
        raise Unsupported('store variant')
    if k == 'b':
        fs = list(v.fs)
        fs[0] = store_path(fs[0], rest, new, st, eng)
        return VMod(v.kind, fs, v.ty)
    if k == 'e':
        if isinstance(v, VSeq):
            c = p[1].const()
            if v.elems is not None and c is not None and c < len(v.elems):
                es = list(v.elems)
                es[c] = store_path(es[c], rest, new, st, eng)
                return VSeq(v.len, tuple(es), v.summ, v.segs, v.ety)
            if v.segs is not None and isinstance(new, VInt):
                a = sub_segs(v.segs, K(0), p[1], st.facts)
                b = sub_segs(v.segs, p[1] + 1, v.len - p[1] - 1, st.facts)
                if a is not None and b is not None:
                    return VSeq(v.len, None, None, norm_segs(a + (('b', new.l),) + b), v.ety)
                return VSeq(v.len, None, None, (('sub', new_id('w'), K(0), v.len),), v.ety)
            if not rest:
                ns = new if v.elems is None and v.summ is None else None
            return VSeq(v.len, None, None, None if v.segs is None else (('sub', new_id('w'), K(0), v.len),), v.ety)
        raise Unsupported('store element')
    raise Unsupported(str(p))


class Frame:
    __slots__ = ('fid', 'body', 'inst', 'parent', 'site')

    def __init__(self, fid, body, parent, site):
        self.fid, self.body, self.inst = fid, body, body.inst
        self.parent, self.site = parent, site

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent


class Engine:
    CAP = 10

    def __init__(self, prog, models, rules=()):
        self.P = prog
        self.models = models
        self.rules = list(rules)
        self.fids = {}
        self.fids_seen = set()
        RESULTS.update(i for i, t in enumerate(prog.types) if t.get('path') == 'std::result::Result')
        self.log = []
        self.stats = {'blocks': 0, 'calls': 0, 'functions': set(), 'sites': set(), 'joins': 0, 'models': set(),
                      'unknown': set()}
        self.flags = {}
        self.deadline = None
        self.contracts = {}
        self.at = 'top'         # where new cells come from
        from .summary import Summaries
        self.summaries = Summaries(self)
        self.no_summary = set()
        self.assume_small_counters = True
        self.escape_depth = 0
        self.pure_names = {}
        self.trace = False

    # ------------------------------------------------------------ values from types
    def top(self, ty, st, name='', depth=0, seen=()):
        """an arbitrary value of the type"""
        t = self.P.ty(ty)
        k = t['k']
        if k in ('uint', 'int', 'char'):
            lo, hi = int_range(t)
            return VInt(fresh(lo, hi, name))
        if k == 'bool':
            return VBool(('atom', new_id('b')[1]))
        if k in ('ref', 'rawptr', 'ptr'):
            if t.get('e') is None:
                return VTop(ty)
            return self.top_ref(t['e'], st, name, t.get('mut', False), depth, seen)
        if k == 'tuple':
            return VAgg(ty, [self.top(a, st, f'{name}.{i}', depth + 1, seen) for i, a in enumerate(t['a'])])
        if k == 'array':
            return self.top_seq(t['e'], K(t['n']) if t.get('n') is not None else fresh(0, ISIZE_MAX), st, name)
        if k in ('slice', 'str'):
            return self.top_seq(t.get('e') if k == 'slice' else self.P.u8, fresh(0, ISIZE_MAX, name + '.len'), st, name)
        if k == 'fndef':
            return VFn(t['fn'])
        if k == 'never':
            return VTop(ty)
        if k == 'adt':
            path = t['path']
            m = self.models.tops.get(path)
            if m:
                return m(self, st, ty, t, name, depth, seen)
            if t.get('v') is not None and t.get('ak') in ('struct', 'enum'):
                if ty in seen or depth > 7:
                    return VTop(ty)
                sn = seen + (ty,)
                if t['ak'] == 'struct':
                    v = t['v'][0]
                    return VAgg(ty, [self.top(f[1], st, f"{name}.{f[0]}", depth + 1, sn) for f in v['f']])
                vs = {}
                for i, v in enumerate(t['v']):
                    if any(self.P.ty(f[1])['k'] == 'never' for f in v['f']):
                        continue
                    if any(self.uninhabited(f[1]) for f in v['f']):
                        continue
                    vs[i] = tuple(self.top(f[1], st, f"{name}.{v['n']}", depth + 1, sn) for f in v['f'])
                return VEnum(ty, vs)
        return VTop(ty)

    def uninhabited(self, ty):
        t = self.P.ty(ty)
        return t['k'] == 'never' or (t['k'] == 'adt' and t.get('ak') == 'enum' and t.get('v') == [])

    def zero_sized(self, ty):
        t = self.P.ty(ty)
        if t['k'] == 'adt' and t.get('ak') == 'enum':
            live = [v for v in t['v'] if not any(self.uninhabited(f[1]) for f in v['f'])]
            return len(live) == 1 and not live[0]['f']
        return False

    def top_seq(self, ety, ln, st, name='', ):
        if ety == self.P.u8:
            return VSeq(ln, None, None, (('sub', new_id('in:' + name), K(0), ln),), ety)
        return VSeq(ln, None, None, None, ety)

    def top_ref(self, e, st, name, mut, depth=0, seen=()):
        t = self.P.ty(e)
        n = 0
        while ('h', self.at, n) in st.mem:
            n += 1
        loc = ('h', self.at, n)
        st.mem[loc] = VTop(e)
        if t['k'] in ('slice', 'str'):
            q = self.top(e, st, name, depth + 1, seen)
            st.mem[loc] = q
            return VSlice(loc, (), K(0), q.len, mut)
        if t['k'] == 'dyn':
            return VTop(None)
        st.mem[loc] = self.top(e, st, name, depth + 1, seen)
        return VRef(loc, (), mut)

    def expand(self, v, st):
        if isinstance(v, VTop) and v.ty is not None:
            n = self.top(v.ty, st)
            return n
        return v

    # ------------------------------------------------------------ memory
    def alloc(self, st, site, val, pin=False):
        """a new cell; a pinned one stays alive until it is removed"""
        n = 0
        h = 'pin' if pin else 'h'
        while (h, site, n) in st.mem:
            n += 1
        k = (h, site, n)
        st.mem[k] = val
        return k

    def load(self, st, root, path):
        """load, expanding unknown values in place"""
        v = st.mem.get(root)
        if v is None:
            raise Unsupported(f'uninitialised {root}')
        done = ()
        for p in path:
            v = self.force(st, root, done, v, p)
            v2 = load_path(v, (p,), st)
            if v2 is None:
                # element of a sequence about which nothing is kept: any value of its type
                v2 = self.top(v.ety, st, 'elem') if v.ety is not None else VTop(None)
            v = v2
            done = done + (p,)
        return v

    def force(self, st, root, path, v, p):
        if isinstance(v, VTop) and p[0] in ('f', 'd', 'b', 'e'):
            n = self.expand(v, st)
            if n is v or isinstance(n, VTop):
                raise Unsupported(f'projection of {self.P.s(v.ty)}')
            if not any(x[0] == 'e' for x in path):
                st.mem[root] = store_path(st.mem[root], path, n, st, self)
            return n
        return v

    def store(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        for i in range(len(path)):
            # expand unknown prefixes
            v = self.load(st, root, path[:i])
            self.force(st, root, path[:i], v, path[i])
        st.mem[root] = store_path(st.mem[root], path, val, st, self)

    def place(self, st, fr, p):
        """-> (root, path) or ('slice', VSlice) for an unsized window"""
        root, path = (fr.fid, p[0]), ()
        win = inner = None
        if root not in st.mem and self.zero_sized(fr.body.inst['locals'][p[0]]):
            # writes of values without a content are optimised away
            st.mem[root] = self.top(fr.body.inst['locals'][p[0]], st)
        for e in p[1:]:
            if e == '*':
                v = win if win is not None else self.load(st, root, path)
                if isinstance(v, VTop):
                    if v.ty is None and not path and root == (fr.fid, p[0]):
                        # a shared reference to something unknown: any value of the type
                        lt = self.P.ty(fr.body.inst['locals'][p[0]])
                        if lt['k'] == 'ref' and not lt.get('mut'):
                            v = VTop(fr.body.inst['locals'][p[0]])
                    n = self.expand(v, st)
                    if isinstance(n, VTop):
                        raise Unsupported(f'deref of unknown {self.P.s(v.ty)}')
                    self.store(st, root, path, n)
                    v = n
                if isinstance(v, VRef):
                    root, path, win = v.root, v.path, None
                elif isinstance(v, VSlice):
                    root, path, win = v.root, v.path, v
                elif isinstance(v, VMod) and v.kind == 'box':
                    path = path + (('b',),)
                elif isinstance(v, VMod) and v.kind == 'boxuninit':
                    root, path, win = v.fs[0].root, v.fs[0].path, None
                    inner = self.P.ty(self.P.ty(v.ty)['a'][0])['a'][0]
                else:
                    raise Unsupported(f'deref of {type(v).__name__}')
                continue
            k = e[0]
            if inner is not None and k == 'f':
                # through MaybeUninit and ManuallyDrop to the value itself
                if e[2] == inner:
                    inner = None
                continue
            if k == 'f':
                path = path + (('f', e[1]),)
            elif k == 'd':
                path = path + (('d', e[1]),)
            elif k == 'i':
                ix = self.load(st, (fr.fid, e[1]), ())
                off = win.off if win is not None else K(0)
                path = path + (('e', off + ix.l),)
                win = None
            elif k == 'ci':
                if win is not None:
                    off, ln = win.off, win.len
                else:
                    off, ln = K(0), self.load(st, root, path).len
                path = path + (('e', off + (ln - e[1] if e[3] else K(e[1]))),)
                win = None
            elif k == 'sub':
                if win is not None:
                    off, ln = win.off, win.len
                else:
                    off, ln = K(0), self.load(st, root, path).len
                to = ln - e[2] if e[3] else K(e[2])
                win = VSlice(root, path, off + e[1], to - e[1])
            else:
                raise Unsupported(str(e))
        return root, path, win

    def read_place(self, st, fr, p):
        root, path, win = self.place(st, fr, p)
        if win is not None:
            raise Unsupported('unsized read')
        return self.load(st, root, path)

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.read_place(st, fr, o[1])
        if k == 'rc':
            return VBool(True)
        return self.const(st, o[1])

    def const(self, st, c):
        t = self.P.ty(c['ty'])
        k = t['k']
        if 'int' in c:
            n = int(c['int'])
            if k == 'bool':
                return VBool(bool(n))
            if k in ('uint', 'int', 'char'):
                return VInt(K(n))
        if 'fn' in c:
            return VFn(c['fn'])
        if k == 'fndef':
            return VFn(t['fn'])
        if k == 'adt':
            m = self.models.consts.get(t['path'])
            if m:
                r = m(self, st, c, t)
                if r is not None:
                    return r
        if 'fs' in c and k in ('adt', 'tuple', 'array'):
            if not (k == 'adt' and self.models.tops.get(t['path'])):
                fs = tuple(self.const(st, x) for x in c['fs'])
                if k == 'adt' and t.get('ak') == 'enum':
                    return VEnum(c['ty'], {c['var']: fs})
                if k == 'array':
                    return VSeq(K(len(fs)), fs, None, None, t['e'])
                return VAgg(c['ty'], fs)
        if 'deref' in c and k == 'ref':
            v = self.const(st, c['deref'])
            loc = ('k', repr(c['deref']))
            st.mem.setdefault(loc, v)
            if isinstance(v, VSeq) and self.P.ty(t['e'])['k'] in ('slice', 'str'):
                return VSlice(loc, (), K(0), v.len)
            return VRef(loc, ())
        if c.get('zst'):
            if k == 'tuple':
                return VAgg(c['ty'], ())
            if k in ('closure',):
                return VAgg(c['ty'], ())
            if k == 'adt' and t.get('ak') == 'struct' and t.get('v') and not t['v'][0]['f']:
                return VAgg(c['ty'], ())
            return self.top(c['ty'], st)
        if 'bytes' in c or 'abytes' in c:
            b = bytes(c.get('bytes', c.get('abytes')))
            e = self.P.ty(t['e']) if k == 'ref' else t
            loc = ('k', b)
            if k == 'ref' and e['k'] in ('str', 'slice') and (e['k'] == 'str' or e.get('e') == self.P.u8):
                st.mem.setdefault(loc, VSeq(K(len(b)), None, None, (('c', b),) if b else (), self.P.u8))
                return VSlice(loc, (), K(0), K(len(b)))
            if k == 'ref' and e['k'] == 'array' and e.get('e') == self.P.u8:
                st.mem.setdefault(loc, VSeq(K(len(b)), None, None, (('c', b),) if b else (), self.P.u8))
                return VRef(loc, ())
            if k == 'array' and t.get('e') == self.P.u8:
                return VSeq(K(len(b)), None, None, (('c', b),) if b else (), self.P.u8)
        return self.top(c['ty'], st, c.get('name', ''))

    # ------------------------------------------------------------ events
    def fire(self, kind, st, fr, **kw):
        for r in self.rules:
            r.on(self, kind, st, fr, kw)

    def user_fn(self, fr):
        """nearest function of the crate under analysis, as a stable name"""
        for f in fr.chain():
            sp = f.inst.get('span') or ''
            if sp.startswith('src/'):
                return f.inst['root'] or f.inst['path']
        return fr.inst['path']

    def panic(self, st, fr, kind, detail='', sp=None):
        self.fire('panic', st, fr, what=kind, detail=detail, sp=sp)

    def oblige(self, st, fr, kind, holds, detail='', sp=None):
        """a place that panics unless `holds` (a formula).  Continues on the good side; returns
        False when it always panics."""
        t = st.truth(holds)
        self.fire('obligation', st, fr, what=kind, ok=t is True, detail=detail, sp=sp, holds=holds)
        if t is True:
            return True
        self.panic(st, fr, kind, detail, sp)
        if t is False:
            return False
        return st.assume(holds)

    # ------------------------------------------------------------ functions
    def fid(self, parent, key):
        return self.fids.setdefault((parent, key), len(self.fids) + 1)

    def call_inst(self, name, args, st, fr, site):
        """analyse a call of a local function: -> [(state, value)]"""
        self.stats['calls'] += 1
        if fr is not None and name in self.flags.get('opaque', ()):
            # nothing the rule looks at can happen in there, and it changes nothing but what it returns
            self.stats['opaque'] = self.stats.get('opaque', 0) + 1
            st = st.copy()
            self.fire('opaque', st, fr, name=name)
            v = self.top(self.P.inst[name]['locals'][0], st, 'ret')
            given = self.flags.get('opaque_result')
            return given(self, st, v) if given else [(st, v)]
        if DECODE.search(name) and decodes_template(self, args, st):
            # trusted: the decoder accepts well-formed bencode that the program wrote down itself
            self.stats['templates'] = self.stats.get('templates', 0) + 1
            out = []
            for s, v in self.call_inst2(name, args, st, fr, site):
                if isinstance(v, VEnum) and 0 in v.vs:
                    v = VEnum(v.ty, {0: v.vs[0]}, v.att)
                    out.append((s, v))
            return out
        return self.call_inst2(name, args, st, fr, site)

    def call_inst2(self, name, args, st, fr, site):
        if name in self.P.recursive():
            c = self.contracts.get(name)
            if c is not None:
                return c.apply(args, st, fr, site)
            scc = self.P.recursive()[name]
            if not any(n in self.contracts for n in scc):
                from .recur import Contract
                c = self.contracts[name] = Contract(self, name)
                try:
                    return c.start(args, st, fr, site)
                finally:
                    del self.contracts[name]
            if any(f.inst['name'] == name for f in (fr.chain() if fr else ())):
                raise Unsupported(f'recursion through {name} only')
        if fr is not None and not self.flags.get('exact'):
            tpl = self.summaries.get(name)
            if tpl is not None and self.summaries.holds(tpl, args, st):
                return self.summaries.apply(tpl, st)
        return self.call_body(name, args, st, fr, site)

    def call_body(self, name, args, st, fr, site):
        body = self.P.body(name)
        if fr is not None and sum(1 for _ in fr.chain()) > 120:
            raise Unsupported('call chain too deep')
        fid = self.fid(fr.fid if fr else 0, (site, name))
        self.fids_seen.add(name)
        f = Frame(fid, body, fr, site)
        st = st.copy()
        n = body.inst['argc']
        if len(args) != n:
            # closures: the arguments are passed as a tuple
            if body.inst.get('spread') is None and len(args) == 2 and isinstance(args[1], VAgg):
                args = [args[0]] + list(args[1].fs)
            if len(args) != n and not (n == 2 and body.inst.get('spread')):
                if len(args) != n:
                    raise Unsupported(f'arity of {name}: {len(args)} for {n}')
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        if body.inst.get('spread') is not None:
            pass
        outs = self.run(f, st)
        res = []
        for s in outs:
            v = s.mem.get((fid, 0))
            if v is None:
                v = UNIT
            for k in [k for k in s.mem if k[0] == fid]:
                del s.mem[k]
            self.unpin(s, v, fid)
            res.append((s, v))
        return self.compact(res, fr, fid)

    def unpin(self, st, v, fid):
        """forget what a call that has ended had put aside, unless something refers to it"""
        mine = {k for k in st.mem if k[0] == 'pin' and isinstance(k[1], tuple) and k[1] and k[1][0] == fid}
        if not mine:
            return
        live, todo = set(), [k for k in st.mem if (isinstance(k[0], int) or k[0] == 'pin') and k not in mine]
        refs_of(v, todo)
        while todo:
            k = todo.pop()
            if k not in live:
                live.add(k)
                if st.mem.get(k) is not None:
                    refs_of(st.mem[k], todo)
        for k in mine - live:
            del st.mem[k]

    def compact(self, res, fr, fid):
        """join the results of a call that agree on their shape"""
        if len(res) <= 1:
            return res
        for s, v in res:
            s.mem[(fid, 'ret')] = v
        sts = self.merge([s for s, _ in res], None)
        out = []
        for s in sts:
            v = s.mem.pop((fid, 'ret'))
            out.append((s, v))
        return out

    def gc(self, st):
        """forget heap cells that nothing refers to"""
        live = set()
        todo = [k for k in st.mem if isinstance(k[0], int) or k[0] == 'pin']
        while todo:
            k = todo.pop()
            if k in live:
                continue
            live.add(k)
            v = st.mem.get(k)
            if v is not None:
                refs_of(v, todo)
        for k in [k for k in st.mem if k not in live and k[0] != 'k']:
            del st.mem[k]
        forget(st)

    def run(self, fr, st):
        body = fr.body
        self.stats['functions'].add(body.name)
        pend = {0: [st]}
        rets = []
        self.wto(fr, body.wto, pend, rets)
        if len(rets) > 1:
            rets = self.merge(rets, None)
        return rets

    def wto(self, fr, elems, pend, rets):
        for el in elems:
            if isinstance(el, tuple):
                self.loop(fr, el[0], el[1], pend, rets)
            else:
                sts = pend.pop(el, None)
                if not sts:
                    continue
                for s in self.enter(fr, el, sts):
                    self.block(fr, el, s, pend, rets)

    def enter(self, fr, b, sts):
        live = fr.body.live_in[b]
        bor = fr.body.borrowed
        fid = fr.fid
        for s in sts:
            for k in [k for k in s.mem if k[0] == fid and k[1] not in live and k[1] not in bor]:
                del s.mem[k]
        if len(sts) == 1:
            return sts
        return self.merge(sts, fr)

    def merge(self, sts, fr, cap=None):
        cap = cap or self.flags.get('cap') or self.CAP
        for s in sts:
            self.gc(s)
        if self.flags.get('exact') and len(sts) <= cap:
            return sts
        levels = [-1, 0, 0.5, 1, 2, 3]
        level = levels.pop(0)
        while True:
            groups = {}
            for s in sts:
                # first only what also agrees on which integers are equal
                k = skeleton(s, level) if level >= 0 else (skeleton(s, 0), eqpattern(s))
                if self.flags.get('lens') and level < 2:
                    k = (k, lenpattern(s))
                groups.setdefault(k, []).append(s)
            out = []
            for g in groups.values():
                a = g[0]
                for b in g[1:]:
                    a = self.join(a, b)
                out.append(a)
            if len(out) <= cap or not levels:
                break
            sts = out
            level = levels.pop(0)
        if len(out) > cap:
            # beyond the cap everything that has the same references is joined
            pass
        return out

    def join(self, a, b):
        self.stats['joins'] += 1
        if a is b:
            return a
        return Joiner(a, b).run()

    def loop(self, fr, head, inner, pend, rets):
        sts = pend.pop(head, None)
        if not sts:
            return
        if self.flags.get('exact'):
            # a bounded analysis follows every turn of the loop on its own
            inner_set, turns = {head}, 0
            collect_blocks(inner, inner_set)
            while sts:
                turns += 1
                if turns > (2000 if self.flags['exact'] is True else self.flags['exact']):
                    raise Unsupported(f'too many turns of a loop in {fr.inst["name"]}')
                local = {}
                self.block(fr, head, sts.pop(), local, rets)
                self.wto(fr, inner, local, rets)
                sts += self.enter(fr, head, local.pop(head, []))
                for k, v in local.items():
                    if k not in inner_set:
                        pend.setdefault(k, []).extend(v)
            return
        entry = self.enter(fr, head, sts)
        heads = [LoopHead(s) for s in self.group_head(entry)]
        base_pend = pend
        it = 0
        while True:
            it += 1
            mark = [r.mark() for r in self.rules]
            local = {}
            lrets = []
            inner_set = set()
            collect_blocks(inner, inner_set)
            inner_set.add(head)
            meas = self.snapshot(fr, head, heads) if self.flags.get('loops') else None
            for h in heads:
                st = h.st.copy()
                if meas:
                    self.pin_measures(st, fr, head, meas)
                self.block(fr, head, st, local, lrets)
            self.wto(fr, inner, local, lrets)
            back = local.pop(head, [])
            ranked = self.ranking(fr, head, meas, back) if meas is not None else None
            if meas:
                for k, v in local.items():
                    if k not in inner_set:
                        for x in v:
                            x.mem.pop(('pin', 'loop', fr.fid, head), None)
                for x in lrets:
                    x.mem.pop(('pin', 'loop', fr.fid, head), None)
            back = self.enter(fr, head, back) if back else []
            changed = False
            for b in back:
                if self.absorb(heads, b, it):
                    changed = True
            if not changed:
                if meas is not None and back:
                    self.fire('loop', heads[0].st, fr, measure=ranked, head=head)
                for k, v in local.items():
                    if k not in inner_set:
                        base_pend.setdefault(k, []).extend(v)
                rets.extend(lrets)
                return
            for r, m in zip(self.rules, mark):
                r.reset(m)
            if it > 25:
                raise Unsupported(f'loop in {fr.inst["name"]} does not stabilise')

    def loop_leaves(self, st, fr):
        from .recur import leaves
        ks = sorted((k for k in st.mem if k[0] == fr.fid and isinstance(k[1], int)), key=lambda k: k[1])
        lv = leaves(self, st, [st.mem[k] for k in ks])
        return {(ks[p[0]][1],) + p[1:]: x[1] for p, x in lv.items() if x[0] != 'val'}

    def snapshot(self, fr, head, heads):
        """the integers that every state at the head of a loop has"""
        common = None
        for h in heads:
            ps = set(self.loop_leaves(h.st, fr))
            common = ps if common is None else common & ps
        return sorted(common, key=repr)[:60]

    def pin_measures(self, st, fr, head, paths):
        lv = self.loop_leaves(st, fr)
        st.mem[('pin', 'loop', fr.fid, head)] = VAgg(None, [VInt(lv[p]) for p in paths])

    def ranking(self, fr, head, paths, back):
        """an integer that every turn of the loop moves towards a bound that stays put"""
        cands = None
        for s in back:
            lv = self.loop_leaves(s, fr)
            old = s.mem.pop(('pin', 'loop', fr.fid, head), None)
            if old is None:
                return None if paths or not back else None
            was = {p: old.fs[i].l for i, p in enumerate(paths)}
            fixed = [was[p] for p in paths if p in lv and s.facts.equal(lv[p], was[p])]
            fixed += [K(0)]
            good = set()
            for p in paths:
                if p not in lv or (cands is not None and p not in cands):
                    continue
                d = lv[p] - was[p]
                if s.facts.implies(d - 1) and any(s.facts.implies(m - was[p]) for m in fixed):
                    good.add(p)
                elif s.facts.implies(-d - 1) and s.facts.implies(was[p]):
                    good.add(p)
            cands = good
            if not good:
                return None
        return sorted(cands, key=repr)[0] if cands else None

    def group_head(self, sts):
        groups = {}
        for s in sts:
            groups.setdefault((skeleton(s, 1), eqpattern(s)), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a = self.join(a, b)
            out.append(a)
        return out

    def absorb(self, heads, b, it):
        """join b into one of the heads; True when the head changed"""
        self.gc(b)
        sk = (skeleton(b, 1), eqpattern(b))
        cands = [h for h in heads if (skeleton(h.st, 1), eqpattern(h.st)) == sk]
        if not cands:
            if len(heads) < 6 and it <= 6:
                heads.append(LoopHead(b))
                return True
            cands = [h for h in heads if skeleton(h.st, 1) == sk[0]]
            if not cands:
                cands = [h for h in heads if skeleton(h.st, 3) == skeleton(b, 3)]
            if not cands:
                if len(heads) < 40 and it <= 15:
                    heads.append(LoopHead(b))
                    return True
                raise Unsupported('too many shapes at a loop head')
        # included already?
        for h in cands:
            if not h.fresh_join(self, b, dry=True):
                return False
        return cands[0].fresh_join(self, b)

    # ------------------------------------------------------------ blocks
    def block(self, fr, bi, st, pend, rets):
        self.stats['blocks'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget('time limit reached')
        b = fr.body.blocks[bi]
        states = [st]
        for si, s in enumerate(b['s']):
            nxt = []
            for x in states:
                self.at = (fr.fid, bi, si)
                try:
                    nxt.extend(self.stmt(fr, (bi, si), s, x))
                except (Unsupported, AttributeError, TypeError, KeyError, IndexError, ValueError) as ex:
                    nxt.extend(self.not_understood(fr, x, s[1], None, ex, s[3] if len(s) > 3 else None))
            states = nxt
            if not states:
                return
        t = b['t']
        for x in states:
            self.at = (fr.fid, bi)
            try:
                nx = self.term(fr, bi, t, x, rets)
            except (Unsupported, AttributeError, TypeError, KeyError, IndexError, ValueError) as ex:
                nx = []
                if t['k'] == 'call' and t.get('b') is not None:
                    nx = [(t['b'], y) for y in self.not_understood(fr, x, t['d'], t.get('dt'), ex, t.get('sp'))]
                else:
                    self.not_understood(fr, x, None, None, ex, t.get('sp'))
                    nx = [(b, x.copy()) for b in fr.body.succ[bi]]
            for succ, y in nx:
                pend.setdefault(succ, []).append(y)

    def not_understood(self, fr, st, place, ty, ex, sp):
        """a construct the analysis has no rule for: its result is unknown"""
        if self.strict:
            raise ex
        self.fire('not understood', st, fr, why=str(ex) or type(ex).__name__, sp=sp)
        st.set_ghost(**{'~nu': True})
        if place is not None:
            if ty is None:
                ty = fr.inst['locals'][place[0]] if len(place) == 1 else None
                for e in place[1:]:
                    if isinstance(e, list) and e[0] == 'f':
                        ty = e[2]
            try:
                self.assign(st, fr, place, self.top(ty, st) if ty is not None else VTop(None))
            except (Unsupported, AttributeError, TypeError, KeyError, IndexError, ValueError):
                pass
        return [st]

    strict = False

    def assign(self, st, fr, p, val):
        if len(p) == 1:
            st.mem[(fr.fid, p[0])] = val
            return
        root, path, win = self.place(st, fr, p)
        if win is not None:
            raise Unsupported('assign to unsized')
        self.store(st, root, path, val)
        self.fire('store', st, fr, root=root, path=path, val=val, place=p)

    def stmt(self, fr, pt, s, st):
        k = s[0]
        if k == 'dead':
            st.mem.pop((fr.fid, s[1]), None)
            return [st]
        if k == 'setdisc':
            v = self.read_place(st, fr, s[1])
            raise Unsupported('set discriminant')
        if k != '=':
            return [st]
        out = []
        for st2, v in self.rvalue(fr, pt, s[2], st):
            self.assign(st2, fr, s[1], v)
            out.append(st2)
        return out

    def rvalue(self, fr, pt, r, st):
        k = r['k']
        if k == 'use':
            return [(st, self.operand(st, fr, r['o']))]
        if k in ('ref', 'rawptr'):
            return [(st, self.ref(st, fr, r, (fr.fid, pt)))]
        if k == 'bin':
            return self.binop(fr, r, st)
        if k == 'un':
            return [(st, self.unop(fr, r, st))]
        if k == 'cast':
            return self.results(self.cast(fr, r, st), st)
        if k == 'disc':
            return self.disc(fr, r, st)
        if k in ('tuple', 'closure', 'coroutine'):
            return [(st, VAgg(r['ty'], [self.operand(st, fr, o) for o in r['v']]))]
        if k == 'adt':
            t = self.P.ty(r['ty'])
            fs = [self.operand(st, fr, o) for o in r['v']]
            if t.get('ak') == 'enum':
                return [(st, VEnum(r['ty'], {r['var']: tuple(fs)}))]
            if t.get('ak') == 'union':
                return [(st, VAgg(r['ty'], fs))]
            m = self.models.ctors.get(t['path'])
            if m:
                return [(st, m(self, st, r['ty'], fs))]
            return [(st, VAgg(r['ty'], fs))]
        if k == 'array':
            t = self.P.ty(r['ty'])
            fs = [self.operand(st, fr, o) for o in r['v']]
            if t['e'] == self.P.u8:
                return [(st, VSeq(K(len(fs)), None, None, norm_segs(tuple(('b', f.l) for f in fs)), t['e']))]
            return [(st, VSeq(K(len(fs)), tuple(fs), None, None, t['e']))]
        if k == 'repeat':
            t = self.P.ty(r['ty'])
            v = self.operand(st, fr, r['o'])
            n = r.get('n')
            ln = K(n) if n is not None else fresh(0, ISIZE_MAX)
            if t['e'] == self.P.u8:
                return [(st, VSeq(ln, None, None, norm_segs((('fill', v.l, ln),)), t['e']))]
            if n is not None and n <= 32:
                return [(st, VSeq(ln, (v,) * n, None, None, t['e']))]
            return [(st, VSeq(ln, None, v, None, t['e']))]
        raise Unsupported('rvalue ' + k)

    def ref(self, st, fr, r, site):
        root, path, win = self.place(st, fr, r['p'])
        mut = bool(r.get('mut'))
        if win is not None:
            return VSlice(win.root, win.path, win.off, win.len, mut)
        # elements of a sequence without individual identity are referred to through a copy
        for i, p in enumerate(path):
            if p[0] == 'e':
                q = self.load(st, root, path[:i])
                if isinstance(q, VSeq) and q.elems is not None and p[1].const() is not None:
                    continue
                v = self.load(st, root, path[:i + 1])
                if mut:
                    self.havoc_elems(st, root, path[:i], q)
                loc = self.alloc(st, site, v)
                return VRef(loc, path[i + 1:], mut)
        v = self.load(st, root, path) if path or root in st.mem else None
        if isinstance(v, VTop):
            n = self.expand(v, st)
            if not isinstance(n, VTop):
                self.store(st, root, path, n)
                v = n
        if isinstance(v, VSeq):
            # a reference to an unsized place is a slice; to an array or vector, a plain reference
            t = self.P.ty(r['ty'])
            e = self.P.ty(t['e']) if t.get('e') is not None else None
            if e and e['k'] in ('slice', 'str'):
                return VSlice(root, path, K(0), v.len, mut)
        return VRef(root, path, mut)

    def havoc_elems(self, st, root, path, q):
        segs = None if q.segs is None else (('sub', new_id('w'), K(0), q.len),)
        self.store(st, root, path, VSeq(q.len, None, None, segs, q.ety))

    def elem_ref(self, st, sl, i, site, mut=False):
        """reference to element i of a slice or sequence reference"""
        root, path, off, _ = self.seq_at(st, sl)
        q = self.load(st, root, path)
        c = (off + i).const()
        if isinstance(q, VSeq) and q.elems is not None and c is not None and c < len(q.elems):
            return VRef(root, path + (('e', off + i),), mut)
        v = self.load(st, root, path + (('e', off + i),))
        if mut:
            self.havoc_elems(st, root, path, q)
        return VRef(self.alloc(st, site, v), (), mut)

    def seq_at(self, st, r):
        """(root, path, off, len) of the sequence a reference denotes"""
        for _ in range(6):
            if isinstance(r, VSlice):
                return r.root, r.path, r.off, r.len
            if isinstance(r, VRef):
                v = self.load(st, r.root, r.path)
                if isinstance(v, VTop):
                    n = self.expand(v, st)
                    if not isinstance(n, VTop):
                        self.store(st, r.root, r.path, n)
                        v = n
                if isinstance(v, VSeq):
                    return r.root, r.path, K(0), v.len
                if isinstance(v, VMod) and v.kind in ('box', 'arc', 'pin', 'cow') and isinstance(v.fs[0], VSeq):
                    return r.root, r.path + (('b',),), K(0), v.fs[0].len
                if isinstance(v, VMod) and v.kind in ('box', 'pin', 'cow'):
                    r = v.fs[0]
                    continue
                if isinstance(v, (VRef, VSlice)):
                    r = v
                    continue
            break
        raise Unsupported(f'sequence expected, found {r}')

    def seq_val(self, st, r):
        """the sequence a reference (or a value) denotes, as a value"""
        if isinstance(r, VSeq):
            return r
        if isinstance(r, VMod) and r.kind in ('cow', 'box') and isinstance(r.fs[0], VSeq):
            return r.fs[0]
        root, path, off, ln = self.seq_at(st, r)
        return window(self.load(st, root, path), off, ln, st.facts)

    def disc(self, fr, r, st):
        root, path, win = self.place(st, fr, r['p'])
        v = self.load(st, root, path)
        return self.disc_of(st, root, path, v)

    def disc_of(self, st, root, path, v):
        if isinstance(v, VTop):
            n = self.expand(v, st)
            if isinstance(n, VTop):
                return [(st, VInt(fresh(0, 255, 'disc')))]
            self.store(st, root, path, n)
            v = n
        if not isinstance(v, VEnum):
            if isinstance(v, VMod) and v.kind == 'tagged':
                return [(st, VInt(v.fs[0]))]
            return [(st, VInt(fresh(None, None, 'disc')))]
        t = self.P.ty(v.ty)
        out = []
        items = list(v.vs.items())
        for n, (i, fs) in enumerate(items):
            s2 = st if n == len(items) - 1 else st.copy()
            if len(items) > 1:
                self.store(s2, root, path, VEnum(v.ty, {i: fs}))
                if not s2.assume_list(v.att.get(i, ())):
                    continue
            d = t['v'][i].get('d', i)
            out.append((s2, VInt(K(int(d)))))
        return out

    def split_enum(self, st, root, path):
        """[(state, variant, fields)]"""
        v = self.load(st, root, path)
        if isinstance(v, VTop):
            n = self.expand(v, st)
            self.store(st, root, path, n)
            v = n
        if not isinstance(v, VEnum):
            raise Unsupported(f'enum expected, found {v}')
        out = []
        items = list(v.vs.items())
        for n, (i, fs) in enumerate(items):
            s2 = st if n == len(items) - 1 else st.copy()
            if len(items) > 1:
                self.store(s2, root, path, VEnum(v.ty, {i: fs}))
                if not s2.assume_list(v.att.get(i, ())):
                    continue
            out.append((s2, i, fs))
        return out

    def variants(self, st, v):
        """split on the variants of a value: [(state, variant, fields)]"""
        v = self.expand(v, st)
        if not isinstance(v, VEnum):
            raise Unsupported(f'enum expected, found {v}')
        out = []
        items = list(v.vs.items())
        for n, (i, fs) in enumerate(items):
            s2 = st if n == len(items) - 1 else st.copy()
            if len(items) > 1 and not s2.assume_list(v.att.get(i, ())):
                continue
            out.append((s2, i, fs))
        return out

    # ------------------------------------------------------------ arithmetic
    def wrap(self, l, t, st, name=''):
        """l as a value of int type t; a fresh value when it may not fit"""
        lo, hi = int_range(t)
        if st.facts.implies(l - lo) and st.facts.implies(K(hi) - l):
            return l
        return None

    def mul(self, a, b, st):
        if a.const() is not None:
            return b * a.const()
        if b.const() is not None:
            return a * b.const()
        x, y = (a, b) if repr(a) <= repr(b) else (b, a)
        m = term(('mul', x, y), None, None, 'mul')
        f = st.facts
        if f.implies(x) and f.implies(y):
            for c in (m, ):
                n = st.facts.add_ge(c)
                st.facts = n or st.facts
            if f.implies(y - 1):
                st.facts = st.facts.add_ge(m - x) or st.facts
            if f.implies(x - 1):
                st.facts = st.facts.add_ge(m - y) or st.facts
            # (x + c) * y against x * y for products already named
            for (t2, s2) in list(S.intern.items()):
                if t2[0] != 'mul' or V(s2) == m:
                    continue
                for p, q in ((x, y), (y, x)):
                    for r, u in ((t2[1], t2[2]), (t2[2], t2[1])):
                        if q == u:
                            d = p - r
                            if d.const() is not None:
                                st.facts = st.facts.add_eq(m - V(s2) - q * d.const()) or st.facts
                            elif f.implies(d):
                                st.facts = st.facts.add_ge(m - V(s2)) or st.facts
                            elif f.implies(d - 1):
                                st.facts = st.facts.add_ge(m - V(s2) - q) or st.facts
        return m

    def divrem(self, a, b, st):
        c = b.const()
        if c and c > 0 and c & (c - 1) == 0 and a.t:
            d, k = bits_of(a), c.bit_length() - 1
            if d is not None:
                return of_bits({i - k: s for i, s in d.items() if i >= k}), of_bits({i: s for i, s in d.items() if i < k})
        q = term(('div', a, b), 0, U64, 'div')
        r = term(('rem', a, b), 0, U64, 'rem')
        if b.const() is not None:
            c = b.const()
            if c:
                for x in (a - q * c - r,):
                    st.facts = st.facts.add_eq(x) or st.facts
                st.facts = st.facts.add_ge(K(c - 1) - r) or st.facts
        else:
            st.facts = st.facts.add_ge(b - r - 1) or st.facts
            m = self.mul(q, b, st)
            st.facts = st.facts.add_eq(a - m - r) or st.facts
            st.facts = st.facts.add_ge(a - q) or st.facts
        return q, r

    def binop(self, fr, r, st):
        op = r['op']
        a, b = self.operand(st, fr, r['a']), self.operand(st, fr, r['b'])
        at = self.P.ty(r['at'])
        return [(st, self.bin_val(op, a, b, at, r['ty'], st))]

    def bin_val(self, op, a, b, at, ty, st):
        if isinstance(a, VTop):
            a = self.expand(a, st)
        if isinstance(b, VTop):
            b = self.expand(b, st)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return VBool(self.compare(op, a, b, st))
        if isinstance(a, VBool) and isinstance(b, VBool):
            f, g = a.f, b.f
            if op == 'BitAnd':
                return VBool(fand(f, g))
            if op == 'BitOr':
                return VBool(fnot(fand(fnot(f), fnot(g))))
            if op == 'BitXor':
                if f in (True, False):
                    return VBool(fnot(g) if f else g)
                if g in (True, False):
                    return VBool(fnot(f) if g else f)
                return VBool(('or', ('and', f, fnot(g)), ('and', fnot(f), g)))
        if not (isinstance(a, VInt) and isinstance(b, VInt)):
            return self.top(ty, st)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        x, y = a.l, b.l
        lo, hi = int_range(at)
        exact = None
        if base == 'Add':
            exact = x + y
        elif base == 'Sub':
            exact = x - y
        elif base == 'Mul':
            exact = self.mul(x, y, st)
        elif base in ('Div', 'Rem'):
            if st.facts.implies(x) and st.facts.implies(y - 1):
                q, m = self.divrem(x, y, st)
                return VInt(q if base == 'Div' else m)
            return self.top(ty, st)
        elif base in ('Shl', 'Shr'):
            return VInt(self.shift(base, x, y, at, st))
        elif base in ('BitAnd', 'BitOr', 'BitXor'):
            return VInt(self.bits(base, x, y, at, st))
        else:
            return self.top(ty, st)
        if op.endswith('WithOverflow'):
            inr = fand(('ge', exact - lo), ('ge', K(hi) - exact))
            t = st.truth(inr)
            if t is True:
                return VAgg(ty, (VInt(exact), VBool(False)))
            return VAgg(ty, (VInt(exact), VBool(fnot(inr) if t is None else True)))
        w = self.wrap(exact, at, st)
        if w is not None:
            return VInt(w)
        if op.endswith('Unchecked'):
            return VInt(exact)
        return VInt(term(('wrap', at['s'], exact), lo, hi, 'wrap'))

    def shift(self, base, x, y, at, st):
        lo, hi = int_range(at)
        c = y.const()
        if c is not None and 0 <= c < at['bits'] and at['k'] == 'uint' and x.t:
            d = bits_of(x)
            if d is not None:
                d = {k + (c if base == 'Shl' else -c): s for k, s in d.items()}
                return of_bits({k: s for k, s in d.items() if 0 <= k < at['bits']})
        if c is not None and 0 <= c < at['bits']:
            if base == 'Shl':
                r = x * (1 << c)
                if self.wrap(r, at, st) is not None:
                    return r
            else:
                if x.const() is not None:
                    return K(x.const() >> c)
                if at['k'] == 'uint':
                    return self.divrem(x, K(1 << c), st)[0]
        if base == 'Shr' and at['k'] == 'uint':
            r = term(('shr', x, y), lo, hi, 'shr')
            st.facts = st.facts.add_ge(x - r) or st.facts
            return r
        return term((base, at['s'], x, y), lo, hi, 'sh')

    def bits(self, base, x, y, at, st):
        lo, hi = int_range(at)
        if x.const() is not None and y.const() is not None:
            a, b = x.const(), y.const()
            return K(a & b if base == 'BitAnd' else a | b if base == 'BitOr' else a ^ b)
        for p, q in ((x, y), (y, x)):
            d = bits_of(p) if p.t and q.const() is not None and q.const() >= 0 else None
            if d is not None:
                if base == 'BitAnd':
                    return of_bits({k: s for k, s in d.items() if q.const() >> k & 1})
                if base == 'BitOr':
                    return of_bits({k: s for k, s in d.items() if not q.const() >> k & 1}) + q
        if base == 'BitAnd':
            for p, q in ((x, y), (y, x)):
                c = p.const()
                if c is not None and c >= 0 and (c & (c + 1)) == 0 and at['k'] == 'uint':
                    if st.facts.implies(K(c) - q):
                        return q
                    return self.divrem(q, K(c + 1), st)[1]
            r = term(('and', x, y), lo, hi, 'and')
            if at['k'] == 'uint':
                for p in (x, y):
                    st.facts = st.facts.add_ge(p - r) or st.facts
            return r
        # disjoint bits: an addition
        for p, q in ((x, y), (y, x)):
            g = p.c
            for _, k in p.t:
                g = gcd(g, k)
            g = abs(g)
            if g and (g & -g) > 1:
                low = g & -g
                if st.facts.implies(q) and st.facts.implies(K(low - 1) - q):
                    return x + y
        return term((base, x, y), lo, hi, 'bit')

    def compare(self, op, a, b, st):
        if isinstance(a, VInt) and isinstance(b, VInt):
            d = a.l - b.l
            f = {'Eq': ('eq', d), 'Ne': ('not', ('eq', d)), 'Ge': ('ge', d), 'Gt': ('ge', d - 1),
                 'Le': ('ge', -d), 'Lt': ('ge', -d - 1)}[op]
            t = st.truth(f)
            return f if t is None else t
        if isinstance(a, VBool) and isinstance(b, VBool):
            f, g = a.f, b.f
            if op in ('Eq', 'Ne'):
                for p, q in ((f, g), (g, f)):
                    if p is True or p is False:
                        r = q if p else fnot(q)
                        return r if op == 'Eq' else fnot(r)
        return ('atom', new_id('b')[1])

    def unop(self, fr, r, st):
        v = self.operand(st, fr, r['o'])
        if r['op'] == 'Not':
            if isinstance(v, VBool):
                return VBool(fnot(v.f))
            return self.top(r['ty'], st)
        if r['op'] == 'PtrMetadata':
            if isinstance(v, VSlice):
                return VInt(v.len)
            return self.top(r['ty'], st)
        if r['op'] == 'Neg' and isinstance(v, VInt):
            return VInt(-v.l)
        return self.top(r['ty'], st)

    def cast(self, fr, r, st):
        v = self.operand(st, fr, r['o'])
        c = r['c']
        to = self.P.ty(r['ty'])
        if c.startswith('IntToInt'):
            if isinstance(v, VBool):
                if v.f in (True, False):
                    return VInt(K(int(v.f)))
                out = []
                for x in (True, False):
                    s = st.copy()
                    if s.assume(v.f, x):
                        out.append((s, VInt(K(int(x)))))
                return out
            if isinstance(v, VInt):
                w = self.wrap(v.l, to, st)
                if w is not None:
                    return VInt(w)
                lo, hi = int_range(to)
                return VInt(term(('cast', to['s'], v.l), lo, hi, 'cast'))
            return self.top(r['ty'], st)
        if c.startswith('PointerCoercion'):
            if 'Unsize' in c:
                t = self.P.ty(r['ty'])
                e = self.P.ty(t['e']) if t.get('e') is not None else None
                if e and e['k'] in ('slice', 'str') and isinstance(v, VRef):
                    q = self.load(st, v.root, v.path)
                    if isinstance(q, VSeq):
                        return VSlice(v.root, v.path, K(0), q.len, v.mut)
                return v
            if 'Closure' in c and isinstance(v, VAgg):
                return v
            return v
        if c.startswith('Transmute'):
            if isinstance(v, VInt) and to['k'] in ('uint', 'int'):
                return v
            return self.models.transmute(self, v, r['ty'], st)
        if c.startswith('PtrToPtr') or c.startswith('FnPtrToPtr'):
            return v
        return self.top(r['ty'], st)

    # ------------------------------------------------------------ terminators
    def term(self, fr, bi, t, st, rets):
        k = t['k']
        if k == 'goto':
            return [(t['b'], st)]
        if k == 'ret':
            rets.append(st)
            return []
        if k in ('unreachable', 'resume'):
            return []
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'drop':
            self.models.drop(self, fr, t, st)
            return [(t['b'], st)]
        if k == 'yield':
            return []
        if k == 'assert':
            return self.do_assert(fr, bi, t, st)
        if k == 'call':
            out = []
            for s, v in self.call(fr, bi, t, st):
                if t.get('b') is None:
                    continue
                self.assign(s, fr, t['d'], v)
                out.append((t['b'], s))
            return out
        raise Unsupported('terminator ' + k)

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t['d'])
        out = []
        if isinstance(v, VTop):
            v = self.expand(v, st)
        if isinstance(v, VBool):
            tv = st.truth(v.f)
            for val, b in t['t']:
                want = bool(int(val))
                if tv is not None:
                    if tv == want:
                        return [(b, st)]
                    continue
                s = st.copy()
                if s.assume(v.f, want):
                    out.append((b, s))
            if t.get('o') is not None:
                seen = [bool(int(x)) for x, _ in t['t']]
                for want in (True, False):
                    if want not in seen:
                        if tv is not None:
                            if tv == want:
                                return [(t['o'], st)]
                            continue
                        s = st.copy()
                        if s.assume(v.f, want):
                            out.append((t['o'], s))
            return out
        if not isinstance(v, VInt):
            raise Unsupported(f'switch on {type(v).__name__}')
        c = v.l.const()
        if c is not None:
            for val, b in t['t']:
                if int(val) == c:
                    return [(b, st)]
            return [(t['o'], st)] if t.get('o') is not None else []
        other = st.copy()
        ok = True
        for val, b in t['t']:
            s = st.copy()
            if s.assume(('eq', v.l - int(val))):
                out.append((b, s))
            if ok and not other.assume(('eq', v.l - int(val)), False):
                ok = False
        if ok and t.get('o') is not None:
            out.append((t['o'], other))
        return out

    def do_assert(self, fr, bi, t, st):
        v = self.operand(st, fr, t['c'])
        want = t['e']
        f = v.f if want else fnot(v.f)
        m = t.get('m') or 'assert'
        if m == 'overflow' and self.small_counter(fr, t, st):
            st.assume(f)
            return [(t['b'], st)]
        if not self.oblige(st, fr, m, f, sp=t.get('sp')):
            return []
        return [(t['b'], st)]

    def small_counter(self, fr, t, st):
        """Assumption: a 64 bit counter that goes up by a small constant never reaches 2^64."""
        o = t.get('o')
        if not self.assume_small_counters or not o or o[0] != 'Add':
            return False
        for x in o[1:]:
            if x[0] == 'k' and 'int' in x[1] and 0 <= int(x[1]['int']) <= 64:
                ty = self.P.ty(x[1]['ty'])
                return ty['k'] in ('uint', 'int') and ty['bits'] >= 64
        return False

    def call(self, fr, bi, t, st):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['a']]
        if f.get('ptr') is not None:
            p = self.operand(st, fr, f['ptr'])
            return self.call_value(p, args, st, fr, bi, t, tupled=False)
        return self.call_fn(f, args, st, fr, bi, t)

    def call_fn(self, f, args, st, fr, site, t):
        """f: callee description"""
        if f.get('ctor'):
            return self.models.ctor(self, f, args, st, t)
        names = [n for n in (f.get('resolved'), f.get('path')) if n]
        self.fire('call', st, fr, f=f, args=args, t=t)
        if f.get('unsafe') and str(fr.inst.get('span') or '').startswith('src/') and not GENERATED.search(f.get('path') or ''):
            self.fire('unchecked', st, fr, f=f, args=args, t=t)
        for n in names:
            m = self.models.get(n, f)
            if m is not None:
                self.stats['models'].add(n)
                c = Ctx(self, fr, site, f, t)
                r = m(c, st, *args)
                if r is NotImplemented:
                    continue
                return self.results(r, st)
        if f.get('kind') == 'closure_once' and f.get('once_inst'):
            return self.call_value(args[0], list(args[1].fs) if isinstance(args[1], VAgg) else args[1:], st, fr, site, t)
        if f.get('kind') in ('fnptr',):
            return self.call_value(args[0], args[1:], st, fr, site, t, tupled=True)
        if f.get('inst'):
            d = self.P.inst[f['inst']]
            m = self.models.local(self, d)
            if m is not None:
                return self.results(m(Ctx(self, fr, site, f, t), st, *args), st)
            return self.call_inst(f['inst'], args, st, fr, site)
        return self.results(self.models.unknown(Ctx(self, fr, site, f, t), st, *args), st)

    def results(self, r, st):
        if r is None:
            return []
        if isinstance(r, list):
            return r
        return [(st, r)]

    def call_value(self, fv, args, st, fr, site, t, tupled=False):
        """call a closure, function item or function pointer with plain arguments"""
        if tupled and len(args) == 1 and isinstance(args[0], VAgg):
            args = list(args[0].fs)
        v = fv
        holder = None
        for _ in range(5):
            if isinstance(v, VRef):
                holder = v
                v = self.load(st, v.root, v.path)
            elif isinstance(v, VMod) and v.kind == 'box':
                if holder is not None:
                    holder = VRef(holder.root, holder.path + (('b',),), True)
                v = v.fs[0]
            else:
                break
        if isinstance(v, VFn):
            return self.call_fn(v.f, args, st, fr, ('fn', site), t)
        if isinstance(v, VAgg) and v.ty is not None and self.P.ty(v.ty)['k'] == 'closure':
            name = self.P.ty(v.ty)['inst']
            inst = self.P.inst[name]
            # does the closure body take itself by reference or by value?
            t0 = self.P.ty(inst['locals'][1])
            if t0['k'] == 'ref':
                if holder is None:
                    holder = VRef(self.alloc(st, (fr.fid, site, 'clo'), v), (), True)
                self_arg = holder
            else:
                self_arg = v
            if inst.get('spread') is not None:
                a = [self_arg, VAgg(None, args)]
            else:
                a = [self_arg] + list(args)
            return self.call_inst(name, a, st, fr, ('clo', site))
        return self.results(self.models.unknown_call(Ctx(self, fr, site, {'path': '?'}, t), st, fv, args), st)


class Ctx:
    __slots__ = ('e', 'fr', 'site', 'f', 't')

    def __init__(self, e, fr, site, f, t):
        self.e, self.fr, self.site, self.f, self.t = e, fr, site, f, t

    @property
    def ret_ty(self):
        return self.t.get('dt')

    def key(self, x=''):
        return (self.fr.fid, self.site, x)


class LoopHead:
    def __init__(self, st):
        self.st = st
        self.owned = set()
        self.later = False

    def fresh_join(self, eng, b, dry=False):
        # rename what this head owns: in b it denotes the previous iteration
        m, cm = {}, {}
        for x in self.owned:
            if isinstance(x, int):
                m[x] = V(S.fresh(S.lo[x], S.hi[x], S.name[x] + "'"))
            elif x[0] != 'own':
                cm[x] = new_id('old')
        rb = rename_state(b, m, cm) if self.owned else b
        owned = set(self.owned)
        J = Joiner(self.st, rb, owned)
        J.later = self.later
        st = J.run()
        if dry:
            return J.changed or not self.later
        self.owned = owned
        ch = J.changed or not self.later
        if ch:
            self.st = st
            eng.gc(self.st)
        self.later = True
        return ch


DECODE = re.compile(r'Decoder::decode$')


def decodes_template(eng, args, st):
    v = args[0] if args else None
    if isinstance(v, VRef):
        v = eng.load(st, v.root, v.path)
    if not isinstance(v, VAgg) or not any(isinstance(x, VInt) and x.l.const() == 0 for x in v.fs):
        return False
    qs = [x for x in v.fs if isinstance(x, VSeq)]
    return len(qs) == 1 and qs[0].segs is not None and well_formed(qs[0].segs)


def well_formed(segs):
    """bencode text made of constants and of decimal numbers"""
    b = b''
    for x in segs:
        if x[0] == 'c':
            b += x[1]
        elif x[0] == 'dec':
            b += b'\0'
        else:
            return False

    def val(i, depth):
        if depth > 8:
            raise ValueError
        if b[i:i + 1] == b'i':
            m = re.compile(rb'i(-?[0-9]+|\0)e').match(b, i)
            if not m:
                raise ValueError
            return m.end()
        if b[i:i + 1] in (b'l', b'd'):
            d = b[i:i + 1] == b'd'
            i += 1
            while b[i:i + 1] != b'e':
                if i >= len(b):
                    raise ValueError
                if d:
                    i = string(i)
                i = val(i, depth + 1)
            return i + 1
        return string(i)

    def string(i):
        m = re.compile(rb'([0-9]+):').match(b, i)
        if not m or m.end() + int(m.group(1)) > len(b) or b'\0' in b[m.end():m.end() + int(m.group(1))]:
            raise ValueError
        return m.end() + int(m.group(1))
    try:
        return val(0, 0) <= len(b)
    except ValueError:
        return False


def rename_state(st, m, cm):
    cache = {}
    mem = {}
    for k, v in st.mem.items():
        mem[k] = subst(v, m, cm)
    f = st.facts
    nf = Facts(frozenset(subst(l, m, cm) for l in f.ge), frozenset(subst(l, m, cm) for l in f.ne),
               {subst(a, m, cm): v for a, v in f.at.items()},
               frozenset(frozenset(norm_segs(subst(x, m, cm)) if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)) else subst(x, m, cm) for x in p) for p in f.ce))
    g = {k: subst(v, m, cm) if isinstance(v, (tuple, frozenset, Lin)) or isinstance(v, Val) else v for k, v in st.ghost.items()}
    return State(mem, nf, g)


def refs_of(v, out):
    if isinstance(v, (VRef, VSlice)):
        out.append(v.root)
    elif isinstance(v, (VAgg, VMod)):
        for x in v.fs:
            if isinstance(x, Val):
                refs_of(x, out)
    elif isinstance(v, VEnum):
        for fs in v.vs.values():
            for x in fs:
                refs_of(x, out)
    elif isinstance(v, VSeq):
        if v.elems is not None:
            for x in v.elems:
                refs_of(x, out)
        if v.summ is not None:
            refs_of(v.summ, out)


def collect_blocks(elems, out):
    for e in elems:
        if isinstance(e, tuple):
            out.add(e[0])
            collect_blocks(e[1], out)
        else:
            out.add(e)


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def fnot(f):
    if f is True or f is False:
        return not f
    if f[0] == 'not':
        return f[1]
    if f[0] == 'ge':
        return ('ge', -f[1] - 1)
    return ('not', f)


def fand(f, g):
    if f is False or g is False:
        return False
    if f is True:
        return g
    if g is True:
        return f
    return ('and', f, g)
