"""The extracted program: types, functions, control-flow structure."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d['types']
        self.inst = {}
        for i in d['instances']:
            self.inst.setdefault(i['name'], i)
        self.impls = d['impls']
        self.bodies = {}
        self._rec = self._reach = self._loops = None
        self.u8 = self.find_ty('u8')
        self.usize = self.find_ty('usize')
        self.unit = self.find_ty('()')

    def find_ty(self, s):
        for i, t in enumerate(self.types):
            if t['s'] == s:
                return i
        return None

    def ty(self, i):
        return self.types[i]

    def s(self, i):
        return self.types[i]['s'] if i is not None else '?'

    def body(self, name):
        b = self.bodies.get(name)
        if b is None:
            b = self.bodies[name] = Body(self.inst[name])
        return b

    def edges(self, i):
        """functions of the program that a function calls or whose closures it creates"""
        out = set()
        for b in i['blocks']:
            t = b['t']
            if t['k'] == 'call' and isinstance(t['f'], dict):
                for k in ('inst', 'once_inst'):
                    if t['f'].get(k):
                        out.add(t['f'][k])
                find_insts(t['a'], out)
            for s in b['s']:
                if s[0] == '=':
                    if s[2]['k'] in ('closure', 'coroutine') and s[2].get('inst'):
                        out.add(s[2]['inst'])
                    find_insts(s[2], out)
        return out

    def recursive(self):
        """{function: its strongly connected component}, for the recursive ones"""
        if self._rec is None:
            g = {n: [x for x in self.edges(i) if x in self.inst] for n, i in self.inst.items()}
            self._rec = {}
            for c in sccs(g):
                if len(c) > 1 or c[0] in g[c[0]]:
                    for n in c:
                        self._rec[n] = frozenset(c)
        return self._rec

    def reaches_recursive(self):
        """the functions from which a recursive one can be called"""
        if self._reach is None:
            rev = {}
            for n, i in self.inst.items():
                for x in self.edges(i):
                    rev.setdefault(x, set()).add(n)
            todo, self._reach = list(self.recursive()), set()
            while todo:
                n = todo.pop()
                for m in rev.get(n, ()):
                    if m not in self._reach:
                        self._reach.add(m)
                        todo.append(m)
        return self._reach

    def reaches_loop(self):
        if self._loops is None:
            rev = {}
            for n, i in self.inst.items():
                for x in self.edges(i):
                    rev.setdefault(x, set()).add(n)
            todo = [n for n in self.inst if any(isinstance(x, tuple) for x in self.body(n).wto)]
            self._loops = set(todo)
            while todo:
                n = todo.pop()
                for m in rev.get(n, ()):
                    if m not in self._loops:
                        self._loops.add(m)
                        todo.append(m)
        return self._loops

    def by_path(self, path):
        return [i for i in self.raw['instances'] if i['path'] == path]


def find_insts(o, out):
    if isinstance(o, dict):
        if isinstance(o.get('inst'), str):
            out.add(o['inst'])
        for v in o.values():
            find_insts(v, out)
    elif isinstance(o, list):
        for v in o:
            find_insts(v, out)


def sccs(g):
    """Tarjan, without recursion"""
    num, low, on, stack, out = {}, {}, set(), [], []
    for r in g:
        if r in num:
            continue
        todo = [(r, iter(g[r]))]
        num[r] = low[r] = len(num)
        stack.append(r)
        on.add(r)
        while todo:
            v, it = todo[-1]
            for w in it:
                if w not in num:
                    num[w] = low[w] = len(num)
                    stack.append(w)
                    on.add(w)
                    todo.append((w, iter(g[w])))
                    break
                elif w in on:
                    low[v] = min(low[v], num[w])
            else:
                todo.pop()
                if todo:
                    low[todo[-1][0]] = min(low[todo[-1][0]], low[v])
                if low[v] == num[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['b']]
    if k == 'switch':
        return [b for _, b in t['t']] + ([t['o']] if t.get('o') is not None else [])
    if k in ('drop', 'assert', 'yield'):
        return [t['b']]
    if k == 'call':
        return [t['b']] if t.get('b') is not None else []
    return []


class Body:
    def __init__(self, inst):
        self.inst = inst
        self.blocks = inst['blocks']
        self.name = inst['name']
        n = len(self.blocks)
        self.succ = [succs(b['t']) for b in self.blocks]
        self.wto = self._wto()
        self.borrowed = set()
        self.live_in = self._liveness()

    # Bourdoncle's weak topological order: list of block | (head, [..])
    def _wto(self):
        succ = self.succ
        num, stack, counter = {}, [], [0]
        import sys
        sys.setrecursionlimit(100000)

        def component(v):
            part = []
            for w in succ[v]:
                if num.get(w, 0) == 0:
                    visit(w, part)
            part.reverse()
            return (v, part)

        def visit(v, part):
            stack.append(v)
            counter[0] += 1
            num[v] = counter[0]
            head = num[v]
            loop = False
            for w in succ[v]:
                m = num.get(w, 0)
                if m == 0:
                    m = visit(w, part)
                if m <= head:
                    head = m
                    loop = True
            if head == num[v]:
                num[v] = float('inf')
                e = stack.pop()
                if loop:
                    while e != v:
                        num[e] = 0
                        e = stack.pop()
                    part.append(component(v))
                else:
                    part.append(v)
            return head

        part = []
        visit(0, part)
        part.reverse()
        return part

    def _liveness(self):
        use, kill, self_dead = [], [], []
        for b in self.blocks:
            u, d = set(), set()
            for s in b['s']:
                if s[0] == '=':
                    rv_uses(s[2], u, d, self.borrowed)
                    p = s[1]
                    if len(p) == 1:
                        d.add(p[0])
                    else:
                        if p[0] not in d:
                            u.add(p[0])
                        for e in p[1:]:
                            if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                                u.add(e[1])
                elif s[0] == 'setdisc':
                    if s[1][0] not in d:
                        u.add(s[1][0])
                elif s[0] == 'dead':
                    d.add(s[1])
            t = b['t']
            k = t['k']
            if k == 'switch':
                op_uses(t['d'], u, d)
            elif k == 'call':
                if isinstance(t['f'], dict) and t['f'].get('ptr') is not None:
                    op_uses(t['f']['ptr'], u, d)
                for a in t['a']:
                    op_uses(a, u, d)
                p = t['d']
                if len(p) == 1:
                    d.add(p[0])
                elif p[0] not in d:
                    u.add(p[0])
            elif k == 'assert':
                op_uses(t['c'], u, d)
                for o in t.get('o') or []:
                    op_uses(o, u, d)
            elif k == 'drop':
                pass
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use.append(u)
            kill.append(d)
        n = len(self.blocks)
        live = [set(u) for u in use]
        work = True
        while work:
            work = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                x = use[i] | (o - kill[i])
                if x != live[i]:
                    live[i] = x
                    work = True
        return live


def place_uses(p, u, d):
    if p[0] not in d:
        u.add(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
            u.add(e[1])


def op_uses(o, u, d):
    if o[0] in ('c', 'm'):
        place_uses(o[1], u, d)


def rv_uses(r, u, d, borrowed):
    k = r['k']
    if k in ('ref', 'rawptr'):
        p = r['p']
        place_uses(p, u, d)
        if '*' not in p:
            borrowed.add(p[0])
        return
    if k == 'disc':
        place_uses(r['p'], u, d)
        return
    for key, v in r.items():
        if key == 'k':
            continue
        walk_ops(v, u, d)


def walk_ops(v, u, d):
    if isinstance(v, list):
        if v and v[0] in ('c', 'm') and len(v) == 2 and isinstance(v[1], list):
            place_uses(v[1], u, d)
        elif v and isinstance(v[0], int) and all(isinstance(e, (int, list, str)) for e in v) and False:
            pass
        else:
            for x in v:
                if isinstance(x, list):
                    walk_ops(x, u, d)
