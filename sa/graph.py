"""The call graph of the monomorphic program.

An edge leads from a function to every function of the program that it calls, and, when it hands a
closure, a function item or a future to a library function, to the bodies of those (the library runs
them); not to what is handed to another thread, when `threads` is off."""
import re

OTHER_THREAD = re.compile(r'(spawn_blocking|std::thread::(spawn|scope|Builder::spawn|Scope::spawn)|web::block|SyncArbiter(::<\w+>)?::start|'
                          r'Arbiter::(spawn_fn|exec)|rayon::spawn)$')


def callee(f):
    """the name of a called function of a library, as precise as it is known"""
    return f.get('resolved') or f.get('path') or '?'


def insts_in(P, ty, out, seen, depth=0):
    """closures, futures and function items that occur in a type"""
    if ty is None or ty in seen or depth > 8:
        return
    seen.add(ty)
    t = P.ty(ty)
    if t.get('inst'):
        out.add(t['inst'])
    for k in ('a', 'e'):
        v = t.get(k)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, int):
                insts_in(P, x, out, seen, depth + 1)


class Graph:
    def __init__(self, P, threads=True):
        self.P, self.threads = P, threads
        self.memo = {}

    def calls(self, name):
        """[(kind, target, call terminator)]; kind 'in' for functions of the program, 'lib' otherwise"""
        if name in self.memo:
            return self.memo[name]
        P, out = self.P, []
        for b in P.inst[name]['blocks']:
            t = b['t']
            if t['k'] != 'call':
                continue
            f = t['f']
            if not isinstance(f, dict):
                continue
            to = {f[k] for k in ('inst', 'once_inst') if f.get(k) in P.inst}
            for x in to:
                out.append(('in', x, t))
            if not to:
                out.append(('lib', callee(f), t))
                if not self.threads and OTHER_THREAD.search(f.get('path') or ''):
                    continue
                s = set()
                for ty in t.get('at', []):
                    insts_in(P, ty, s, set())
                for x in sorted(s):
                    if x in P.inst:
                        out.append(('in', x, t))
        self.memo[name] = out
        return out

    def walk(self, root):
        """every call that can be reached: (function, kind, target, terminator, chain of functions)"""
        seen, todo = {root: (root,)}, [root]
        while todo:
            n = todo.pop(0)
            for kind, x, t in self.calls(n):
                yield n, kind, x, t, seen[n]
                if kind == 'in' and x not in seen:
                    seen[x] = seen[n] + (x,)
                    todo.append(x)


def handlers(P):
    """[(name, actor, message, on the event loop)] of every message handler and life-cycle method of an actor"""
    out = []
    for n, i in P.inst.items():
        m = re.match(r'<(.+) as actix::(?:prelude::)?(Handler|StreamHandler|Actor)(?:<(.*)>)?>::(\w+)$', n)
        if not m or i['kind'] != 'fn':
            continue
        ctx = [P.s(i['locals'][k + 1]) for k in range(i['argc'])]
        out.append((n, m.group(1).split('::')[-1], (m.group(3) or m.group(4)).split('::')[-1], not any('SyncContext' in c for c in ctx)))
    return out


def web_handlers(P):
    """the bodies of the request handlers"""
    out = [n for n, i in P.inst.items() if 'HttpServiceFactory>::register' in n and i['kind'] == 'coroutine']
    return out


def short(n):
    """a function name without module paths"""
    return re.sub(r'(\w+::)+(?=[A-Za-z_])', '', n)


def opaque(P, interesting, heavy=r'^std::net::|TcpStream|UdpSocket|ureq'):
    """functions of the program that never reach a library call of interest, do network operations, and
    get nothing that they could change: what they do is their result"""
    want, net = re.compile(interesting), re.compile(heavy)
    g = Graph(P)
    out = set()
    for n, i in P.inst.items():
        if i['kind'] != 'fn' or not str(i.get('span') or '').startswith('src/'):
            continue
        if any(not plain(P, i['locals'][k + 1], set()) for k in range(i['argc'])):
            continue
        hit = heavy_hit = False
        for _, kind, x, t, _ in g.walk(n):
            if kind == 'lib':
                hit = hit or want.search(x)
                heavy_hit = heavy_hit or net.search(x)
        if heavy_hit and not hit:
            out.add(n)
    return out


def plain(P, ty, seen):
    """whether nothing can be changed through a value of the type"""
    if ty in seen:
        return True
    seen.add(ty)
    t = P.ty(ty)
    if t['k'] in ('rawptr', 'ptr', 'dyn', 'fnptr', 'closure', 'coroutine') or t.get('mut'):
        return False
    if re.search(r'Cell<|Mutex<|RwLock<|Atomic|Addr<|Arc<|Rc<|Sender<', P.s(ty)):
        return False
    for k in ('a', 'e'):
        v = t.get(k)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, int) and not plain(P, x, seen):
                return False
    for v in t.get('v') or ():
        for f in v['f']:
            if isinstance(f[1], int) and not plain(P, f[1], seen):
                return False
    return True
