"""What may block, and who may wait for whom."""
import re
from .base import *
from ..graph import Graph, handlers, web_handlers, short

BLOCKING = [
    (r'^std::net::TcpStream::(connect|connect_timeout|peek)$|TcpStream as std::io::|std::net::TcpListener::(accept|incoming)|^std::net::UdpSocket::', 'socket operation'),
    (r'ToSocketAddrs(>)?::to_socket_addrs', 'name lookup'),
    (r'^std::fs::|std::fs::File as |os::unix::fs::FileExt::|^std::path::Path::(exists|try_exists|is_file|is_dir|metadata|canonicalize|read_dir)', 'file operation'),
    (r'^serde_json::(to_writer|to_writer_pretty|from_reader)', 'file operation'),
    (r'^std::thread::(sleep|sleep_ms|park|park_timeout)$', 'sleep'),
    (r'JoinHandle::<.*>::join$|ScopedJoinHandle.*::join$|^std::thread::scope$', 'thread join'),
    (r'mpsc::Receiver::<.*>::(recv|recv_timeout)$|mpsc::SyncSender::<.*>::send$|Condvar::wait|Barrier::wait', 'wait for another thread'),
    (r'^ureq::.*::(call|send|send_bytes|send_string|send_form|into_string|into_json)$|^reqwest::blocking', 'HTTP operation'),
    (r'^std::process::(Command::(output|status)|Child::wait)', 'wait for a process'),
    (r'block_on$', 'wait for a future'),
]
RX = [(re.compile(a), b) for a, b in BLOCKING]
IO_TY = re.compile(r'fs::File|net::TcpStream|dyn std::io::|ureq::|StreamInterface|std::io::Stdin')


def blocking(P, x, t):
    for r, what in RX:
        if r.search(x):
            return what
    if re.search(r'std::io::(Read|Write|BufRead|Seek)(>)?::', x) and t.get('at') and IO_TY.search(P.s(t['at'][0])):
        return 'input or output'
    return None


class Graphs(Prop):
    level = 'other'
    technique = 'reachability in the monomorphic call graph extracted from MIR'
    note = ('Every call chain of the program (calls resolved for each instance; closures, function items and futures handed to '
            'library functions are followed) is covered; calls through function pointers and trait objects of libraries are not.')
    assume = ['library functions other than those of the list neither block nor wait',
              'library functions run the closures and futures they are given']


    def extra(self, P):
        return {'instances_in_call_graph': len(P.inst), 'handlers': sorted(f'{a} on {m}' for _, a, m, _ in handlers(P)),
                'library_calls_looked_for': self.looked}


class C30(Graphs):
    looked = [a for a, _ in BLOCKING]
    about = 'handlers that run on the event loop'
    rule = ('from each message handler and life-cycle method of an actor with an asynchronous context, and from each request handler, '
            'no blocking library call (list in the evidence) is reachable except through closures handed to another thread')
    explain = 'Call graph of the working tree; the path to each blocking call is given.'
    floor = 3

    def direct(self, P, tier, results):
        g = Graph(P, threads=False)
        out = []
        roots = [(n, f'{a} on {m}') for n, a, m, loop in handlers(P) if loop] + [(n, 'request handler') for n in web_handlers(P)]
        for root, label in sorted(roots):
            found = {}
            k = 0
            for n, kind, x, t, chain in g.walk(root):
                k += 1
                if kind == 'lib':
                    w = blocking(P, x, t)
                    if w:
                        # the call and the place in the crate where the chain leaves it
                        found.setdefault((w, x), (n, t, chain))
            for (w, x), (n, t, chain) in sorted(found.items()):
                out.append((BAD, f'{label}: {w}: {short(x)}', f'{short(x)} ({w}) blocks the event loop', str(place(P, n, t, chain)),
                            tuple(reversed([short(c) for c in chain]))))
            if not found:
                out.append((GOOD, f'{label}: no blocking call', f'{k} calls reachable, none blocks', str(P.inst[root]['span']), ()))
        return out


def place(P, n, t, chain):
    """the source line in the crate"""
    if str(t.get('sp', '')).startswith('src/'):
        return t['sp']
    for c in reversed(chain):
        if str(P.inst[c].get('span', '')).startswith('src/'):
            return P.inst[c]['span']
    return '?'


WAITS = [(re.compile(r'^actix::(Addr|Recipient|WeakAddr)::<.*>::send$'), 'asks another actor and gets a future for its answer'),
         (re.compile(r'block_on$'), 'waits for a future'),
         (re.compile(r'mpsc::Receiver::<.*>::(recv|recv_timeout|iter)$|Condvar::wait|Barrier::wait'), 'waits for another thread'),
         (re.compile(r'JoinHandle::<.*>::join$'), 'waits for another thread')]


class C31(Graphs):
    looked = [r.pattern for r, _ in WAITS]
    about = 'handlers of actors'
    rule = ('from each message handler, life-cycle method and request handler, no call is reachable that waits for the answer of an actor '
            '(Addr::send and its future, blocking on a future, channel, condition or thread); messages are posted')
    explain = 'Call graph of the working tree; the path to each waiting call is given.'
    floor = 3

    def direct(self, P, tier, results):
        g = Graph(P)
        out = []
        roots = [(n, f'{a} on {m}') for n, a, m, loop in handlers(P)] + [(n, 'request handler') for n in web_handlers(P)]
        for root, label in sorted(roots):
            bad, k, posts = {}, 0, 0
            for n, kind, x, t, chain in g.walk(root):
                k += 1
                if kind != 'lib':
                    continue
                if re.search(r'::(do_send|try_send)$', x):
                    posts += 1
                for r, what in WAITS:
                    if r.search(x):
                        bad.setdefault((x, what), (n, t, chain))
            for (x, what), (n, t, chain) in sorted(bad.items()):
                out.append((BAD, f'{label}: {short(x)}', f'{short(x)} {what}', str(place(P, n, t, chain)), tuple(reversed([short(c) for c in chain]))))
            if not bad:
                out.append((GOOD, f'{label}: posts only', f'{k} calls reachable, {posts} of them post a message, none waits', str(P.inst[root]['span']), ()))
        return out
