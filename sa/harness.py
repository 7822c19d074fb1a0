"""Runs the analysis from entry points and collects what the rules say."""
import json
import os
import sys
import time
import traceback
from multiprocessing import get_context
from .engine import Engine, Budget, Unsupported, Ctx
from .models import Models
from .models_io import poll_value
from .state import State
from .values import *

GOOD, BAD, UNSURE = 'holds', 'violated', 'undecided'


def location(fr, t=None):
    """file:line in the crate, and the chain of crate functions that leads there"""
    at, chain, child = None, [], None
    sp = t.get('sp') if isinstance(t, dict) else t
    for f in fr.chain():
        user = str(f.inst.get('span') or '').startswith('src/')
        if user:
            n = f.inst.get('root') or f.inst['path']
            if not chain or chain[-1] != n:
                chain.append(n)
            if at is None:
                at = sp if child is None else site_span(f, child)
                if not str(at).startswith('src/'):
                    at = f.inst['span']
        child = f.site
    return at, chain


def site_span(f, site):
    for _ in range(4):
        if isinstance(site, int):
            t = f.body.blocks[site]['t']
            return t.get('sp')
        if isinstance(site, tuple):
            site = next((x for x in reversed(site) if isinstance(x, (int, tuple))), None)
    return None


class Rule:
    """Events become judgements; those made while a loop was not yet stable are dropped."""
    name = '?'

    def __init__(self):
        self.j = []         # (verdict, key, text, at, chain)

    def on(self, eng, kind, st, fr, kw):
        h = getattr(self, 'on_' + kind.replace(' ', '_'), None)
        if h is not None:
            h(eng, st, fr, **kw)

    def say(self, verdict, st, fr, what, text, t=None, key=None):
        at, chain = location(fr, t)
        if verdict == BAD and st.ghost.get('~nu'):
            verdict, text = UNSURE, text + ' (after a construct the analysis has no rule for)'
        if key is None:
            key = f'{chain[0] if chain else "?"}: {what}'
        self.j.append((verdict, key, text, str(at), tuple(chain)))

    def mark(self):
        return len(self.j)

    def reset(self, m):
        del self.j[m:]

    def finish(self, eng, outs):
        pass


class Spy(Rule):
    """what the analysis could not follow"""
    name = 'coverage'

    def __init__(self):
        super().__init__()
        self.kinds = {}

    def on(self, eng, kind, st, fr, kw):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if kind == 'not understood':
            self.say(UNSURE, st, fr, 'not understood', str(kw.get('why'))[:160], kw.get('sp'))

    def reset(self, m):
        pass


class Job:
    """An entry point to analyse. It is analysed with a small number of states kept apart per place, and
    again with other numbers when that leaves something undecided or violated: each of these analyses is
    sound, so what one of them proves is proved."""
    def __init__(self, entry, rules, flags=None, args=None, run_async=False, name=None, limit=None, caps=(2, 10, 1)):
        self.entry, self.rules, self.flags, self.args = entry, rules, flags or {}, args
        self.run_async, self.limit, self.caps = run_async, limit, caps
        self.name = name or (entry if isinstance(entry, str) else '?')


def run_job(P, job, limit):
    if job.entry is None:
        return {'entry': job.name, 'status': 'missing', 'judgements': [], 'unsure': [], 'events': {}, 'wall': 0, 'blocks': 0,
                'functions': [], 'unknown': [], 'outs': None}
    end = time.time() + (job.limit or limit)
    rs = []
    caps = (job.flags['cap'],) if 'cap' in job.flags else job.caps
    for k, cap in enumerate(caps):
        left = end - time.time()
        if k and left < 5:
            break
        r = run_once(P, job, cap, left if k == 0 else min(left, max(60, 4 * rs[0]['wall'])))
        rs.append(r)
        if clean(r):
            break
    best = combine(rs)
    best['wall'] = round(sum(r['wall'] for r in rs), 2)
    best['analyses'] = [f"{r['cap']} states: {r['status']}" for r in rs]
    return best


def clean(r):
    return r['status'] == 'complete' and not r['unsure'] and all(j[1] == GOOD for j in r['judgements'])


def combine(rs):
    for r in rs:
        if clean(r):
            return r
    done = [r for r in rs if r['status'] == 'complete']
    if not done:
        return rs[0]
    base = dict(done[0])
    out = []
    per = []
    for r in done:
        d = {}
        for j in r['judgements']:
            d.setdefault((j[2], j[4]), set()).add(j[1])
        per.append((not r['unsure'], d))
    for j in base['judgements']:
        v = j[1]
        if v != GOOD:
            k = (j[2], j[4])
            for followed, d in per[1:]:
                vs = d.get(k, set())
                if followed and vs <= {GOOD}:
                    v = GOOD
                elif v == UNSURE and BAD in vs:
                    v = BAD
        out.append((j[0], v) + tuple(j[2:]))
    # what only a later analysis says is not needed: the first one covers every path
    base['judgements'] = out
    if any(not r['unsure'] for r in done):
        base['unsure'] = []
    return base


def run_once(P, job, cap, limit):
    t0 = time.time()
    res = {'entry': job.name, 'status': 'complete', 'judgements': [], 'unsure': [], 'cap': cap}
    spy = Spy()
    rules = job.rules()
    e = Engine(P, Models(), rules + [spy])
    e.flags.update(job.flags)
    e.flags['cap'] = cap
    e.deadline = t0 + limit
    outs = None
    try:
        st = State()
        inst = P.inst[job.entry]
        args = [e.top(inst['locals'][i + 1], st, f'a{i}') for i in range(inst['argc'])]
        if job.args:
            args = job.args(e, st, inst, args)
        outs = e.call_inst(job.entry, args, st, None, 'entry')
        if job.run_async:
            o2 = []
            for s, v in outs:
                c = Ctx(e, TopFrame(P, job.entry), 'poll', {}, {})
                o2 += poll_value(c, s, v, None)
            outs = o2
        for r in rules:
            r.finish(e, outs)
    except Budget:
        res['status'] = 'time limit'
    except Exception as x:
        res['status'] = f'stopped: {type(x).__name__}: {str(x)[:200]}'
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    for r in rules:
        for v, key, text, at, chain in r.j:
            if v == BAD and res['status'] != 'complete':
                v, text = UNSURE, text + f' (analysis of the entry {res["status"]})'
            res['judgements'].append((r.name, v, key, text, at, chain))
    res['unsure'] = [(k, t, a) for _, k, t, a, _ in spy.j]
    res['events'] = spy.kinds
    res['wall'] = round(time.time() - t0, 2)
    res['outs'] = None if outs is None else len(outs)
    res['blocks'] = e.stats['blocks']
    res['functions'] = sorted({n for n in e.fids_seen})
    res['unknown'] = sorted(str(x) for x in e.stats['unknown'])
    return res


class TopFrame:
    """stands for whoever drives the future of an entry point"""
    def __init__(self, P, entry):
        self.fid, self.parent, self.site = 0, None, None
        self.body = P.body(entry)
        self.inst = self.body.inst

    def chain(self):
        return [self]


_G = {}


def _one(i):
    try:
        return run_job(_G['P'], _G['jobs'][i], _G['limit'])
    except BaseException as x:       # a worker must answer
        return {'entry': _G['jobs'][i].name, 'status': f'stopped: {type(x).__name__}: {str(x)[:200]}', 'judgements': [],
                'unsure': [], 'events': {}, 'wall': 0, 'blocks': 0, 'functions': [], 'unknown': [], 'outs': None}


def run_jobs(P, jobs, limit=700):
    _G.update(P=P, jobs=jobs, limit=limit)
    if len(jobs) <= 1 or os.environ.get('SA_SERIAL'):
        return [_one(i) for i in range(len(jobs))]
    with get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as p:
        return p.map(_one, range(len(jobs)), 1)
