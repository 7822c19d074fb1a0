"""No construct that can panic is reached with values that make it panic."""
import re
from .base import *
from ..engine import GENERATED
from ..lin import K
from ..values import *


class NoPanic(Rule):
    name = 'no-panic'

    def on_obligation(self, eng, st, fr, what, ok, detail='', sp=None, holds=None):
        if ok:
            self.say(GOOD, st, fr, f'{what}', f'{what} {detail}'.strip() + ' cannot fail', sp)

    def on_panic(self, eng, st, fr, what, detail='', sp=None):
        self.say(BAD, st, fr, f'{what}', f'{what} {detail}'.strip() + ' may panic here', sp)


class PanicProp(Prop):
    rule = ('every operation that can panic (index, slice, arithmetic overflow, division, unwrap/expect, explicit panic, '
            'unbounded recursion, library calls with preconditions) is an obligation; it is discharged when the abstract '
            'state at that place implies its condition on every path')
    explain = ('Forward abstract interpretation of the MIR of the working tree from the listed entry points, for arbitrary '
               'arguments and arbitrary input bytes, through all called crate functions and generic library code.')
    names = ()
    flags = {}

    def entries(self, P):
        return [(n, entry(P, n)) for n in self.names]

    def jobs(self, P, tier):
        return [Job(e, lambda: [NoPanic()], dict(self.flags), name=n) for n, e in self.entries(P)]


class C07(PanicProp):
    names = ['Decoder::decode']
    about = 'obligations in the bencode decoder'


class C10(PanicProp):
    names = ['parse_magnet']
    about = 'obligations in the magnet parser'


class C06(PanicProp):
    about = 'obligations while talking to a peer'
    explain = PanicProp.explain + (' Entry points: the handler that downloads a piece and the function that fetches the metadata from a '
                                   'peer, together with everything they call; bytes read from a socket are arbitrary.')

    def entries(self, P):
        return [('piece download', handler(P, 'ConnectionActor', 'PieceRequested')), ('metadata exchange', entry(P, 'get_info'))]


class Ends(Rule):
    name = 'termination'

    def on_loop(self, eng, st, fr, measure, head):
        n = fr.inst['name']
        if measure is None:
            self.say(BAD, st, fr, 'loop', f'a loop of {n} for which no quantity was found that is bounded and changes by at least one in every round',
                     fr.body.blocks[head]['t'])
        else:
            self.say(GOOD, st, fr, 'loop', f'in every round of a loop of {n} a bounded quantity makes progress: {measure}'[:200], fr.body.blocks[head]['t'])

    def on_recursion(self, eng, st, fr, function, bounded):
        if bounded:
            self.say(GOOD, st, fr, 'recursion', f'every recursive call of {function} has a larger depth, and the depth is bounded by a constant')
        else:
            self.say(BAD, st, fr, 'recursion', f'a recursive call of {function} for which no constant bound of the depth was found')


class C08(Prop):
    about = 'loops and recursive calls of the decoder'
    rule = ('for every loop reachable from the decoder there is a quantity (an integer in memory, or a number of remaining elements) that is bounded '
            'and moves by at least one towards its bound in every round; for every recursive call there is an integer argument or field that is greater '
            'by at least one in the call than in the caller and at most a constant')
    explain = 'Forward abstract interpretation of the MIR for arbitrary input; ranking quantities are searched among the integers live at the loop heads.'

    def jobs(self, P, tier):
        return [Job(entry(P, 'Decoder::decode'), lambda: [Ends()], {'loops': True}, name='Decoder::decode', caps=(10, 30, 2))]


# ---------------------------------------------------------------- C37

def in_crate(i):
    return str(i.get('span') or '').startswith('src/')


def unsafe_sites(P):
    """(kind, function, name, where) of what the type system does not check, in functions of the crate"""
    out = []

    def derefs(o, i):
        if isinstance(o, list):
            if len(o) > 1 and type(o[0]) is int and o[1] == '*' and o[0] < len(i['locals']):
                t = P.ty(i['locals'][o[0]])
                if t['s'].startswith('*'):
                    yield t['s']
            for x in o:
                yield from derefs(x, i)
        elif isinstance(o, dict):
            for x in o.values():
                yield from derefs(x, i)
    for n, i in P.inst.items():
        if not in_crate(i):
            continue
        for b in i['blocks']:
            t = b['t']
            if t['k'] == 'call' and isinstance(t['f'], dict) and t['f'].get('unsafe') and not GENERATED.search(t['f'].get('path') or ''):
                out.append(('call', n, t['f']['path'], t.get('sp')))
            for s in list(b['s']) + [t]:
                for d in derefs(s, i):
                    out.append(('raw pointer', n, d, i['span']))
    return out


class Unchecked(Rule):
    """the precondition of an operation that is not checked"""
    name = 'unchecked operation'

    def on_unchecked(self, eng, st, fr, f, args, t):
        op = f['path'].split('::')[-1]
        r, text = self.judge(eng, st, op, args)
        self.say(r, st, fr, op, text, t)

    def judge(self, eng, st, op, args):
        a = list(args)
        if op in ('get_unchecked', 'get_unchecked_mut') and len(a) == 2 and isinstance(a[0], VSlice):
            i = a[1]
            if isinstance(i, VInt):
                ok = st.truth(('ge', a[0].len - i.l - 1))
            elif isinstance(i, VAgg) and i.fs and all(isinstance(x, VInt) for x in i.fs[:2]):
                n, p = eng.P.s(i.ty) if i.ty is not None else '', [x.l for x in i.fs[:2]]
                if 'RangeFrom' in n:
                    ok = st.truth(('ge', a[0].len - p[0]))
                elif 'RangeTo' in n:
                    ok = st.truth(('ge', a[0].len - p[0]))
                elif len(p) == 2 and 'Inclusive' not in n:
                    ok = st.truth(('ge', a[0].len - p[1])) is True and st.truth(('ge', p[1] - p[0])) is True
                else:
                    return UNSURE, 'the range was not followed'
            else:
                return UNSURE, 'the index was not followed'
            return (GOOD, 'the index is in range') if ok is True else (BAD, 'may reach beyond the end of the data: no condition on the way bounds the index')
        if op == 'unreachable_unchecked':
            return BAD, 'may be reached'
        if op == 'unwrap_unchecked' and a and isinstance(a[0], VEnum):
            none = 1 if 'Result<' in eng.P.s(a[0].ty) else 0
            s = st.copy()
            if none not in a[0].vs or not all(s.assume(x) for x in a[0].att.get(none, ())):
                return GOOD, 'there is always a value'
            return BAD, 'is applied where there may be no value'
        if op == 'from_utf8_unchecked' and a:
            try:
                q = eng.seq_val(st, a[0])
            except Exception:
                q = None
            if q is None or q.segs is None:
                return UNSURE, 'the bytes were not followed'
            if all(s[0] == 'dec' or s[0] == 'c' and s[1].isascii() for s in q.segs):
                return GOOD, 'the bytes are constants or decimal numbers'
            return UNSURE, 'whether the bytes are text was not followed'
        if op in ('unchecked_add', 'unchecked_sub', 'unchecked_mul') and len(a) == 2 and all(isinstance(x, VInt) for x in a):
            if op == 'unchecked_sub':
                ok = st.truth(('ge', a[0].l - a[1].l)) is True
            elif op == 'unchecked_add':
                ok = st.truth(('ge', K(2 ** 64 - 1) - a[0].l - a[1].l)) is True
            else:
                return UNSURE, 'the product was not followed'
            return (GOOD, 'does not overflow') if ok else (BAD, 'may overflow')
        return UNSURE, 'there is no rule for this operation'


class C37(PanicProp):
    about = 'functions of the crate, and operations in them that the compiler does not check'
    rule = ('functions of the crate contain no unchecked operation (call of an unsafe function, use of a raw pointer, mutable static); where one is used '
            'its precondition (index below the length, value present, no overflow, place never reached) follows from the conditions on every path to it')
    explain = ('Inventory over the MIR of all functions of the crate, with the safety of every callee as the type checker sees it; for unchecked operations forward '
               'abstract interpretation from the entry points that see data from outside.')
    floor = 1
    assume = COMMON + ['the unsafe code inside of the standard library and of dependencies is right (out of scope)']

    def entries(self, P):
        names = ('Decoder::decode', 'Message::new_raw', 'read_stream', 'Peer::apply_message', 'parse_magnet', 'PeerEndpoint::from_bytes', 'Info::from_bytes',
                 'Info::from_file', 'get_file_writers', 'write_to_filesystem')
        return [(n, entry(P, n)) for n in names] + [('asking a tracker', entry(P, 'tracker::get_peers_by_tracker', 'get_peers_by_tracker'))]

    def jobs(self, P, tier):
        if not unsafe_sites(P):
            return []
        return [Job(e, lambda: [Unchecked()], run_async='tracker' in n, name=n) for n, e in self.entries(P) if e]

    def direct(self, P, tier, results):
        sites = unsafe_sites(P)
        crate = [n for n, i in P.inst.items() if in_crate(i)]
        calls = sum(1 for n in crate for b in P.inst[n]['blocks'] if b['t']['k'] == 'call')
        out = [(GOOD, 'inventory', f'{len(crate)} functions with {calls} calls looked at, {len(sites)} unchecked operations', 'src', ())]
        seen = {j[3] for r in results for j in [x[1:] for x in r['judgements']]}
        for kind, n, what, at in sites:
            if at not in seen:
                out.append((UNSURE, f'{n}: {what}', 'an unchecked operation that was not reached from the entry points' if kind == 'call' else 'a raw pointer is used', str(at), (n,)))
        for x in P.raw.get('statics', ()):
            if x['mutable']:
                out.append((UNSURE, f'static {x["path"]}', 'a mutable static: accesses from several threads are not ordered', 'src', ()))
        return out
