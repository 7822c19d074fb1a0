from ..harness import Rule, Job, GOOD, BAD, UNSURE

COMMON = ['64-bit target; sizes of objects stay below isize::MAX',
          'the models of the standard library and of the crates in sa/models*.py describe what those libraries do']


class Prop:
    level = 'other'
    floor = 1           # fewer places than this are reported as a note
    required = 0        # fewer places than this violate the property
    about = ''
    rule = ''
    explain = ''
    assume = COMMON
    technique = 'abstract interpretation of MIR'
    note = ('Sound over-approximation within the stated models: every path from the entry points is covered. What the analysis '
            'cannot follow is listed as undecided in the evidence and is not an alarm.')

    def jobs(self, P, tier):
        return []

    def extra(self, P):
        return {}

    def direct(self, P, tier, results):
        return []


def entry(P, *names):
    """the first of the names that is a function of the program; a name may be a suffix"""
    for n in names:
        if n in P.inst:
            return n
        c = [x for x in P.inst if x.endswith('::' + n) and str(P.inst[x].get('span', '')).startswith('src/')]
        if len(c) == 1:
            return c[0]
    return None


def handler(P, actor, msg):
    """the Handler<msg> implementation of an actor"""
    c = [x for x in P.inst if x.endswith('::handle') and f'{actor} as ' in x and f'::{msg}>' in x]
    return c[0] if len(c) == 1 else None
