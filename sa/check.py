"""check <property>: extract the current tree, analyse, judge, write the evidence."""
import json
import os
import sys
import time
from . import facts as F
from .prog import Prog
from .harness import run_jobs, GOOD, BAD, UNSURE
from .rules import PROPS

HERE = F.HERE


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f'known: property={pid} '):
                k = line.split(' key=', 1)[1].strip()
                key, _, what = k.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    path = argv[1] if len(argv) > 1 else F.extract()
    P = Prog(path)
    prop = PROPS[pid]
    jobs = prop.jobs(P, tier)
    limit = (600 if tier == 'quick' else 840) - (time.time() - t0)
    results = run_jobs(P, jobs, limit)
    direct = prop.direct(P, tier, results)
    judged = {}
    for r in results:
        for name, v, key, text, at, chain in r['judgements']:
            judged.setdefault((key, at), []).append((v, text, r['entry'], chain, name))
    for v, key, text, at, chain in direct:
        judged.setdefault((key, at), []).append((v, text, '(whole program)', chain, 'structure'))
    sites = []
    for (key, at), js in sorted(judged.items()):
        vs = {j[0] for j in js}
        verdict = BAD if BAD in vs else UNSURE if UNSURE in vs else GOOD
        j = next(x for x in js if x[0] == verdict)
        sites.append({'key': key, 'at': at, 'verdict': verdict, 'what': j[1], 'entry': j[2], 'through': list(j[3]),
                      'contexts': len(js), 'rule': j[4]})
    bad = [s for s in sites if s['verdict'] == BAD]
    # a property that is about something has to find it
    found = sum(1 for s in sites)
    miss = [r['entry'] for r in results if r['status'] == 'missing']
    kn = known(pid)
    new = [s for s in bad if s['key'] not in kn]
    seen = {}
    for s in bad:
        if s['key'] in kn and s['key'] not in seen:
            seen[s['key']] = s
            print(f"KNOWN-FINDING: property={pid} {kn[s['key']]}")
    und = [s for s in sites if s['verdict'] == UNSURE]
    incomplete = [r for r in results if r['status'] != 'complete']
    nf = sorted({n for r in results for n in r.get('functions', ())})
    user = [n for n in nf if str(P.inst[n].get('span', '')).startswith('src/')]
    if prop.required and found < prop.required and not und and not incomplete and not any(r['unsure'] for r in results):
        new.append({'key': 'nothing to judge', 'at': '', 'verdict': BAD, 'entry': '', 'through': [], 'contexts': 0,
                    'what': f'{found} places to judge, at least {prop.required} are expected: {prop.about}', 'rule': 'floor'})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level,
        'coverage': {
            'explanation': prop.explain,
            'rule': prop.rule,
            'entries': [{k: r.get(k) for k in ('entry', 'status', 'analyses', 'wall', 'blocks', 'outs', 'unknown')} for r in results],
            'functions_analysed': len(nf), 'crate_functions_analysed': user, **prop.extra(P),
            'obligations': found, 'discharged': sum(1 for s in sites if s['verdict'] == GOOD),
            'contexts_judged': sum(s['contexts'] for s in sites),
            'sites': sites[:400],
            'undecided': [{'at': s['at'], 'what': s['what']} for s in und],
            'not_followed': sorted({f'{a}: {t}' for r in results for _, t, a in r['unsure']})[:60],
            'evaluations': sum(s['contexts'] for s in sites),
            'distinct_nontrivial': found,
            'samples': [f"{s['key']} at {s['at']}: {s['what']}" for s in sites[:5]],
        },
        'assumptions': prop.assume,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1)
    print(f"{pid}: {found} places judged in {len(user)} functions of the crate ({len(nf)} with libraries), "
          f"{len(und)} undecided, {len(incomplete)} entries incomplete, {ev['wall_s']} s")
    for r in incomplete:
        print(f"  note: {r['entry']}: {r['status']}")
    if found < prop.floor:
        print(f'  note: nothing to judge was found: {prop.about}')
    for s in und[:10]:
        print(f"  undecided: {s['at']}: {s['what']}"[:300])
    if new:
        rp = os.path.join(HERE, 'evidence', f'{pid}.violation.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for s in new:
            print(f"  {s['at']}: {s['key']}: {s['what']}")
            print(f"    entry {s['entry']}, through {' < '.join(s['through'])}")
        print(f'VIOLATION property={pid} replay=evidence/{pid}.violation.json')
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:           # no answer, rather than one that looks like a violation
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
