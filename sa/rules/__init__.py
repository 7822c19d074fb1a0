from . import panics, concurrency, peers, content, pool, state, control, trackers, metadata, storage, wire, encoding, handover, pieces

PROPS = {}
for m in (panics, concurrency, peers, content, pool, state, control, trackers, metadata, storage, wire, encoding, handover, pieces):
    for n, c in vars(m).items():
        if len(n) == 3 and n[0] == 'C' and n[1:].isdigit():
            PROPS[n] = c()
PROPS = dict(sorted(PROPS.items()))
