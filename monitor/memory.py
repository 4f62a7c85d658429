"""What a long-lived process holds: verdicts are taken in the harness, which counts live bytes; here they are gathered."""
from . import core
from .core import Part, events

NEED = {'uses': 20000, 'allocations': 1000000, 'sessions': 5000, 'spoilt_sessions': 5000, 'messages': 50000, 'late': 10000, 'copies': 500, 'states': 150, 'peaks': 30}


def scan(path):
    p = Part()
    for ev in events(path):
        if 'viol' in ev:
            p.viol(ev['viol'], ev['case'])
        elif 'incon' in ev:
            p.incon.append(ev['incon'])
        elif 'stats' in ev:
            for k, v in ev['stats'].items():
                p.count(k, v)
        elif 'cases' in ev:
            for c in ev['cases']:
                p.saw(c)
                p.sample(c)
    return p


def check(cx):
    b = core.build('memory')
    cx.pool(scan, [s.path for s in cx.run(b, 'c34', shards=8)])
    if not cx.viols:
        for k, n in NEED.items():
            if cx.extra.get(k, 0) < n:
                cx.incon.append('only %d observations of kind %s, fewer than %d' % (cx.extra.get(k, 0), k, n))
    cx.rule = 'an evaluation is a series of uses, a conversation or a message for which the bytes held (counted by the allocator) were compared with the bound; series are distinct by what was done and what was measured'
    cx.assumptions = ['memory is what goes through the global allocator']
    return cx.finish(need=100)


CHECKS = {'C34': check}
