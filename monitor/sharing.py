"""Secret-sharing properties: the harnesses judge every result, message and opened value as it happens and log violations,
counts and fingerprints; here the logs are gathered, the race detector is run, and the verdict is taken."""
import re
from . import core
from .core import Part, events

# what each check must have seen before its silence means anything, and what counts as one evaluation
NEED = {
    'C14': (('sharings', 5000), ('reconstructions', 30000)),
    'C15': (('sharings', 1000000), ('replays', 3000), ('tests', 1000)),
    'C16': (('operations', 100000), ('refusals', 50000)),
    'C17': (('runs', 20000), ('mask_checks', 3000)),
    'C18': (('runs', 10000),),
    'C19': (('runs', 5000),),
    'C20': (('runs', 50000),),
    'C21': (('runs', 10000), ('numbers', 100000), ('replays', 500), ('tests', 150)),
    'C22': (('runs', 100000), ('opened_values', 500000), ('tests', 10000)),
    'C23': (('sessions', 10000), ('thread_sessions', 500), ('messages', 1000000)),
    'C24': (('sessions', 2000), ('processes', 30), ('tsan_processes', 6)),
    'C25': (('calls', 100000),),
    'C33': (('runs', 3000), ('large_batches', 50)),
    'C31': (('sessions', 20000), ('failed_sessions', 10000), ('dropped', 1000), ('message_loss', 1000), ('left', 1000), ('panicked', 1000),
            ('before', 4000), ('during', 2000), ('after', 4000), ('threaded_processes', 30)),
}
COUNT = {
    'C14': ('sharings', 'reconstructions'), 'C15': ('sharings',), 'C16': ('operations', 'refusals'), 'C17': ('results',),
    'C18': ('results',), 'C19': ('results',), 'C20': ('results',), 'C21': ('numbers',), 'C22': ('opened_values',),
    'C23': ('sessions', 'thread_sessions'), 'C24': ('sessions',), 'C25': ('calls',),
    'C31': ('sessions',), 'C33': ('runs',),
}
RULES = {
    'C14': 'a sharing counts when all n points were recovered as one polynomial below the threshold through the secret, a reconstruction when its value was compared; cases are distinct by field, n, threshold and secret',
    'C15': 'a sharing counts when all its coefficients were recovered by interpolation and entered into the joint histograms; cases are distinct by field, n, threshold and secret',
    'C16': 'an operation counts when the shares of all participants were interpolated and compared with the plain result, a refusal when it was observed; programs are distinct by their text',
    'C17': 'a result counts when the shares of all parties were interpolated (degree checked) and compared with the product; runs are distinct by case and interleaving',
    'C18': 'a result counts when the shares of all parties were interpolated (degree checked) and compared with the inverse; runs are distinct by case and interleaving',
    'C19': 'a result counts when the shares of all parties were interpolated (degree checked) and compared with the OR; runs are distinct by case and interleaving',
    'C20': 'a result counts when the shares of all parties were interpolated (degree checked) and compared with the chosen operand; runs are distinct by case and interleaving',
    'C21': 'a number counts when its shares were interpolated and compared with the sum of the recorded contributions; runs are distinct by case and interleaving',
    'C22': 'an opened value counts when it was recovered from the opened shares and entered into the comparison between inputs (or, in the large field, compared with all simple functions of the inputs); cases are distinct by operation, clique and inputs',
    'C23': 'a session counts when every register of every party was compared with the plain evaluation; sessions are distinct by program and interleaving',
    'C24': 'a session counts when its result, computed while other threads used the same process, was compared with the plain result; sessions are distinct by their case',
    'C25': 'a call counts when the record of the implementation it reached was compared with the call made; calls are distinct by trait, type and arguments',
    'C33': 'a run counts when its result was right and the number of times messages had to arrive was compared with that of small batches in small cliques; runs are distinct by operation, size, clique and field',
    'C31': 'a session counts when its result was compared with the plain result, with failing sessions before, during or next to it; distinct are the failing sessions, by field, operation, size and the way and moment of their end',
}
ASSUME = {
    'C15': ['biases below the resolution of about 10^5 samples per joint distribution stay unseen'],
    'C18': ['runs in which a jointly drawn mask was zero are set aside, as the property says'],
    'C19': ['runs in which a jointly drawn mask was zero are set aside, as the property says'],
    'C21': ['the generators handed to the parties are the ChaCha streams of the harness'],
    'C22': ['triples are dealt honestly and uniformly', 'dependences below the resolution of some thousand samples per input stay unseen'],
    'C23': ['messages are delivered intact; the harness, not the library, implements the network'],
    'C24': ['ThreadSanitizer sees the schedules that happened'],
    'C33': ['messages are sent when the protocol asks the transport to, not when it first waits for the answer'],
    'C31': ['a participant that is left alone for good while other threads run is never one that waits for a lock (no executor does that)'],
}


def scan(path):
    p = Part()
    for ev in events(path):
        if 'viol' in ev:
            p.viol(ev['viol'], ev['case'])
        elif 'sample' in ev:
            p.sample(ev['sample'])
        elif 'stats' in ev:
            for k, v in ev['stats'].items():
                p.count(k, v)
            p.count('tests', ev['tests'])
            if ev['tests']:
                p.extra['min_p'] = ev['min_p']
        elif 'seen' in ev:
            p.distinct.update(bytes.fromhex(h.rjust(16, '0')) for h in ev['seen'])
    return p


def gather(cx, shards, kind=''):
    for s in shards:
        r = scan(s.path)
        m = r.extra.pop('min_p', None)
        if m is not None:
            cx.smallest = min(getattr(cx, 'smallest', 1.0), m)
        if kind:
            r.extra = {kind + k: v for k, v in r.extra.items() if k != 'tests'}
        cx.merge(r)


def finish(cx):
    if not cx.extra.get('tests'):
        cx.extra.pop('tests', None)
    if hasattr(cx, 'smallest'):
        cx.extra['smallest_p'] = cx.smallest
        cx.extra['alarm_below_p'] = core.ALPHA
    cx.evaluations = sum(cx.extra.get(k, 0) for k in COUNT[cx.pid])
    if not cx.viols:
        for k, n in NEED[cx.pid]:
            if cx.extra.get(k, 0) < n:
                cx.incon.append('only %d observations of kind %s, fewer than %d' % (cx.extra.get(k, 0), k, n))
    cx.rule = RULES[cx.pid]
    cx.assumptions = ASSUME.get(cx.pid, [])
    return cx.finish(need=1000)


def check(cx):
    b = core.build('sharing')
    gather(cx, cx.run(b, cx.pid.lower(), shards=8))
    return finish(cx)


def c24(cx):
    cx.multi = True
    b = core.build('sharing')
    gather(cx, cx.run(b, 'c24', shards=600 if cx.thorough else 72, jobs=3, cpu=40))
    if cx.viols:
        return finish(cx)
    t = core.build('sharing', 'tsan')
    e = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=0 history_size=4'}
    todo = cx.run(t, 'c24', shards=160 if cx.thorough else 16, extra_env=e, crash_ok=True, tag='.tsan', jobs=4, cpu=60)
    for s in todo:
        if 'WARNING: ThreadSanitizer' in s.err or s.rc == 66:
            m = re.search(r'WARNING: ThreadSanitizer: [^\n]*\n.*?(?=\n={10}|\Z)', s.err, re.S)
            cx.viol('ThreadSanitizer: ' + (m.group(0) if m else s.err[-2000:])[:2500], {'argv': s.argv, 'case': 'concurrent sessions'})
        elif s.rc != 0 and not cx.viols:
            cx.diagnose(s, core.env(**e))
    gather(cx, todo, 'tsan_')
    return finish(cx)


def c31(cx):
    cx.multi = True
    b = core.build('sharing')
    gather(cx, cx.run(b, 'c31', shards=6000 if cx.thorough else 360, jobs=4, cpu=60))
    return finish(cx)


def c25(cx):
    try:
        b = core.build('deleg')
    except core.BuildFailed as f:
        # Traits that were delegatable before no longer compile: the library itself is fine if its other users build.
        core.build('sharing')
        places = re.findall(r'^error[^\n]*\n\s*--> (\S+)', f.log, re.M)
        if places and all(p.startswith('src/') for p in places):
            m = re.search(r'^error.*', f.log, re.S | re.M)
            cx.viol('delegatable traits and their implementations no longer compile', m.group(0)[:2500])
            return finish(cx)
        raise
    gather(cx, cx.run(b, 'c25', shards=8))
    return finish(cx)


CHECKS = {c: check for c in RULES}
CHECKS['C24'] = c24
CHECKS['C25'] = c25
CHECKS['C31'] = c31
