"""Double-ratchet properties: the harness judges every delivery and every key as it happens; here the event logs are
counted and the verdict is taken."""
from . import core
from .core import Part, events

NEED = {'C26': ('in_time', 'first_receptions'), 'C27': ('late', 'lost', 'in_time'), 'C28': ('replays', 'late'), 'C29': ('answers', 'key_changes', 'enc_calls'),
        'C32': ('states_examined', 'past_keys', 'future_keys', 'keys_open_to_thief', 'thefts', 'late', 'key_changes')}
RULES = {
    'C26': 'a delivery counts as evaluated when the decrypted bytes were compared with the sent ones; a conversation is distinct by its sequence of sends and deliveries',
    'C27': 'a first arrival counts as evaluated when its text and its in-order/out-of-order report were compared with what was sent and what had arrived; conversations are distinct by their sequence of sends, deliveries and losses',
    'C28': 'a repeated delivery counts as evaluated when its refusal was observed, a first delivery when its text was compared; a conversation is distinct by its sequence of events',
    'C32': 'an evaluation is one key of a past (or, after a theft, later) message that was looked for in all that follows from the secrets a party held; conversations are distinct by their sequence of events',
    'C29': 'an encryption counts as evaluated when its key was compared with all keys of the conversation and its public key (read by a scratch session) with the pairs the party generated; conversations are distinct by their sequence of events',
}


def scan(path):
    p = Part()
    ended = False
    for ev in events(path):
        if 'h' in ev:
            p.saw(ev['h'], 0)
            if ev['s']:
                p.sample('conversation: ' + ev['s'])
        elif 'viol' in ev:
            p.viol(ev['viol'], ev['case'])
        elif 'stats' in ev:
            for k, v in ev['stats'].items():
                p.count(k, v)
    return p


def check(cx):
    b = core.build('ratchet')
    cx.pool(scan, [s.path for s in cx.run(b, cx.pid.lower(), shards=8)])
    x = cx.extra
    cx.evaluations = dict(C26=x.get('in_time', 0), C27=x.get('in_time', 0) + x.get('late', 0),
                          C28=x.get('replays', 0) + x.get('in_time', 0) + x.get('late', 0), C29=x.get('enc_calls', 0), C32=x.get('past_keys', 0) + x.get('future_keys', 0))[cx.pid]
    if 'most_secrets_held' in x:
        x['most_secrets_held_summed_over_shards'] = x.pop('most_secrets_held')
    if not cx.viols and not x.get('abandoned'):
        for k in NEED[cx.pid]:
            if x.get(k, 0) < 1000:
                cx.incon.append('only %d observations of kind %s' % (x.get(k, 0), k))
    cx.rule = RULES[cx.pid]
    cx.assumptions = ['the injected primitives are collision-free on the keys of one conversation (128-bit mixing functions, a 61-bit and a 768-bit group)',
                      'message headers are honest: only loss, delay, reordering and repetition happen on the network']
    return cx.finish(need=1000)


CHECKS = {c: check for c in RULES}
