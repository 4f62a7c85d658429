#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below (run by hand after changing either)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('recorded digests judged by hashlib', 'Runs MD5 and SHA-1 on dense lengths, padding boundaries, random messages and messages longer than 2^32 bits; every recorded digest is compared with hashlib. Trusts hashlib; says nothing about messages not run.'),
 'C02': ('recorded digests judged by hashlib', 'Runs BLAKE2b/2s on every (key length, output length) pair with boundary messages, dense lengths and a message of more than 2^32 bytes; every digest is compared with hashlib. Trusts hashlib.'),
 'C03': ('differential monitor: cut message against whole message', 'Every buffer fill level x next piece length x tail for six hash contexts plus random cuts and alternately fed states, compared with the one-shot digest of the same code.'),
 'C04': ('recorded codes judged by an RFC 2104 reference over hashlib', 'Dense key and message lengths and random cases for all hashes, including keyed and truncated BLAKE2 contexts. Trusts hashlib and a six-line HMAC.'),
 'C05': ('recorded keys judged by an RFC 5869 reference over hashlib', 'Dense output lengths, block multiples and the 255-block maximum for all hashes. Trusts hashlib and a ten-line HKDF.'),
 'C06': ('Miri (stacked borrows, big-endian target) and AddressSanitizer, thorough also MemorySanitizer', 'Executes all entry points with exact-size buffers at all alignments under the instruments; results must equal the plain build. Covers only the executions driven.'),
 'C07': ('recorded operations judged by Python integers', 'Operations, sums, products and random programs in 58 fields (predefined and user-declared) replayed with exact integers; equality and hashing of results monitored.'),
 'C08': ('recorded operations judged by Python integers', 'Inverse, powers, extended gcd and division in 58 fields, exhaustively for small ones, against exact integers.'),
 'C09': ('recorded conversions judged by Python integers', 'Integers, strings in all radices, machine integers at their limits and byte strings in and out of 58 fields, valid and invalid.'),
 'C10': ('online statistics over recorded draws plus generator replay', 'Chi-square, bit, word-correlation and serial tests at significance 1e-10 per test, and exact replay from equal generator states. Biases too small for the sample size stay unseen.'),
 'C11': ('reported primes judged against OpenSSL/RFC 5114 constants and Miller-Rabin; interleaved arithmetic judged by Python integers', 'All predefined fields and 44 user-declared ones.'),
 'C12': ('recorded exchanges judged by Python integers; statistics of private keys', 'Two to four parties, all orders, 58 fields; freshness by generator replay.'),
 'C13': ('recorded encryptions judged by Python integers', 'Valid keys of many sizes generated by Python; also refusal of values not below the field prime.'),
}
try:
    exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read())
except FileNotFoundError:
    pass
HOOKS = dict(guard='verif_hooks (rustc --cfg)', enable='RUSTFLAGS="--cfg verif_hooks" (set by monitor/core.py for every harness build)', source_commits=[])
try:
    HOOKS['source_commits'] = open(os.path.join(V, 'tools', 'hook_commits')).read().split()
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append(dict(property=i, quick_cmd='python3 mon.py %s quick' % i, thorough_cmd='python3 mon.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=T[i][0], level='exploration', level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason='The operation (joint random bit) is unimplemented!() in this tree: there is no execution to monitor.' if i == 'C30' else 'check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=HOOKS, checks=checks, not_applicable=na,
         notes='Every check is `python3 mon.py <id> <tier>`: it rebuilds its harness from /repo, drives it, and judges the recorded events.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
