"""Offline oracles for the hashing properties: Python's hashlib / hmac judge the recorded digests."""
import hashlib, os, subprocess, sys
from . import core
from .core import Part, events

PERIOD = 65521


def pattern(salt):
    return bytes((i * 167 + (i >> 8) * 13 + salt) & 0xff for i in range(PERIOD))


def new(ev):
    a = ev['a']
    if a == 'md5':
        return hashlib.md5(usedforsecurity=False)
    if a == 'sha1':
        return hashlib.sha1(usedforsecurity=False)
    f = hashlib.blake2b if a == 'b2b' else hashlib.blake2s
    return f(digest_size=ev['o'], key=bytes.fromhex(ev['k']))


def H(ev, m):
    h = new(ev)
    h.update(m)
    return h.digest()


def name(ev):
    return ev['a'] + (':%d:%d' % (ev['o'], len(ev['k']) // 2) if 'o' in ev else '')


def block(ev):
    return 128 if ev['a'] == 'b2b' else 64


def hmac(ev, key, m):
    b = block(ev)
    if len(key) > b:
        key = H(ev, key)
    key = key.ljust(b, b'\0')
    return H(ev, bytes(x ^ 0x5c for x in key) + H(ev, bytes(x ^ 0x36 for x in key) + m))


def hkdf(ev, salt, ikm, n, info):
    prk = hmac(ev, salt, ikm)
    t, out, i = b'', b'', 0
    while len(out) < n:
        i += 1
        t = hmac(ev, prk, t + info + bytes([i]))
        out += t
    return out[:n]


def short(ev):
    return {k: (v if len(str(v)) < 400 else str(v)[:400] + '...') for k, v in ev.items()}


def judge(part, ev):
    if 'viol' in ev:
        part.viol(ev['viol'], ev['case'])
        return
    if 'd' not in ev and 'p' not in ev:
        return
    if 'mac' in ev:
        key, m = bytes.fromhex(ev['key']), bytes.fromhex(ev['m'])
        want = hmac(ev, key, m)
        part.saw((name(ev), ev['key'], ev['m']))
        part.count('keys longer than the block' if len(key) > block(ev) else 'keys of at most one block')
    elif 'L' in ev:
        want = hkdf(ev, bytes.fromhex(ev['salt']), bytes.fromhex(ev['ikm']), ev['L'], bytes.fromhex(ev['info']))
        part.saw((name(ev), ev['salt'], ev['ikm'], ev['L'], ev['info']))
        part.count('lengths that are no multiple of the hash' if ev['L'] % len(H(ev, b'')) else 'lengths that are multiples of the hash')
    elif 'len' in ev:
        h, p, n = new(ev), pattern(ev['salt']), ev['len']
        big = p * 64
        for _ in range(n // len(big)):
            h.update(big)
        h.update((big)[:n % len(big)])
        want = h.digest()
        part.saw((name(ev), ev['salt'], n))
        part.count('bytes in long messages', n)
    else:
        m = bytes.fromhex(ev['m'])
        want = H(ev, m)
        part.saw((name(ev), ev.get('k'), ev['m']))
        part.count('messages of %s' % ev['a'])
    if 'p' in ev:
        part.viol('panicked: ' + ev['p'], short(ev))
    elif bytes.fromhex(ev['d']) != want:
        part.viol('got %s, expected %s' % (ev['d'][:160], want.hex()[:160]), short(ev))
    elif len(str(ev)) < 400 and part.evaluations % 50 == 7:
        part.sample(short(ev))


def scan(path):
    part = Part()
    for ev in events(path):
        judge(part, ev)
    return part


RULES = {
    'C01': 'dense lengths 0..N with five contents, lengths around powers of two, random messages, and messages whose bit length exceeds 32 bits; distinct = distinct (hash, message)',
    'C02': 'all (key length, output length) pairs x block-boundary messages, dense lengths, degenerate keys, random cases and a message of more than 2^32 bytes; distinct = distinct (hash, key, output length, message)',
    'C04': 'dense key lengths and message lengths for six hash contexts plus random cases, with trailing zero bytes in keys; distinct = distinct (hash, key, message)',
    'C05': 'dense output lengths, block multiples and the maximum 255 blocks, salts/keys/infos from empty to several blocks; distinct = distinct (hash, salt, key, length, info)',
}


def conformance(cx):
    b = core.build('hashes')
    shards = 16 if cx.pid in ('C01', 'C02') else 8
    cx.pool(scan, [s.path for s in cx.run(b, cx.pid.lower(), shards=shards)])
    cx.rule = RULES[cx.pid]
    cx.assumptions = ["Python's hashlib (OpenSSL / reference BLAKE2) implements the standards"]
    return cx.finish(need=3000)


def c03(cx):
    b = core.build('hashes')
    for s in cx.run(b, 'c03', shards=16):
        for ev in events(s.path):
            if 'viol' in ev:
                cx.viol(ev['viol'], ev['case'])
            if 'stat' in ev:
                st = ev['stat']
                cx.evaluations += st['splits']
                cx.count('fill level x piece length x tail states', st['fill_states'])
                cx.count('randomly cut messages', st['messages'])
                for k in range(st['fill_states']):
                    cx.distinct.add((s.path, k))
                for k in range(st['messages']):
                    cx.distinct.add((s.path, 'm', k))
                if ev['sample']:
                    cx.sample(ev['sample'])
    cx.rule = ('every buffer fill level x every next piece length x four tails for six hash contexts, random compositions '
               '(empty, single-byte, block-aligned pieces), alternately fed states; distinct = distinct (context, fill, piece, tail) plus distinct random messages')
    return cx.finish(need=20000)


# ---- C06: memory-safety instruments
def host_run(cx, scale, shards, tag):
    """The same workload on the plain host build: the bytes every instrumented or foreign execution must reproduce."""
    return [s.path for s in cx.run(core.build('hashes'), 'c06', shards=shards, args=['--scale', str(scale)], tag='host-' + tag, crash_ok=True)]


def same_as_host(path, host, tag):
    part = Part()
    ref = [e for e in events(host) if 'd' in e or 'p' in e]
    got = [e for e in events(path) if 'd' in e or 'p' in e]
    for i, g in enumerate(got):
        part.saw((g['do'], g.get('d'), g.get('p')))
        part.count('operations under ' + tag)
        if i >= len(ref) or g != ref[i]:
            if 'p' in g and i < len(ref) and 'p' in ref[i]:
                continue
            part.viol('%s: result differs from the plain build on this host' % tag, dict(got=short(g), host=short(ref[i]) if i < len(ref) else None))
        elif i % 40 == 11 and len(str(g)) < 500:
            part.sample(dict(g, under=tag))
    if len(got) != len(ref) and not part.viols:
        part.incon.append('%s executed %d of %d operations' % (tag, len(got), len(ref)))
    return part


def miri(cx, scale, shards, flags='', target=None, tag='miri'):
    d = os.path.join(core.VERIF, 'harness', 'hashes')
    e = core.env(core.NIGHTLY, CARGO_TARGET_DIR=os.path.join(core.VERIF, 'target', 'miri'), RUSTFLAGS='--cfg verif_hooks',
                 MIRIFLAGS=('-Zmiri-symbolic-alignment-check ' + flags).strip())
    cmd = ['cargo', 'miri', 'run', '--offline'] + (['--target', target] if target else []) + ['--', 'c06', '--seed', str(cx.seed), '--scale', str(scale), '--shards', str(shards), '--trace']
    host = host_run(cx, scale, shards, tag)
    # the first run builds the interpreter's standard library and the harness
    procs = []
    for i in range(shards):
        out = os.path.join(cx.work, '%s.%d.jsonl' % (tag, i))
        p = subprocess.Popen(cmd + ['--shard', str(i)], cwd=d, env=e, stdout=open(out, 'wb'), stderr=open(out + '.err', 'wb'))
        procs.append((p, out))
        if i == 0:
            # let the build settle before the others ask for it
            while p.poll() is None and os.path.getsize(out) == 0:
                core.time.sleep(0.2)
    for i, (p, out) in enumerate(procs):
        try:
            p.wait(timeout=600 if not cx.thorough else 3000)
        except subprocess.TimeoutExpired:
            p.kill()
            cx.incon.append(tag + ' timed out')
            continue
        err = open(out + '.err', 'rb').read().decode('utf-8', 'replace')
        last = [l for l in open(out, 'rb') if l.startswith(b'{"begin"')][-1:]
        if p.returncode != 0:
            if 'Undefined Behavior' in err:
                at = err.index('Undefined Behavior')
                cx.viol(tag + ': ' + err[at:at + 900], {'case': str(last), 'cmd': cmd})
            elif 'unsupported operation' in err or 'could not compile' in err or 'error: failed' in err or not last:
                cx.incon.append(tag + ': ' + err[-800:])
            else:
                cx.viol(tag + ': ' + err[-900:], {'case': str(last), 'cmd': cmd})
        cx.merge(same_as_host(out, host[i], tag))


def sanitizer(cx, kind, scale):
    b = core.build('hashes', kind)
    opts = {'asan': ('ASAN_OPTIONS', 'abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1'),
            'msan': ('MSAN_OPTIONS', 'exitcode=66')}[kind]
    host = host_run(cx, scale, core.JOBS, kind)
    for i, s in enumerate(cx.run(b, 'c06', args=['--scale', str(scale), '--trace'], extra_env={opts[0]: opts[1]}, crash_ok=True, tag=kind)):
        if 'Sanitizer' in s.err:
            at = s.err.index('Sanitizer')
            last = [l for l in s.lines() if l.startswith(b'{"begin"')][-1:]
            cx.viol('%s: %s' % (kind, s.err[at:at + 1200]), {'case': str(last), 'argv': s.argv})
        elif s.rc != 0 or not s.ended():
            cx.diagnose(s, core.env(**{opts[0]: opts[1]}))
        cx.merge(same_as_host(s.path, host[i], kind))


def c06(cx):
    t = cx.thorough
    try:
        sanitizer(cx, 'asan', 2000 if t else 150)
        miri(cx, 6 if t else 1, 8 if t else 4)
        miri(cx, 2 if t else 1, 4 if t else 2, target='s390x-unknown-linux-gnu', tag='miri-big-endian')
        if t:
            miri(cx, 2, 4, flags='-Zmiri-tree-borrows', tag='miri-tree-borrows')
            miri(cx, 1, 4, target='i686-unknown-linux-gnu', tag='miri-32-bit')
            sanitizer(cx, 'msan', 1000)
    except core.Inconclusive as e:
        cx.incon.append(str(e))
    cx.rule = ('messages at every alignment 0..8 ending exactly at the end of their allocation, ragged streams of separately allocated pieces, HMAC and HKDF '
               'with keys around the block size, executed under Miri (stacked borrows, symbolic alignment, little- and big-endian) and AddressSanitizer; '
               'every result must equal the plain host build; distinct = distinct (hash, key, message)')
    cx.assumptions = ['Miri and the sanitizers see only the executions driven here']
    return cx.finish(need=500)


CHECKS = {'C01': conformance, 'C02': conformance, 'C03': c03, 'C04': conformance, 'C05': conformance, 'C06': c06}
