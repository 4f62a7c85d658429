"""Offline oracles for the prime-field, Diffie-Hellman and RSA properties: Python integers and chi-square tests."""
import json, math, os, random, sys
from . import core
from .core import Part, events, chi2_sf, ALPHA

sys.set_int_max_str_digits(0)
PRIMES = {k: {a: int(b, 16) for a, b in v.items()} for k, v in json.load(open(os.path.join(os.path.dirname(__file__), 'primes.json'))).items()}


def prime(f):
    return PRIMES[f.split('/')[0]]['p']


def is_prime(n, rng=random.Random(12345)):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] + [rng.randrange(2, n - 1) for _ in range(24)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def short(ev):
    s = json.dumps(ev)
    return ev if len(s) < 3000 else s[:3000]


def I(x):
    return int(x, 16)


def expected(ev, p):
    """The list of field elements the operation must return; None where another rule applies."""
    op, x = ev['op'], ev['x']
    if op == 'asm':
        a, b = I(x[0]), I(x[1])
        return [(a + b) % p, (a - b) % p, a * b % p]
    if op == 'sum':
        return [sum(map(I, x)) % p]
    if op == 'prod':
        r = 1 % p
        for v in x:
            r = r * I(v) % p
        return [r]
    if op == 'prog':
        reg = [I(v) for v in x[0]]
        for o, d, a, b in x[1]:
            if o == 0:
                v = reg[a] + reg[b]
            elif o == 1:
                v = reg[a] - reg[b]
            elif o == 2:
                v = reg[a] * reg[b]
            elif o == 3:
                v = sum(reg[:a + 1])
            else:
                v = 1
                for k in reg[:b + 1]:
                    v = v * k % p
            reg[d] = v % p
        return reg
    if op == 'ways':
        a, b, c = map(I, x)
        return [a * (b + c) % p] * 8
    if op == 'pow':
        return [pow(I(x[0]), I(x[1]), p)]
    if op == 'modpow':
        return [pow(I(x[0]), I(x[1]), I(x[2]))]
    if op == 'divrem':
        a, b = I(x[0]), I(x[1])
        return [a // b, a % b]
    if op == 'inv':
        return [pow(I(x[0]), -1, p), 1 % p]
    if op == 'into':
        return [I(x[0]) % p]
    if op == 'str':
        return [int(x[0], x[1]) % p]
    if op == 'badstr':
        return []
    if op == 'int':
        return [int(x[0]) % p]
    if op in ('le', 'be'):
        v = int.from_bytes(bytes.fromhex(x[0]), 'little' if op == 'le' else 'big')
        return [v] if v < p else []
    if op == 'prime':
        return []
    return None


def judge(part, ev):
    if 'viol' in ev:
        part.viol(ev['viol'], ev['case'])
        return
    if 'replay' in ev:
        part.saw(('replay', ev['replay'], ev['i']))
        part.count('replayed generators')
        return
    if 'refused' in ev:
        part.saw(('refused', ev['refused'], ev['v']))
        part.count('refused values')
        return
    if 'dist' in ev:
        distribution(part, ev)
        return
    if 'prime' in ev or ('f' in ev and 'op' not in ev):
        f = ev['f']
        part.saw(('prime', f))
        if 'p' in ev:
            part.viol('field %s has no usable prime: %s' % (f, ev['p']), short(ev))
            return
        p = I(ev['prime'])
        if p != prime(f) or I(ev['again']) != p:
            part.viol('field %s reports the prime %x' % (f, p), short(ev))
        elif not is_prime(p):
            part.viol('the modulus of %s is not prime' % f, short(ev))
        q = PRIMES.get(f, {}).get('q')
        if q and ((p - 1) % q or not is_prime(q) or pow(PRIMES[f]['g'], q, p) != 1):
            part.viol('the modulus of %s does not fit the published subgroup order' % f, short(ev))
        part.sample('%s: prime %s' % (f, ev['prime'][:80]))
        return
    if 'op' not in ev:
        return
    f, op = ev['f'], ev['op']
    p = prime(f)
    part.saw((f, op, json.dumps(ev.get('x', [ev.get('g'), ev.get('key'), ev.get('m'), ev['c']]))))
    part.count('events ' + op)
    if 'p' in ev:
        part.viol('%s in %s panicked: %s' % (op, f, ev['p']), short(ev))
        return
    if op == 'egcd':
        a, b = I(ev['x'][0]), I(ev['x'][1])
        d, s, t = map(I, ev['r'])
        if d != math.gcd(a, b) % p or (s * a + t * b - d) % p or max(s, t) >= p:
            part.viol('extended gcd wrong in %s: gcd %x' % (f, math.gcd(a, b)), short(ev))
    elif op == 'out':
        v = I(ev['x'][0])
        le, be = bytes.fromhex(ev['le']), bytes.fromhex(ev['be'])
        if int.from_bytes(le, 'little') != v or int.from_bytes(be, 'big') != v or I(ev['u']) != v or not ev['back']:
            part.viol('written form does not denote the element or does not read back in %s' % f, short(ev))
    elif op == 'dh':
        dh(part, ev, p)
    elif op == 'rsa':
        rsa(part, ev, p)
    else:
        want = expected(ev, p)
        got = [I(r) for r in ev['r']]
        if got != want:
            part.viol('%s in %s: got %s, exact result %s' % (op, f, ['%x' % g for g in got], ['%x' % g for g in want]), short(ev))
        elif not ev['same']:
            part.viol('%s in %s: result differs from, or hashes unlike, the same residue' % (op, f), short(ev))
        elif part.evaluations % 400 == 3 and len(json.dumps(ev)) < 500:
            part.sample(short(ev))


def dh(part, ev, p):
    g = I(ev['g'])
    priv, pub, shared = [[I(v) for v in ev[k]] for k in ('priv', 'pub', 'shared')]
    prod = 1
    for x in priv:
        prod *= x
    if any(x >= p for x in priv):
        part.viol('private key is not an element', short(ev))
    elif any(pow(g, x, p) != y for x, y in zip(priv, pub)):
        part.viol('a public key is not generator^private', short(ev))
    elif any(v != pow(g, prod, p) for v in shared):
        part.viol('a party computed another shared secret than generator^(product of the private keys)', short(ev))
    elif not ev['repro'] or not all(ev['drawn']):
        part.viol('key pairs are not fresh draws from the supplied generator', short(ev))
    elif part.evaluations % 100 == 1 and len(json.dumps(ev)) < 700:
        part.sample(ev)


KEYS = {}


def rsa(part, ev, p):
    n, e, d = KEYS[ev['key']]
    m = int.from_bytes(bytes.fromhex(ev['m']), 'little')
    le = lambda k: int.from_bytes(bytes.fromhex(ev[k]), 'little')
    if le('cipher') != pow(m, e, n):
        part.viol('the cipher is not message^e mod n', short(ev))
    elif le('back') != m:
        part.viol('decryption does not return the message', short(ev))
    elif le('sig') != pow(m, d, n):
        part.viol('decryption is not cipher^d mod n', short(ev))
    elif part.evaluations % 100 == 1 and len(json.dumps(ev)) < 700:
        part.sample(ev)


def distribution(part, ev):
    f, n = ev['f'], ev['n']
    p = prime(f)
    name = '%s/%s' % (f, ev['dist'])
    part.saw(name, n)
    part.count('elements drawn', n)
    tests = 0

    def test(what, pv):
        nonlocal tests
        tests += 1
        if pv < ALPHA:
            part.viol('%s is not uniform: %s has probability %.2e' % (name, what, pv), dict(field=f, draws=n, test=what))

    if ev['bad']:
        part.viol('%d of %d elements are not below the prime' % (ev['bad'], n), dict(field=f))
        return
    if ev['dup']:
        part.viol('%d repeated elements in a field of %d bits' % (ev['dup'], p.bit_length()), dict(field=f))
    if ev['small']:
        c = dict(map(tuple, ev['small']))
        if n >= 8 * p:
            test('frequency of every element', core.chi2_uniform([c.get(i, 0) for i in range(p)]))
        else:
            # too few draws per element: group neighbours, and elements by residue
            k = max(2, n // 50)
            for nm, key in (('groups of neighbours', lambda v: v * k // p), ('residue classes', lambda v: v % k)):
                if nm == 'residue classes':
                    sz = [(p - i + k - 1) // k for i in range(k)]
                else:
                    sz = [0] * k
                    for i in range(k):
                        lo, hi = -(-i * p // k), -(-(i + 1) * p // k)
                        sz[i] = hi - lo
                cnt = [0] * k
                for v, m in c.items():
                    cnt[key(v)] += m
                test(nm, core.chi2_uniform(cnt, probs=[s / p for s in sz]))
    # sixty-four equal slices and the four lowest bits
    sz = [(-(-(i + 1) * p // 64)) - (-(-i * p // 64)) for i in range(64)]
    cells = [(c, s / p) for c, s in zip(ev['top'], sz) if s]
    if sum(ev['top'][i] for i in range(64) if not sz[i]):
        part.viol('impossible slice', dict(field=f))
    if n >= 640:
        test('slices of the range', core.chi2_uniform([c for c, _ in cells], probs=[s for _, s in cells]))
    if p >= 16 and n >= 160:
        sz = [(p - i + 15) // 16 for i in range(16)]
        test('lowest bits', core.chi2_uniform(ev['low'], probs=[s / p for s in sz]))
    # each bit on its own
    for i, o in enumerate(ev['ones']):
        full, rest = divmod(p, 1 << (i + 1))
        pr = (full * (1 << i) + max(0, rest - (1 << i))) / p
        if 0 < pr < 1:
            z = (o - n * pr) ** 2 / (n * pr * (1 - pr))
            if n * min(pr, 1 - pr) > 8:
                test('bit %d' % i, chi2_sf(z, 1))
            elif o > n * pr + 60:
                test('bit %d' % i, 0.0)
        elif o not in (0, n):
            test('bit %d' % i, 0.0)
    # the two ends of the range, and the elements that share their leading part with the prime
    def frequency(what, o, pr):
        if 0 < pr < 1 and n * min(pr, 1 - pr) > 8:
            z = (o - n * pr) ** 2 / (n * pr * (1 - pr))
            # a small expectation has the tail of a Poisson law, not of a normal one
            test(what, max(chi2_sf(z, 1), core.poisson_tails(o, n * pr)) if n * pr < 2000 else chi2_sf(z, 1))

    for k in range(7, 17):
        m = 65536 - (1 << (16 - k))
        frequency('the highest 2^-%d of the range' % k, ev['hi'][k], (p + (-m * p // 65536)) / p)
        frequency('the lowest 2^-%d of the range' % k, ev['lo'][k], -(-(p << (16 - k)) // 65536) / p)
    for j, o in ev['shared']:
        frequency('the part of the range that agrees with the prime above bit %d' % j, o, (p & ((1 << j) - 1)) / p)
    if p >= 105 and n >= 1050:
        sz = [(p - i + 104) // 105 for i in range(105)]
        test('residues modulo 105', core.chi2_uniform(ev['res'], probs=[s / p for s in sz]))
    if p >= 64 and n >= 10000:
        sz = [(-(-(i + 1) * p // 64)) - (-(-i * p // 64)) for i in range(64)]
        pt = sum((s / p) ** 2 for s in sz)
        pl = sum((((p - i + 15) // 16) / p) ** 2 for i in range(16))
        for k in range(1, 65):
            for what, o, pr in (('slice', ev['eqt'][k], pt), ('low bits', ev['eql'][k], pl)):
                z = (o - (n - k) * pr) ** 2 / ((n - k) * pr * (1 - pr))
                test('agreement of the %s of elements drawn %d apart' % (what, k), chi2_sf(z, 1))
    # full words against each other and against the same word of the next element
    w = ev['words']
    k = 0
    for i in range(w):
        for j in range(i):
            z = (ev['xors'][k] - 16 * n) ** 2 / (8.0 * n)
            test('words %d and %d' % (j, i), chi2_sf(z, 1))
            k += 1
        z = (ev['succ'][i] - 16 * (n - 1)) ** 2 / (8.0 * (n - 1))
        test('word %d of successive elements' % i, chi2_sf(z, 1))
    for what in ('pairs', 'lag2'):
        c = {(a, b): m for a, b, m in ev[what]}
        ks = sorted({a for a, _ in c} | {b for _, b in c})
        m = sum(c.values())
        ra = {a: sum(c.get((a, b), 0) for b in ks) for a in ks}
        cb = {b: sum(c.get((a, b), 0) for a in ks) for b in ks}
        if len(ks) < 2 or m * min(ra.values()) * min(cb.values()) / m / m < 6:
            continue
        x2 = sum((c.get((a, b), 0) - ra[a] * cb[b] / m) ** 2 / (ra[a] * cb[b] / m) for a in ks for b in ks)
        test('independence of successive elements (%s)' % what, chi2_sf(x2, (len(ks) - 1) ** 2))
    part.count('statistical tests', tests)
    part.sample('%s: %d draws, %d tests' % (name, n, tests))


def scan(path):
    part = Part()
    for ev in events(path):
        judge(part, ev)
    return part


RULES = {
    'C07': 'complete tables of fields up to 17 elements; edge and random operands, iterator sums/products of 0..200 elements and random straight-line programs in 58 fields (11 Mersenne, 3 RFC 5114, 44 user-declared); distinct = distinct (field, operation, operands)',
    'C08': 'all operand pairs of fields up to 137 elements, edge/random/multiple/Fibonacci operands elsewhere; distinct = distinct (field, operation, operands)',
    'C09': 'multiples of the prime +-k, strings in radix 2..36 with and without an invalid character, all machine integer types at their limits, padded byte strings in both orders; distinct = distinct (field, conversion, operand)',
    'C10': 'histograms, slices, single bits, word pairs and lag-1/lag-2 independence of many draws per field (alarm below %.0e), replayed generators, generators that start with extreme bytes; distinct = fields and replays' % ALPHA,
    'C11': 'the prime every field reports (twice) against OpenSSL/RFC 5114 values and Miller-Rabin, arithmetic in each field interleaved with the others; distinct = distinct (field, operation, operands)',
    'C12': 'two to four parties per exchange applying their keys in all orders, any generator element, 58 fields, plus histograms of private keys; distinct = distinct exchanges',
    'C13': 'keys of 9..3000 bits made by Python, edge/random/zero-padded messages, both directions, and values not below the field prime; distinct = distinct (field, key, message)',
}


def conformance(cx):
    b = core.build('fields')
    args = []
    if cx.pid == 'C13':
        path = os.path.join(cx.work, 'keys')
        rng = random.Random(cx.seed)
        with open(path, 'w') as f:
            for i, bits in enumerate([5, 8, 9, 12, 20, 28, 30, 44, 58, 60, 62, 90, 120, 126, 180, 250, 300, 400, 512, 520, 700, 1000, 1022, 1200, 1500, 1536, 1800, 2040, 2047, 2047] + ([3000, 4090] if cx.thorough else [3000])):
                n, e, d, turn = rsa_key(bits, rng)
                f.write('k%d %x %x %x %x\n' % (i, n, e, d, turn))
                KEYS['k%d' % i] = (n, e, d)
        args = ['--input', path]
    if cx.pid == 'C11':
        for k, v in PRIMES.items():
            if k[0] == 'M' and v['p'] != (1 << int(k[1:])) - 1:
                cx.incon.append('reference prime of %s damaged' % k)
    cx.pool(scan, [s.path for s in cx.run(b, cx.pid.lower(), shards=16, args=args)])
    cx.rule = RULES[cx.pid]
    cx.assumptions = ['Python integer arithmetic is exact'] + (['a statistical alarm needs a deviation of probability below %.0e' % ALPHA] if cx.pid in ('C10', 'C12') else [])
    return cx.finish(need=1000)


def rsa_key(bits, rng):
    def pr(b):
        while True:
            n = rng.getrandbits(b) | (1 << (b - 1)) | 1
            if is_prime(n):
                return n
    while True:
        a = bits // 2
        p, q = pr(a) if a > 1 else 3, pr(bits - a)
        if p == q:
            continue
        n, phi = p * q, (p - 1) * (q - 1)
        e = rng.choice([3, 5, 17, 257, 65537, 7, 11]) if bits > 24 else rng.randrange(3, phi, 2)
        if math.gcd(e, phi) == 1 and e < phi:
            return n, e, pow(e, -1, phi), phi // math.gcd(p - 1, q - 1)


CHECKS = {c: conformance for c in RULES}
