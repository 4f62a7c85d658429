//! Drives the public hashing API of jester_hashes and records what it returned.
//! Conformance is decided offline (monitor/hashes.py against Python's hashlib/hmac); stream invariance is decided here.
use jcommon::*;
use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::hmac::hmac;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{BlockHashFunction, HashFunction, HashValue};

const PERIOD: usize = 65521;

/// Long messages are a cyclic pattern the offline checker can rebuild from (salt, length).
fn pattern(salt: u8) -> Vec<u8> {
    (0..PERIOD)
        .map(|i| ((i * 167 + (i >> 8) * 13 + salt as usize) & 0xff) as u8)
        .collect()
}

#[derive(Clone)]
enum Alg {
    Md5,
    Sha1,
    B2b(usize, Vec<u8>),
    B2s(usize, Vec<u8>),
}

impl Alg {
    fn block(&self) -> usize {
        match self {
            Alg::B2b(..) => 128,
            _ => 64,
        }
    }
    fn json(&self) -> String {
        match self {
            Alg::Md5 => "\"a\":\"md5\"".into(),
            Alg::Sha1 => "\"a\":\"sha1\"".into(),
            Alg::B2b(o, k) => format!("\"a\":\"b2b\",\"o\":{},\"k\":\"{}\"", o, hex(k)),
            Alg::B2s(o, k) => format!("\"a\":\"b2s\",\"o\":{},\"k\":\"{}\"", o, hex(k)),
        }
    }
}

macro_rules! with_alg {
    ($alg:expr, $H:ident, $ctx:ident, $body:expr) => {
        match $alg {
            Alg::Md5 => {
                type $H = MD5Hash;
                let $ctx = ();
                $body
            }
            Alg::Sha1 => {
                type $H = SHA1Hash;
                let $ctx = ();
                $body
            }
            Alg::B2b(o, k) => {
                type $H = Blake2b;
                let $ctx = Blake2bContext { output_len: *o, key: k.clone() };
                $body
            }
            Alg::B2s(o, k) => {
                type $H = Blake2s;
                let $ctx = Blake2sContext { output_len: *o, key: k.clone() };
                $body
            }
        }
    };
}

fn digest(alg: &Alg, m: &[u8]) -> Result<Vec<u8>, String> {
    guard(|| with_alg!(alg, H, ctx, H::digest_message(&ctx, m).raw()))
}

fn stream<'a>(alg: &Alg, chunks: &mut dyn Iterator<Item = &'a [u8]>) -> Result<Vec<u8>, String> {
    guard(|| {
        with_alg!(alg, H, ctx, {
            let mut st = H::init_hash(&ctx);
            for c in chunks {
                H::update_hash(&mut st, &ctx, c);
            }
            H::finish_hash(&mut st, &ctx).raw()
        })
    })
}

fn res(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(d) => format!("\"d\":\"{}\"", hex(d)),
        Err(p) => format!("\"p\":{}", q(p)),
    }
}

struct Run {
    a: Args,
    log: Log,
    case: u64,
}

impl Run {
    /// should this shard execute the next case?
    fn mine(&mut self) -> bool {
        let c = self.case;
        self.case += 1;
        match self.a.only {
            Some(o) => o == c,
            None => c % self.a.shards == self.a.shard,
        }
    }
    fn rng(&self, stream: u64) -> R {
        rng(self.a.seed, stream, self.case)
    }

    fn one(&mut self, alg: &Alg, m: &[u8]) {
        let c = self.case - 1;
        let desc = || format!("{{\"c\":{},{},\"m\":\"{}\"", c, alg.json(), hex(m));
        self.log.begin(&|| desc());
        let r = digest(alg, m);
        let l = format!("{},{}}}", desc(), res(&r));
        self.log.line(&l);
    }

    fn long(&mut self, alg: &Alg, salt: u8, len: u64, piece: usize) {
        let c = self.case - 1;
        let desc = format!("{{\"c\":{},{},\"salt\":{},\"len\":{},\"piece\":{}", c, alg.json(), salt, len, piece);
        self.log.begin(&|| desc.clone());
        // a buffer of whole periods so that any piece is a contiguous slice
        let base = pattern(salt);
        let mut buf = Vec::new();
        while buf.len() < piece + PERIOD {
            buf.extend_from_slice(&base);
        }
        let r = if piece as u64 >= len {
            digest(alg, &buf[..len as usize])
        } else {
            let mut pos = 0u64;
            let buf = &buf;
            let mut it = std::iter::from_fn(move || {
                if pos >= len {
                    return None;
                }
                let n = std::cmp::min(piece as u64, len - pos) as usize;
                let o = (pos % PERIOD as u64) as usize;
                pos += n as u64;
                Some(&buf[o..o + n])
            });
            stream(alg, &mut it)
        };
        let l = format!("{},{}}}", desc, res(&r));
        self.log.line(&l);
    }

    fn content(kind: u64, len: usize, r: &mut R) -> Vec<u8> {
        match kind {
            0 => vec![0u8; len],
            1 => vec![0xff; len],
            2 => (0..len).map(|i| i as u8).collect(),
            3 => vec![0x80; len],
            _ => r.bytes(len),
        }
    }

    fn c01(&mut self) {
        let n = if self.a.thorough { 40000 } else { 3000 };
        self.bursts(1, n, |r| if r.chance(1, 2) { Alg::Md5 } else { Alg::Sha1 }, 0);
        let algs = [Alg::Md5, Alg::Sha1];
        let dense = if self.a.thorough { 4200 } else { 1100 };
        for alg in &algs {
            for len in 0..=dense {
                for kind in 0..5 {
                    if self.mine() {
                        let mut r = self.rng(1);
                        let m = Run::content(kind, len, &mut r);
                        self.one(alg, &m);
                    }
                }
            }
            for k in 10..=20u32 {
                for d in [-65i64, -64, -63, -9, -8, -1, 0, 1, 7, 8, 9, 55, 56, 63, 64, 65].iter() {
                    if self.mine() {
                        self.long(alg, k as u8, ((1i64 << k) + d) as u64, 1 << 22);
                    }
                }
            }
            let n = if self.a.thorough { 800000 } else { 110000 };
            for _ in 0..n {
                if self.mine() {
                    let mut r = self.rng(1);
                    let len = r.mixed(1, 8, 20000, 700) as usize;
                    let m = r.bytes(len);
                    self.one(alg, &m);
                }
            }
            // bit length beyond 32 bits
            let mut lens = vec![(1u64 << 29) - 9, 1 << 29, (1 << 29) + 77];
            if self.a.thorough {
                lens.extend_from_slice(&[(1 << 30) + 55, (1 << 31) + 3, (1 << 32) + 119]);
            }
            for l in lens {
                if self.mine() {
                    self.long(alg, (l % 251) as u8, l, 1 << 20);
                }
            }
            if self.mine() {
                // one single slice of more than 2^29 bytes
                let l = (1u64 << 29) + 12345;
                self.long(alg, 9, l, l as usize);
            }
        }
    }

    /// Several calls that share most of their inputs, made one right after the other under one case number:
    /// what a call returns must not depend on the calls before it.
    fn bursts(&mut self, stream: u64, count: u64, pick: fn(&mut R) -> Alg, kind: u8) {
        for _ in 0..count {
            if !self.mine() {
                continue;
            }
            let mut r = self.rng(stream);
            let mut algs: Vec<Alg> = (0..1 + r.below(3)).map(|_| pick(&mut r)).collect();
            // contexts that differ in exactly one respect
            for _ in 0..2 {
                let mut v = r.pick(&algs).clone();
                match &mut v {
                    Alg::B2b(o, k) | Alg::B2s(o, k) => match r.below(4) {
                        0 => *o = 1 + r.below(*o as u64) as usize,
                        1 => k.clear(),
                        2 if !k.is_empty() => {
                            let i = r.below(k.len() as u64) as usize;
                            k[i] ^= 1 << r.below(8)
                        }
                        _ => {
                            k.pop();
                        }
                    },
                    _ => {}
                }
                algs.push(v);
            }
            let mut strings: Vec<Vec<u8>> = vec![];
            for _ in 0..2 {
                let l = match r.below(4) {
                    0 => 0,
                    1 => *r.pick(&[55usize, 56, 63, 64, 65, 127, 128, 129, 192, 256]),
                    _ => r.below(400) as usize,
                };
                strings.push(r.bytes(l));
            }
            let mut twin = r.pick(&strings).clone();
            match r.below(3) {
                0 if !twin.is_empty() => {
                    let i = r.below(twin.len() as u64) as usize;
                    twin[i] ^= 1 << r.below(8)
                }
                1 => {
                    twin.pop();
                }
                _ => twin.push(0),
            }
            strings.push(twin);
            for _ in 0..4 + r.below(5) {
                let alg = r.pick(&algs).clone();
                let a = r.pick(&strings).clone();
                let b = r.pick(&strings).clone();
                let c = r.pick(&strings).clone();
                match kind {
                    0 => self.one(&alg, &a),
                    1 => self.hmac_one(&alg, &a, &b),
                    _ => {
                        let hl = with_alg!(&alg, H, ctx, H::output_size(&ctx));
                        let len = *r.pick(&[0, 1, hl, hl + 1, 3 * hl]);
                        self.hkdf_one(&alg, &a, &b, len, &c)
                    }
                }
            }
        }
    }

    fn c02(&mut self) {
        let n = if self.a.thorough { 60000 } else { 4000 };
        self.bursts(
            2,
            n,
            |r| {
                let b = 2 + r.below(4);
                Run::any_alg(r, b)
            },
            0,
        );
        // every admissible (key length, output length) pair, on short and block-boundary messages
        for b in 0..2 {
            let (mx, bs) = if b == 0 { (64usize, 128usize) } else { (32, 64) };
            let mk = |o: usize, k: Vec<u8>| if b == 0 { Alg::B2b(o, k) } else { Alg::B2s(o, k) };
            for o in 1..=mx {
                for kl in 0..=mx {
                    if self.mine() {
                        let mut r = self.rng(2);
                        let key = r.bytes(kl);
                        let alg = mk(o, key);
                        let mut lens = vec![0usize, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs];
                        lens.push(r.below(5 * bs as u64) as usize);
                        for l in lens {
                            let m = r.bytes(l);
                            self.one(&alg, &m);
                        }
                    }
                }
            }
            let dense = if self.a.thorough { 3000 } else { 700 };
            for len in 0..=dense {
                for kind in 0..5 {
                    if self.mine() {
                        let mut r = self.rng(2);
                        let m = Run::content(kind, len, &mut r);
                        let kl = if kind % 2 == 0 { 0 } else { mx };
                        let key = r.bytes(kl);
                        self.one(&mk(mx, key), &m);
                    }
                }
            }
            for k in 9..=20u32 {
                for d in [-1i64, 0, 1, 64, 65, 127, 128, 129].iter() {
                    if self.mine() {
                        self.long(&mk(mx, vec![]), k as u8, ((1i64 << k) + d) as u64, 1 << 22);
                    }
                }
            }
            // degenerate keys and contents
            for kl in 1..=mx {
                for kb in [0u8, 0xff, 0x80].iter() {
                    if self.mine() {
                        let m = vec![*kb; kl];
                        self.one(&mk(mx, vec![*kb; kl]), &m);
                        self.one(&mk(1, vec![*kb; kl]), &[]);
                    }
                }
            }
            let n = if self.a.thorough { 400000 } else { 20000 };
            for _ in 0..n {
                if self.mine() {
                    let mut r = self.rng(2);
                    let o = 1 + r.below(mx as u64) as usize;
                    let kl = if r.chance(1, 3) { 0 } else { r.below(mx as u64 + 1) as usize };
                    let key = r.bytes(kl);
                    let len = r.mixed(1, 8, 20000, 900) as usize;
                    let m = r.bytes(len);
                    self.one(&mk(o, key), &m);
                }
            }
        }
        // byte count beyond 32 bits (the BLAKE2s counter's second word)
        let mut huge = vec![(Alg::B2s(32, vec![]), (1u64 << 32) + 77)];
        if self.a.thorough {
            huge.push((Alg::B2s(17, vec![7; 32]), 1u64 << 32));
            huge.push((Alg::B2s(32, vec![]), (1u64 << 32) - 64));
            huge.push((Alg::B2b(64, vec![]), (1u64 << 32) + 200));
            huge.push((Alg::B2b(33, vec![1; 64]), 1u64 << 32));
        }
        for (alg, l) in huge {
            if self.mine() {
                self.long(&alg, (l % 251) as u8, l, 1 << 20);
            }
        }
    }

    fn check_split(&mut self, alg: &Alg, m: &[u8], cuts: &[usize], whole: &Result<Vec<u8>, String>) {
        let mut pos = 0;
        let mut pieces: Vec<&[u8]> = vec![];
        for c in cuts {
            pieces.push(&m[pos..pos + c]);
            pos += c;
        }
        pieces.push(&m[pos..]);
        let case = self.case - 1;
        let desc = || format!("case {} {} message {} cuts {:?}", case, alg.json(), hex(m), cuts);
        self.log.begin(&|| desc());
        let r = stream(alg, &mut pieces.into_iter());
        if &r != whole || r.is_err() {
            let w = format!("whole: {:?}, in pieces: {:?}", whole.as_ref().map(|d| hex(d)), r.map(|d| hex(&d)));
            self.log.viol(&w, &desc());
        }
    }

    fn c03(&mut self) {
        let mut n = 0u64;
        let mut digests = 0u64;
        let mut states = std::collections::HashSet::new();
        let mut sample = String::new();
        for b in 0..6 {
            let mut r0 = rng(self.a.seed, 3, 1 << 40);
            let (alg, bs) = match b {
                0 => (Alg::Md5, 64usize),
                1 => (Alg::Sha1, 64),
                2 => (Alg::B2b(64, vec![]), 128),
                3 => (Alg::B2s(32, vec![]), 64),
                4 => (Alg::B2b(20, r0.bytes(33)), 128),
                _ => (Alg::B2s(11, r0.bytes(32)), 64),
            };
            // every buffer fill level x every length of the next piece x several tails
            for fill in 0..=bs {
                if self.mine() {
                    let mut r = self.rng(3);
                    let top = if self.a.thorough { 5 * bs } else { 2 * bs + 40 };
                    let full = r.bytes(fill + top + 200);
                    for c in 0..=top {
                        for tail in [0usize, 1, bs - 1, bs].iter() {
                            let m = &full[..fill + c + tail];
                            let whole = digest(&alg, m);
                            self.check_split(&alg, m, &[fill, c], &whole);
                            n += 1;
                            states.insert((b, fill, c, *tail));
                        }
                    }
                }
            }
            // random compositions, including empty and single byte pieces
            let k = if self.a.thorough { 900000 } else { 200000 };
            for _ in 0..k {
                if self.mine() {
                    let mut r = self.rng(3);
                    let len = r.mixed(1, 10, 6000, 700) as usize;
                    let m = r.bytes(len);
                    let whole = digest(&alg, &m);
                    digests += 1;
                    for _ in 0..3 {
                        let style = r.below(5);
                        let mut cuts = vec![];
                        let mut left = len;
                        while left > 0 && cuts.len() < 4000 {
                            let c = match style {
                                0 => r.below(4) as usize,
                                1 => bs * r.below(3) as usize,
                                2 => *r.pick(&[0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs]),
                                3 => r.below(left as u64 + 1) as usize,
                                _ => r.below(bs as u64 + 2) as usize,
                            };
                            let c = std::cmp::min(c, left);
                            cuts.push(c);
                            left -= c;
                            if r.chance(1, 12) {
                                cuts.push(0)
                            }
                        }
                        self.check_split(&alg, &m, &cuts, &whole);
                        n += 1;
                        if sample.len() < 300 && len > 20 && len < 60 {
                            sample += &format!("{} len {} cuts {:?}; ", alg.json().replace('"', ""), len, cuts);
                        }
                    }
                }
            }
            // very many pieces: single bytes and empty ones
            for tiny in 0..3usize {
                if self.mine() {
                    let mut r = self.rng(3);
                    let len = [66_000usize, 131_100, 300][tiny] + r.below(200) as usize;
                    let m = r.bytes(len);
                    let whole = digest(&alg, &m);
                    digests += 1;
                    let mut pieces: Vec<&[u8]> = Vec::new();
                    if tiny < 2 {
                        let step = 1 + tiny;
                        pieces.extend(m.chunks(step));
                    } else {
                        for b in m.chunks(1) {
                            pieces.push(b);
                            for _ in 0..300 {
                                pieces.push(&m[..0]);
                            }
                        }
                    }
                    let desc = format!("case {} {} {} bytes in {} pieces", self.case - 1, alg.json(), len, pieces.len());
                    self.log.begin(&|| desc.clone());
                    let r = stream(&alg, &mut pieces.into_iter());
                    n += 1;
                    if r != whole || r.is_err() {
                        self.log.viol("very many small pieces give another digest", &desc);
                    }
                }
            }
            // one state per thread, fed at the same time
            for _ in 0..k / 400 {
                if self.mine() {
                    let mut r = self.rng(3);
                    let cnt = 2 + r.below(3) as usize;
                    let jobs: Vec<(Alg, Vec<Vec<u8>>)> = (0..cnt)
                        .map(|_| {
                            let a = if r.chance(2, 3) {
                                alg.clone()
                            } else {
                                let b = r.below(6);
                                Run::any_alg(&mut r, b)
                            };
                            let p = (0..5 + r.below(30))
                                .map(|_| {
                                    let l = r.below(bs as u64 + 20) as usize;
                                    r.bytes(l)
                                })
                                .collect();
                            (a, p)
                        })
                        .collect();
                    let gate = std::sync::Arc::new(std::sync::Barrier::new(cnt));
                    let hs: Vec<_> = jobs
                        .iter()
                        .cloned()
                        .map(|(a, p)| {
                            let gate = gate.clone();
                            std::thread::spawn(move || {
                                gate.wait();
                                stream(&a, &mut p.iter().map(|x| {
                                    std::thread::yield_now();
                                    &x[..]
                                }))
                            })
                        })
                        .collect();
                    n += cnt as u64;
                    for (h, (a, p)) in hs.into_iter().zip(jobs) {
                        let got = h.join().unwrap_or_else(|_| Err("thread died".into()));
                        let m = p.concat();
                        let whole = digest(&a, &m);
                        if got != whole || got.is_err() {
                            let c = format!("case {} {} one of {} threads, message {}", self.case - 1, a.json(), cnt, hex(&m));
                            self.log.viol("a state fed on one of several threads differs from the one-shot digest", &c);
                        }
                    }
                }
            }
            // several states fed alternately
            for _ in 0..k / 10 {
                if self.mine() {
                    let mut r = self.rng(3);
                    let cnt = 2 + r.below(4) as usize;
                    let msgs: Vec<Vec<u8>> = (0..cnt)
                        .map(|_| {
                            let l = r.below(600) as usize;
                            r.bytes(l)
                        })
                        .collect();
                    let got = guard(|| {
                        with_alg!(&alg, H, ctx, {
                            let mut st: Vec<_> = msgs.iter().map(|_| H::init_hash(&ctx)).collect();
                            let mut pos = vec![0usize; cnt];
                            while (0..cnt).any(|i| pos[i] < msgs[i].len()) {
                                let i = r.below(cnt as u64) as usize;
                                let c = std::cmp::min(r.below(150) as usize, msgs[i].len() - pos[i]);
                                H::update_hash(&mut st[i], &ctx, &msgs[i][pos[i]..pos[i] + c]);
                                pos[i] += c;
                            }
                            st.iter_mut()
                                .map(|s| H::finish_hash(s, &ctx).raw())
                                .collect::<Vec<_>>()
                        })
                    });
                    n += cnt as u64;
                    for i in 0..cnt {
                        let whole = digest(&alg, &msgs[i]);
                        let ok = match (&got, &whole) {
                            (Ok(g), Ok(w)) => &g[i] == w,
                            _ => false,
                        };
                        if !ok {
                            let c = format!("case {} {} interleaved state {} of {} message {}", self.case - 1, alg.json(), i, cnt, hex(&msgs[i]));
                            self.log.viol("alternately fed state differs from one-shot digest", &c);
                            break;
                        }
                    }
                }
            }
        }
        let l = format!(
            "{{\"stat\":{{\"splits\":{},\"messages\":{},\"fill_states\":{}}},\"sample\":{}}}",
            n, digests, states.len(), q(&sample)
        );
        self.log.line(&l);
    }

    fn hmac_one(&mut self, alg: &Alg, key: &[u8], m: &[u8]) {
        let c = self.case - 1;
        let desc = || format!("{{\"c\":{},\"mac\":1,{},\"key\":\"{}\",\"m\":\"{}\"", c, alg.json(), hex(key), hex(m));
        self.log.begin(&|| desc());
        let r = guard(|| with_alg!(alg, H, ctx, hmac::<H, _>(&ctx, key, m)));
        let l = format!("{},{}}}", desc(), res(&r));
        self.log.line(&l);
    }

    fn any_alg(r: &mut R, b: u64) -> Alg {
        match b {
            0 => Alg::Md5,
            1 => Alg::Sha1,
            2 => Alg::B2b(64, vec![]),
            3 => Alg::B2s(32, vec![]),
            4 => {
                let k = r.mixed(1, 3, 65, 1) as usize;
                Alg::B2b(1 + r.below(64) as usize, r.bytes(k))
            }
            _ => {
                let k = r.mixed(1, 3, 33, 1) as usize;
                Alg::B2s(1 + r.below(32) as usize, r.bytes(k))
            }
        }
    }

    fn c04(&mut self) {
        let n = if self.a.thorough { 60000 } else { 4000 };
        self.bursts(
            4,
            n,
            |r| {
                let b = r.below(6);
                Run::any_alg(r, b)
            },
            1,
        );
        for b in 0..6u64 {
            let top = if self.a.thorough { 700 } else { 300 };
            for kl in 0..=top {
                for kind in 0..3 {
                    if self.mine() {
                        let mut r = self.rng(4);
                        let alg = Run::any_alg(&mut r, b);
                        let key = Run::content([0, 1, 9][kind as usize], kl, &mut r);
                        let ml = r.below(300) as usize;
                        let m = r.bytes(ml);
                        self.hmac_one(&alg, &key, &m);
                    }
                }
            }
            for ml in 0..=top {
                if self.mine() {
                    let mut r = self.rng(4);
                    let alg = Run::any_alg(&mut r, b);
                    let kl = r.below(200) as usize;
                    let key = r.bytes(kl);
                    let m = r.bytes(ml);
                    self.hmac_one(&alg, &key, &m);
                }
            }
            let n = if self.a.thorough { 800000 } else { 110000 };
            for _ in 0..n {
                if self.mine() {
                    let mut r = self.rng(4);
                    let alg = Run::any_alg(&mut r, b);
                    let mut kl = r.mixed(1, 10, 5000, 280) as usize;
                    let mut ml = r.mixed(1, 10, 9000, 300) as usize;
                    if r.chance(1, 250) {
                        // beyond 16 bits
                        if r.chance(1, 2) {
                            kl = 65530 + r.below(70000) as usize
                        } else {
                            ml = 65530 + r.below(200_000) as usize
                        }
                    }
                    if r.chance(1, 120) {
                        // a little more than whole multiples of powers of two
                        let step = 1usize << r.range(9, 17);
                        let n = step * (1 + r.below(3) as usize) + r.below(140) as usize - 5;
                        if r.chance(2, 3) {
                            kl = n
                        } else {
                            ml = n
                        }
                    }
                    let mut key = r.bytes(kl);
                    if r.chance(1, 5) && kl > 0 {
                        // trailing zero bytes are where padding mistakes hide
                        let z = 1 + r.below(kl as u64) as usize;
                        for x in key[kl - z..].iter_mut() {
                            *x = 0
                        }
                    }
                    let m = r.bytes(ml);
                    self.hmac_one(&alg, &key, &m);
                }
            }
        }
    }

    fn hkdf_one(&mut self, alg: &Alg, salt: &[u8], ikm: &[u8], len: usize, info: &[u8]) {
        let c = self.case - 1;
        let desc = || {
            format!(
                "{{\"c\":{},{},\"salt\":\"{}\",\"ikm\":\"{}\",\"L\":{},\"info\":\"{}\"",
                c, alg.json(), hex(salt), hex(ikm), len, hex(info)
            )
        };
        self.log.begin(&|| desc());
        let r = guard(|| with_alg!(alg, H, ctx, hkdf_derive_key::<H, _>(&ctx, salt, ikm, len, info)));
        let l = format!("{},{}}}", desc(), res(&r));
        self.log.line(&l);
    }

    fn c05(&mut self) {
        let n = if self.a.thorough { 40000 } else { 3000 };
        self.bursts(
            5,
            n,
            |r| {
                let b = r.below(6);
                Run::any_alg(r, b)
            },
            2,
        );
        for b in 0..6u64 {
            let top = if self.a.thorough { 1200 } else { 330 };
            for len in 0..=top {
                if self.mine() {
                    let mut r = self.rng(5);
                    let alg = Run::any_alg(&mut r, b);
                    let hl = with_alg!(&alg, H, ctx, H::output_size(&ctx));
                    let len = std::cmp::min(len, 255 * hl);
                    let (a, bb, cc) = (r.below(150) as usize, r.below(150) as usize, r.below(150) as usize);
                    let (salt, ikm, info) = (r.bytes(a), r.bytes(bb), r.bytes(cc));
                    self.hkdf_one(&alg, &salt, &ikm, len, &info);
                }
            }
            let n = if self.a.thorough { 80000 } else { 6000 };
            for i in 0..n {
                if self.mine() {
                    let mut r = self.rng(5);
                    let alg = Run::any_alg(&mut r, b);
                    let hl = with_alg!(&alg, H, ctx, H::output_size(&ctx));
                    let len = match i % 8 {
                        0 => 255 * hl,
                        1 => 255 * hl - r.below(hl as u64) as usize,
                        2 => hl * (1 + r.below(255) as usize),
                        3 => (hl * (1 + r.below(254) as usize)) + 1,
                        _ => r.below(std::cmp::min(255 * hl, 600) as u64 + 1) as usize,
                    };
                    let mut lens = [0usize; 3];
                    for x in lens.iter_mut() {
                        *x = match r.below(4) {
                            0 => 0,
                            1 => r.below(40) as usize,
                            2 => r.mixed(1, 20, 3000, 300) as usize,
                            _ => *r.pick(&[63, 64, 65, 127, 128, 129]),
                        }
                    }
                    let mut len = len;
                    if r.chance(1, 60) {
                        // beyond 16 bits, for few blocks of output
                        lens[r.below(3) as usize] = 65530 + r.below(9000) as usize;
                        len = std::cmp::min(len, 6 * hl);
                    }
                    if r.chance(1, 60) {
                        let step = 1usize << r.range(9, 17);
                        lens[r.below(3) as usize] = step * (1 + r.below(2) as usize) + r.below(140) as usize - 5;
                        len = std::cmp::min(len, 6 * hl);
                    }
                    let (salt, ikm, info) = (r.bytes(lens[0]), r.bytes(lens[1]), r.bytes(lens[2]));
                    self.hkdf_one(&alg, &salt, &ikm, len, &info);
                }
            }
        }
    }

    /// Workload for the memory-safety instruments: exact-size heap buffers at every alignment, all entry points.
    /// The log is terse (an interpreter spends most of its time on formatting): the inputs follow from the seed.
    fn c06(&mut self) {
        let scale = self.a.scale as usize;
        let mut x = Lcg(self.a.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (self.a.shard << 32) ^ 0x1234_5678);
        for _ in 0..8 {
            x.below(2);
        }
        let edge = [0usize, 1, 3, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 255, 256, 257];
        let mut i = self.a.shard as usize;
        for rep in 0..scale {
            for e in edge.iter() {
                for b in 0..6 {
                    let alg = x.alg(b);
                    let len = if rep == 0 { *e } else { x.below(400) };
                    // the message starts at every alignment and ends exactly at the end of its allocation
                    let off = i % 9;
                    i += 1;
                    let buf = x.bytes(off + len);
                    self.terse("whole", b, off, len, || digest(&alg, &buf[off..]));
                }
            }
            // the same entry points on several threads at once (an interpreter reports data races): any algorithms on
            // three threads, and every algorithm on two, with messages whose last block has no room for the length
            for same in 0..7usize {
                if same == 0 && rep % 3 != 0 {
                    continue;
                }
                let jobs: Vec<(Alg, Box<[u8]>, Box<[u8]>)> = (0..if same == 0 { 3 } else { 2 })
                    .map(|_| {
                        if same == 0 {
                            let b = x.below(6);
                            let (k, l) = (x.below(140), x.below(200));
                            (x.alg(b), x.bytes(k), x.bytes(l))
                        } else {
                            let alg = x.alg(same - 1);
                            let bs = alg.block();
                            let (k, l) = ([5usize, bs, bs + 1 + x.below(20)][(rep + x.below(2)) % 3], bs * x.below(2) + bs - 1 - x.below(bs / 8));
                            (alg, x.bytes(k), x.bytes(l))
                        }
                    })
                    .collect();
                let hs: Vec<_> = jobs
                    .into_iter()
                    .map(|(alg, key, m)| {
                        std::thread::spawn(move || {
                            guard(|| {
                                with_alg!(&alg, H, ctx, {
                                    let mut st = H::init_hash(&ctx);
                                    let mut out = H::digest_message(&ctx, &m).raw();
                                    H::update_hash(&mut st, &ctx, &key);
                                    out.extend(hmac::<H, _>(&ctx, &key, &m));
                                    H::update_hash(&mut st, &ctx, &m);
                                    out.extend(H::finish_hash(&mut st, &ctx).raw());
                                    out
                                })
                            })
                        })
                    })
                    .collect();
                for (t, h) in hs.into_iter().enumerate() {
                    let r = h.join().unwrap_or_else(|_| Err("thread died".into()));
                    self.terse("thread", t, 0, 0, || r);
                }
            }
            for b in 0..6 {
                // streams with ragged pieces, each piece its own allocation
                let alg = x.alg(b);
                let mut pieces: Vec<Box<[u8]>> = vec![];
                for _ in 0..3 + x.below(5) {
                    let l = [0usize, 1, 5, 63, 64, 65, 100, 128, 130][x.below(9)];
                    pieces.push(x.bytes(l));
                }
                let total = pieces.iter().map(|p| p.len()).sum();
                self.terse("stream", b, pieces.len(), total, || stream(&alg, &mut pieces.iter().map(|p| &p[..])));
                // authentication codes and derived keys with keys below, at and above the block size
                let kl = [0usize, 20, 64, 65, 128, 129][x.below(6)];
                let key = x.bytes(kl);
                let ml = x.below(80);
                let m = x.bytes(ml);
                self.terse("hmac", b, kl, ml, || guard(|| with_alg!(&alg, H, ctx, hmac::<H, _>(&ctx, &key, &m))));
                if b == rep % 6 {
                    let (l0, l1, l2) = (x.below(70), x.below(70), x.below(70));
                    let (salt, ikm, info) = (x.bytes(l0), x.bytes(l1), x.bytes(l2));
                    let hl = with_alg!(&alg, H, ctx, H::output_size(&ctx));
                    let len = x.below(2 * hl + 2);
                    self.terse("hkdf", b, l0, len, || {
                        guard(|| with_alg!(&alg, H, ctx, hkdf_derive_key::<H, _>(&ctx, &salt, &ikm, len, &info)))
                    });
                }
            }
        }
    }

    fn terse(&mut self, what: &str, b: usize, x: usize, y: usize, f: impl FnOnce() -> Result<Vec<u8>, String>) {
        let c = self.case;
        self.case += 1;
        let desc = || format!("{{\"c\":{},\"do\":[\"{}\",{},{},{}]", c, what, b, x, y);
        self.log.begin(&|| desc());
        let r = f();
        let l = format!("{},{}}}", desc(), res(&r));
        self.log.line(&l);
    }
}

/// A generator cheap enough to be interpreted.
struct Lcg(u64);
impl Lcg {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
    fn bytes(&mut self, n: usize) -> Box<[u8]> {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(self.below(256) as u8)
        }
        v.into_boxed_slice()
    }
    fn alg(&mut self, b: usize) -> Alg {
        match b {
            0 => Alg::Md5,
            1 => Alg::Sha1,
            2 => Alg::B2b(64, vec![]),
            3 => Alg::B2s(32, vec![]),
            4 => {
                let k = self.below(65);
                Alg::B2b(1 + self.below(64), self.bytes(k).into_vec())
            }
            _ => {
                let k = self.below(33);
                Alg::B2s(1 + self.below(32), self.bytes(k).into_vec())
            }
        }
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let log = Log::new(&a);
    let mode = a.mode.clone();
    let mut r = Run { a, log, case: 0 };
    match mode.as_str() {
        "c01" => r.c01(),
        "c02" => r.c02(),
        "c03" => r.c03(),
        "c04" => r.c04(),
        "c05" => r.c05(),
        "c06" => r.c06(),
        m => panic!("unknown mode {}", m),
    }
    let l = format!("{{\"end\":1,\"cases\":{}}}", r.case);
    r.log.line(&l);
    r.log.flush();
}
