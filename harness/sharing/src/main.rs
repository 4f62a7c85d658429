//! Secret sharing and multi-party protocols on a simulated clique. Online monitors judge every result.
#![recursion_limit = "4096"]
mod sim;
mod zp;
use jcommon::*;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use jester_sharing::*;
use mashup::*;
use num::{BigUint, One, Zero};
use num_bigint::RandBigInt;
use sim::*;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

prime_fields!(
    pub F3("3", 10),
    pub F5("5", 10),
    pub F7("7", 10),
    pub F11("11", 10),
    pub F13("13", 10),
    pub F257("257", 10),
    pub F65537("65537", 10),
    pub P64("18446744073709551557", 10),
    pub K256("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
);

pub const NF: u64 = 14;
pub const NP: u64 = 8; // the fields the multi-party protocols run over: the first eight
const NAMES: [&str; 14] = ["F5", "F7", "F11", "F257", "M31", "P64", "K256", "F3", "F13", "F65537", "M61", "M89", "M127", "G1"];

macro_rules! with_field {
    ($i:expr, $f:ident($($a:expr),*)) => {
        match $i {
            0 => $f::<F5>($($a),*),
            1 => $f::<F7>($($a),*),
            2 => $f::<F11>($($a),*),
            3 => $f::<F257>($($a),*),
            4 => $f::<Mersenne31>($($a),*),
            5 => $f::<P64>($($a),*),
            6 => $f::<K256>($($a),*),
            _ => $f::<F3>($($a),*),
        }
    };
}
macro_rules! with_any_field {
    ($i:expr, $f:ident($($a:expr),*)) => {
        match $i {
            8 => $f::<F13>($($a),*),
            9 => $f::<F65537>($($a),*),
            10 => $f::<Mersenne61>($($a),*),
            11 => $f::<Mersenne89>($($a),*),
            12 => $f::<Mersenne127>($($a),*),
            13 => $f::<IetfGroup1>($($a),*),
            i => with_field!(i, $f($($a),*)),
        }
    };
}

/// What a mode observed.
pub struct Out {
    pub log: Log,
    pub stats: BTreeMap<String, u64>,
    pub bad: u64,
    pub tests: u64,
    pub min_p: f64,
    pub seen: HashSet<u64>,
    pub samples: u64,
}
impl Out {
    fn bump(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n
    }
    fn viol(&mut self, what: &str, case: &str) {
        self.bad += 1;
        if self.bad <= 6 {
            self.log.viol(what, case)
        }
        if self.bad == 12 {
            // the verdict is settled, and broken code may need long for the rest
            self.log.line("{\"end\":1}");
            self.log.flush();
            std::process::exit(0);
        }
    }
    fn p_value(&mut self, p: f64, what: &dyn Fn() -> String) {
        self.tests += 1;
        if p < self.min_p {
            self.min_p = p
        }
        if p < zp::ALPHA {
            let w = what();
            self.viol(&format!("{} (p = {:.1e})", w, p), &w);
        }
    }
    fn distinct(&mut self, h: u64) {
        if self.seen.len() < 2_000_000 {
            self.seen.insert(h);
        }
    }
    fn sample(&mut self, f: &dyn Fn() -> String) {
        if self.samples < 2 {
            self.samples += 1;
            let l = format!("{{\"sample\":{}}}", q(&f()));
            self.log.line(&l);
        }
    }
}

fn hash(parts: &[&str]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    h
}

fn prime<T: G>() -> BigUint {
    T::field_prime().as_uint()
}
fn small(p: &BigUint) -> Option<u64> {
    use num::ToPrimitive;
    p.to_u64()
}
/// A field element, often an extreme one.
fn element(p: &BigUint, r: &mut R) -> BigUint {
    match r.below(8) {
        0 => BigUint::zero(),
        1 => BigUint::one() % p,
        2 => p - 1u32,
        3 => BigUint::from(r.below(40)) % p,
        4 => (p - 1u32) - (BigUint::from(r.below(40)) % p),
        _ => r.0.gen_biguint_below(p),
    }
}
/// Parties and threshold admissible in the field.
fn clique(p: &BigUint, max: u64, r: &mut R) -> (usize, usize) {
    let top = small(p).map_or(max, |p| (p - 1).min(max));
    let n = 2 + if r.chance(3, 4) { r.below((top - 1).min(4)) } else { r.below(top - 1) };
    let t = 2 + r.below(n - 1);
    (n as usize, t as usize)
}
/// A size: mostly small, now and then anything up to `rare` (evenly on a logarithmic scale).
fn size_of(r: &mut R, common: u64, rare: u64) -> u64 {
    if r.chance(1, 24) {
        let bits = 64 - rare.leading_zeros() as u64;
        let top = 1u64 << (1 + r.below(bits));
        r.below(top.min(rare + 1))
    } else {
        r.below(common + 1)
    }
}
fn dec(v: &[BigUint]) -> String {
    if v.len() > 60 {
        return format!("{},... {} numbers, digest {:x}", dec(&v[..8]), v.len(), hash(&[&v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")]));
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

// ------------------------------------------------------------------ C14, C15, C16: sharing schemes

fn c14<T: G>(f: &str, i: u64, r: &mut R, thorough: bool, o: &mut Out) {
    let p = prime::<T>();
    let max = match i % 40 {
        5 => 300,
        11 | 12 | 13 => 70,
        _ => 12,
    };
    let (mut n, mut t) = clique(&p, if max == 300 && p.bits() > 300 && !thorough { 40 } else { max }, r);
    if r.chance(1, 6) {
        t = n
    }
    if i % 60 == 31 && p.bits() > 30 {
        // very many participants
        n = (1000 << r.below(8)) + r.below(4000) as usize;
        t = 2 + r.below(3) as usize;
    }
    let secret = element(&p, r);
    let case = format!("{} secret {} n {} t {}", f, secret, n, t);
    o.log.begin(&|| case.clone());
    let st = T::from(secret.clone());
    let shares = match guard(|| <Party<T> as ThresholdSecretSharingScheme<T, Sh<T>>>::generate_shares(r, &st, n, t)) {
        Ok(s) => s,
        Err(e) => return o.viol(&format!("sharing panicked: {}", e), &case),
    };
    o.bump("sharings", 1);
    o.distinct(hash(&[f, &n.to_string(), &t.to_string(), &secret.to_string()]));
    if shares.len() != n {
        return o.viol("wrong number of shares", &case);
    }
    if shares.iter().enumerate().any(|(k, s)| s.0 != k + 1) {
        return o.viol("shares are not at the points 1..n", &case);
    }
    let ys: Vec<BigUint> = shares.iter().map(|s| s.1.as_uint()).collect();
    match if n > 60 { zp::secret_of_many(&ys, t, &p) } else { zp::secret_of(&ys, t, &p) } {
        None => return o.viol("shares are not on one polynomial of degree below the threshold", &case),
        Some(s) if s != secret => return o.viol("the polynomial's value at zero is not the secret", &case),
        _ => {}
    }
    if n <= 5 && t < n {
        // every subset of at least t shares
        for m in 0..1u32 << n {
            if m.count_ones() as usize >= t {
                let mut s: Vec<Sh<T>> = (0..n).filter(|k| m >> k & 1 == 1).map(|k| shares[k].clone()).collect();
                r.shuffle(&mut s);
                c14_one(&s, t, &secret, &case, o);
            }
        }
    }
    // as they come: all, the first and the last ones, up and down, and all but one
    for k in 0..6 {
        let d = if n > 1000 { (t + r.below(3) as usize).min(n) } else { t };
        let gap = r.below(d as u64 + 1) as usize;
        let mut s: Vec<Sh<T>> = match k {
            0 if n <= 1000 => shares.clone(),
            1 | 0 => shares[..d].to_vec(),
            2 => shares[n - d..].to_vec(),
            3 => shares[r.below((n - d) as u64 + 1) as usize..][..d].to_vec(),
            _ if n > d => (0..=d).filter(|x| *x != gap).map(|x| shares[x].clone()).collect(),
            _ => continue,
        };
        if k == 5 || (k < 4 && r.chance(1, 4)) {
            s.reverse();
        }
        c14_one(&s, t, &secret, &case, o);
    }
    for k in 0..4 {
        let mut s = shares.clone();
        r.shuffle(&mut s);
        let m = if k == 0 { n } else if k == 1 { t } else { r.range(t as u64, n as u64 + 1) as usize };
        s.truncate(m);
        if k == 3 {
            s.sort_by_key(|x| x.0);
            s.reverse();
        }
        if n > 1000 {
            s.truncate(t + r.below(3) as usize)
        }
        c14_one(&s, t, &secret, &case, o);
    }
    // points in special positions: distances and positions around powers of two, both ends, neighbours
    for k in 0..if n > 12 { 12 } else { 0 } {
        let step = 1usize << r.below(1 + (n as f64).log2() as u64);
        let first = match k % 3 {
            0 => r.below(n as u64) as usize,
            1 => r.below(step.min(n) as u64) as usize,
            _ => n - 1,
        };
        let mut at: Vec<usize> = vec![first];
        let mut x = first as i64;
        let size = (t + r.below(4) as usize).min(n);
        let exact = r.chance(2, 3);
        while at.len() < size {
            let jitter = if exact { 0 } else { *r.pick(&[0, 0, 1, -1]) };
            x = (x + step as i64 * r.pick(&[1i64, 1, 1, -1, 2]) + jitter).rem_euclid(n as i64);
            if at.contains(&(x as usize)) {
                x = r.below(n as u64) as i64;
            }
            if !at.contains(&(x as usize)) {
                at.push(x as usize);
            }
        }
        match r.below(3) {
            0 => at.sort(),
            1 => r.shuffle(&mut at),
            _ => {}
        }
        let s: Vec<Sh<T>> = at.iter().map(|x| shares[*x].clone()).collect();
        c14_one(&s, t, &secret, &case, o);
    }
    // shares of a sharing among so many participants that only a few of their shares are made here
    if t <= 12 {
        let top = small(&p).map_or(1 << 62, |p| (p - 1).min(1 << 62));
        let bits = 64 - top.leading_zeros() as u64;
        let coeffs: Vec<BigUint> = (1..t).map(|_| element(&p, r)).collect();
        let size = (t as u64 + r.below(3)).min(top);
        let mut at: Vec<u64> = vec![];
        let width = 1 + r.below(bits);
        while (at.len() as u64) < size {
            let base = if at.is_empty() || r.chance(1, 2) { r.below(top) >> r.below(width) } else { *r.pick(&at) };
            let x = match r.below(4) {
                0 => base,
                1 => base + (1 << r.below(bits)),
                2 => base ^ (1 << r.below(bits)),
                _ => 1 << r.below(bits),
            };
            let x = 1 + x % top;
            if !at.contains(&x) {
                at.push(x);
            }
        }
        let s: Vec<Sh<T>> = at
            .iter()
            .map(|x| {
                let z = BigUint::from(*x) % &p;
                let y = coeffs.iter().rev().fold(BigUint::zero(), |a, c| zp::mul(&zp::add(&a, c, &p), &z, &p));
                (*x as usize, T::from(zp::add(&y, &secret, &p)))
            })
            .collect();
        c14_one(&s, t, &secret, &format!("{} secret {} threshold {}", f, secret, t), o);
        o.bump("far_points", 1);
    }
    if t > 40 {
        o.bump("large_thresholds", 1);
    }
    if n > 1000 {
        o.bump("many_participants", 1);
    }
}
fn c14_one<T: G>(s: &[Sh<T>], t: usize, secret: &BigUint, case: &str, o: &mut Out) {
    o.bump("reconstructions", 1);
    let case = || format!("{} from {:?}{}", case, s.iter().take(40).map(|x| x.0).collect::<Vec<_>>(), if s.len() > 40 { "..." } else { "" });
    match guard(|| <Party<T> as ThresholdSecretSharingScheme<T, Sh<T>>>::reconstruct_secret(s, t)) {
        Err(e) => o.viol(&format!("reconstruction panicked: {}", e), &case()),
        Ok(v) if v.as_uint() != *secret => o.viol(&format!("reconstructed {} instead of the secret", v.as_uint()), &case()),
        _ => {}
    }
    o.sample(&case);
}

/// Histograms over the joint values of chosen columns.
struct Tables {
    base: usize,
    groups: Vec<Vec<usize>>,
    counts: Vec<Vec<u32>>,
}
impl Tables {
    fn new(base: usize, groups: Vec<Vec<usize>>) -> Tables {
        let counts = groups.iter().map(|g| vec![0u32; base.pow(g.len() as u32)]).collect();
        Tables { base, groups, counts }
    }
    fn add(&mut self, row: &[u16]) {
        for (g, c) in self.groups.iter().zip(self.counts.iter_mut()) {
            let mut ix = 0;
            for k in g {
                ix = ix * self.base + row[*k] as usize;
            }
            c[ix] += 1;
        }
    }
}
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for last in (k - 1)..n {
        for mut s in subsets(last, k - 1) {
            s.push(last);
            v.push(s);
        }
    }
    v
}
fn low(b: &BigUint) -> u64 {
    use num::ToPrimitive;
    (b % BigUint::from(1u64 << 62)).to_u64().unwrap()
}
fn bucket(b: &BigUint, p: &BigUint, k: u32) -> u16 {
    (low(&((b * BigUint::from(k)) / p))) as u16
}

fn c15<T: G>(f: &str, t: usize, n: usize, secret: BigUint, r: &mut R, a: &Args, o: &mut Out) {
    let p = prime::<T>();
    let st = T::from(secret.clone());
    let case = format!("{} secret {} n {} t {}", f, secret, n, t);
    o.log.begin(&|| case.clone());
    let interp = zp::Interp::new(t, &p);
    let tiny = small(&p).filter(|p| *p < 300);
    let k = t - 1;
    // columns: shares 0..n, coefficients n..n+k, coefficients of the previous call n+k..n+2k
    let (base, groups) = match tiny {
        Some(p) => {
            let b = p as usize;
            let mut g: Vec<Vec<usize>> = vec![];
            if b.checked_pow(k as u32).map_or(false, |x| x <= 3000) && k <= 12 {
                g.extend(subsets(n, k).into_iter().take(40));
            }
            for i in 0..k {
                g.push(vec![n + i]);
                if b <= 13 {
                    for j in 0..i {
                        g.push(vec![n + j, n + i]);
                    }
                    for j in 0..k {
                        g.push(vec![n + i, n + k + j]);
                    }
                    if b <= 5 {
                        for j in 0..i {
                            for l in 0..j {
                                g.push(vec![n + l, n + j, n + i]);
                            }
                        }
                    }
                }
            }
            (b, g)
        }
        // large field: columns are the top six bits of coefficients and of differences, low bits after that
        None => {
            let mut g: Vec<Vec<usize>> = vec![];
            for i in 0..k {
                g.push(vec![i]);
                g.push(vec![k + i]);
                g.push(vec![2 * k + i]);
                for j in if k > 16 { i.saturating_sub(1) } else { 0 }..i {
                    g.push(vec![j, i]);
                    if k <= 16 {
                        g.push(vec![k + j, k + i]);
                    }
                }
            }
            (16, g)
        }
    };
    let mut tab = Tables::new(base, groups);
    let mut n_calls = if tiny.is_some() { 120_000 } else { 12_000 };
    n_calls = n_calls / (k as u64) * if a.thorough { 12 } else { 1 };
    if k > 16 {
        // many coefficients: fewer calls, all coefficients pooled as well
        n_calls = (900_000 / (k * k) as u64).max(40) * if a.thorough { 6 } else { 1 };
    }
    let (mut pool, mut pool_low) = (vec![0u32; base], vec![0u32; 16]);
    let mut prev: Vec<BigUint> = vec![];
    let mut seen: HashSet<BigUint> = HashSet::new();
    let mut drawn = 0u64;
    let mut failed = false;
    for call in 0..n_calls {
        let keep = r.clone();
        let mut c = Counting { inner: r, drawn: 0 };
        let shares = match guard(|| <Party<T> as ThresholdSecretSharingScheme<T, Sh<T>>>::generate_shares(&mut c, &st, n, t)) {
            Ok(s) => s,
            Err(e) => return o.viol(&format!("sharing panicked: {}", e), &case),
        };
        drawn += c.drawn;
        let ys: Vec<BigUint> = shares.iter().map(|s| s.1.as_uint()).collect();
        if ys.len() != n {
            // not a matter of secrecy
            o.bump("abandoned", 1);
            return;
        }
        let co = interp.coefficients(&ys[..t]);
        if call % 257 == 0 {
            // the sharing is a function of the supplied generator only
            let mut again = keep.clone();
            let s2 = guard(|| <Party<T> as ThresholdSecretSharingScheme<T, Sh<T>>>::generate_shares(&mut again, &st, n, t));
            if s2.map(|s| s.iter().map(|x| x.1.as_uint()).collect::<Vec<_>>()) != Ok(ys.clone()) && !failed {
                failed = true;
                o.viol("randomness that does not come from the supplied generator", &case);
            }
            o.bump("replays", 1);
        }
        let row: Vec<u16> = if tiny.is_some() {
            if prev.is_empty() {
                prev = co[1..].to_vec();
                continue;
            }
            ys.iter().chain(co[1..].iter()).chain(prev.iter()).map(|x| low(x) as u16).collect()
        } else {
            for x in &co[1..] {
                if !seen.insert(x.clone()) && p.bits() > 62 && !failed {
                    failed = true;
                    o.viol("the same random coefficient appeared twice", &case);
                }
            }
            if prev.is_empty() {
                prev = co[1..].to_vec();
                continue;
            }
            let mut row: Vec<u16> = co[1..].iter().map(|x| bucket(x, &p, 16)).collect();
            row.extend(co[1..].iter().map(|x| (low(x) & 15) as u16));
            row.extend((0..k).map(|i| bucket(&zp::sub(&co[1 + i], if i > 0 { &co[i] } else { &prev[k - 1] }, &p), &p, 16)));
            row
        };
        tab.add(&row);
        if k > 16 {
            for x in &co[1..] {
                pool[if tiny.is_some() { low(x) as usize } else { bucket(x, &p, 16) as usize }] += 1;
                pool_low[(low(x) & 15) as usize] += 1;
            }
        }
        prev = co[1..].to_vec();
    }
    if k > 16 {
        o.p_value(zp::p_uniform(&pool), &|| format!("{}: the coefficients are not uniform", case));
        if tiny.is_none() {
            o.p_value(zp::p_uniform(&pool_low), &|| format!("{}: the low bits of the coefficients are not uniform", case));
        }
        o.bump("large_thresholds", 1);
    }
    for (g, c) in tab.groups.iter().zip(&tab.counts) {
        let pv = zp::p_uniform(c);
        o.p_value(pv, &|| format!("{}: the joint distribution of columns {:?} of the sharing is not uniform", case, g));
    }
    let bits = (p.bits() as f64 - 1.0) * k as f64;
    if (drawn as f64) * 8.0 < 0.9 * bits * n_calls as f64 {
        o.viol("fewer random bits drawn than the coefficients need", &case);
    }
    o.bump("sharings", n_calls);
    o.distinct(hash(&[&case]));
    o.sample(&|| format!("{}: {} sharings, {} joint distributions", case, n_calls, tab.groups.len()));
}

fn c16<T: G>(f: &str, r: &mut R, o: &mut Out) {
    let p = prime::<T>();
    let (n, t) = clique(&p, 9, r);
    let len = if r.chance(1, 300) { 100 + r.below(200) } else { 1 + r.below(25) } as usize;
    let mut regs: Vec<(BigUint, Vec<Sh<T>>)> = vec![];
    let mut text = format!("{} n {} t {}:", f, n, t);
    for _ in 0..1 + r.below(4) {
        let s = element(&p, r);
        let v = deal::<T>(&[s.clone()], n, t, &p, r).into_iter().map(|mut x| x.pop().unwrap()).collect();
        text.push_str(&format!(" {}", s));
        regs.push((s, v));
    }
    o.log.begin(&|| text.clone());
    type L<T> = Party<T>;
    for _ in 0..len {
        let (i, j) = (r.below(regs.len() as u64) as usize, r.below(regs.len() as u64) as usize);
        let c = element(&p, r);
        let ct = T::from(c.clone());
        let op = r.below(6);
        let (plain, name): (BigUint, String) = match op {
            0 => (zp::add(&regs[i].0, &regs[j].0, &p), format!("add {} {}", i, j)),
            1 => (zp::sub(&regs[i].0, &regs[j].0, &p), format!("sub {} {}", i, j)),
            2 => (zp::add(&regs[i].0, &c, &p), format!("add {} scalar {}", i, c)),
            3 => (zp::sub(&regs[i].0, &c, &p), format!("sub {} scalar {}", i, c)),
            4 => (zp::mul(&regs[i].0, &c, &p), format!("mul {} scalar {}", i, c)),
            _ => (BigUint::zero(), "sum".into()),
        };
        text.push_str("; ");
        text.push_str(&name);
        let count = if op == 5 { 1 + size_of(r, 6, 3000) } else { 0 };
        if count > 100 {
            o.bump("large_sums", 1);
        }
        let many: Vec<usize> = (0..count).map(|_| r.below(regs.len() as u64) as usize).collect();
        let plain = if op == 5 {
            text.push_str(&if many.len() > 40 { format!(" of {} registers", many.len()) } else { format!("{:?}", many) });
            many.iter().fold(BigUint::zero(), |a, k| zp::add(&a, &regs[*k].0, &p))
        } else {
            plain
        };
        let res = guard(|| {
            (0..n)
                .map(|k| match op {
                    0 => <L<T> as LinearSharingScheme<T, Sh<T>>>::add_shares(&regs[i].1[k], &regs[j].1[k]),
                    1 => <L<T> as LinearSharingScheme<T, Sh<T>>>::sub_shares(&regs[i].1[k], &regs[j].1[k]),
                    2 => <L<T> as LinearSharingScheme<T, Sh<T>>>::add_scalar(&regs[i].1[k], &ct),
                    3 => <L<T> as LinearSharingScheme<T, Sh<T>>>::sub_scalar(&regs[i].1[k], &ct),
                    4 => <L<T> as LinearSharingScheme<T, Sh<T>>>::multiply_scalar(&regs[i].1[k], &ct),
                    _ => {
                        let v: Vec<Sh<T>> = many.iter().map(|m| regs[*m].1[k].clone()).collect();
                        <L<T> as LinearSharingScheme<T, Sh<T>>>::sum_shares(&v).expect("sum of some shares is none")
                    }
                })
                .collect::<Vec<Sh<T>>>()
        });
        let v = match res {
            Ok(v) => v,
            Err(e) => return o.viol(&format!("share arithmetic panicked: {}", e), &text),
        };
        o.bump("operations", 1);
        match values::<T>(&v.iter().map(|s| vec![s.clone()]).collect::<Vec<_>>(), t, &p) {
            Err(e) => return o.viol(&e, &text),
            Ok(x) if x[0] != plain => return o.viol(&format!("the shares hold {} instead of {}", x[0], plain), &text),
            _ => {}
        }
        regs.push((plain, v));
    }
    o.distinct(hash(&[&text]));
    o.sample(&|| text.clone());
    // share numbers of any size stay what they are
    let far = 1 + ((r.below(1 << 40) as usize) >> r.below(40)) + ((r.below(2) as usize) << *r.pick(&[16u32, 31, 32, 62, 63]));
    let far = small(&p).map_or(far, |p| 1 + far % (p as usize - 1));
    let (a, b, c) = (element(&p, r), element(&p, r), element(&p, r));
    let (sa, sb, ct): (Sh<T>, Sh<T>, T) = ((far, T::from(a.clone())), (far, T::from(b.clone())), T::from(c.clone()));
    let got = guard(|| {
        vec![
            <L<T> as LinearSharingScheme<T, Sh<T>>>::add_shares(&sa, &sb),
            <L<T> as LinearSharingScheme<T, Sh<T>>>::sub_shares(&sa, &sb),
            <L<T> as LinearSharingScheme<T, Sh<T>>>::add_scalar(&sa, &ct),
            <L<T> as LinearSharingScheme<T, Sh<T>>>::sub_scalar(&sa, &ct),
            <L<T> as LinearSharingScheme<T, Sh<T>>>::multiply_scalar(&sa, &ct),
            <L<T> as LinearSharingScheme<T, Sh<T>>>::sum_shares(&[sa.clone(), sb.clone(), sa.clone()]).expect("sum of some shares is none"),
            <L<T> as LinearSharingScheme<T, Sh<T>>>::add_shares(&sa, &sa),
            <L<T> as LinearSharingScheme<T, Sh<T>>>::sub_shares(&sa, &sa),
        ]
    });
    let want = [
        zp::add(&a, &b, &p),
        zp::sub(&a, &b, &p),
        zp::add(&a, &c, &p),
        zp::sub(&a, &c, &p),
        zp::mul(&a, &c, &p),
        zp::add(&zp::add(&a, &a, &p), &b, &p),
        zp::add(&a, &a, &p),
        BigUint::zero(),
    ];
    let case = || format!("{}: shares {} and {} of participant {}, scalar {}", f, a, b, far, c);
    match got {
        Err(e) => return o.viol(&format!("share arithmetic panicked: {}", e), &case()),
        Ok(g) => {
            for (k, (g, w)) in g.iter().zip(&want).enumerate() {
                if g.0 != far || g.1.as_uint() != *w {
                    return o.viol(&format!("operation {} yields the share {:?}", k, (g.0, g.1.as_uint())), &case());
                }
            }
        }
    }
    o.bump("far_numbers", 1);
    // refusals
    let a = r.below(regs.len() as u64) as usize;
    let b = r.below(regs.len() as u64) as usize;
    let x = r.below(n as u64) as usize;
    let mut y = r.below(n as u64 - 1) as usize;
    if y >= x {
        y += 1
    }
    let (sa, sb) = (&regs[a].1[x], &regs[b].1[y]);
    if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::add_shares(sa, sb)).is_ok() {
        o.viol("shares of different participants were added", &format!("{}: participants {} and {}", f, x + 1, y + 1));
    }
    if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::sub_shares(sa, sb)).is_ok() {
        o.viol("shares of different participants were subtracted", &format!("{}: participants {} and {}", f, x + 1, y + 1));
    }
    let m = 2 + size_of(r, 5, 700) as usize;
    let odd = r.below(m as u64) as usize;
    let v: Vec<Sh<T>> = (0..m).map(|k| if k == odd { sb.clone() } else { regs[r.below(regs.len() as u64) as usize].1[x].clone() }).collect();
    if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::sum_shares(&v)).ok().map_or(false, |s| s.is_some()) {
        o.viol("shares of different participants were summed", &format!("{}: {} shares of participant {}, in position {} one of participant {}", f, m, x + 1, odd, y + 1));
    }
    // everybody different
    let w: Vec<Sh<T>> = regs[a].1.clone();
    if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::sum_shares(&w)).ok().map_or(false, |s| s.is_some()) {
        o.viol("shares of different participants were summed", &format!("{}: all {} participants", f, n));
    }
    // mixtures that look alike to weaker comparisons: the same average, parity, ends, or low bits of the numbers
    for _ in 0..3 {
        let c = 2 + r.below(60) as usize;
        let d = 1 + r.below(c as u64 - 1) as usize;
        let far = c + ((1 + r.below(3) as usize) << *r.pick(&[8u32, 16, 32, 48, 63]));
        let k = 1 + r.below(4) as usize;
        let mut ids = match r.below(9) {
            0 => vec![c, c - d, c + d],
            1 => [vec![c; k], vec![c - d, c + d], vec![c; k]].concat(),
            2 => vec![c, c - d, c - d],
            3 => [vec![c; k], vec![c + d; 2], vec![c; k]].concat(),
            4 => vec![c, far],
            5 => [vec![c; k], vec![far], vec![c; k]].concat(),
            6 => [vec![c; k], vec![c + d; k]].concat(),
            7 => [vec![c + 1; k], vec![c; 1 + r.below(3) as usize]].concat(),
            _ => (0..3 + r.below(6)).map(|_| c + r.below(3) as usize).collect(),
        };
        if r.chance(1, 4) {
            let j = r.below(ids.len() as u64) as usize;
            ids.swap(0, j);
        }
        if ids.iter().all(|i| *i == ids[0]) {
            continue;
        }
        let v: Vec<Sh<T>> = ids.iter().map(|i| (*i, regs[r.below(regs.len() as u64) as usize].1[x].1.clone())).collect();
        if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::sum_shares(&v)).ok().map_or(false, |s| s.is_some()) {
            o.viol("shares of different participants were summed", &format!("{}: participants {:?}", f, ids));
        }
        let (s, u) = (&v[0], v.iter().find(|s| s.0 != v[0].0).unwrap());
        if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::add_shares(s, u)).is_ok() {
            o.viol("shares of different participants were added", &format!("{}: participants {} and {}", f, s.0, u.0));
        }
        if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::sub_shares(s, u)).is_ok() {
            o.viol("shares of different participants were subtracted", &format!("{}: participants {} and {}", f, s.0, u.0));
        }
        o.bump("refusals", 3);
    }
    o.bump("refusals", 4);
    if guard(|| <L<T> as LinearSharingScheme<T, Sh<T>>>::sum_shares(&[])) != Ok(None) {
        o.viol("the sum of no shares is not none", f);
    }
}

// ------------------------------------------------------------------ C17 .. C20: protocols

pub struct Done<T> {
    pub outs: Vec<Vec<Sh<T>>>,
    pub print: u64,
}

/// One protocol run by a fresh clique.
pub fn one_run<T: G>(op: &Op, dealt: Vec<Vec<Sh<T>>>, hub: &HubRef, pol: &Policy, r: &mut R) -> Result<Done<T>, String> {
    let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<T>>>>>> = vec![];
    for (i, inp) in dealt.into_iter().enumerate() {
        let mut party = Party::<T>::new(hub, i);
        let mut prng = PRng { inner: rng(r.below(1 << 62), 77, i as u64), broken: false, drawn: 0 };
        let op = op.clone();
        futs.push(Box::pin(async move { apply(op, inp, &mut prng, &mut party).await }));
    }
    let (outs, print) = run(hub, futs, pol, r)?;
    Ok(Done { outs, print })
}

fn inputs_for(op: &Op, p: &BigUint, size: usize, r: &mut R) -> Vec<BigUint> {
    let bit = |r: &mut R| BigUint::from(r.below(2));
    let nonzero = |r: &mut R| loop {
        let e = element(p, r);
        if !e.is_zero() {
            return e;
        }
    };
    match op {
        Op::Mul => vec![element(p, r), element(p, r)],
        Op::UMul => (0..2 * size).map(|_| element(p, r)).collect(),
        Op::Inv => vec![nonzero(r)],
        Op::UInv => (0..size).map(|_| nonzero(r)).collect(),
        Op::Or => vec![bit(r)],
        Op::UOr => {
            let style = r.below(4);
            (0..size)
                .map(|_| match style {
                    0 => BigUint::zero(),
                    1 => BigUint::one(),
                    2 => BigUint::from(r.below(size as u64 + 1) / size as u64),
                    _ => bit(r),
                })
                .collect()
        }
        Op::Sel => vec![bit(r), element(p, r), element(p, r)],
        Op::Rnd(_) => vec![],
    }
}

/// the case of the shared OR with the longest vector
const HUGE_OR: u64 = 13;

fn protocols<T: G>(mode: u8, f: &str, i: u64, r: &mut R, thorough: bool, o: &mut Out) {
    let p = prime::<T>();
    let (n, t) = clique(&p, if mode == 19 && i == HUGE_OR { 2 } else if i % 50 == 3 { 16 } else if i % 400 == 27 { 60 } else { 7 }, r);
    let sp = small(&p).unwrap_or(u64::max_value());
    let (op, size) = match mode {
        17 => {
            let size = match r.below(8) {
                0 => 0,
                1 => 30,
                _ => size_of(r, 6, if n < 17 { 400 } else { 40 }),
            };
            (if r.chance(1, 3) { Op::Mul } else { Op::UMul }, size)
        }
        18 => {
            let size = match r.below(8) {
                0 => 0,
                1 => 20,
                _ => 1 + size_of(r, 5, if n < 17 { 300 } else { 20 }),
            };
            (if r.chance(1, 3) { Op::Inv } else { Op::UInv }, size)
        }
        19 => {
            // long vectors: the table of their length is computed once per process and field
            let long = match i {
                17 => 66 + r.below(10),
                HUGE_OR => 257 + r.below(8),
                77 if r.chance(1, 3) || thorough => 129 + r.below(8),
                _ => 24 + r.below(if thorough { 60 } else { 16 }),
            };
            let size = if i % 60 == 17 || i == HUGE_OR { long } else if i % 9 == 1 { 4 + r.below(9) } else { 1 + r.below(5) };
            let size = if n > 10 { size.min(12) } else { size };
            (if r.chance(1, 8) && i != HUGE_OR { Op::Or } else { Op::UOr }, size.min(sp - 1))
        }
        _ => (Op::Sel, 0),
    };
    let mut x = inputs_for(&op, &p, size as usize, r);
    let mut pol = Policy::random(r);
    if size > 20 {
        pol.style = 3;
    }
    if size > 64 {
        o.bump("large_batches", 1);
    }
    // now and then the same number, or the very same share, comes twice
    let mut twin = None;
    if x.len() > 1 && r.chance(1, 5) {
        // the condition may serve as operand, but not the other way round
        let (a, b) = (r.below(x.len() as u64) as usize, r.below(x.len() as u64) as usize);
        let (a, b) = if op == Op::Sel { (a.min(b), a.max(b)) } else { (a, b) };
        x[b] = x[a].clone();
        if r.chance(1, 2) {
            twin = Some((a, b));
        }
    }
    let case = format!("{} n {} t {} {:?} of [{}] under {:?}", f, n, t, op, dec(&x), pol);
    o.log.begin(&|| case.clone());
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 0));
    let mut dealt = deal::<T>(&x, n, t, &p, r);
    if let Some((a, b)) = twin {
        for d in dealt.iter_mut() {
            d[b] = d[a].clone();
        }
    }
    let res = one_run::<T>(&op, dealt, &hub, &pol, r);
    let zero = lock(&hub).zero_mask;
    if zero {
        o.bump("zero_mask_skipped", 1);
        return;
    }
    o.bump("runs", 1);
    o.bump("messages", lock(&hub).messages);
    match res {
        Err(e) => return o.viol(&e, &case),
        Ok(d) => {
            o.distinct(d.print ^ hash(&[&case]));
            match values::<T>(&d.outs, t, &p) {
                Err(e) => return o.viol(&e, &case),
                Ok(v) => {
                    let want = plain(&op, &x, &p).unwrap();
                    if v != want {
                        return o.viol(&format!("the parties share [{}] instead of [{}]", dec(&v), dec(&want)), &case);
                    }
                    o.bump("results", v.len() as u64);
                }
            }
        }
    }
    o.sample(&|| case.clone());
    if mode == 17 {
        // every multiplication has a triple of its own: one triple per pair is dealt, and no mask hides two inputs
        let h = lock(&hub);
        let pairs = x.len() / 2;
        if h.triples_dealt < pairs {
            return o.viol(&format!("{} triples obtained for {} multiplications", h.triples_dealt, pairs), &case);
        }
        if p.bits() > 60 && pairs < 350 {
            let opened: Vec<BigUint> = h.steps.iter().filter_map(|s| s.value.clone()).collect();
            let big: Vec<&BigUint> = x.iter().collect();
            let mut diffs: HashSet<BigUint> = HashSet::new();
            for a in 0..opened.len() {
                for b in 0..opened.len() {
                    if a != b {
                        diffs.insert(zp::sub(&opened[a], &opened[b], &p));
                    }
                }
            }
            for a in 0..big.len() {
                for b in 0..big.len() {
                    if a != b && diffs.contains(&zp::sub(big[a], big[b], &p)) {
                        return o.viol("two inputs were opened under the same mask", &case);
                    }
                }
            }
            o.bump("mask_checks", 1);
        }
    }
}

// ------------------------------------------------------------------ C21: joint random numbers

fn c21_exact<T: G>(f: &str, i: u64, r: &mut R, o: &mut Out) {
    let p = prime::<T>();
    let (n, t) = clique(&p, if i % 30 == 3 { 14 } else if i % 300 == 27 { 70 } else { 6 }, r);
    let k = 1 + size_of(r, 4, 300) as usize;
    if k > 64 {
        o.bump("large_batches", 1);
    }
    let mut pol = Policy::random(r);
    if k > 30 {
        pol.style = 3
    }
    let case = format!("{} n {} t {} {} joint random numbers under {:?}", f, n, t, k, pol);
    o.log.begin(&|| case.clone());
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 0));
    let seeds: Vec<u64> = (0..n).map(|_| r.below(1 << 62)).collect();
    let eager = r.chance(1, 2);
    let lazy = pol.lazy;
    let go = |hub: &HubRef, seeds: &[u64], r: &mut R| -> Result<(Vec<(Vec<Sh<T>>, u64)>, u64), String> {
        let mut futs: Vec<Pin<Box<dyn Future<Output = (Vec<Sh<T>>, u64)>>>> = vec![];
        for i in 0..n {
            let mut party = Party::<T>::new(hub, i);
            let mut prng = PRng { inner: rng(seeds[i], 77, i as u64), broken: false, drawn: 0 };
            futs.push(Box::pin(async move {
                let v = if eager {
                    // all numbers are requested before any is awaited
                    let mut w = vec![];
                    for _ in 0..k {
                        w.push(<sim::Sum<T> as RandomNumberGenerationScheme<T, Sh<T>, Party<T>>>::generate_random_number_sharing(&mut prng, &mut party));
                    }
                    // and every party awaits them in an order of its own (a transport that sends only what is awaited
                    // needs one order for all)
                    let mut w: Vec<(usize, _)> = w.into_iter().enumerate().collect();
                    match if lazy { 0 } else { i % 3 } {
                        1 => w.reverse(),
                        2 => w.rotate_left(i % k),
                        _ => {}
                    }
                    let mut v = vec![];
                    for (j, x) in w {
                        v.push((j, x.await));
                    }
                    v.sort_by_key(|x| x.0);
                    v.into_iter().map(|x| x.1).collect()
                } else {
                    apply(Op::Rnd(k), vec![], &mut prng, &mut party).await
                };
                (v, prng.drawn)
            }));
        }
        run(hub, futs, &pol, r)
    };
    let (outs, print) = match go(&hub, &seeds, r) {
        Ok(d) => d,
        Err(e) => return o.viol(&e, &case),
    };
    o.bump("runs", 1);
    o.distinct(print ^ hash(&[&case]));
    let h = lock(&hub);
    let shares: Vec<Vec<Sh<T>>> = outs.iter().map(|x| x.0.clone()).collect();
    let v = match values::<T>(&shares, t, &p) {
        Err(e) => return o.viol(&e, &case),
        Ok(v) => v,
    };
    let steps: Vec<&Step> = h.steps.iter().filter(|s| s.kind == Kind::Share).collect();
    if steps.len() != k || h.steps.len() != k {
        return o.viol(&format!("{} contributions per party ({} communication steps) for {} numbers", steps.len(), h.steps.len(), k), &case);
    }
    for (j, s) in steps.iter().enumerate() {
        let sum = s.secrets.iter().fold(BigUint::zero(), |a, x| zp::add(&a, x.as_ref().unwrap(), &p));
        if sum != v[j] {
            return o.viol(&format!("number {} is {} but the contributions sum to {}", j, v[j], sum), &case);
        }
        o.bump("numbers", 1);
    }
    if p.bits() > 60 {
        // freshness: contributions never repeat, and each is a function of its party's generator alone
        let mut seen = HashSet::new();
        for s in &steps {
            for c in &s.secrets {
                if !seen.insert(c.clone()) {
                    return o.viol("a contribution was used twice", &case);
                }
            }
        }
        let hub2 = Hub::new(n, t, &p, rng(r.below(1 << 62), 79, 0));
        let changed = r.below(n as u64) as usize;
        let mut seeds2 = seeds.clone();
        seeds2[changed] ^= 1;
        if go(&hub2, &seeds2, r).is_ok() {
            let h2 = lock(&hub2);
            let steps2: Vec<&Step> = h2.steps.iter().filter(|s| s.kind == Kind::Share).collect();
            for (a, b) in steps.iter().zip(&steps2) {
                for i in 0..n {
                    if (a.secrets[i] == b.secrets[i]) != (i != changed) {
                        return o.viol(&format!("the contribution of party {} is not drawn from its own generator", i + 1), &case);
                    }
                }
            }
            o.bump("replays", 1);
        }
        let need = (p.bits() as f64 - 8.0) * k as f64;
        if outs.iter().any(|x| (x.1 as f64) * 8.0 < need) {
            return o.viol("fewer random bits drawn than the contributions need", &case);
        }
    }
    o.sample(&|| case.clone());
}

/// Distribution of the numbers and of the contributions, with all generators but one broken.
fn c21_stat<T: G>(f: &str, n: usize, t: usize, good: Option<usize>, r: &mut R, a: &Args, o: &mut Out) {
    let p = prime::<T>();
    let b = small(&p).unwrap() as usize;
    let k = 3;
    let total = if a.thorough { 120_000 } else { 9_000 };
    let case = format!("{} n {} t {} good generator {:?}", f, n, t, good);
    o.log.begin(&|| case.clone());
    // columns: the k values, then the contributions of each party
    let g = good.unwrap_or(0);
    let mut groups = vec![];
    for i in 0..k {
        groups.push(vec![i]);
        groups.push(vec![k + i]);
        for j in 0..i {
            groups.push(vec![j, i]);
            groups.push(vec![k + j, k + i]);
        }
        // value against contribution of the good party: with several good parties they are independent
        if good.is_none() {
            groups.push(vec![i, k + i]);
        }
    }
    groups.push((0..k).collect());
    let mut tab = Tables::new(b, groups);
    for _ in 0..total {
        let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 0));
        let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<T>>>>>> = vec![];
        for i in 0..n {
            let mut party = Party::<T>::new(&hub, i);
            let mut prng = PRng { inner: rng(r.below(1 << 62), 77, i as u64), broken: good.map_or(false, |g| g != i), drawn: 0 };
            futs.push(Box::pin(async move { apply(Op::Rnd(k), vec![], &mut prng, &mut party).await }));
        }
        let outs = match run(&hub, futs, &Policy::plain(), r) {
            Ok(x) => x.0,
            Err(e) => return o.viol(&e, &case),
        };
        let v = match values::<T>(&outs, t, &p) {
            Ok(v) => v,
            Err(e) => return o.viol(&e, &case),
        };
        let h = lock(&hub);
        let c: Vec<u16> = h.steps.iter().filter(|s| s.kind == Kind::Share).filter_map(|s| s.secrets[g].as_ref().map(|x| low(x) as u16)).take(k).collect();
        if c.len() < k {
            o.bump("abandoned", 1);
            return;
        }
        let mut row: Vec<u16> = v.iter().map(|x| low(x) as u16).collect();
        row.extend(c);
        tab.add(&row);
        o.bump("numbers", k as u64);
    }
    for (gr, c) in tab.groups.iter().zip(&tab.counts) {
        let pv = zp::p_uniform(c);
        o.p_value(pv, &|| format!("{}: the joint distribution of columns {:?} (0..{} numbers, then contributions) is not uniform", case, gr, k));
    }
    o.distinct(hash(&[&case]));
    o.sample(&|| format!("{}: {} runs of {} numbers", case, total, k));
}

// ------------------------------------------------------------------ C22: what is opened

fn c22_stat<T: G>(f: &str, op: Op, n: usize, t: usize, inputs: &[Vec<u64>], r: &mut R, a: &Args, o: &mut Out) {
    let p = prime::<T>();
    let b = small(&p).unwrap() as usize;
    let case = format!("{} n {} t {} {:?}", f, n, t, op);
    o.log.begin(&|| case.clone());
    let total = if a.thorough { 60_000 } else { 4_000 };
    let mut tabs: Vec<Tables> = vec![];
    let mut structures: Vec<BTreeMap<String, u32>> = vec![];
    let mut shape: Option<String> = None;
    let mut names: Vec<String> = vec![];
    for inp in inputs {
        let x: Vec<BigUint> = inp.iter().map(|v| BigUint::from(*v)).collect();
        let mut tab: Option<Tables> = None;
        let mut st: BTreeMap<String, u32> = BTreeMap::new();
        for _ in 0..total {
            let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 0));
            let dealt = deal::<T>(&x, n, t, &p, r);
            let res = one_run::<T>(&op, dealt, &hub, &Policy::plain(), r);
            let h = lock(&hub);
            if h.zero_mask {
                o.bump("zero_mask_skipped", 1);
                continue;
            }
            if res.is_err() {
                // judged elsewhere
                o.bump("abandoned", 1);
                continue;
            }
            let s = h.structure();
            *st.entry(s.clone()).or_insert(0) += 1;
            if shape.is_none() {
                shape = Some(s.clone());
            }
            if shape.as_ref() != Some(&s) {
                continue;
            }
            let opens: Vec<&Step> = h.steps.iter().filter(|s| s.kind == Kind::Open).collect();
            let shared: Vec<&Step> = h.steps.iter().filter(|s| s.kind == Kind::Share).collect();
            let mut row: Vec<u16> = opens.iter().map(|s| low(s.value.as_ref().unwrap()) as u16).collect();
            let m = row.len();
            for s in &opens {
                row.extend(s.dep.iter().map(|d| low(&d.as_ref().unwrap()[0]) as u16));
            }
            let w = row.len();
            for s in &shared {
                row.extend(s.secrets.iter().map(|d| low(d.as_ref().unwrap()) as u16));
            }
            if tab.is_none() {
                let mut groups = vec![];
                // opened values: singles, pairs, triples; shares of opened values: singles and pairs; contributions: singles, pairs
                for i in 0..m {
                    groups.push(vec![i]);
                }
                groups.extend(subsets(m, 2));
                let tri = subsets(m, 3);
                let stride = 1 + tri.len() / if b <= 7 { 600 } else { 150 };
                groups.extend(tri.into_iter().step_by(stride));
                let pairs = subsets(w - m, 2);
                let stride = 1 + pairs.len() / 1200;
                groups.extend(pairs.into_iter().step_by(stride).map(|g| g.iter().map(|k| k + m).collect()));
                for i in w..row.len() {
                    groups.push(vec![i]);
                    for j in w..i {
                        if groups.len() < 6000 {
                            groups.push(vec![j, i]);
                        }
                    }
                }
                names = (0..m).map(|k| format!("opened value {}", k)).collect();
                for k in 0..m {
                    for i in 0..n {
                        names.push(format!("share of opened value {} from party {}", k, i + 1));
                    }
                }
                for k in 0..shared.len() {
                    for i in 0..n {
                        names.push(format!("contribution {} of party {}", k, i + 1));
                    }
                }
                tab = Some(Tables::new(b, groups));
            }
            tab.as_mut().unwrap().add(&row);
            o.bump("runs", 1);
            o.bump("opened_values", m as u64);
        }
        structures.push(st);
        if let Some(t) = tab {
            tabs.push(t);
        }
    }
    // communication structure
    let keys: Vec<String> = {
        let mut k: Vec<String> = structures.iter().flat_map(|s| s.keys().cloned()).collect();
        k.sort();
        k.dedup();
        k
    };
    let rows: Vec<Vec<u32>> = structures.iter().map(|s| keys.iter().map(|k| *s.get(k).unwrap_or(&0)).collect()).collect();
    for i in 1..rows.len() {
        let pv = zp::p_same(&rows[0], &rows[i]);
        o.p_value(pv, &|| format!("{}: the sequence of communication steps depends on the inputs {:?} / {:?}", case, inputs[0], inputs[i]));
    }
    if tabs.len() == inputs.len() {
        for i in 1..tabs.len() {
            for (g, (x, y)) in tabs[0].groups.iter().zip(tabs[0].counts.iter().zip(&tabs[i].counts)) {
                let pv = zp::p_same(x, y);
                o.p_value(pv, &|| {
                    format!(
                        "{}: the joint distribution of ({}) differs between inputs {:?} and {:?}",
                        case,
                        g.iter().map(|k| names[*k].clone()).collect::<Vec<_>>().join("; "),
                        inputs[0],
                        inputs[i]
                    )
                });
            }
        }
    }
    o.distinct(hash(&[&case]));
    o.sample(&|| format!("{}: steps {}", case, shape.clone().unwrap_or_default()));
}

/// In a large field an opened value that is a simple function of the inputs cannot be a coincidence.
fn c22_exact<T: G>(f: &str, r: &mut R, o: &mut Out) {
    let p = prime::<T>();
    let (n, t) = clique(&p, 6, r);
    let op = r.pick(&[Op::Mul, Op::UMul, Op::Inv, Op::UInv, Op::Or, Op::UOr, Op::Sel]).clone();
    let size = if r.chance(1, 10) { 7 + r.below(34) } else { 1 + r.below(6) } as usize;
    let bits = |r: &mut R| BigUint::from(r.below(2));
    let x: Vec<BigUint> = match op {
        Op::Or => vec![bits(r)],
        Op::UOr => (0..size).map(|_| bits(r)).collect(),
        Op::Sel => vec![bits(r), r.0.gen_biguint_below(&p), r.0.gen_biguint_below(&p)],
        Op::Mul => (0..2).map(|_| r.0.gen_biguint_below(&p)).collect(),
        Op::UMul => (0..2 * size).map(|_| r.0.gen_biguint_below(&p)).collect(),
        Op::Inv => vec![r.0.gen_biguint_below(&p)],
        _ => (0..size).map(|_| r.0.gen_biguint_below(&p)).collect(),
    };
    let case = format!("{} n {} t {} {:?} of [{}]", f, n, t, op, dec(&x));
    o.log.begin(&|| case.clone());
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 0));
    let dealt = deal::<T>(&x, n, t, &p, r);
    let mine = dealt.clone();
    if one_run::<T>(&op, dealt, &hub, &Policy::plain(), r).is_err() || lock(&hub).zero_mask {
        o.bump("abandoned", 1);
        return;
    }
    let h = lock(&hub);
    // quantities derived from the inputs in at most two steps
    let mut base: Vec<BigUint> = x.clone();
    if op == Op::Sel {
        base.push(zp::sub(&x[1], &x[2], &p));
    }
    if op == Op::UOr || op == Op::Or {
        base.push(x.iter().fold(BigUint::one(), |a, b| a + b));
    }
    if let Some(v) = plain(&op, &x, &p) {
        base.extend(v);
    }
    for k in 1..=(x.len() as u64 + 2) {
        base.push(BigUint::from(k));
    }
    base.sort();
    base.dedup();
    let base: Vec<BigUint> = base.into_iter().filter(|b| !b.is_zero()).collect();
    let mut known: HashSet<BigUint> = HashSet::new();
    known.insert(BigUint::zero());
    let mut ratios: HashSet<BigUint> = HashSet::new();
    let mut diffs: HashSet<BigUint> = HashSet::new();
    let inverses: Vec<BigUint> = base.iter().map(|b| zp::inv(b, &p)).collect();
    for a in &base {
        known.insert(a.clone());
        known.insert(zp::sub(&BigUint::zero(), a, &p));
        known.insert(zp::inv(a, &p));
        for (b, bi) in base.iter().zip(&inverses) {
            known.insert(zp::mul(a, b, &p));
            known.insert(zp::add(a, b, &p));
            known.insert(zp::sub(a, b, &p));
            let q = zp::mul(a, bi, &p);
            known.insert(q.clone());
            ratios.insert(q.clone());
            ratios.insert(zp::sub(&BigUint::zero(), &q, &p));
            diffs.insert(zp::sub(a, b, &p));
            diffs.insert(zp::add(a, b, &p));
        }
        diffs.insert(a.clone());
        diffs.insert(zp::sub(&BigUint::zero(), a, &p));
    }
    let opened: Vec<BigUint> = h.steps.iter().filter_map(|s| s.value.clone()).collect();
    let inverses: Vec<BigUint> = opened.iter().map(|b| zp::inv(b, &p)).collect();
    for (i, v) in opened.iter().enumerate() {
        if known.contains(v) {
            return o.viol(&format!("opened value {} is a function of the inputs alone: {}", i, v), &case);
        }
        for (j, w) in opened.iter().enumerate() {
            if i != j {
                let d = zp::sub(v, w, &p);
                if diffs.contains(&d) {
                    return o.viol(&format!("opened values {} and {} differ by {}, a function of the inputs", i, j, d), &case);
                }
                if ratios.contains(&zp::mul(v, &inverses[j], &p)) {
                    return o.viol(&format!("opened values {} and {} have a ratio that is a function of the inputs", i, j), &case);
                }
            }
        }
    }
    // contributions: fresh, and no function of an input or of a party's share of one
    let mut before: HashSet<BigUint> = HashSet::new();
    for s in h.steps.iter().filter(|s| s.kind == Kind::Share) {
        for (i, c) in s.secrets.iter().enumerate() {
            let c = c.as_ref().unwrap();
            if known.contains(c) || mine[i].iter().any(|m| m.1.as_uint() == *c) || opened.contains(c) {
                return o.viol(&format!("party {} re-shared a value that is no fresh random number", i + 1), &case);
            }
            if !before.insert(c.clone()) {
                return o.viol(&format!("party {} contributed the same number twice", i + 1), &case);
            }
        }
    }
    o.bump("runs", 1);
    o.bump("opened_values", opened.len() as u64);
    o.distinct(hash(&[&case]));
    o.sample(&|| format!("{}: {} values opened in {}", case, opened.len(), h.structure()));
}

// ------------------------------------------------------------------ C23: sessions

#[derive(Clone, Debug)]
enum I {
    Lin(u8, usize, usize, BigUint),
    Op(Op, Vec<usize>),
    Ask,
    Get(usize),
}

async fn session<T: G>(prog: Vec<I>, inp: Vec<Sh<T>>, mut rng: PRng, mut party: Party<T>) -> Vec<Sh<T>> {
    let mut regs = inp;
    let mut asked: Vec<Option<Pin<Box<dyn Future<Output = Sh<T>> + Send>>>> = vec![];
    for i in prog {
        match i {
            I::Lin(k, a, b, c) => {
                let c = T::from(c);
                let v = match k {
                    0 => <Party<T> as LinearSharingScheme<T, Sh<T>>>::add_shares(&regs[a], &regs[b]),
                    1 => <Party<T> as LinearSharingScheme<T, Sh<T>>>::sub_shares(&regs[a], &regs[b]),
                    2 => <Party<T> as LinearSharingScheme<T, Sh<T>>>::add_scalar(&regs[a], &c),
                    _ => <Party<T> as LinearSharingScheme<T, Sh<T>>>::multiply_scalar(&regs[a], &c),
                };
                regs.push(v);
            }
            I::Op(op, x) => {
                let v: Vec<Sh<T>> = x.iter().map(|k| regs[*k].clone()).collect();
                let v = apply(op, v, &mut rng, &mut party).await;
                regs.extend(v);
            }
            I::Ask => asked.push(Some(<Party<T> as RandomNumberGenerationScheme<T, Sh<T>, Party<T>>>::generate_random_number_sharing(&mut rng, &mut party))),
            I::Get(k) => {
                let v = asked[k].take().unwrap().await;
                regs.push(v);
            }
        }
    }
    regs
}

/// A random program. Registers whose value is known beforehand serve where the value matters.
fn program(p: &BigUint, len: usize, start: &[BigUint], r: &mut R) -> Vec<I> {
    let mut known: Vec<Option<BigUint>> = start.iter().cloned().map(Some).collect();
    let mut prog = vec![];
    let mut open: Vec<usize> = vec![];
    let mut asked = 0;
    let one = BigUint::one();
    for _ in 0..len {
        let any = |r: &mut R, known: &[Option<BigUint>]| r.below(known.len() as u64) as usize;
        let bits: Vec<usize> = (0..known.len()).filter(|k| known[*k].as_ref().map_or(false, |v| *v <= one)).collect();
        let units: Vec<usize> = (0..known.len()).filter(|k| known[*k].as_ref().map_or(false, |v| !v.is_zero())).collect();
        match r.below(12) {
            0 | 1 => {
                let (k, a, b, c) = (r.below(4) as u8, any(r, &known), any(r, &known), element(p, r));
                let v = match (k, known[a].clone(), known[b].clone()) {
                    (0, Some(x), Some(y)) => Some(zp::add(&x, &y, p)),
                    (1, Some(x), Some(y)) => Some(zp::sub(&x, &y, p)),
                    (2, Some(x), _) => Some(zp::add(&x, &c, p)),
                    (3, Some(x), _) => Some(zp::mul(&x, &c, p)),
                    _ => None,
                };
                prog.push(I::Lin(k, a, b, c));
                known.push(v);
            }
            2 | 3 | 4 => {
                let (op, m) = if r.chance(1, 2) { (Op::Mul, 1) } else { (Op::UMul, r.below(5) as usize) };
                let x: Vec<usize> = (0..2 * m).map(|_| any(r, &known)).collect();
                for c in x.chunks(2) {
                    let v = match (&known[c[0]], &known[c[1]]) {
                        (Some(a), Some(b)) => Some(zp::mul(a, b, p)),
                        _ => None,
                    };
                    known.push(v);
                }
                prog.push(I::Op(op, x));
            }
            5 | 6 if !units.is_empty() => {
                let (op, m) = if r.chance(1, 2) { (Op::Inv, 1) } else { (Op::UInv, 1 + r.below(4) as usize) };
                let x: Vec<usize> = (0..m).map(|_| *r.pick(&units)).collect();
                for k in &x {
                    let v = zp::inv(known[*k].as_ref().unwrap(), p);
                    known.push(Some(v));
                }
                prog.push(I::Op(op, x));
            }
            7 if !bits.is_empty() => {
                let top = small(p).map_or(5, |p| (p - 1).min(5));
                let (op, m) = if r.chance(1, 4) { (Op::Or, 1) } else { (Op::UOr, 1 + r.below(top)) };
                let x: Vec<usize> = (0..m).map(|_| *r.pick(&bits)).collect();
                let v: Vec<BigUint> = x.iter().map(|k| known[*k].clone().unwrap()).collect();
                known.push(plain(&op, &v, p).unwrap().pop());
                prog.push(I::Op(op, x));
            }
            8 | 9 if !bits.is_empty() => {
                let x = vec![*r.pick(&bits), any(r, &known), any(r, &known)];
                let v = if known[x[0]] == Some(one.clone()) { known[x[1]].clone() } else { known[x[2]].clone() };
                known.push(v);
                prog.push(I::Op(Op::Sel, x));
            }
            10 => {
                prog.push(I::Ask);
                open.push(asked);
                asked += 1;
            }
            11 if !open.is_empty() => {
                let k = open.swap_remove(r.below(open.len() as u64) as usize);
                prog.push(I::Get(k));
                known.push(None);
            }
            _ => {}
        }
    }
    for k in open {
        prog.push(I::Get(k));
    }
    prog
}

/// Evaluate the program on plain values; `shared` are the values the parties' registers hold.
fn agree(prog: &[I], start: &[BigUint], shared: &[BigUint], p: &BigUint) -> Result<(), String> {
    let mut at = start.len();
    for k in 0..at {
        if shared[k] != start[k] {
            return Err(format!("input {} changed", k));
        }
    }
    for (n, i) in prog.iter().enumerate() {
        let want: Vec<Option<BigUint>> = match i {
            I::Ask => continue,
            I::Get(_) => vec![None],
            I::Lin(k, a, b, c) => vec![Some(match k {
                0 => zp::add(&shared[*a], &shared[*b], p),
                1 => zp::sub(&shared[*a], &shared[*b], p),
                2 => zp::add(&shared[*a], c, p),
                _ => zp::mul(&shared[*a], c, p),
            })],
            I::Op(op, x) => {
                let v: Vec<BigUint> = x.iter().map(|k| shared[*k].clone()).collect();
                plain(op, &v, p).unwrap().into_iter().map(Some).collect()
            }
        };
        for w in want {
            if at >= shared.len() {
                return Err(format!("instruction {} produced too few results", n));
            }
            if w.map_or(false, |w| w != shared[at]) {
                return Err(format!("instruction {} ({:?}) left {} in register {}", n, i, shared[at], at));
            }
            at += 1;
        }
    }
    if at != shared.len() {
        return Err("too many results".into());
    }
    Ok(())
}

fn c23<T: G>(f: &str, i: u64, r: &mut R, o: &mut Out) {
    let p = prime::<T>();
    let (n, t) = clique(&p, if i % 25 == 3 { 12 } else if i % 300 == 27 { 30 } else { 6 }, r);
    let start: Vec<BigUint> = (0..2 + r.below(5)).map(|_| if r.chance(1, 2) { BigUint::from(r.below(2)) } else { element(&p, r) }).collect();
    let len = if i % 40 == 7 { 40 } else if i % 700 == 107 && n < 7 { 150 } else { 1 + r.below(10) } as usize;
    let prog = program(&p, len, &start, r);
    let pol = Policy::random(r);
    let threads = i % 12 == 5;
    let case = format!("{} n {} t {} start [{}] {:?} under {:?}{}", f, n, t, dec(&start), prog, pol, if threads { " on real threads" } else { "" });
    o.log.begin(&|| case.clone());
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 0));
    let dealt = deal::<T>(&start, n, t, &p, r);
    let seeds: Vec<u64> = (0..n).map(|_| r.below(1 << 62)).collect();
    let res: Result<(Vec<Vec<Sh<T>>>, u64), String> = if threads {
        on_threads(&prog, dealt, &hub, &seeds)
    } else {
        let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<T>>>>>> = vec![];
        for (k, inp) in dealt.into_iter().enumerate() {
            let prng = PRng { inner: rng(seeds[k], 77, k as u64), broken: false, drawn: 0 };
            futs.push(Box::pin(session(prog.clone(), inp, prng, Party::<T>::new(&hub, k))));
        }
        run(&hub, futs, &pol, r)
    };
    if lock(&hub).zero_mask {
        o.bump("zero_mask_skipped", 1);
        return;
    }
    o.bump(if threads { "thread_sessions" } else { "sessions" }, 1);
    o.bump("messages", lock(&hub).messages);
    o.bump("instructions", prog.len() as u64);
    let (outs, print) = match res {
        Ok(x) => x,
        Err(e) => return o.viol(&e, &case),
    };
    o.distinct(print ^ hash(&[&case]));
    let r = values::<T>(&outs, t, &p).and_then(|v| agree(&prog, &start, &v, &p));
    match r {
        Err(e) => o.viol(&e, &case),
        Ok(()) => o.sample(&|| case.clone()),
    }
}

/// Where every party's thread is: everybody waiting with no wake-up under way means that nothing can happen any more.
struct Floor {
    woken: Vec<bool>,
    waiting: Vec<bool>,
    done: usize,
    moves: u64,
}

struct Bell(Arc<(std::sync::Mutex<Floor>, std::sync::Condvar)>, usize);
impl std::task::Wake for Bell {
    fn wake(self: Arc<Self>) {
        let mut f = (self.0).0.lock().unwrap_or_else(|e| e.into_inner());
        f.woken[self.1] = true;
        (self.0).1.notify_all();
    }
}

/// Every party on a thread of its own.
fn on_threads<T: G>(prog: &[I], dealt: Vec<Vec<Sh<T>>>, hub: &HubRef, seeds: &[u64]) -> Result<(Vec<Vec<Sh<T>>>, u64), String> {
    lock(hub).instant = true;
    let (tx, rx) = std::sync::mpsc::channel();
    let n = dealt.len();
    let floor = Arc::new((std::sync::Mutex::new(Floor { woken: vec![false; n], waiting: vec![false; n], done: 0, moves: 0 }), std::sync::Condvar::new()));
    for (k, inp) in dealt.into_iter().enumerate() {
        let prng = PRng { inner: rng(seeds[k], 77, k as u64), broken: false, drawn: 0 };
        let party = Party::<T>::new(hub, k);
        let (prog, tx, delay, floor) = (prog.to_vec(), tx.clone(), seeds[k] % 300, floor.clone());
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_micros(delay));
            let r = guard(|| {
                let waker = std::task::Waker::from(Arc::new(Bell(floor.clone(), k)));
                let mut fut = Box::pin(session(prog, inp, prng, party));
                loop {
                    if let std::task::Poll::Ready(v) = fut.as_mut().poll(&mut std::task::Context::from_waker(&waker)) {
                        return v;
                    }
                    let mut f = floor.0.lock().unwrap_or_else(|e| e.into_inner());
                    f.waiting[k] = true;
                    f.moves += 1;
                    while !f.woken[k] {
                        f = floor.1.wait(f).unwrap_or_else(|e| e.into_inner());
                    }
                    f.woken[k] = false;
                    f.waiting[k] = false;
                    f.moves += 1;
                }
            });
            let mut f = floor.0.lock().unwrap_or_else(|e| e.into_inner());
            f.done += 1;
            f.moves += 1;
            drop(f);
            let _ = tx.send((k, r));
        });
    }
    let mut outs: Vec<Option<Vec<Sh<T>>>> = vec![None; n];
    let mut got = 0;
    let (mut quiet, mut still, mut moves) = (0, 0, 0);
    while got < n {
        match rx.recv_timeout(std::time::Duration::from_millis(50)) {
            Err(_) => {
                let f = floor.0.lock().unwrap_or_else(|e| e.into_inner());
                let stuck = f.done + (0..n).filter(|k| f.waiting[*k] && !f.woken[*k]).count() == n;
                if stuck && f.moves == moves {
                    quiet += 1
                } else {
                    quiet = 0
                }
                still = if f.moves == moves { still + 1 } else { 0 };
                moves = f.moves;
                if still > 2400 {
                    return Err("no progress on real threads for two minutes".into());
                }
                if quiet > 40 {
                    return Err("stalled on real threads: every party waits and nothing is under way".into());
                }
            }
            Ok((k, Ok(v))) => {
                outs[k] = Some(v);
                got += 1
            }
            Ok((k, Err(e))) => return Err(format!("party {} panicked: {}", k + 1, e)),
        }
    }
    let h = lock(hub);
    if let Some(b) = h.bad.last() {
        return Err(b.clone());
    }
    if h.next.iter().any(|x| *x != h.next[0]) {
        return Err(format!("the parties took different numbers of communication steps: {:?}", h.next));
    }
    Ok((outs.into_iter().map(|x| x.unwrap()).collect(), 1))
}

// ------------------------------------------------------------------ C24: concurrent sessions in one process

struct Report {
    runs: u64,
    bad: Option<(String, String)>,
    print: u64,
}

type Interrupt = Option<(u64, Box<dyn FnOnce() + Send>)>;

/// A session whose result is compared with the plain one.
fn c24_job<T: G>(f: &str, r: &mut R, external: bool, interrupt: Interrupt) -> Report {
    let p = prime::<T>();
    let (n, t) = clique(&p, 4, r);
    let sp = small(&p).unwrap_or(u64::max_value());
    let op = r.pick(&[Op::UOr, Op::UOr, Op::UOr, Op::Or, Op::UInv, Op::UMul, Op::Sel]).clone();
    let size = 1 + r.below(9).min(sp - 2) as usize;
    let x = inputs_for(&op, &p, size, r);
    let mut pol = Policy::random(r);
    pol.external = external;
    let case = format!("{} n {} t {} {:?} of [{}]", f, n, t, op, dec(&x));
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 0));
    lock(&hub).interrupt = interrupt;
    let dealt = deal::<T>(&x, n, t, &p, r);
    let res = one_run::<T>(&op, dealt, &hub, &pol, r);
    if lock(&hub).zero_mask {
        return Report { runs: 0, bad: None, print: 0 };
    }
    let bad = match res {
        Err(e) => Some((e, case.clone())),
        Ok(d) => match values::<T>(&d.outs, t, &p) {
            Err(e) => Some((e, case.clone())),
            Ok(v) => {
                let want = plain(&op, &x, &p).unwrap();
                if v != want {
                    Some((format!("the parties share [{}] instead of [{}]", dec(&v), dec(&want)), case.clone()))
                } else {
                    None
                }
            }
        },
    };
    Report { runs: 1, bad, print: hash(&[&case]) }
}

// ------------------------------------------------------------------ C31: sessions that come to nothing

type Notes = Arc<std::sync::Mutex<Vec<(&'static str, Report)>>>;

/// A session that fails; another one runs while its remains are still around.
fn c31_doomed<T: G>(field: u64, r: &mut R, external: bool, alone: bool, notes: &Notes) {
    let p = prime::<T>();
    let (n, t) = clique(&p, 4, r);
    let sp = small(&p).unwrap_or(u64::max_value());
    let op = r.pick(&[Op::UOr, Op::UOr, Op::UOr, Op::UOr, Op::Or, Op::UInv, Op::UMul, Op::Sel, Op::Rnd(3)]).clone();
    let misuse = r.chance(1, 4);
    let max = if misuse { 16 } else { sp - 1 };
    let size = if misuse { r.below(max) as usize } else { 1 + size_of(r, 6, 20).min(max - 1) as usize };
    let mut x = inputs_for(&op, &p, size.max(1), r);
    if misuse {
        match r.below(3) {
            0 if op == Op::UOr || op == Op::UInv => x.truncate(size),
            1 => x.iter_mut().for_each(|v| *v = BigUint::zero()),
            _ => {}
        }
    }
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 1));
    let mut dealt = deal::<T>(&x, n, t, &p, r);
    if misuse && r.chance(1, 2) {
        let i = r.below(n as u64) as usize;
        if let Some(s) = dealt[i].last_mut() {
            s.0 += 1;
        }
    }
    lock(&hub).lazy = r.chance(1, 4);
    let crash = match r.below(4) {
        0 | 1 => Crash::Drop(r.below(n as u64) as usize),
        2 => Crash::Lose,
        _ => Crash::Leave,
    };
    if r.chance(1, 4) {
        lock(&hub).panic_at = Some((r.below(n as u64) as usize, r.below(20) as usize));
    }
    let after = *r.pick(if alone { &[5, 15, 30, 30, 50, 100] } else { &[0, 1, 3, 10, 30, 100, 300] });
    let after = r.below(after + 1);
    let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<T>>>>>> = vec![];
    for (i, inp) in dealt.into_iter().enumerate() {
        let mut party = Party::<T>::new(&hub, i);
        let mut prng = PRng { inner: rng(r.below(1 << 62), 77, i as u64), broken: false, drawn: 0 };
        let op = op.clone();
        futs.push(Box::pin(async move { apply(op, inp, &mut prng, &mut party).await }));
    }
    // A party that waits for a lock another thread holds must be polled or dropped when it is woken, as with every
    // executor; so nothing is left lying about when there are other threads.
    let keep = !external && r.chance(2, 3);
    let (done, failed) = doomed(&hub, futs, after, &crash, keep, r, &mut |r| {
        if alone {
            return;
        }
        let f = if r.chance(3, 4) { field } else { r.below(NP) };
        let rep = with_field!(f, c24_job(NAMES[f as usize], r, external, None));
        notes.lock().unwrap().push((if keep { "during" } else { "after" }, rep));
    });
    let print = hash(&[&format!("{} {:?} {} {:?} {} {}", NAMES[field as usize], op, size, crash, after, misuse)]);
    let kind = if failed > 0 {
        "panicked"
    } else if done == n as u64 {
        "finished"
    } else {
        match crash {
            Crash::Drop(_) => "dropped",
            Crash::Lose => "message_loss",
            Crash::Leave => "left",
        }
    };
    notes.lock().unwrap().push((kind, Report { runs: 0, bad: None, print }));
}

fn c31_rounds(a: &Args, k: u64, rounds: u64, external: bool, tell: &mut dyn FnMut(&'static str, Report)) {
    // once a session has gone wrong the rest may take for ever
    let mut bad = false;
    let mut tell = |w: &'static str, rep: Report| {
        bad |= rep.bad.is_some();
        tell(w, rep);
        bad
    };
    let mut r = rng(a.seed, 3100 + k, a.shard);
    for i in 0..rounds {
        let field = r.below(NP);
        let notes: Notes = Default::default();
        if rounds > 1000 && i % 100 > 0 {
            // in long histories most failing sessions follow one another
            with_field!(field, c31_doomed(field, &mut r, external, true, &notes));
            for (w, rep) in notes.lock().unwrap().drain(..) {
                tell(w, rep);
            }
            continue;
        }
        let (n2, seed) = (notes.clone(), r.below(1 << 62));
        let at = r.below(60);
        let interrupt: Interrupt = Some((
            at,
            Box::new(move || {
                let mut r = rng(seed, 3101, 0);
                let f = if r.chance(3, 4) { field } else { r.below(NP) };
                with_field!(f, c31_doomed(f, &mut r, external, false, &n2))
            }),
        ));
        let early = if external {
            if let Some((_, f)) = interrupt {
                f()
            }
            with_field!(field, c24_job(NAMES[field as usize], &mut r, external, None))
        } else {
            with_field!(field, c24_job(NAMES[field as usize], &mut r, external, interrupt))
        };
        if tell(if external { "after" } else { "before" }, early) {
            return;
        }
        let late = with_field!(field, c24_job(NAMES[field as usize], &mut r, external, None));
        if tell("after", late) || notes.lock().unwrap().drain(..).any(|(w, rep)| tell(w, rep)) {
            return;
        }
    }
}

fn c31(a: &Args, o: &mut Out) {
    let rounds = if a.scale > 1 { a.scale } else if a.shard % 45 == 1 { if a.thorough || a.shard == 1 { 220_000 } else { 30_000 } } else { 60 };
    let judge = |o: &mut Out, when: &'static str, rep: Report| {
        match when {
            "before" | "during" | "after" => {
                o.bump("sessions", rep.runs);
                o.bump(when, rep.runs);
            }
            k => {
                o.bump("failed_sessions", (k != "finished") as u64);
                o.bump(k, 1);
                o.distinct(rep.print);
            }
        }
        if let Some((w, c)) = rep.bad {
            o.viol(&format!("a session started {} another one failed: {}", when, w), &c)
        }
    };
    if a.shard % 3 > 0 {
        let mut all = vec![];
        c31_rounds(a, 0, rounds, false, &mut |w, rep| all.push((w, rep)));
        for (w, rep) in all {
            judge(o, w, rep);
        }
    } else {
        let (tx, rx) = std::sync::mpsc::channel();
        for k in 0..6 {
            let (tx, a) = (tx.clone(), Args { mode: a.mode.clone(), out: a.out.clone(), input: a.input.clone(), ..*a });
            std::thread::spawn(move || {
                c31_rounds(&a, k, rounds / 2, true, &mut |w, rep| {
                    let _ = tx.send((w, rep));
                })
            });
        }
        drop(tx);
        loop {
            match rx.recv_timeout(std::time::Duration::from_secs(150)) {
                Ok((w, rep)) => {
                    let bad = rep.bad.is_some();
                    judge(o, w, rep);
                    if bad {
                        break;
                    }
                }
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
                Err(_) => {
                    o.viol("sessions made no progress for 150 s after others had failed", "deadlock");
                    break;
                }
            }
        }
        o.bump("threaded_processes", 1);
    }
    o.bump("processes", 1);
    o.sample(&|| format!("{} failing sessions in one process, each with sessions before, during and after it", rounds));
}

/// One operation in lockstep: the number of rounds, or nothing if a mask was zero.
fn c33_rounds<T: G>(op: &Op, size: usize, n: usize, t: usize, r: &mut R) -> Result<Option<u64>, String> {
    let p = prime::<T>();
    let x = inputs_for(op, &p, size, r);
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 2));
    let dealt = deal::<T>(&x, n, t, &p, r);
    let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<T>>>>>> = vec![];
    for (i, inp) in dealt.into_iter().enumerate() {
        let mut party = Party::<T>::new(&hub, i);
        let mut prng = PRng { inner: rng(r.below(1 << 62), 77, i as u64), broken: false, drawn: 0 };
        let op = op.clone();
        futs.push(Box::pin(async move { apply(op, inp, &mut prng, &mut party).await }));
    }
    let res = run_rounds(&hub, futs);
    if lock(&hub).zero_mask {
        return Ok(None);
    }
    let (outs, rounds) = res?;
    let v = values::<T>(&outs, t, &p)?;
    if v != plain(op, &x, &p).unwrap() {
        return Err("wrong results".into());
    }
    Ok(Some(rounds))
}

fn c33(a: &Args, o: &mut Out) {
    let ops = [(Op::UMul, 1200, "multiplication"), (Op::UInv, 700, "inversion"), (Op::UOr, 60, "or"), (Op::Mul, 1, "mul"), (Op::Inv, 1, "inv"), (Op::Or, 1, "bit_or"), (Op::Sel, 1, "selection")];
    let mut r = rng(a.seed, 3300, a.shard);
    for (op, largest, name) in ops.iter() {
        // what small batches of small cliques take
        let mut base = 0;
        for size in 1..5 {
            for n in 2..4usize {
                for f in 4..7 {
                    match with_field!(f, c33_rounds(op, size, n, 2, &mut r)) {
                        Ok(Some(k)) => base = base.max(k),
                        Ok(None) => o.bump("zero_mask_skipped", 1),
                        // other properties are about results
                        Err(_) => o.bump("failed", 1),
                    }
                }
            }
        }
        o.sample(&|| format!("{}: {} rounds in small cliques", name, base));
        let more = if a.thorough { 1500 } else { 90 };
        for i in 0..more {
            let n = if i % 20 == 7 { 2 + r.below(40) } else { 2 + r.below(9) } as usize;
            let t = 2 + r.below(n as u64 - 1) as usize;
            let top = 1 + r.below(if n > 12 { 12 } else if i % 10 == 1 { *largest } else { 40.min(*largest) });
            let size = (1 + r.below(top)) as usize;
            let f = 4 + r.below(3);
            let case = format!("{:?} of {} values, {} parties, threshold {}, field {}", op, size, n, t, NAMES[f as usize]);
            o.log.begin(&|| case.clone());
            match with_field!(f, c33_rounds(op, size, n, t, &mut r)) {
                Ok(Some(k)) => {
                    o.bump("runs", 1);
                    o.bump("large_batches", (size > 64) as u64);
                    o.distinct(hash(&[&case]));
                    if k > base {
                        o.viol(&format!("{} rounds of communication; small batches of small cliques take {}", k, base), &case);
                    }
                }
                Ok(None) => o.bump("zero_mask_skipped", 1),
                Err(_) => o.bump("failed", 1),
            }
            o.sample(&|| case.clone());
        }
    }
}

/// The prime of the field, touched first by many threads at once.
fn c24_prime<T: G>(e: u64) -> Option<String> {
    let want = BigUint::from(2u32).modpow(&BigUint::from(e), &(BigUint::one() << 4096));
    let p = prime::<T>();
    let x = T::from(want.clone());
    if x.as_uint() != want % &p || (p > BigUint::from(3u32) && (x.clone() - x).as_uint() != BigUint::zero()) {
        Some(format!("arithmetic modulo {} went wrong", p))
    } else {
        None
    }
}

fn c24(a: &Args, o: &mut Out) {
    let threads = 8 + (a.shard % 3) * 4;
    let rounds = if a.scale > 1 { a.scale } else { 12 };
    let barrier = Arc::new(std::sync::Barrier::new(threads as usize));
    let (tx, rx) = std::sync::mpsc::channel();
    for k in 0..threads {
        let (tx, barrier, seed, shard) = (tx.clone(), barrier.clone(), a.seed, a.shard);
        std::thread::spawn(move || {
            let mut r = rng(seed, 2400 + k, shard);
            // in a third of the processes all threads meet the same field first
            let same = shard % 3 == 0;
            for i in 0..rounds {
                let mut field = if same { (shard / 3 + i) % NP } else { r.below(NP) };
                if i > 2 {
                    field = r.below(NP);
                }
                if i < 3 {
                    barrier.wait();
                }
                if i == 0 && shard % 2 == 0 {
                    let any = if same { shard % NF } else { r.below(NF) };
                    let e = r.below(900);
                    if let Some(b) = with_any_field!(any, c24_prime(e)) {
                        let _ = tx.send(Report { runs: 0, bad: Some((b, NAMES[any as usize].into())), print: 0 });
                    }
                    barrier.wait();
                }
                let rep = with_field!(field, c24_job(NAMES[field as usize], &mut r, true, None));
                if tx.send(rep).is_err() {
                    return;
                }
            }
        });
    }
    drop(tx);
    loop {
        match rx.recv_timeout(std::time::Duration::from_secs(150)) {
            Ok(rep) => {
                o.bump("sessions", rep.runs);
                o.distinct(rep.print);
                if let Some((w, c)) = rep.bad {
                    o.viol(&w, &c);
                    break;
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {
                o.viol("concurrent sessions made no progress for 150 s", "deadlock");
                break;
            }
        }
    }
    o.bump("threads", threads);
    o.bump("processes", 1);
    o.sample(&|| format!("{} threads, {} sessions each, over {} fields", threads, rounds, NP));
}

// ------------------------------------------------------------------

fn main() {
    quiet_panics();
    let a = args();
    let mode: u8 = a.mode[1..].parse().unwrap();
    let mut o = Out { log: Log::new(&a), stats: BTreeMap::new(), bad: 0, tests: 0, min_p: 1.0, seen: HashSet::new(), samples: 0 };
    let big = |q: u64, t: u64| if a.thorough { t } else { q };
    let cases = |per_shard: u64| -> (u64, u64) { a.only.map_or((0, per_shard), |x| (x, x + 1)) };
    let stream = |i: u64| rng(a.seed, 100 * mode as u64, i * a.shards + a.shard);
    match mode {
        14 => {
            let (lo, hi) = cases(big(2500, 30000));
            for i in lo..hi {
                let mut r = stream(i);
                let f = r.below(NF);
                with_any_field!(f, c14(NAMES[f as usize], i, &mut r, a.thorough, &mut o));
            }
        }
        15 => {
            let mut jobs: Vec<(u64, usize, usize, u8)> = vec![];
            for s in 0..3u8 {
                for (f, t, n) in [(0, 2, 4), (0, 3, 4), (0, 4, 4), (1, 2, 3), (1, 3, 5), (1, 4, 6), (1, 6, 6), (2, 2, 2), (2, 3, 4), (2, 5, 6), (7, 2, 2), (8, 3, 3), (8, 9, 12), (3, 2, 3), (3, 4, 5), (3, 12, 12)].iter() {
                    jobs.push((*f, *t, *n, s));
                }
            }
            for f in [4, 5, 6, 10, 11, 12, 13].iter() {
                for (t, n) in [(2, 2), (3, 4), (6, 7), (13, 14)].iter() {
                    jobs.push((*f, *t, *n, 2 + (*t % 2) as u8));
                }
            }
            for (f, t, n) in [(3, 30, 31), (10, 30, 30), (6, 52, 52), (12, 70, 71), (5, 110, 110), (4, 66, 66), (10, 135, 135), (3, 135, 136), (10, 200, 201), (9, 75, 75), (11, 20, 20), (13, 36, 36)].iter() {
                jobs.push((*f, *t, *n, 2 + (*t % 2) as u8));
            }
            // long jobs first
            jobs.sort_by_key(|j| std::cmp::Reverse(if j.0 == 13 { 1000 } else { j.1 }));
            for (i, (f, t, n, s)) in jobs.into_iter().enumerate() {
                if i as u64 % a.shards == a.shard {
                    let mut r = stream(i as u64);
                    with_any_field!(f, c15_job(NAMES[f as usize], t, n, s, &mut r, &a, &mut o));
                }
            }
        }
        16 => {
            let (lo, hi) = cases(big(35_000, 600_000));
            for i in lo..hi {
                let mut r = stream(i);
                let f = r.below(NF);
                with_any_field!(f, c16(NAMES[f as usize], &mut r, &mut o));
            }
        }
        17 | 18 | 19 | 20 => {
            let (lo, hi) = cases(match mode {
                17 => big(12_000, 300_000),
                18 => big(7_000, 200_000),
                19 => big(4_000, 80_000),
                _ => big(90_000, 900_000),
            });
            for i in lo..hi {
                let mut r = stream(i);
                // one vector of more than 256 bits: its table takes a while
                let i = if i == HUGE_OR && a.shard > 0 && !a.thorough { 0 } else { i };
                let f = if mode == 19 && i == HUGE_OR { 4 + r.below(3) } else { r.below(NP) };
                with_field!(f, protocols(mode, NAMES[f as usize], i, &mut r, a.thorough, &mut o));
            }
        }
        21 => {
            let (lo, hi) = cases(big(30_000, 300_000));
            for i in lo..hi {
                let mut r = stream(i);
                let f = r.below(NP);
                with_field!(f, c21_exact(NAMES[f as usize], i, &mut r, &mut o));
            }
            let mut j = 0;
            for (f, n, t) in [(0u64, 2usize, 2usize), (0, 4, 3), (1, 3, 2), (1, 3, 3), (7, 2, 2)].iter() {
                for good in [None, Some(0), Some(n - 1), Some(n / 2)].iter() {
                    if *good == Some(0) && *n == 2 && *f == 7 {
                        continue;
                    }
                    j += 1;
                    if j % a.shards == a.shard {
                        let mut r = rng(a.seed, 2150, j);
                        with_field!(*f, c21_stat(NAMES[*f as usize], *n, *t, *good, &mut r, &a, &mut o));
                    }
                }
            }
        }
        22 => {
            let (lo, hi) = cases(big(300, 6000));
            for i in lo..hi {
                let mut r = stream(i);
                c22_exact::<K256>("K256", &mut r, &mut o);
            }
            let mut j = 0;
            for (f, n, t) in [(0u64, 2usize, 2usize), (1, 3, 2), (1, 3, 3), (0, 4, 3)].iter() {
                let jobs: Vec<(Op, Vec<Vec<u64>>)> = vec![
                    (Op::UOr, vec![vec![0, 0, 0], vec![1, 0, 0], vec![0, 0, 1], vec![1, 1, 1]]),
                    (Op::UOr, vec![vec![0, 0], vec![0, 1], vec![1, 1]]),
                    (Op::UMul, vec![vec![0, 0, 0, 0], vec![1, 2, 3, 4], vec![2, 2, 2, 2], vec![0, 3, 0, 1]]),
                    (Op::UInv, vec![vec![1, 1], vec![2, 3], vec![4, 1]]),
                    (Op::UInv, vec![vec![1, 1, 1], vec![2, 3, 1]]),
                    (Op::Or, vec![vec![0], vec![1]]),
                    (Op::Mul, vec![vec![0, 0], vec![1, 3], vec![4, 4], vec![0, 2]]),
                    (Op::Inv, vec![vec![1], vec![2], vec![4]]),
                    (Op::Sel, vec![vec![0, 1, 1], vec![1, 1, 1], vec![0, 3, 4], vec![1, 0, 2]]),
                ];
                for (op, inputs) in jobs {
                    if op == Op::UOr && inputs[0].len() == 3 && *n == 4 && !a.thorough {
                        continue;
                    }
                    j += 1;
                    if j % a.shards == a.shard {
                        let mut r = rng(a.seed, 2250, j);
                        with_field!(*f, c22_stat(NAMES[*f as usize], op, *n, *t, &inputs, &mut r, &a, &mut o));
                    }
                }
            }
        }
        23 => {
            let (lo, hi) = cases(big(6_000, 120_000));
            for i in lo..hi {
                let mut r = stream(i);
                let f = if r.chance(1, 2) { 4 + r.below(3) } else { r.below(NP) };
                with_field!(f, c23(NAMES[f as usize], i, &mut r, &mut o));
            }
        }
        31 => c31(&a, &mut o),
        33 => c33(&a, &mut o),
        _ => c24(&a, &mut o),
    }
    let mut o = o;
    let s: Vec<String> = o.stats.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    let l = format!("{{\"stats\":{{{}}},\"tests\":{},\"min_p\":{:e}}}", s.join(","), o.tests, o.min_p);
    o.log.line(&l);
    let h: Vec<String> = o.seen.iter().map(|h| format!("\"{:x}\"", h)).collect();
    for c in h.chunks(1000) {
        let l = format!("{{\"seen\":[{}]}}", c.join(","));
        o.log.line(&l);
    }
    o.log.line("{\"end\":1}");
    o.log.flush();
    // threads of a stalled run may still be around
    std::process::exit(0);
}

fn c15_job<T: G>(f: &str, t: usize, n: usize, s: u8, r: &mut R, a: &Args, o: &mut Out) {
    let p = prime::<T>();
    let secret = match s {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => &p - 1u32,
        _ => r.0.gen_biguint_below(&p),
    };
    c15::<T>(f, t, n, secret, r, a, o)
}
