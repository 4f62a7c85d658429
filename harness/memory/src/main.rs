//! What a long-lived process keeps: an allocator that counts every live byte, around all parts of the library.
#![recursion_limit = "4096"]
#![allow(deprecated)]
#[path = "../../sharing/src/sim.rs"]
mod sim;
#[path = "../../sharing/src/zp.rs"]
mod zp;
mod talk;
use jcommon::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::rsa::{RSACryptoSystem, RSAPrivateKey, RSAPublicKey};
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::hmac::hmac;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{BlockHashFunction, HashFunction, HashValue};
use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{BigUint, Num, One, Zero};
use num_bigint::RandBigInt;
use sim::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::Relaxed};

/// Counts the live bytes, their maximum and the allocations.
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
fn add(n: isize) {
    let l = LIVE.load(Relaxed) + n;
    LIVE.store(l, Relaxed);
    if n > 0 {
        CALLS.store(CALLS.load(Relaxed) + 1, Relaxed);
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
    }
}
// the process has one thread
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize);
        add(-(l.size() as isize));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn live() -> isize {
    LIVE.load(Relaxed)
}
/// How far the live bytes rise above their present number while `f` runs.
fn peak_of(f: &mut dyn FnMut()) -> isize {
    let before = live();
    PEAK.store(before, Relaxed);
    f();
    PEAK.load(Relaxed) - before
}

prime_fields!(
    pub F5("5", 10),
    pub F11("11", 10),
    pub F257("257", 10),
    pub P64("18446744073709551557", 10),
    pub K256("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
);

pub struct Out {
    pub log: Log,
    pub stats: BTreeMap<String, u64>,
    pub cases: Vec<String>,
}
impl Out {
    pub fn bump(&mut self, k: &str, n: u64) {
        match self.stats.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.stats.insert(k.into(), n);
            }
        }
    }
    pub fn case(&mut self, s: String) {
        self.cases.push(s);
    }
}

/// Uses of something after which its process must hold what it held before. Three equally long stretches are measured;
/// if all of them add to what is held, six more of twice the length decide whether it goes on, so that tables that are
/// filled once and caches that are bounded do not count.
fn steady(what: &str, uses: u64, o: &mut Out, f: &mut dyn FnMut(u64)) {
    o.log.begin(&|| what.to_string());
    let calls = CALLS.load(Relaxed);
    let mut done = 0;
    let mut stretch = |n: u64| {
        let before = live();
        for _ in 0..n {
            f(done);
            done += 1;
        }
        live() - before
    };
    stretch(uses);
    let first = [stretch(uses), stretch(uses), stretch(uses)];
    let mut case = format!("growth {:?} in stretches of {} uses", first, uses);
    if first.iter().all(|g| *g > 64) {
        let mut next = [0; 6];
        for g in next.iter_mut() {
            *g = stretch(2 * uses);
        }
        case = format!("growth {:?} in stretches of {} uses, then {:?} in stretches of {}", first, uses, next, 2 * uses);
        let least = *first.iter().min().unwrap();
        if next[2..].iter().all(|g| *g > 64 && *g > least) {
            o.log.viol(&format!("memory accumulates: {}", case), what);
        }
    }
    let calls = (CALLS.load(Relaxed) - calls) as u64;
    o.bump("allocations", calls);
    o.bump("uses", done);
    o.case(format!("{}: {}", what, case));
}

fn hashing<H: BlockHashFunction<Context = C>, C>(name: &str, make: &dyn Fn(&mut R) -> C, r: &mut R, a: &Args, o: &mut Out) {
    let n = if a.thorough { 20000 } else { 2500 };
    steady(&format!("{} digests, also of pieces and unfinished ones", name), n, o, &mut |i| {
        let c = make(r);
        let size = r.mixed(1, 50, 5000, 300) as usize;
        let m = r.bytes(size);
        if i % 3 > 0 {
            H::digest_message(&c, &m).raw();
        }
        if i % 3 < 2 {
            let mut s = H::init_hash(&c);
            let cut = r.below(m.len() as u64 + 1) as usize;
            H::update_hash(&mut s, &c, &m[..cut]);
            H::update_hash(&mut s, &c, &m[cut..]);
            if i % 6 > 1 {
                H::finish_hash(&mut s, &c).raw();
            }
        }
    });
    steady(&format!("HMAC and HKDF over {}", name), n / 4, o, &mut |_| {
        let c = make(r);
        let (k, m) = (r.below(300) as usize, r.below(300) as usize);
        let (k, m) = (r.bytes(k), r.bytes(m));
        hmac::<H, C>(&c, &k, &m);
        let len = r.below(1000) as usize;
        if len <= 200 * H::output_size(&c) {
            hkdf_derive_key::<H, C>(&c, &k, &m, len, &k);
        }
    });
    // a message of any length needs the same memory
    let data = r.bytes(1 << 20);
    for piece in [1usize << 20, 4096, 997].iter() {
        let c = make(r);
        let mut peaks = vec![];
        let top = if a.thorough { 200 } else { 24 };
        for total in [4u64, 40, top * 10].iter() {
            let mut got = 0;
            peaks.push(peak_of(&mut || {
                let mut s = H::init_hash(&c);
                for k in 0..*total {
                    for p in data[..(1 << 17)].chunks(*piece) {
                        H::update_hash(&mut s, &c, p);
                    }
                    got += k;
                }
                H::finish_hash(&mut s, &c).raw();
            }));
            o.bump("peaks", 1);
        }
        if peaks[2] > peaks[0] + 4096 && peaks[2] > peaks[1] {
            o.log.viol(&format!("hashing 4, 40 and {} times 128 KiB takes {:?} bytes", top * 10, peaks), &format!("{} in pieces of {}", name, piece));
        }
        o.case(format!("{} in pieces of {}: peaks {:?}", name, piece, peaks));
    }
}

fn field<T: PrimeField + 'static>(name: &str, r: &mut R, a: &Args, o: &mut Out) {
    let p = T::field_prime().as_uint();
    let bits = p.bits() as u64;
    let n = (if a.thorough { 400_000 } else { 60_000 }) / (bits + 20);
    steady(&format!("arithmetic and conversions in {}", name), n, o, &mut |_| {
        let x: T = r.0.gen_biguint_below(&p).into();
        let y: T = r.0.gen_biguint_below(&p).into();
        let s = x.clone() + y.clone() - x.clone() * y.clone();
        if !s.is_zero() {
            let _ = s.inverse();
            let _ = x.clone() % s.clone();
            let _ = x.clone() / s.clone();
        }
        let _ = T::from_bytes_le(&x.as_bytes_le());
        let _ = T::from_bytes_be(&y.as_bytes_be());
        let _ = T::from_str_radix(&x.as_uint().to_str_radix(10), 10).ok();
        let _ = T::from_str_radix("no number!", 10).is_ok();
        let _ = guard(|| T::zero().inverse());
        let _: T = vec![x.clone(), y.clone(), s.clone()].into_iter().sum();
        let _: T = vec![x, y, s].into_iter().product();
        let _ = T::from_i64(-(r.below(1 << 60) as i64));
        let _ = T::from_u64(r.below(1 << 60));
        let _ = T::generate_random_member(r);
    });
    steady(&format!("powers, key exchange and RSA in {}", name), (n / (bits + 1)).max(6), o, &mut |_| {
        let g: T = r.0.gen_biguint_below(&p).into();
        let (k, v) = <T as DiffieHellmanKeyExchangeScheme>::generate_asymmetrical_key_pair(r, &g);
        <T as DiffieHellmanKeyExchangeScheme>::generate_shared_secret(&k, &v);
        let n_: T = (r.0.gen_biguint_below(&p) | BigUint::one()).into();
        if n_.as_uint() > BigUint::from(2u8) {
            let m = T::generate_random_member(r).as_bytes_le();
            let c = RSACryptoSystem::<T>::encrypt_message(&RSAPublicKey { e: k.clone(), n: n_.clone() }, &m);
            RSACryptoSystem::<T>::decrypt_message(&RSAPrivateKey { d: k, n: n_ }, &c);
        }
    });
}

fn one_session<T: G>(op: &Op, size: usize, n: usize, t: usize, spoil: bool, r: &mut R) -> bool {
    let p = T::field_prime().as_uint();
    let bit = |r: &mut R| BigUint::from(r.below(2));
    let x: Vec<BigUint> = match op {
        Op::UOr => (0..size).map(|_| bit(r)).collect(),
        Op::Or => vec![bit(r)],
        Op::Sel => vec![bit(r), r.0.gen_biguint_below(&p), r.0.gen_biguint_below(&p)],
        Op::Mul => (0..2).map(|_| r.0.gen_biguint_below(&p)).collect(),
        Op::UMul => (0..2 * size).map(|_| r.0.gen_biguint_below(&p)).collect(),
        Op::Inv => vec![BigUint::one()],
        _ => (0..size).map(|_| (p.clone() - BigUint::one()) - r.0.gen_biguint_below(&(p.clone() - BigUint::one()))).collect(),
    };
    let hub = Hub::new(n, t, &p, rng(r.below(1 << 62), 78, 3));
    let dealt = deal::<T>(&x, n, t, &p, r);
    let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<T>>>>>> = vec![];
    for (i, inp) in dealt.into_iter().enumerate() {
        let mut party = Party::<T>::new(&hub, i);
        let mut prng = PRng { inner: rng(r.below(1 << 62), 77, i as u64), broken: false, drawn: 0 };
        let op = op.clone();
        futs.push(Box::pin(async move { apply(op, inp, &mut prng, &mut party).await }));
    }
    if spoil {
        let crash = match r.below(4) {
            0 | 1 => Crash::Drop(r.below(n as u64) as usize),
            2 => Crash::Lose,
            _ => Crash::Leave,
        };
        if r.chance(1, 4) {
            lock(&hub).panic_at = Some((r.below(n as u64) as usize, r.below(12) as usize));
        }
        let top = *r.pick(&[3, 10, 30, 100]);
        let after = r.below(top + 1);
        doomed(&hub, futs, after, &crash, false, r, &mut |_| ());
        false
    } else {
        run(&hub, futs, &Policy::random(r), r).is_ok()
    }
}

fn protocols<T: G>(name: &str, r: &mut R, a: &Args, o: &mut Out) {
    let p = T::field_prime().as_uint();
    let sp = num::ToPrimitive::to_u64(&p).unwrap_or(1 << 40);
    let biggest = 12.min(sp - 2) as usize;
    let cap = 5.min(sp - 1);
    // tables are filled once per field and size
    one_session::<T>(&Op::UOr, biggest, 2, 2, false, r);
    one_session::<T>(&Op::UOr, biggest, 2, 2, false, r);
    for spoil in 0..2 {
        let mut done = 0;
        let uses = if a.thorough { 20000 } else { 1500 };
        steady(
            &format!("{} over {}", if spoil == 1 { "sessions that come to nothing" } else { "sessions" }, name),
            uses,
            o,
            &mut |_| {
                let op = r.pick(&[Op::UOr, Op::UOr, Op::Or, Op::UInv, Op::Inv, Op::UMul, Op::Mul, Op::Sel, Op::Rnd(2)]).clone();
                let size = 1 + r.below(biggest as u64) as usize;
                let n = 2 + r.below(cap - 1) as usize;
                let t = 2 + r.below(n as u64 - 1) as usize;
                done += one_session::<T>(&op, size, n, t, spoil == 1, r) as u64;
            },
        );
        o.bump(if spoil == 1 { "spoilt_sessions" } else { "sessions" }, if spoil == 1 { 4 * uses } else { done });
    }
    // sharing alone
    steady(&format!("sharing and recovering over {}", name), 800, o, &mut |_| {
        use jester_sharing::*;
        let n = 2 + r.below(cap - 1) as usize;
        let t = 2 + r.below(n as u64 - 1) as usize;
        let s: T = r.0.gen_biguint_below(&p).into();
        let v = <Party<T> as ThresholdSecretSharingScheme<T, Sh<T>>>::generate_shares(r, &s, n, t);
        <Party<T> as ThresholdSecretSharingScheme<T, Sh<T>>>::reconstruct_secret(&v, t);
    });
}

fn main() {
    quiet_panics();
    let a = args();
    let mut o = Out { log: Log::new(&a), stats: BTreeMap::new(), cases: Vec::with_capacity(4096) };
    let mut r = rng(a.seed, 3400, a.shard);
    let b2b = |r: &mut R| Blake2bContext { output_len: 1 + r.below(64) as usize, key: if r.chance(1, 2) { vec![] } else { let n = r.below(65) as usize; r.bytes(n) } };
    let b2s = |r: &mut R| Blake2sContext { output_len: 1 + r.below(32) as usize, key: if r.chance(1, 2) { vec![] } else { let n = r.below(33) as usize; r.bytes(n) } };
    let jobs: Vec<Box<dyn Fn(&mut R, &mut Out)>> = vec![
        Box::new(|r, o| hashing::<MD5Hash, ()>("MD5", &|_| (), r, &a, o)),
        Box::new(|r, o| hashing::<SHA1Hash, ()>("SHA-1", &|_| (), r, &a, o)),
        Box::new(|r, o| hashing::<Blake2b, _>("BLAKE2b", &b2b, r, &a, o)),
        Box::new(|r, o| hashing::<Blake2s, _>("BLAKE2s", &b2s, r, &a, o)),
        Box::new(|r, o| field::<F5>("F5", r, &a, o)),
        Box::new(|r, o| field::<Mersenne31>("M31", r, &a, o)),
        Box::new(|r, o| field::<P64>("P64", r, &a, o)),
        Box::new(|r, o| field::<Mersenne127>("M127", r, &a, o)),
        Box::new(|r, o| field::<K256>("K256", r, &a, o)),
        Box::new(|r, o| field::<IetfGroup1>("G1", r, &a, o)),
        Box::new(|r, o| protocols::<F5>("F5", r, &a, o)),
        Box::new(|r, o| protocols::<F11>("F11", r, &a, o)),
        Box::new(|r, o| protocols::<F257>("F257", r, &a, o)),
        Box::new(|r, o| protocols::<Mersenne31>("M31", r, &a, o)),
        Box::new(|r, o| protocols::<P64>("P64", r, &a, o)),
        Box::new(|r, o| protocols::<K256>("K256", r, &a, o)),
        Box::new(|r, o| talk::in_order(r, &a, o)),
        Box::new(|r, o| talk::in_order(r, &a, o)),
        Box::new(|r, o| talk::gaps(r, &a, o)),
        Box::new(|r, o| talk::gaps(r, &a, o)),
    ];
    for (i, j) in jobs.iter().enumerate() {
        if a.only.map_or(i as u64 % a.shards == a.shard, |k| k == i as u64) {
            if let Err(e) = guard(|| j(&mut r, &mut o)) {
                o.log.line(&format!("{{\"incon\":{}}}", q(&format!("job {} panicked: {}", i, e))));
            }
        }
    }
    let stats = o.stats.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",");
    o.log.line(&format!("{{\"stats\":{{{}}}}}", stats));
    let cases = o.cases.iter().map(|c| q(c)).collect::<Vec<_>>().join(",");
    o.log.line(&format!("{{\"cases\":[{}]}}", cases));
    o.log.line("{\"end\":1}");
}
