//! What the two ends of a double-ratchet conversation hold. All secrets and texts have fixed sizes.
use crate::{live, Out};
use jcommon::*;
use jester_double_ratchet::state::{Established, Initiator};
use jester_double_ratchet::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use rand::{CryptoRng, RngCore};

type Key = Box<[u8; 16]>;
const P: u128 = (1 << 61) - 1;

fn num(k: &Key) -> u128 {
    u128::from_le_bytes(**k) % P
}
fn key(n: u128) -> Key {
    Box::new(n.to_le_bytes())
}
fn mix(a: u128, b: u128) -> u128 {
    let mut x = a ^ b.rotate_left(64) ^ 0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835;
    for i in 1..6u32 {
        x = (x ^ (x >> 59)).wrapping_mul(0xda94_2042_e4dd_58b5_2360_ed05_1fc6_5da5).rotate_left(31 * i) ^ b;
    }
    x
}

thread_local! {
    /// the public key made last
    static LAST: std::cell::Cell<u128> = std::cell::Cell::new(0);
}
/// Multiples of a point that is no point: enough for two parties to agree.
pub struct Dh;
impl DiffieHellmanKeyExchangeScheme for Dh {
    type PublicKey = Key;
    type PrivateKey = Key;
    type SharedKey = Key;
    fn generate_asymmetrical_key_pair<Q: RngCore + CryptoRng>(r: &mut Q, g: &Key) -> (Key, Key) {
        let a = r.next_u64() as u128 % P;
        let v = a * num(g) % P;
        LAST.with(|l| l.set(v));
        (key(a), key(v))
    }
    fn generate_shared_secret(a: &Key, b: &Key) -> Key {
        key(num(a) * num(b) % P)
    }
}
pub struct Root;
impl KeyDerivationFunction for Root {
    type ChainKey = Key;
    type Input = Key;
    type OutputKey = Key;
    fn derive_key(c: Key, i: Key) -> (Key, Key) {
        let (c, i) = (u128::from_le_bytes(*c), u128::from_le_bytes(*i));
        (key(mix(c, i)), key(mix(c, i ^ 1)))
    }
}
pub struct Chain;
impl KeyDerivationFunction for Chain {
    type ChainKey = Key;
    type Input = u8;
    type OutputKey = Key;
    fn derive_key(c: Key, i: u8) -> (Key, Key) {
        let c = u128::from_le_bytes(*c);
        (key(mix(c, i as u128)), key(mix(c, i as u128 ^ 256)))
    }
}
impl ConstantInputKeyRatchet for Chain {
    const INPUT: u8 = 7;
}
pub struct Xor;
impl SymmetricalEncryptionScheme for Xor {
    type Key = Key;
    fn generate_key<Q: RngCore + CryptoRng>(r: &mut Q) -> Key {
        key(r.next_u64() as u128)
    }
    fn encrypt_message(k: &Key, m: &[u8]) -> Vec<u8> {
        m.iter().zip(k.iter().cycle()).map(|(a, b)| a ^ b).collect()
    }
    fn decrypt_message(k: &Key, m: &[u8]) -> Vec<u8> {
        Self::encrypt_message(k, m)
    }
}

type End<S> = DoubleRatchetProtocol<Dh, Xor, Root, Chain, Key, Key, Key, Key, Key, Key, S>;
type Msg = DoubleRatchetAlgorithmMessage<Key, Vec<u8>>;

/// The first message is from the addressee; `a` is the initiator.
struct Pair {
    a: End<Established>,
    b: End<Established>,
}
fn meet(r: &mut R) -> Pair {
    let root = r.next_u64() as u128;
    let g = key(3);
    let (a, _) = End::<Initiator>::initialize_sending(r, g.clone(), key(root));
    let first = key(LAST.with(|l| l.get()));
    let mut b = End::<Established>::initialize_receiving(r, g, first, key(root));
    let m = b.encrypt_message(b"0123456789abcdef");
    let (a, _) = a.decrypt_first_message(r, m);
    Pair { a, b }
}
fn get(end: &mut End<Established>, m: Msg, r: &mut R) -> bool {
    end.decrypt_message(r, m).map(|t| t == b"0123456789abcdef").unwrap_or_else(|e| match e {
        DecryptionException::OutOfOrderMessage { decrypted_message } => decrypted_message == b"0123456789abcdef",
        _ => false,
    })
}
/// The bytes the two ends hold.
fn weigh(p: Pair) -> (isize, isize) {
    let Pair { a, b } = p;
    let l = live();
    drop(a);
    let m = live();
    drop(b);
    (l - m, m - live())
}

/// `changes` turns of `run` messages each; everything arrives in order.
fn converse(changes: u64, run: u64, r: &mut R) -> ((isize, isize), u64) {
    let mut p = meet(r);
    let mut n = 0;
    for _ in 0..changes {
        for _ in 0..run {
            let m = p.a.encrypt_message(b"0123456789abcdef");
            n += get(&mut p.b, m, r) as u64;
        }
        for _ in 0..run {
            let m = p.b.encrypt_message(b"0123456789abcdef");
            n += get(&mut p.a, m, r) as u64;
        }
    }
    (weigh(p), n)
}

pub fn in_order(r: &mut R, a: &Args, o: &mut Out) {
    let f = if a.thorough { 8 } else { 1 };
    for changes in [1u64, 2, 5, 20, 100].iter() {
        let ((a1, b1), n1) = converse(*changes, 1, r);
        let (_, n2) = converse(*changes, 7, r);
        for run in [2, 5, 50, 400 * f].iter() {
            let ((a2, b2), n) = converse(*changes, *run, r);
            o.bump("messages", n + n1 + n2);
            o.bump("states", 2);
            // as many key changes, more messages: the same state, give or take the slack of a table
            if a2 > a1 + 2048 || b2 > b1 + 2048 {
                o.log.viol(
                    &format!("after {} messages per turn the two ends hold {} and {} bytes, after one per turn {} and {}", run, a2, b2, a1, b1),
                    &format!("{} key changes each, everything in order", changes),
                );
            }
            o.case(format!("{} key changes, {} messages per turn: {} and {} bytes", changes, run, a2, b2));
        }
    }
    // a key change costs a fixed amount at most
    let ((a1, b1), _) = converse(10, 1, r);
    for more in [100u64, 1000 * f].iter() {
        let ((a2, b2), n) = converse(*more, 1, r);
        o.bump("messages", n);
        o.bump("states", 2);
        let per = 256 * (more - 10) as isize;
        if a2 - a1 > per || b2 - b1 > per {
            o.log.viol(&format!("{} key changes make the two ends {} and {} bytes larger", more - 10, a2 - a1, b2 - b1), "everything in order");
        }
        o.case(format!("{} key changes: {} and {} bytes", more, a2, b2));
    }
}

/// Messages that come late, never or again.
pub fn gaps(r: &mut R, a: &Args, o: &mut Out) {
    let f = if a.thorough { 8 } else { 1 };
    for i in 0..60 * f {
        let (changes, run) = (r.below(12) * r.below(8), 1 + r.below(12));
        let most = 1 + r.below(30);
        let lose = r.chance(1, 2);
        let mut p = meet(r);
        let mut late: Vec<(bool, Msg)> = vec![];
        let (mut missing, mut copies, mut top) = (0u64, vec![], 0);
        for c in 0..changes + 40 {
            for side in 0..2 {
                // in the end only one side goes on, without key changes
                if c >= changes && side == 1 {
                    continue;
                }
                for _ in 0..run {
                    let m = if side == 0 { p.a.encrypt_message(b"0123456789abcdef") } else { p.b.encrypt_message(b"0123456789abcdef") };
                    if (late.len() as u64) < most && r.chance(1, 3) {
                        late.push((side == 0, m));
                        top = top.max(late.len() as u64);
                        continue;
                    }
                    if r.chance(1, 20) {
                        copies.push((side == 0, m.clone()));
                    }
                    let ok = if side == 0 { get(&mut p.b, m, r) } else { get(&mut p.a, m, r) };
                    o.bump("messages", ok as u64);
                }
                // late ones arrive
                if late.len() as u64 == most || r.chance(1, 6) {
                    while !late.is_empty() {
                        let k = r.below(late.len() as u64) as usize;
                        let (from_a, m) = late.swap_remove(k);
                        if lose && missing < 20 && r.chance(1, 10) {
                            missing += 1;
                            continue;
                        }
                        let ok = if from_a { get(&mut p.b, m, r) } else { get(&mut p.a, m, r) };
                        o.bump("late", ok as u64);
                    }
                }
                if r.chance(1, 10) {
                    for (from_a, m) in copies.drain(..) {
                        let again = if from_a { get(&mut p.b, m, r) } else { get(&mut p.a, m, r) };
                        o.bump("copies", !again as u64);
                    }
                }
            }
        }
        for (from_a, m) in late.drain(..) {
            if from_a {
                get(&mut p.b, m, r);
            } else {
                get(&mut p.a, m, r);
            }
        }
        drop(copies);
        let (x, y) = weigh(p);
        o.bump("states", 2);
        // tables double, so up to four times the room for all that was ever missing at once, and a fixed amount per key change
        let bound = 2048 + 256 * (top + missing + changes) as isize;
        let case = format!("{} turns of {} messages, {} for good and up to {} at once missing", changes, run, missing, top);
        if x > bound || y > bound {
            o.log.viol(&format!("the two ends hold {} and {} bytes", x, y), &case);
        }
        if i < 10 {
            o.case(format!("{}: {} and {} bytes", case, x, y));
        }
    }
    // missing and found, over and over
    for cycles in [50, 500, 4000 * f].iter() {
        let mut p = meet(r);
        for _ in 0..*cycles {
            let mut v: Vec<Msg> = (0..4).map(|_| p.a.encrypt_message(b"0123456789abcdef")).collect();
            while let Some(m) = v.pop() {
                o.bump("late", get(&mut p.b, m, r) as u64);
            }
        }
        let (x, y) = weigh(p);
        o.bump("states", 2);
        if x > 4096 || y > 4096 {
            o.log.viol(&format!("the two ends hold {} and {} bytes", x, y), &format!("{} times three messages overtaken and found", cycles));
        }
        o.case(format!("{} times three messages overtaken and found: {} and {} bytes", cycles, x, y));
    }
}
