//! Recording primitives injected into the ratchet: key exchange, key derivation functions and cipher, in three stacks:
//! 0 toy group and mixing functions, 1 the same with public keys that all hash alike, 2 Jester's own field and HKDF.
use jester_double_ratchet::{ConstantInputKeyRatchet, KeyDerivationFunction};
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::kdf::hkdf_derive_key;
use jester_maths::prime::IetfGroup1;
use num::BigUint;
use rand::{CryptoRng, Error, RngCore};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub const A: usize = 0;
pub const B: usize = 1;
pub const PROBE: usize = 2;

/// All instances of secret values in existence: whose they are and what they are.
#[derive(Default)]
pub struct Live {
    pub on: bool,
    next: u64,
    pub all: HashMap<u64, (usize, Vec<u8>)>,
}
thread_local! {
    pub static LIVE: RefCell<Live> = RefCell::new(Live::default());
}
fn born(v: &[u8]) -> u64 {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        if !l.on {
            return 0;
        }
        l.next += 1;
        let (id, owner) = (l.next, rec(|r| r.cur));
        l.all.insert(id, (owner, v.to_vec()));
        id
    })
}
fn dies(id: u64) {
    if id > 0 {
        let _ = LIVE.try_with(|l| l.borrow_mut().all.remove(&id));
    }
}
/// Everything secret a party holds.
pub fn held_by(party: usize) -> Vec<Vec<u8>> {
    LIVE.with(|l| l.borrow().all.values().filter(|(o, _)| *o == party).map(|(_, v)| v.clone()).collect())
}
pub fn watch(on: bool) {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        l.on = on;
        l.all.clear();
    })
}

macro_rules! keytype {
    ($n:ident) => {
        #[derive(Debug)]
        pub struct $n(pub Vec<u8>, u64);
        impl $n {
            pub fn new(v: Vec<u8>) -> Self {
                let id = born(&v);
                $n(v, id)
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                $n::new(self.0.clone())
            }
        }
        impl Default for $n {
            fn default() -> Self {
                $n(vec![], 0)
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                dies(self.1)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                self.0.partial_cmp(&o.0)
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.0.cmp(&o.0)
            }
        }
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.0.hash(h)
            }
        }
        impl AsRef<[u8]> for $n {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
    };
}
keytype!(Shared);
keytype!(RootKey);
keytype!(ChainKey);
keytype!(MsgKey);
keytype!(Secret);

/// One step anybody who knows what goes in can repeat.
pub enum Step {
    /// two public keys -> shared secret, for whoever has one of the private keys
    Dh(u32, u32, u32),
    /// root key, shared secret -> root key, chain key
    Root(u32, u32, u32, u32),
    /// chain key -> chain key, message key
    Chain(u32, u32, u32),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Pub(pub Vec<u8>);
impl Hash for Pub {
    fn hash<H: Hasher>(&self, h: &mut H) {
        if rec(|r| r.stack) == 1 {
            7u8.hash(h)
        } else {
            self.0.hash(h)
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Priv {
    exp: Secret,
    public: Vec<u8>,
}

#[derive(Default)]
pub struct Party {
    pub rng_words: HashSet<u64>,
    /// every pair generated by this party: public key -> (serial, fresh from this party's own generator)
    pub pairs: HashMap<Vec<u8>, (usize, bool)>,
    pub n_pairs: usize,
    pub fed: HashSet<Vec<u8>>,
    pub shared_fed: HashSet<Vec<u8>>,
    pub roots: HashSet<Vec<u8>>,
    pub chains: HashSet<Vec<u8>>,
    pub msg_keys: HashSet<Vec<u8>>,
}

#[derive(Default)]
pub struct Rec {
    pub stack: u8,
    pub cur: usize,
    pub steps: u64,
    pub budget: u64,
    pub p: [Party; 3],
    pub enc_keys: HashSet<Vec<u8>>,
    pub used_as_msg_key: HashSet<Vec<u8>>,
    pub used_as_chain: HashSet<Vec<u8>>,
    pub probe: Option<Vec<u8>>,
    pub wrong_key: u64,
    pub kdf_calls: u64,
    pub dh_calls: u64,
    pub enc_calls: u64,
    pub dec_calls: u64,
    /// C29 violations
    pub bad: Vec<String>,
    /// every derivation by the parties, over numbered values
    pub track: bool,
    pub numbers: HashMap<Vec<u8>, u32>,
    /// public key -> number of its private key
    pub private: HashMap<Vec<u8>, u32>,
    pub history: Vec<Step>,
    pub last_enc_key: u32,
}
impl Rec {
    pub fn number(&mut self, v: &[u8]) -> u32 {
        if let Some(n) = self.numbers.get(v) {
            return *n;
        }
        let n = self.numbers.len() as u32;
        self.numbers.insert(v.to_vec(), n);
        n
    }
}
/// What follows from the values held, with everything that was sent in the clear.
pub fn derivable(held: &[Vec<u8>]) -> Vec<bool> {
    rec(|r| {
        let mut known = vec![false; r.numbers.len()];
        for h in held {
            if let Some(n) = r.numbers.get(h) {
                known[*n as usize] = true;
            }
        }
        for s in &r.history {
            match *s {
                Step::Dh(a, b, s) => known[s as usize] |= known[a as usize] || known[b as usize],
                Step::Root(a, b, c, d) => {
                    if known[a as usize] && known[b as usize] {
                        known[c as usize] = true;
                        known[d as usize] = true;
                    }
                }
                Step::Chain(a, c, d) => {
                    if known[a as usize] {
                        known[c as usize] = true;
                        known[d as usize] = true;
                    }
                }
            }
        }
        known
    })
}

thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
}
pub fn rec<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    REC.with(|r| f(&mut r.borrow_mut()))
}
pub fn reset(stack: u8) {
    rec(|r| {
        *r = Rec::default();
        r.stack = stack;
    })
}
/// Start an operation of one party with a bound on its primitive calls.
pub fn enter(party: usize, budget: u64) {
    rec(|r| {
        r.cur = party;
        r.steps = 0;
        r.budget = budget;
    })
}
fn step() {
    let over = rec(|r| {
        r.steps += 1;
        r.steps > r.budget
    });
    if over {
        panic!("more key derivations in one operation than messages were ever sent");
    }
}

/// A party's generator: remembers every word it handed out.
pub struct PartyRng<'a> {
    pub inner: &'a mut jcommon::R,
    pub party: usize,
}
impl<'a> RngCore for PartyRng<'a> {
    fn next_u32(&mut self) -> u32 {
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        let w = self.inner.next_u64();
        let p = self.party;
        rec(|r| {
            r.p[p].rng_words.insert(w);
        });
        w
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.inner.try_fill_bytes(d)
    }
}
impl<'a> CryptoRng for PartyRng<'a> {}

pub const M61: u64 = (1 << 61) - 1;
fn modmul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % M61 as u128) as u64
}
fn modpow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = modmul(r, b)
        }
        b = modmul(b, b);
        e >>= 1;
    }
    r
}
fn word(b: &[u8]) -> u64 {
    let mut w = [0u8; 8];
    let n = b.len().min(8);
    w[..n].copy_from_slice(&b[..n]);
    u64::from_le_bytes(w)
}
/// 128-bit mixing function
pub fn mix(tag: u8, parts: &[&[u8]]) -> [u8; 16] {
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d ^ tag as u128;
    let m: u128 = 0x2545F4914F6CDD1D_9E3779B97F4A7C15;
    for p in parts {
        for b in p.iter() {
            h = (h ^ *b as u128).wrapping_mul(m);
            h ^= h >> 61;
        }
        h = (h ^ (0x100 + p.len() as u128)).wrapping_mul(m);
        h ^= h >> 67;
    }
    for _ in 0..3 {
        h ^= h >> 64;
        h = h.wrapping_mul(m);
    }
    h ^= h >> 61;
    h.to_le_bytes()
}
fn power(stack: u8, base: &[u8], exp: &[u8]) -> Vec<u8> {
    if stack == 2 {
        let b: IetfGroup1 = BigUint::from_bytes_be(base).into();
        let e: IetfGroup1 = BigUint::from_bytes_be(exp).into();
        let s: IetfGroup1 = <IetfGroup1 as DiffieHellmanKeyExchangeScheme>::generate_shared_secret(&e, &b);
        jester_maths::prime::PrimeField::as_uint(&s).to_bytes_be()
    } else {
        modpow(word(base), word(exp)).to_le_bytes().to_vec()
    }
}
pub fn generator(stack: u8) -> Pub {
    Pub(if stack == 2 { vec![2] } else { vec![37] })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dh;
impl DiffieHellmanKeyExchangeScheme for Dh {
    type PublicKey = Pub;
    type PrivateKey = Priv;
    type SharedKey = Shared;

    fn generate_asymmetrical_key_pair<R>(rng: &mut R, generator: &Pub) -> (Priv, Pub)
    where
        R: RngCore + CryptoRng,
    {
        step();
        let (w0, w1) = (rng.next_u64(), rng.next_u64());
        let stack = rec(|r| r.stack);
        let exp = if stack == 2 {
            [&w0.to_be_bytes()[..], &w1.to_be_bytes()[..]].concat()
        } else {
            ((w0 >> 4) | 1).to_le_bytes().to_vec()
        };
        let public = power(stack, &generator.0, &exp);
        rec(|r| {
            r.dh_calls += 1;
            let cur = r.cur;
            let p = &mut r.p[cur];
            let own = p.rng_words.contains(&w0) && p.rng_words.contains(&w1);
            let n = p.n_pairs;
            p.n_pairs += 1;
            if p.pairs.insert(public.clone(), (n, own)).is_some() && cur != PROBE {
                r.bad.push("the same key pair was generated twice".into());
            }
            if r.track && cur != PROBE {
                let n = r.number(&exp);
                r.private.insert(public.clone(), n);
            }
        });
        (Priv { exp: Secret::new(exp), public: public.clone() }, Pub(public))
    }

    fn generate_shared_secret(private_key: &Priv, partner_key: &Pub) -> Shared {
        let probing = rec(|r| {
            if r.cur == PROBE && r.probe.is_none() {
                r.probe = Some(partner_key.0.clone());
                true
            } else {
                false
            }
        });
        if probing {
            std::panic::resume_unwind(Box::new("probed"));
        }
        step();
        let stack = rec(|r| {
            r.dh_calls += 1;
            r.stack
        });
        let shared = power(stack, &partner_key.0, &private_key.exp.0);
        rec(|r| {
            if r.track && r.cur != PROBE {
                let mine = r.number(&private_key.exp.0);
                let theirs = r.private.get(&partner_key.0).cloned().unwrap_or(mine);
                let s = r.number(&shared);
                r.history.push(Step::Dh(mine, theirs, s));
            }
        });
        Shared::new(shared)
    }
}

fn derive(stack: u8, tag: u8, chain: &[u8], input: &[u8]) -> (Vec<u8>, Vec<u8>) {
    if stack == 2 {
        let k = hkdf_derive_key::<Blake2s, _>(&Blake2sContext { output_len: 32, key: vec![] }, chain, input, 64, &[tag]);
        (k[..32].to_vec(), k[32..].to_vec())
    } else {
        (mix(2 * tag, &[chain, input]).to_vec(), mix(2 * tag + 1, &[chain, input]).to_vec())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RootKdf;
impl KeyDerivationFunction for RootKdf {
    type ChainKey = RootKey;
    type Input = Shared;
    type OutputKey = ChainKey;
    fn derive_key(chain_key: RootKey, input: Shared) -> (RootKey, ChainKey) {
        step();
        let (c, o) = derive(rec(|r| r.stack), 1, &chain_key.0, &input.0);
        rec(|r| {
            r.kdf_calls += 1;
            let cur = r.cur;
            let p = &mut r.p[cur];
            if !p.roots.contains(&chain_key.0) {
                r.bad.push("root key that no derivation produced".into());
            }
            if !p.fed.insert(chain_key.0.clone()) {
                r.bad.push("root key fed to the derivation function twice".into());
            }
            if !p.shared_fed.insert(input.0.clone()) {
                r.bad.push("shared secret fed to the root derivation twice".into());
            }
            p.roots.insert(c.clone());
            p.chains.insert(o.clone());
            r.used_as_chain.insert(chain_key.0.clone());
            if r.used_as_msg_key.contains(&chain_key.0) {
                r.bad.push("message key used as root key".into());
            }
            if r.track && cur != PROBE {
                let s = Step::Root(r.number(&chain_key.0), r.number(&input.0), r.number(&c), r.number(&o));
                r.history.push(s);
            }
        });
        (RootKey::new(c), ChainKey::new(o))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MsgKdf;
impl KeyDerivationFunction for MsgKdf {
    type ChainKey = ChainKey;
    type Input = u8;
    type OutputKey = MsgKey;
    fn derive_key(chain_key: ChainKey, input: u8) -> (ChainKey, MsgKey) {
        step();
        let (c, o) = derive(rec(|r| r.stack), 2, &chain_key.0, &[input]);
        rec(|r| {
            r.kdf_calls += 1;
            let cur = r.cur;
            let p = &mut r.p[cur];
            if !p.chains.contains(&chain_key.0) {
                r.bad.push("chain key that no derivation produced".into());
            }
            if !p.fed.insert(chain_key.0.clone()) {
                r.bad.push("chain key fed to the derivation function twice".into());
            }
            p.chains.insert(c.clone());
            p.msg_keys.insert(o.clone());
            r.used_as_chain.insert(chain_key.0.clone());
            if r.used_as_msg_key.contains(&chain_key.0) {
                r.bad.push("message key used as chain key".into());
            }
            if r.track && cur != PROBE {
                let s = Step::Chain(r.number(&chain_key.0), r.number(&c), r.number(&o));
                r.history.push(s);
            }
        });
        (ChainKey::new(c), MsgKey::new(o))
    }
}
impl ConstantInputKeyRatchet for MsgKdf {
    const INPUT: u8 = 0x5a;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cipher;
fn keystream(key: &[u8], data: &mut [u8]) {
    for (i, c) in data.chunks_mut(16).enumerate() {
        let k = mix(40, &[key, &(i as u64).to_le_bytes()]);
        for (x, y) in c.iter_mut().zip(k.iter()) {
            *x ^= y
        }
    }
}
pub const SENTINEL: &[u8] = b"\xff\xfe(wrong key)";
impl SymmetricalEncryptionScheme for Cipher {
    type Key = MsgKey;
    fn generate_key<R>(rng: &mut R) -> MsgKey
    where
        R: RngCore + CryptoRng,
    {
        let mut k = vec![0; 16];
        rng.fill_bytes(&mut k);
        MsgKey::new(k)
    }
    fn encrypt_message(key: &MsgKey, message: &[u8]) -> Vec<u8> {
        step();
        rec(|r| {
            r.enc_calls += 1;
            let cur = r.cur;
            if !r.p[cur].msg_keys.contains(&key.0) {
                r.bad.push("message encrypted with a key that the chains did not produce".into());
            }
            if !r.enc_keys.insert(key.0.clone()) {
                r.bad.push("message key used to encrypt two messages".into());
            }
            r.used_as_msg_key.insert(key.0.clone());
            if r.used_as_chain.contains(&key.0) {
                r.bad.push("chain key used as message key".into());
            }
            if r.track {
                r.last_enc_key = r.number(&key.0);
            }
        });
        let mut c = mix(41, &[&key.0, message]).to_vec();
        c.extend_from_slice(message);
        keystream(&key.0, &mut c[16..]);
        c
    }
    fn decrypt_message(key: &MsgKey, message: &[u8]) -> Vec<u8> {
        step();
        rec(|r| {
            r.dec_calls += 1;
            r.used_as_msg_key.insert(key.0.clone());
            if r.used_as_chain.contains(&key.0) {
                r.bad.push("chain key used as message key".into());
            }
        });
        if message.len() >= 16 {
            let mut m = message[16..].to_vec();
            keystream(&key.0, &mut m);
            if mix(41, &[&key.0, &m])[..] == message[..16] {
                return m;
            }
        }
        rec(|r| r.wrong_key += 1);
        SENTINEL.to_vec()
    }
}
