//! Drives the prime-field API, Diffie-Hellman and RSA and records operands and results; Python integers judge them.
#![allow(deprecated)]
#![recursion_limit = "1024"]
use jcommon::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::rsa::{RSACryptoSystem, RSAPrivateKey, RSAPublicKey};
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{BigUint, Num, One, Zero};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::any::Any;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use rand::RngCore;

/// The same type names as other fields, other primes: declarations must not share anything.
mod other {
    use super::*;
    prime_fields!(pub Mersenne31("4294967291", 10), pub U255("1009", 10));
}
mod solo {
    use super::*;
    prime_fields!(pub(crate) Solo("2305843009213693951", 10));
}

prime_fields!(
    pub U2("2", 10),
    pub U5("101", 2),
    pub U11("b", 36),
    pub U13("111", 3),
    pub U17("11", 16),
    pub U101("203", 7),
    pub U251("fb", 16),
    pub U257("257", 10),
    pub U521s("1011", 8),
    pub U1009("1009", 10),
    pub U65537("10000000000000001", 2),
    pub U32m("fffffffb", 16),
    pub U32p("1z141zj", 36),
    pub U64m("18446744073709551557", 10),
    pub U64p("1000000000000000d", 16),
    pub U65h("24595658764946068909", 10),
    pub U96h("3alalalalalalalalam9", 32),
    pub U128p("100000000000000000000000000000033", 16),
    pub U255("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10),
    pub P256("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 16),
    pub K256("6dp5qcb22im238nr3wvp0ic7q99w035jmy2iw7i6n43b46fqy7", 36),
    pub U521("1vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv", 32),
    pub U1537("1666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666666a9f", 16),
    pub U4100("lebphpxcw2d2lnvbm6dfezxv7dt3tv78ddu2qz0cv4kc3cpkn1g5lnz4wodmbvp3ydg5xq755p93lhuzxuuz8z8evcnws0aho6r62f9hxh1ez4wxatbgz9xqauae65212ko36rlm5qvflbgn4eulinloiugatbnvyxha6azd8dk0opo0jldfxmuesp0tj7lwac5fo4dddbx6sz7l0w4junrgpbsi4pi6oxbwkc8h2a7npgr74nbcdjslql2sql8kn46dnz8fv4q0tpiy4dx47gn2mcyjdxeew6mpzkaoo2wlkq55ik7c4mfnuum81no6jynbxgpud6m52lk7llk2jnm5y5hsmn0k6467gxjklfgkqoj28vslcwafezpj59yozq6cy2fo3hizn705dc836xjs09cg7omdlzr909ly68kvdetwjq3zlyejixq4nij6965g4gz7vu7sbjjjxljcxeiiq3q9w4akdstsd32mae2cxjj7l6lvk6cdyjvvrljbw0arb0ul4jyy5sli389l9nawusv55bp4w3jkvvhzd8lg8jn4qkf9lw2ywzof27d1sp9d39fkut70fb3wlvnrn158ux4gwq9erisadjmz91lqis2bsxciaajllf0q7kz52zu6dryak3gg45yef7zncj65rgz3nc624m1t9c5t75aeveoewqbd4zwfcwf43jibcsuw0mwxugv7g3lbxmo4yy6467xxzdru33econfk32qfv1waw3nifxq04nvezmg9bsn4zhhm43oaddr8dyyt29f9p", 36),
    pub U20r("684791", 10),
    pub U24r("c3ec1b", 16),
    pub U32r("1h9u1hd", 36),
    pub U40r("1100100001001010001100101100010101101001", 2),
    pub U48r("6321773733022637", 8),
    pub U56r("1fb8g7pgsq83", 32),
    pub U63r("1GZG9ZTK8KSDD", 36),
    pub U64r("000C0000000DEADBF3D", 16),
    pub U72r("7i03fdnss554qin", 30),
    pub U80r("147684b8a9b06184891073b", 12),
    pub U112r("3926738337716967554402171731538861", 10),
    pub U119r("50db520e2a85d290b92df7bac3e227", 16),
    pub U126r("3B477703_8702DE15_33BF0C65_BE409E6D", 16),
    pub U160r("1101111100101100000010001101101001000011110010000110101000010000111101100100001011011111010011111000101011011001000010001100000101001011000100000011111001000011", 2),
    pub P192("17WSRnsd0dwrf4iwl1gl2frj3p374pecuiio86k", 33),
    pub P224("fvvvvvvvvvvvvvvvvvvvvvvvvu0000000000000000001", 32),
    pub P384("110012102222022202102111222000102201220222200021122021212012202211202212201122020012110220220220000222021020210022220110110021101002201022021100002102020021201002021112200121002002221101002211110122112100222100000021011102211012221100102201122", 3),
    pub U512r("121605103404404046131062161651111405560446340455225302506123146155132064252606652043553202600520435640241325424066510064302022634663441024034520064430441036446240605561401123655011544", 7),
    pub U768r("4eormbdc42kk1ctjjj4j2oiaod496tij95q8ribn2f6j5kb96oib8lh85ek8255brh8h5plahoek90f21e566hgp9l0lf5ecjofd95lje16cko1e3tc1266ocgh6a9eimno5teihpleiha5le3622fn2faj9n", 30)
);


trait F: PrimeField + Hash + Eq + PartialOrd + Into<BigUint> + 'static {}
impl<T: PrimeField + Hash + Eq + PartialOrd + Into<BigUint> + 'static> F for T {}

/// Type erasure: the workloads are compiled once, every field contributes only this table of its operations.
trait Dyn {
    fn prime(&self) -> BigUint;
    fn of(&self, v: BigUint) -> P;
    fn uint(&self, a: &P) -> BigUint;
    fn into_uint(&self, a: &P) -> BigUint;
    fn bin(&self, op: char, a: &P, b: &P) -> P;
    fn eq(&self, a: &P, b: &P) -> bool;
    fn hash(&self, a: &P) -> u64;
    fn konst(&self, one: bool) -> P;
    fn is(&self, one: bool, a: &P) -> bool;
    fn sum(&self, v: Vec<P>) -> P;
    fn product(&self, v: Vec<P>) -> P;
    fn modpow(&self, a: &P, b: &P, c: &P) -> P;
    fn inverse(&self, a: &P) -> P;
    fn egcd(&self, a: &P, b: &P) -> (P, P, P);
    fn member(&self, r: &mut dyn RngCore) -> P;
    fn parse(&self, s: &str, radix: u32) -> Option<P>;
    fn int(&self, t: &str, v: i128) -> Option<P>;
    fn from_bytes(&self, be: bool, b: &[u8]) -> Option<P>;
    fn bytes(&self, be: bool, a: &P) -> Vec<u8>;
    fn dh_pair(&self, r: &mut dyn RngCore, g: &P) -> (P, P);
    fn dh_shared(&self, k: &P, v: &P) -> P;
    fn rsa_enc(&self, e: &BigUint, n: &BigUint, m: &[u8]) -> Vec<u8>;
    fn rsa_dec(&self, d: &BigUint, n: &BigUint, m: &[u8]) -> Vec<u8>;
}

struct Impl<T>(PhantomData<T>);
#[derive(Clone)]
struct P(Rc<dyn Any>);
struct AnyRng<'a>(&'a mut dyn RngCore);
impl<'a> RngCore for AnyRng<'a> {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.0.try_fill_bytes(d)
    }
}
impl<'a> rand::CryptoRng for AnyRng<'a> {}

fn w<T: F>(t: T) -> P {
    P(Rc::new(t))
}
fn u<T: F>(p: &P) -> T {
    p.0.downcast_ref::<T>().unwrap().clone()
}

impl<T: F> Dyn for Impl<T> {
    fn prime(&self) -> BigUint {
        T::field_prime().as_uint()
    }
    fn of(&self, v: BigUint) -> P {
        w::<T>(v.into())
    }
    fn uint(&self, a: &P) -> BigUint {
        u::<T>(a).as_uint()
    }
    fn into_uint(&self, a: &P) -> BigUint {
        u::<T>(a).into()
    }
    fn bin(&self, op: char, a: &P, b: &P) -> P {
        let (a, b) = (u::<T>(a), u::<T>(b));
        w(match op {
            '+' => a + b,
            '-' => a - b,
            '*' => a * b,
            '/' => a / b,
            _ => a % b,
        })
    }
    fn eq(&self, a: &P, b: &P) -> bool {
        u::<T>(a) == u::<T>(b)
    }
    fn hash(&self, a: &P) -> u64 {
        let mut h = DefaultHasher::new();
        u::<T>(a).hash(&mut h);
        h.finish()
    }
    fn konst(&self, one: bool) -> P {
        if one {
            w(T::one())
        } else {
            w(T::zero())
        }
    }
    fn is(&self, one: bool, a: &P) -> bool {
        if one {
            u::<T>(a).is_one()
        } else {
            u::<T>(a).is_zero()
        }
    }
    fn sum(&self, v: Vec<P>) -> P {
        w::<T>(v.iter().map(|x| u::<T>(x)).sum())
    }
    fn product(&self, v: Vec<P>) -> P {
        w::<T>(v.iter().map(|x| u::<T>(x)).product())
    }
    fn modpow(&self, a: &P, b: &P, c: &P) -> P {
        // no modulus: the power in the field
        // equal operands are one and the same object
        let (a, b) = (u::<T>(a), u::<T>(b));
        let b = if a == b { &a } else { &b };
        if c.0.is::<()>() {
            w(a.pow(b))
        } else {
            let c = u::<T>(c);
            let c = if a == c {
                &a
            } else if *b == c {
                b
            } else {
                &c
            };
            w(a.modpow(b, c))
        }
    }
    fn inverse(&self, a: &P) -> P {
        w(u::<T>(a).inverse())
    }
    fn egcd(&self, a: &P, b: &P) -> (P, P, P) {
        let (a, b) = (u::<T>(a), u::<T>(b));
        let b = if a == b { &a } else { &b };
        let (d, s, t) = T::extended_greatest_common_divisor(&a, b);
        (w(d), w(s), w(t))
    }
    fn member(&self, r: &mut dyn RngCore) -> P {
        w(T::generate_random_member(&mut AnyRng(r)))
    }
    fn parse(&self, s: &str, radix: u32) -> Option<P> {
        T::from_str_radix(s, radix).ok().map(w)
    }
    fn int(&self, t: &str, v: i128) -> Option<P> {
        match t {
            "i8" => T::from_i8(v as i8),
            "i16" => T::from_i16(v as i16),
            "i32" => T::from_i32(v as i32),
            "i64" => T::from_i64(v as i64),
            "isize" => T::from_isize(v as isize),
            "u8" => T::from_u8(v as u8),
            "u16" => T::from_u16(v as u16),
            "u32" => T::from_u32(v as u32),
            "u64" => T::from_u64(v as u64),
            "usize" => T::from_usize(v as usize),
            _ => unreachable!(),
        }
        .map(w)
    }
    fn from_bytes(&self, be: bool, b: &[u8]) -> Option<P> {
        if be {
            T::from_bytes_be(b).map(w)
        } else {
            T::from_bytes_le(b).map(w)
        }
    }
    fn bytes(&self, be: bool, a: &P) -> Vec<u8> {
        if be {
            u::<T>(a).as_bytes_be()
        } else {
            u::<T>(a).as_bytes_le()
        }
    }
    fn dh_pair(&self, r: &mut dyn RngCore, g: &P) -> (P, P) {
        let (a, b) = T::generate_asymmetrical_key_pair(&mut AnyRng(r), &u::<T>(g));
        (w::<T>(a), w::<T>(b))
    }
    fn dh_shared(&self, k: &P, v: &P) -> P {
        let (k, v) = (u::<T>(k), u::<T>(v));
        let v = if k == v { &k } else { &v };
        w::<T>(T::generate_shared_secret(&k, v))
    }
    fn rsa_enc(&self, e: &BigUint, n: &BigUint, m: &[u8]) -> Vec<u8> {
        RSACryptoSystem::<T>::encrypt_message(&RSAPublicKey { e: e.clone().into(), n: n.clone().into() }, m)
    }
    fn rsa_dec(&self, d: &BigUint, n: &BigUint, m: &[u8]) -> Vec<u8> {
        RSACryptoSystem::<T>::decrypt_message(&RSAPrivateKey { d: d.clone().into(), n: n.clone().into() }, m)
    }
}

thread_local! {
    static CURRENT: RefCell<Rc<dyn Dyn>> = RefCell::new(Rc::new(Impl::<Mersenne2>(PhantomData)));
}
fn set<T: F>() {
    CURRENT.with(|c| *c.borrow_mut() = Rc::new(Impl::<T>(PhantomData)));
}
fn field() -> Rc<dyn Dyn> {
    CURRENT.with(|c| c.borrow().clone())
}

/// An element of the current field.
impl P {
    fn field_prime() -> P {
        // only ever asked for its integer
        P(Rc::new(field().prime()))
    }
    fn as_uint(&self) -> BigUint {
        match self.0.downcast_ref::<BigUint>() {
            Some(p) => p.clone(),
            None => field().uint(self),
        }
    }
    fn zero() -> P {
        field().konst(false)
    }
    fn one() -> P {
        field().konst(true)
    }
    fn is_zero(&self) -> bool {
        field().is(false, self)
    }
    fn is_one(&self) -> bool {
        field().is(true, self)
    }
    fn pow(&self, e: &P) -> P {
        field().modpow(self, e, &P(Rc::new(())))
    }
    fn modpow(&self, e: &P, m: &P) -> P {
        field().modpow(self, e, m)
    }
    fn inverse(&self) -> P {
        field().inverse(self)
    }
    fn extended_greatest_common_divisor(a: &P, b: &P) -> (P, P, P) {
        field().egcd(a, b)
    }
    fn generate_random_member(r: &mut dyn RngCore) -> P {
        field().member(r)
    }
    fn from_str_radix(s: &str, radix: u32) -> Option<P> {
        field().parse(s, radix)
    }
    fn from_bytes_le(b: &[u8]) -> Option<P> {
        field().from_bytes(false, b)
    }
    fn from_bytes_be(b: &[u8]) -> Option<P> {
        field().from_bytes(true, b)
    }
    fn as_bytes_le(&self) -> Vec<u8> {
        field().bytes(false, self)
    }
    fn as_bytes_be(&self) -> Vec<u8> {
        field().bytes(true, self)
    }
    fn generate_asymmetrical_key_pair(r: &mut dyn RngCore, g: &P) -> (P, P) {
        field().dh_pair(r, g)
    }
    fn generate_shared_secret(k: &P, v: &P) -> P {
        field().dh_shared(k, v)
    }
}
impl From<BigUint> for P {
    fn from(v: BigUint) -> P {
        field().of(v)
    }
}
impl Into<BigUint> for P {
    fn into(self) -> BigUint {
        field().into_uint(&self)
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        field().eq(self, o)
    }
}
impl std::fmt::Debug for P {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.as_uint())
    }
}
macro_rules! bin {
    ($($t:ident $f:ident $c:expr),*) => {$(
        impl std::ops::$t for P {
            type Output = P;
            fn $f(self, o: P) -> P {
                field().bin($c, &self, &o)
            }
        }
    )*};
}
bin!(Add add '+', Sub sub '-', Mul mul '*', Div div '/', Rem rem '%');
impl std::iter::Sum for P {
    fn sum<I: Iterator<Item = P>>(i: I) -> P {
        field().sum(i.collect())
    }
}
impl std::iter::Product for P {
    fn product<I: Iterator<Item = P>>(i: I) -> P {
        field().product(i.collect())
    }
}

fn hx(n: &BigUint) -> String {
    n.to_str_radix(16)
}
fn hash(t: &P) -> u64 {
    field().hash(t)
}

/// operands that arithmetic slips on, and random ones
fn value(p: &BigUint, r: &mut R) -> BigUint {
    let one = BigUint::one();
    let v = match r.below(20) {
        0 => BigUint::zero(),
        1 => one,
        2 => p - &one,
        3 => p * 5u32 - BigUint::from(1 + r.below(5)),
        4 => (p + &one) >> 1,
        5 => p >> 1,
        6 => BigUint::from(r.below(10)),
        7 => &one << r.below(p.bits() as u64) as usize,
        8 => (&one << (r.below(p.bits() as u64) as usize + 1)) - &one,
        9 => {
            let b = r.below(p.bits() as u64) as usize;
            p - (&one << b)
        }
        // words that are empty, full or nearly so
        10 | 11 => {
            let style = r.below(3);
            let words: Vec<u32> = (0..p.bits() / 32 + 1)
                .map(|_| match (style, r.below(6)) {
                    (_, 0) => 0,
                    (_, 1) => u32::max_value(),
                    (0, _) => r.next_u32(),
                    (_, 2) => 1,
                    (_, 3) => 1 << 31,
                    (1, _) => 0,
                    _ => u32::max_value(),
                })
                .collect();
            BigUint::new(words) % (&one << p.bits())
        }
        // a few bits, one of them near the end of a word
        12 | 13 => {
            let mut v = BigUint::zero();
            let bits = p.bits() as u64;
            let first = r.below(bits);
            v |= &one << first as usize;
            for _ in 0..r.below(3) {
                let next = match r.below(3) {
                    0 => (first + 64) % bits,
                    1 => (first + 32) % bits,
                    _ => r.below(bits),
                };
                v |= &one << next as usize;
            }
            v
        }
        _ => rnd_below(p, r),
    };
    v % p
}
fn rnd_bits(bits: usize, r: &mut R) -> BigUint {
    BigUint::from_bytes_le(&r.bytes(bits / 8 + 1)) % (BigUint::one() << bits)
}
fn rnd_below(p: &BigUint, r: &mut R) -> BigUint {
    BigUint::from_bytes_le(&r.bytes(p.bits() / 8 + 9)) % p
}

struct Run {
    a: Args,
    log: Log,
    case: u64,
}

macro_rules! fields {
    ($r:expr, $f:ident) => {{
        fields_mersenne!($r, $f);
        { set::<IetfGroup1>(); $r.$f("I1") };
        { set::<IetfGroup2>(); $r.$f("I2") };
        { set::<IetfGroup3>(); $r.$f("I3") };
        { set::<U2>(); $r.$f("U2") };
        { set::<U5>(); $r.$f("U5") };
        { set::<U11>(); $r.$f("U11") };
        { set::<U13>(); $r.$f("U13") };
        { set::<U17>(); $r.$f("U17") };
        { set::<U101>(); $r.$f("U101") };
        { set::<U251>(); $r.$f("U251") };
        { set::<U257>(); $r.$f("U257") };
        { set::<U521s>(); $r.$f("U521s") };
        { set::<U1009>(); $r.$f("U1009") };
        { set::<U65537>(); $r.$f("U65537") };
        { set::<U32m>(); $r.$f("U32m") };
        { set::<U32p>(); $r.$f("U32p") };
        { set::<U64m>(); $r.$f("U64m") };
        { set::<U64p>(); $r.$f("U64p") };
        { set::<U65h>(); $r.$f("U65h") };
        { set::<U96h>(); $r.$f("U96h") };
        { set::<U128p>(); $r.$f("U128p") };
        { set::<U255>(); $r.$f("U255") };
        { set::<P256>(); $r.$f("P256") };
        { set::<K256>(); $r.$f("K256") };
        { set::<U521>(); $r.$f("U521") };
        { set::<U1537>(); $r.$f("U1537") };
        { set::<U4100>(); $r.$f("U4100") };
        { set::<U20r>(); $r.$f("U20r") };
        { set::<U24r>(); $r.$f("U24r") };
        { set::<U32r>(); $r.$f("U32r") };
        { set::<U40r>(); $r.$f("U40r") };
        { set::<U48r>(); $r.$f("U48r") };
        { set::<U56r>(); $r.$f("U56r") };
        { set::<U63r>(); $r.$f("U63r") };
        { set::<U64r>(); $r.$f("U64r") };
        { set::<U72r>(); $r.$f("U72r") };
        { set::<U80r>(); $r.$f("U80r") };
        { set::<U112r>(); $r.$f("U112r") };
        { set::<U119r>(); $r.$f("U119r") };
        { set::<U126r>(); $r.$f("U126r") };
        { set::<U160r>(); $r.$f("U160r") };
        { set::<P192>(); $r.$f("P192") };
        { set::<P224>(); $r.$f("P224") };
        { set::<P384>(); $r.$f("P384") };
        { set::<U512r>(); $r.$f("U512r") };
        { set::<U768r>(); $r.$f("U768r") };
        { set::<other::Mersenne31>(); $r.$f("U32m/2") };
        { set::<other::U255>(); $r.$f("U1009/2") };
        { set::<solo::Solo>(); $r.$f("M61/2") };
    }};
}
macro_rules! fields_mersenne {
    ($r:expr, $f:ident) => {{
        { set::<Mersenne2>(); $r.$f("M2") };
        { set::<Mersenne3>(); $r.$f("M3") };
        { set::<Mersenne5>(); $r.$f("M5") };
        { set::<Mersenne13>(); $r.$f("M13") };
        { set::<Mersenne17>(); $r.$f("M17") };
        { set::<Mersenne19>(); $r.$f("M19") };
        { set::<Mersenne31>(); $r.$f("M31") };
        { set::<Mersenne61>(); $r.$f("M61") };
        { set::<Mersenne89>(); $r.$f("M89") };
        { set::<Mersenne107>(); $r.$f("M107") };
        { set::<Mersenne127>(); $r.$f("M127") };
    }};
}

impl Run {
    fn mine(&mut self) -> bool {
        let c = self.case;
        self.case += 1;
        match self.a.only {
            Some(o) => o == c,
            None => c % self.a.shards == self.a.shard,
        }
    }
    fn rng(&self, stream: u64) -> R {
        rng(self.a.seed, stream, self.case)
    }
    fn cases(&self, p: &BigUint, base: u64) -> u64 {
        let boost = match self.a.mode.as_str() {
            "c07" | "c09" => 24,
            "c08" => 10,
            "c11" => 4,
            _ => 1,
        };
        let n = base * boost * if self.a.thorough { 40 } else { 1 };
        match p.bits() {
            0..=600 => n,
            601..=2100 => n / 4,
            _ => n / 12,
        }
    }

    /// one guarded operation whose result is a list of field elements
    fn op(&mut self, f: &str, op: &str, args: &str, go: impl FnOnce() -> Vec<P>) {
        let head = format!("{{\"c\":{},\"f\":\"{}\",\"op\":\"{}\",\"x\":[{}]", self.case - 1, f, op, args);
        self.log.begin(&|| head.clone());
        let l = match guard(|| {
            let v = go();
            let s: Vec<String> = v.iter().map(|e| format!("\"{}\"", hx(&e.as_uint()))).collect();
            // the unique representative: equal to, and hashing like, the same residue made another way
            let same = v.iter().all(|e| {
                let again: P = e.as_uint().into();
                again == *e && *e == again && hash(&again) == hash(e)
            });
            (s.join(","), same)
        }) {
            Ok((s, same)) => format!("{},\"r\":[{}],\"same\":{}}}", head, s, same),
            Err(p) => format!("{},\"p\":{}}}", head, q(&p)),
        };
        self.log.line(&l);
    }

    fn c07(&mut self, f: &str) {
        let p = P::field_prime().as_uint();
        let h = |v: &BigUint| format!("\"{}\"", hx(v));
        // complete tables of the small fields
        if p <= BigUint::from(17u32) {
            let n = p.to_u32_digits()[0];
            for a in 0..n {
                if self.mine() {
                    for b in 0..n {
                        let (x, y) = (BigUint::from(a), BigUint::from(b));
                        let (u, v): (P, P) = (x.clone().into(), y.clone().into());
                        let args = format!("{},{}", h(&x), h(&y));
                        self.op(f, "asm", &args, || {
                            vec![u.clone() + v.clone(), u.clone() - v.clone(), u.clone() * v.clone()]
                        });
                    }
                }
            }
        }
        for _ in 0..self.cases(&p, 500) {
            if self.mine() {
                let mut r = self.rng(7);
                let (x, y) = (value(&p, &mut r), value(&p, &mut r));
                let (u, v): (P, P) = (x.clone().into(), y.clone().into());
                let args = format!("{},{}", h(&x), h(&y));
                self.op(f, "asm", &args, || {
                    vec![u.clone() + v.clone(), u.clone() - v.clone(), u.clone() * v.clone()]
                });
            }
        }
        // iterator sums and products of any length, also of none
        for i in 0..self.cases(&p, 60) {
            if self.mine() {
                let mut r = self.rng(7);
                let n = if i == 0 { 0 } else { r.mixed(1, 10, 200, 12) };
                let xs: Vec<BigUint> = (0..n).map(|_| value(&p, &mut r)).collect();
                let args = xs.iter().map(|x| h(x)).collect::<Vec<_>>().join(",");
                let es: Vec<P> = xs.into_iter().map(|x| x.into()).collect();
                let es2 = es.clone();
                self.op(f, "sum", &args, || vec![es.into_iter().sum()]);
                self.op(f, "prod", &args, || vec![es2.into_iter().product()]);
            }
        }
        // and very long ones, often of the largest elements
        for i in 0..3u64 {
            if self.mine() && p.bits() < 600 {
                let mut r = self.rng(7);
                let n = (if p.bits() < 70 { [300, 4200, 66000] } else { [300, 1100, 4200] })[i as usize] + r.below(300);
                let top = r.chance(1, 2);
                let xs: Vec<BigUint> = (0..n)
                    .map(|_| if top && r.chance(9, 10) { (&p - 1u32) - std::cmp::min(BigUint::from(r.below(3)), &p - 1u32) } else { value(&p, &mut r) })
                    .collect();
                let args = xs.iter().map(|x| h(x)).collect::<Vec<_>>().join(",");
                let es: Vec<P> = xs.into_iter().map(|x| x.into()).collect();
                let es2 = es.clone();
                self.op(f, "sum", &args, || vec![es.into_iter().sum()]);
                if n < 5000 {
                    self.op(f, "prod", &args, || vec![es2.into_iter().product()]);
                }
            }
        }
        // straight-line programs: long histories of results feeding operands
        for _ in 0..self.cases(&p, 40) {
            if self.mine() {
                let mut r = self.rng(7);
                let k = 6usize;
                let init: Vec<BigUint> = (0..k).map(|_| value(&p, &mut r)).collect();
                let mut prog: Vec<(u64, usize, usize, usize)> = vec![];
                for _ in 0..r.range(5, 60) {
                    prog.push((r.below(5), r.below(6) as usize, r.below(6) as usize, r.below(6) as usize));
                }
                let args = format!(
                    "[{}],[{}]",
                    init.iter().map(|x| h(x)).collect::<Vec<_>>().join(","),
                    prog.iter().map(|x| format!("[{},{},{},{}]", x.0, x.1, x.2, x.3)).collect::<Vec<_>>().join(",")
                );
                self.op(f, "prog", &args, || {
                    let mut reg: Vec<P> = init.into_iter().map(|x| x.into()).collect();
                    for (o, d, a, b) in prog {
                        reg[d] = match o {
                            0 => reg[a].clone() + reg[b].clone(),
                            1 => reg[a].clone() - reg[b].clone(),
                            2 => reg[a].clone() * reg[b].clone(),
                            3 => reg[..=a].iter().cloned().sum(),
                            _ => reg[..=b].iter().cloned().product(),
                        };
                    }
                    reg
                });
            }
        }
        // the same residue reached along different ways: all representatives must be one value
        for _ in 0..self.cases(&p, 60) {
            if self.mine() {
                let mut r = self.rng(7);
                let (x, y, z) = (value(&p, &mut r), value(&p, &mut r), value(&p, &mut r));
                let (a, b, c): (P, P, P) = (x.clone().into(), y.clone().into(), z.clone().into());
                let args = format!("{},{},{}", h(&x), h(&y), h(&z));
                let mut flags = (true, true, true);
                self.op(f, "ways", &args, || {
                    let ws = vec![
                        a.clone() * (b.clone() + c.clone()),
                        a.clone() * b.clone() + a.clone() * c.clone(),
                        (b.clone() - (P::zero() - c.clone())) * a.clone(),
                        P::zero() - (P::zero() - a.clone()) * (c.clone() + b.clone()),
                        vec![a.clone() * b.clone(), c.clone() * a.clone()].into_iter().sum(),
                        vec![a.clone(), b.clone() + c.clone()].into_iter().product(),
                        a.clone() * (b.clone() + c.clone()) - P::zero(),
                        a.clone() * (b.clone() + c.clone()) * P::one(),
                    ];
                    flags.0 = ws.iter().all(|w| *w == ws[0] && hash(w) == hash(&ws[0]));
                    flags.1 = (a.clone() - a.clone()).is_zero() && (a.clone() + (P::zero() - a.clone())).is_zero();
                    flags.2 = a.clone() - a.clone() + P::one() == P::one() && (P::zero() + P::one()).is_one();
                    ws
                });
                if flags != (true, true, true) {
                    let d = format!("field {} elements {}", f, args);
                    self.log.viol(&format!("equal residues do not compare or hash equally: {:?}", flags), &d);
                }
            }
        }
    }

    fn c08(&mut self, f: &str) {
        let p = P::field_prime().as_uint();
        let h = |v: &BigUint| format!("\"{}\"", hx(v));
        if p <= BigUint::from(140u32) {
            let n = p.to_u32_digits()[0];
            for a in 0..n {
                if self.mine() {
                    for b in 0..n {
                        let (x, y) = (BigUint::from(a), BigUint::from(b));
                        self.c08_pair(f, &x, &y);
                    }
                }
            }
        }
        for _ in 0..self.cases(&p, 160) {
            if self.mine() {
                let mut r = self.rng(8);
                let x = value(&p, &mut r);
                let y = match r.below(8) {
                    0 => x.clone(),
                    1 => rnd_bits(r.range(1, p.bits() as u64 + 1) as usize, &mut r) % &p,
                    2 => {
                        // a multiple, so that the greatest common divisor is not one
                        let k = BigUint::from(1 + r.below(50));
                        (&x * k) % &p
                    }
                    _ => value(&p, &mut r),
                };
                self.c08_pair(f, &x, &y);
            }
        }
        // neighbouring Fibonacci numbers take the extended Euclidean algorithm the most steps
        for d in 0..4u32 {
            if self.mine() {
                let (mut a, mut b) = (BigUint::one(), BigUint::one());
                loop {
                    let c = &a + &b;
                    if c >= p {
                        break;
                    }
                    a = b;
                    b = c;
                }
                for _ in 0..d {
                    let c = if b > a { &b - &a } else { BigUint::one() };
                    b = a;
                    a = c;
                }
                let (x, y) = (b % &p, a % &p);
                let u: (P, P) = (x.clone().into(), y.clone().into());
                self.op(f, "egcd", &format!("{},{}", h(&x), h(&y)), || {
                    let (d, s, t) = P::extended_greatest_common_divisor(&u.0, &u.1);
                    vec![d, s, t]
                });
            }
        }
        for _ in 0..self.cases(&p, 60) {
            if self.mine() {
                let mut r = self.rng(8);
                let (x, e) = (value(&p, &mut r), value(&p, &mut r));
                let m = match r.below(4) {
                    0 => BigUint::from(1 + r.below(20)) % &p,
                    _ => value(&p, &mut r),
                };
                if m.is_zero() {
                    continue;
                }
                let (u, v, w): (P, P, P) = (x.clone().into(), e.clone().into(), m.clone().into());
                self.op(f, "pow", &format!("{},{}", h(&x), h(&e)), || vec![u.pow(&v)]);
                self.op(f, "modpow", &format!("{},{},{}", h(&x), h(&e), h(&m)), || vec![u.modpow(&v, &w)]);
            }
        }
    }
    fn c08_pair(&mut self, f: &str, x: &BigUint, y: &BigUint) {
        let (u, v): (P, P) = (x.clone().into(), y.clone().into());
        let args = format!("\"{}\",\"{}\"", hx(x), hx(y));
        self.op(f, "egcd", &args, || {
            let (d, s, t) = P::extended_greatest_common_divisor(&u, &v);
            vec![d, s, t]
        });
        if !y.is_zero() {
            self.op(f, "divrem", &args, || vec![u.clone() / v.clone(), u.clone() % v.clone()]);
            self.op(f, "inv", &format!("\"{}\"", hx(y)), || vec![v.inverse(), v.inverse() * v.clone()]);
        }
    }

    fn c09(&mut self, f: &str) {
        let p = P::field_prime().as_uint();
        // big integers of any size
        for i in 0..self.cases(&p, 120) {
            if self.mine() {
                let mut r = self.rng(9);
                let v = match i % 6 {
                    0 => &p * BigUint::from(r.below(9)) + BigUint::from(r.below(3)),
                    1 => &p * BigUint::from(1 + r.below(9)) - BigUint::from(r.below(3)),
                    2 => rnd_bits(r.range(1, 2 * p.bits() as u64 + 100) as usize, &mut r),
                    3 => value(&p, &mut r),
                    4 => rnd_bits(r.range(1, 300) as usize, &mut r),
                    _ => &p * rnd_bits(r.range(1, p.bits() as u64 + 9) as usize, &mut r),
                };
                let args = format!("\"{}\"", hx(&v));
                self.op(f, "into", &args, || vec![v.clone().into()]);
                // strings in any radix, upper and lower case
                let radix = r.range(2, 37) as u32;
                let mut s = v.to_str_radix(radix);
                if r.chance(1, 3) {
                    s = s.to_uppercase();
                }
                if r.chance(1, 5) {
                    s = "0".repeat(1 + r.below(5) as usize) + &s;
                }
                self.op(f, "str", &format!("{},{}", q(&s), radix), || {
                    P::from_str_radix(&s, radix).into_iter().collect()
                });
                // the same with one character that is no digit of the radix
                let bad: Vec<char> = "!-./:@[`{ g\n\r\t\u{b}\u{0}\u{1b}\u{7f}\u{85}\u{a0}\u{200b}\u{2028}\u{feff},'#\"\\lLuUnN\u{661}\u{e9}\u{ff11}\u{1d7d8}".chars().collect();
                let mut cs: Vec<char> = s.chars().collect();
                let pos = match r.below(4) {
                    0 => cs.len(),
                    1 => 0,
                    _ => r.below(cs.len() as u64 + 1) as usize,
                };
                let c = if radix < 36 && r.chance(1, 2) {
                    std::char::from_digit(radix + r.below(36 - radix as u64) as u32, 36).unwrap()
                } else if r.chance(1, 12) {
                    std::char::from_u32(r.range(1, 0x3000) as u32).unwrap()
                } else {
                    *r.pick(&bad)
                };
                if !c.is_digit(radix) && c != '_' && c != '+' {
                    cs.insert(pos, c);
                    let t: String = cs.into_iter().collect();
                    self.op(f, "badstr", &format!("{},{}", q(&t), radix), || {
                        P::from_str_radix(&t, radix).into_iter().collect()
                    });
                }
                if i % 20 == 0 {
                    self.op(f, "badstr", &format!("\"\",{}", radix), || {
                        P::from_str_radix("", radix).into_iter().collect()
                    });
                }
            }
        }
        // machine integers
        for i in 0..self.cases(&p, 120) {
            if self.mine() {
                let mut r = self.rng(9);
                let small = p.to_u64_digits_low();
                let v: i128 = match i % 10 {
                    0 => i64::min_value() as i128 + r.below(3) as i128,
                    1 => i64::max_value() as i128 - r.below(3) as i128,
                    2 => u64::max_value() as i128 - r.below(3) as i128,
                    3 => -(r.below(300) as i128),
                    4 => r.below(300) as i128,
                    5 => -((small as i128).wrapping_mul(1 + r.below(4) as i128)) + r.below(3) as i128 - 1,
                    6 => (1i128 << r.below(65)) - r.below(2) as i128,
                    7 => -(1i128 << r.below(64)) + r.below(2) as i128,
                    8 => r.next() as i128,
                    _ => -((r.next() >> 1) as i128),
                };
                macro_rules! ints {
                    ($($t:ident),*) => {$(
                        if v >= $t::min_value() as i128 && v <= $t::max_value() as i128 {
                            self.op(f, "int", &format!("\"{}\",\"{}\"", v, stringify!($t)), || {
                                field().int(stringify!($t), v).into_iter().collect()
                            });
                        }
                    )*};
                }
                ints!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
            }
        }
        // bytes in and out
        for i in 0..self.cases(&p, 160) {
            if self.mine() {
                let mut r = self.rng(9);
                let v = match i % 8 {
                    0 => &p + BigUint::from(r.below(3)),
                    1 => &p - BigUint::from(r.below(2) + 1), // any p > 1
                    2 => rnd_bits(p.bits(), &mut r),
                    3 => rnd_bits(p.bits() + r.range(1, 80) as usize, &mut r),
                    4 => &p * BigUint::from(1 + r.below(300)) + BigUint::from(r.below(5)),
                    _ => value(&p, &mut r),
                };
                let mut le = v.to_bytes_le();
                if i == 7 && v.is_zero() {
                    le.clear();
                }
                for _ in 0..r.mixed(1, 3, 20, 1) {
                    le.push(0);
                }
                let be: Vec<u8> = le.iter().rev().cloned().collect();
                self.op(f, "le", &format!("\"{}\"", hex(&le)), || P::from_bytes_le(&le).into_iter().collect());
                self.op(f, "be", &format!("\"{}\"", hex(&be)), || P::from_bytes_be(&be).into_iter().collect());
                if v < p {
                    let e: P = v.clone().into();
                    let l = match guard(|| {
                        let (a, b) = (e.as_bytes_le(), e.as_bytes_be());
                        let back = P::from_bytes_le(&a) == Some(e.clone())
                            && P::from_bytes_be(&b) == Some(e.clone())
                            && P::from(e.as_uint()) == e
                            && Into::<BigUint>::into(e.clone()) == e.as_uint()
                            && P::from(Into::<BigUint>::into(e.clone())) == e;
                        (hex(&a), hex(&b), hx(&e.as_uint()), back)
                    }) {
                        Ok((a, b, u, back)) => format!("\"le\":\"{}\",\"be\":\"{}\",\"u\":\"{}\",\"back\":{}}}", a, b, u, back),
                        Err(p) => format!("\"p\":{}}}", q(&p)),
                    };
                    let l = format!("{{\"c\":{},\"f\":\"{}\",\"op\":\"out\",\"x\":[\"{}\"],{}", self.case - 1, f, hx(&v), l);
                    self.log.line(&l);
                } else {
                    // the empty string is zero
                    self.op(f, "le", "\"\"", || P::from_bytes_le(&[]).into_iter().collect());
                    self.op(f, "be", "\"\"", || P::from_bytes_be(&[]).into_iter().collect());
                }
            }
        }
    }

    /// Histograms and moments of many draws; `draw` is the code under test.
    fn distribution(&mut self, f: &str, what: &str, n: u64, mut draw: impl FnMut(&mut R) -> P) {
        let p = P::field_prime().as_uint();
        let bits = p.bits();
        let mut r = self.rng(10);
        let mut small: HashMap<u64, u64> = HashMap::new();
        let mut pairs: HashMap<(u64, u64), u64> = HashMap::new();
        let mut triple: HashMap<(u64, u64), u64> = HashMap::new();
        let mut top = vec![0u64; 64];
        let mut low = vec![0u64; 16];
        let mut ones = vec![0u64; bits];
        let words = bits.saturating_sub(24) / 32;
        let mut xors = vec![0u64; words * (words.max(1) - 1) / 2];
        let mut succ = vec![0u64; words];
        let mut last: Option<(u64, u64)> = None;
        let mut lastw: Vec<u32> = vec![];
        let mut bad = 0u64;
        let mut seen = std::collections::HashSet::new();
        let mut dup = 0u64;
        let is_small = bits <= 17;
        // the ends of the range, elements that share their leading part with the prime, a residue, repetitions at a distance
        let (mut hi, mut lo) = (vec![0u64; 17], vec![0u64; 17]);
        let mut shared: Vec<(usize, BigUint, u64)> = vec![];
        for w in [8usize, 16, 32, 64].iter() {
            let mut j = (bits - 1) / w * w;
            for _ in 0..2 {
                if j > 0 && shared.iter().all(|s| s.0 != j) {
                    shared.push((j, &p >> j, 0));
                }
                j = j.saturating_sub(*w);
            }
        }
        let mut res = vec![0u64; 105];
        let (mut eqt, mut eql) = (vec![0u64; 65], vec![0u64; 65]);
        let mut ring = vec![(99u64, 99u64); 65];
        for no in 0..n as usize {
            let e = match guard(|| draw(&mut r)) {
                Ok(e) => e.as_uint(),
                Err(m) => {
                    let d = format!("field {} {}", f, what);
                    self.log.viol(&format!("drawing panicked: {}", m), &d);
                    return;
                }
            };
            if e >= p {
                bad += 1;
                continue;
            }
            let fine = ((&e << 16usize) / &p).to_u64_digits_low();
            let t = fine >> 10;
            let l = e.to_u64_digits_low() & 15;
            for k in 7..17 {
                hi[k] += (fine >= (1 << 16) - (1 << (16 - k))) as u64;
                lo[k] += (fine < 1 << (16 - k)) as u64;
            }
            for s in shared.iter_mut() {
                s.2 += (&e >> s.0 == s.1) as u64;
            }
            res[(&e % 105u32).to_u64_digits_low() as usize] += 1;
            for k in 1..65 {
                let (a, b) = ring[(no + 65 - k) % 65];
                eqt[k] += (a == t) as u64;
                eql[k] += (b == l) as u64;
            }
            ring[no % 65] = (t, l);
            top[t as usize] += 1;
            low[l as usize] += 1;
            if is_small {
                let v = e.to_u64_digits_low();
                *small.entry(v).or_insert(0) += 1;
                let cell = if p <= BigUint::from(40u32) { v } else { t >> 3 };
                if let Some((a, b)) = last {
                    *pairs.entry((b, cell)).or_insert(0) += 1;
                    *triple.entry((a, cell)).or_insert(0) += 1;
                }
                last = Some((last.map(|x| x.1).unwrap_or(cell), cell));
            } else {
                let cell = t >> 3;
                if let Some((a, b)) = last {
                    *pairs.entry((b, cell)).or_insert(0) += 1;
                    *triple.entry((a, cell)).or_insert(0) += 1;
                }
                last = Some((last.map(|x| x.1).unwrap_or(cell), cell));
            }
            let d = e.to_u32_digits();
            for i in 0..bits {
                if d.get(i / 32).map(|w| w >> (i % 32) & 1 == 1).unwrap_or(false) {
                    ones[i] += 1
                }
            }
            let w: Vec<u32> = (0..words).map(|i| d.get(i).cloned().unwrap_or(0)).collect();
            let mut k = 0;
            for i in 0..words {
                for j in 0..i {
                    xors[k] += (w[i] ^ w[j]).count_ones() as u64;
                    k += 1;
                }
                if !lastw.is_empty() {
                    succ[i] += (w[i] ^ lastw[i]).count_ones() as u64;
                }
            }
            lastw = w;
            if bits >= 61 {
                if !seen.insert(e.to_u32_digits()) {
                    dup += 1;
                }
            }
        }
        let hm = |m: &HashMap<(u64, u64), u64>| {
            m.iter().map(|(k, v)| format!("[{},{},{}]", k.0, k.1, v)).collect::<Vec<_>>().join(",")
        };
        let l = format!(
            "{{\"dist\":\"{}\",\"f\":\"{}\",\"n\":{},\"bad\":{},\"dup\":{},\"small\":[{}],\"pairs\":[{}],\"lag2\":[{}],\"top\":{:?},\"low\":{:?},\"ones\":{:?},\"words\":{},\"xors\":{:?},\"succ\":{:?},\"hi\":{:?},\"lo\":{:?},\"shared\":[{}],\"res\":{:?},\"eqt\":{:?},\"eql\":{:?}}}",
            what, f, n, bad, dup,
            small.iter().map(|(k, v)| format!("[{},{}]", k, v)).collect::<Vec<_>>().join(","),
            hm(&pairs), hm(&triple), top, low, ones, words, xors, succ, hi, lo,
            shared.iter().map(|s| format!("[{},{}]", s.0, s.2)).collect::<Vec<_>>().join(","), res, eqt, eql
        );
        self.log.line(&l);
    }

    fn c10(&mut self, f: &str) {
        let p = P::field_prime().as_uint();
        let t = if self.a.thorough { 200 } else { 24 };
        let n = match p.bits() {
            0..=4 => 60_000,
            5..=17 => 200_000,
            18..=300 => 40_000,
            301..=1600 => 6_000,
            _ => 2_500,
        } * t;
        if self.mine() {
            self.distribution(f, "member", n, |r| P::generate_random_member(r));
        }
        // equal generator states give equal elements, whatever was drawn elsewhere in between
        for i in 0..30 {
            if self.mine() {
                let r = self.rng(10);
                let res = guard(|| {
                    let mut a = r.clone();
                    let mut b = r.clone();
                    let mut noise = rng(i, 77, 3);
                    let mut eq = true;
                    let mut sensitive = 0u32;
                    let mut below = true;
                    for _ in 0..20 {
                        let mut c = Counting { inner: &mut a, drawn: 0 };
                        let x = P::generate_random_member(&mut c);
                        let used = c.drawn;
                        let z = P::generate_random_member(&mut noise);
                        let y = P::generate_random_member(&mut b);
                        eq &= x == y;
                        below &= x.as_uint() < p && z.as_uint() < p;
                        if used == 0 || x == z {
                            sensitive += 1;
                        }
                    }
                    (eq, sensitive, below)
                });
                let big = p.bits() >= 61;
                match res {
                    Ok((true, s, true)) if s == 0 || !big => {}
                    x => {
                        let d = format!("field {} replay {} of seed {}", f, i, self.a.seed);
                        self.log.viol(&format!("(replayed equal, draws equal to another generator's, below p) = {:?}", x), &d);
                    }
                }
                let l = format!("{{\"replay\":\"{}\",\"i\":{}}}", f, i);
                self.log.line(&l);
            }
        }
        // a generator that starts with extreme output must not push an element out of range
        for i in 0..40u64 {
            if self.mine() {
                let mut r = self.rng(10);
                let lead = r.below(80 + p.bits() as u64 / 4);
                let byte = *r.pick(&[0xffu8, 0, 0x7f, 0x80, 0xfe]);
                let mut g = Scripted { lead, byte, inner: r };
                let res = guard(|| {
                    let e = P::generate_random_member(&mut g);
                    e.as_uint() < p && P::from(e.as_uint()) == e
                });
                if res != Ok(true) {
                    let d = format!("field {} generator starting with {} bytes {:#x} ({})", f, lead, byte, i);
                    self.log.viol(&format!("element out of range or failure: {:?}", res), &d);
                }
                let l = format!("{{\"replay\":\"{}\",\"i\":{}}}", f, 1000 + i);
                self.log.line(&l);
            }
        }
    }

    fn c11(&mut self, f: &str) {
        if self.mine() {
            self.op(f, "prime", "", || vec![]);
            let l = match guard(|| {
                let p = P::field_prime().as_uint();
                let again = P::field_prime().as_uint();
                (hx(&p), hx(&again))
            }) {
                Ok((p, a)) => format!("{{\"f\":\"{}\",\"prime\":\"{}\",\"again\":\"{}\"}}", f, p, a),
                Err(p) => format!("{{\"f\":\"{}\",\"p\":{}}}", f, q(&p)),
            };
            self.log.line(&l);
        }
        // the operations really work modulo that prime
        let p = P::field_prime().as_uint();
        for _ in 0..self.cases(&p, 60) {
            if self.mine() {
                let mut r = self.rng(11);
                let (x, y) = (value(&p, &mut r), value(&p, &mut r));
                let (u, v): (P, P) = (x.clone().into(), y.clone().into());
                let args = format!("\"{}\",\"{}\"", hx(&x), hx(&y));
                self.op(f, "asm", &args, || {
                    vec![u.clone() + v.clone(), u.clone() - v.clone(), u.clone() * v.clone()]
                });
                let z = &p * BigUint::from(r.below(5)) + &x;
                self.op(f, "into", &format!("\"{}\"", hx(&z)), || vec![z.clone().into()]);
                self.op(f, "pow", &args, || vec![u.pow(&v)]);
                self.op(f, "str", &format!("\"{}\",16", hx(&z)), || P::from_str_radix(&hx(&z), 16).into_iter().collect());
            }
        }
    }

    fn c12(&mut self, f: &str) {
        let p = P::field_prime().as_uint();
        for i in 0..self.cases(&p, 40) {
            if self.mine() {
                let mut r = self.rng(12);
                let g = if i % 5 == 4 { value(&p, &mut r) } else { rnd_below(&p, &mut r) };
                let ge: P = g.clone().into();
                let parties = 2 + r.below(3) as usize;
                let head = format!("{{\"c\":{},\"f\":\"{}\",\"op\":\"dh\",\"g\":\"{}\"", self.case - 1, f, hx(&g));
                self.log.begin(&|| head.clone());
                let l = match guard(|| {
                    let mut gens: Vec<R> = (0..parties).map(|k| rng(self.a.seed ^ 0x5151, self.case, k as u64)).collect();
                    let mut keys = vec![];
                    let mut repro = true;
                    let mut drawn = vec![];
                    for gen in gens.iter_mut() {
                        let mut copy = gen.clone();
                        let mut c = Counting { inner: gen, drawn: 0 };
                        let k = P::generate_asymmetrical_key_pair(&mut c, &ge);
                        drawn.push(c.drawn);
                        let k2 = P::generate_asymmetrical_key_pair(&mut copy, &ge);
                        repro &= k.0 == k2.0 && k.1 == k2.1;
                        // the next pair of the same party is another one
                        let k3 = P::generate_asymmetrical_key_pair(&mut copy, &ge);
                        if p.bits() > 60 {
                            repro &= k.0 != k3.0;
                        }
                        keys.push(k);
                    }
                    // every party applies its key to everyone else's, in all orders for up to three parties
                    let mut shared = vec![];
                    for s in 0..parties {
                        let mut order: Vec<usize> = (0..parties).filter(|x| *x != s).collect();
                        for _ in 0..2 {
                            let mut v = keys[s].1.clone();
                            for o in &order {
                                v = P::generate_shared_secret(&keys[*o].0, &v);
                            }
                            shared.push(v);
                            r.shuffle(&mut order);
                        }
                    }
                    let js = |v: Vec<&P>| v.iter().map(|e| format!("\"{}\"", hx(&e.as_uint()))).collect::<Vec<_>>().join(",");
                    format!(
                        "\"priv\":[{}],\"pub\":[{}],\"shared\":[{}],\"repro\":{},\"drawn\":{:?}",
                        js(keys.iter().map(|k| &k.0).collect()),
                        js(keys.iter().map(|k| &k.1).collect()),
                        js(shared.iter().collect()),
                        repro,
                        drawn
                    )
                }) {
                    Ok(s) => format!("{},{}}}", head, s),
                    Err(p) => format!("{},\"p\":{}}}", head, q(&p)),
                };
                self.log.line(&l);
            }
        }
        if self.mine() {
            let t = if self.a.thorough { 6 } else { 1 };
            let n = match p.bits() {
                0..=4 => 30_000,
                5..=17 => 100_000,
                18..=300 => 3000,
                301..=1100 => 900,
                1101..=2100 => 300,
                _ => 100,
            } * t;
            let g: P = BigUint::from(3u32).into();
            self.distribution(f, "dh-private", n, |r| P::generate_asymmetrical_key_pair(r, &g).0);
        }
    }

    fn c13(&mut self, f: &str, keys: &[(String, BigUint, BigUint, BigUint, BigUint)]) {
        let p = P::field_prime().as_uint();
        let mut used = 0;
        for (id, n, e, d, lambda) in keys {
            if n >= &p || n.bits() * 6 < p.bits() || used >= 6 {
                continue;
            }
            used += 1;
            for i in 0..self.cases(&p, 60) {
                if self.mine() {
                    let mut r = self.rng(13);
                    let m = match i % 8 {
                        0 => BigUint::from(r.below(4)),
                        1 => n - BigUint::from(1 + r.below(3)),
                        2 => rnd_bits(r.range(1, n.bits() as u64) as usize, &mut r) % n,
                        3 => (BigUint::one() << (8 * r.below(n.bits() as u64 / 8 + 1) as usize)) % n,
                        _ => rnd_below(n, &mut r),
                    };
                    // any exponents inverse to each other will do: small, just below the modulus, or beyond it
                    let mut other = |x: &BigUint| {
                        let least = x % lambda;
                        let turns = (&p - 1u32 - &least) / lambda;
                        match r.below(5) {
                            0 => least,
                            1 | 2 => least + std::cmp::min(turns, BigUint::from(1 + r.below(20))) * lambda,
                            3 => least + turns * lambda,
                            _ => x.clone(),
                        }
                    };
                    let (e, d) = (other(e), other(d));
                    let public = (e.clone(), n.clone());
                    let private = (d.clone(), n.clone());
                    let mut bytes = m.to_bytes_le();
                    for _ in 0..r.mixed(1, 3, 8, 1) {
                        bytes.push(0);
                    }
                    let head = format!(
                        "{{\"c\":{},\"f\":\"{}\",\"op\":\"rsa\",\"key\":\"{}\",\"e\":\"{}\",\"d\":\"{}\",\"m\":\"{}\"", self.case - 1, f, id, hx(&e), hx(&d), hex(&bytes)
                    );
                    self.log.begin(&|| head.clone());
                    let l = match guard(|| {
                        let c = field().rsa_enc(&public.0, &public.1, &bytes);
                        let b = field().rsa_dec(&private.0, &private.1, &c);
                        // and the other way round: what the private key makes, the public key opens
                        let s = field().rsa_dec(&private.0, &private.1, &bytes);
                        (hex(&c), hex(&b), hex(&s))
                    }) {
                        Ok((c, b, s)) => format!("{},\"cipher\":\"{}\",\"back\":\"{}\",\"sig\":\"{}\"}}", head, c, b, s),
                        Err(p) => format!("{},\"p\":{}}}", head, q(&p)),
                    };
                    self.log.line(&l);
                    // not below the field's prime: refused
                    let big = match i % 4 {
                        0 => p.clone(),
                        1 => &p + BigUint::from(r.below(1000)),
                        2 => &p * BigUint::from(1 + r.below(20)) + &m,
                        _ => rnd_bits(p.bits() + 64, &mut r) + &p,
                    };
                    let bytes = big.to_bytes_le();
                    let enc = guard(|| field().rsa_enc(&public.0, &public.1, &bytes)).ok();
                    let dec = guard(|| field().rsa_dec(&private.0, &private.1, &bytes)).ok();
                    if enc.is_some() || dec.is_some() {
                        let dsc = format!("field {} key {} value {}", f, id, hx(&big));
                        self.log.viol("a value not below the field's prime was accepted", &dsc);
                    }
                    let l = format!("{{\"refused\":\"{}\",\"v\":\"{}\"}}", f, hx(&big));
                    self.log.line(&l);
                }
            }
        }
    }
}

/// Starts with `lead` equal bytes, then continues with good output.
struct Scripted {
    lead: u64,
    byte: u8,
    inner: R,
}
impl rand::RngCore for Scripted {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.inner.fill_bytes(d);
        for x in d.iter_mut() {
            if self.lead > 0 {
                self.lead -= 1;
                *x = self.byte;
            }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for Scripted {}

trait Low {
    fn to_u64_digits_low(&self) -> u64;
}
impl Low for BigUint {
    fn to_u64_digits_low(&self) -> u64 {
        let d = self.to_u32_digits();
        d.get(0).cloned().unwrap_or(0) as u64 | (d.get(1).cloned().unwrap_or(0) as u64) << 32
    }
}
trait Next {
    fn next(&mut self) -> u64;
}
impl Next for R {
    fn next(&mut self) -> u64 {
        rand::RngCore::next_u64(self)
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let log = Log::new(&a);
    let mode = a.mode.clone();
    let input = a.input.clone();
    let mut r = Run { a, log, case: 0 };
    let rr = &mut r;
    match mode.as_str() {
        "c07" => fields!(rr, c07),
        "c08" => fields!(rr, c08),
        "c09" => fields!(rr, c09),
        "c10" => fields!(rr, c10),
        "c11" => fields!(rr, c11),
        "c12" => fields!(rr, c12),
        "c13" => {
            let mut keys = vec![];
            for l in std::fs::read_to_string(input).unwrap().lines() {
                let v: Vec<&str> = l.split_whitespace().collect();
                let b = |s: &str| BigUint::from_str_radix(s, 16).unwrap();
                keys.push((v[0].to_string(), b(v[1]), b(v[2]), b(v[3]), b(v[4])));
            }
            macro_rules! on { ($($t:ident $n:expr),*) => {$( set::<$t>(); rr.c13($n, &keys); )*} }
            on!(Mersenne13 "M13", Mersenne31 "M31", Mersenne61 "M61", Mersenne127 "M127", U17 "U17", U251 "U251", U64p "U64p",
                U255 "U255", U521 "U521", IetfGroup1 "I1", U1537 "U1537", IetfGroup2 "I2", IetfGroup3 "I3", U4100 "U4100");
        }
        m => panic!("unknown mode {}", m),
    }
    let l = format!("{{\"end\":1,\"cases\":{}}}", r.case);
    r.log.line(&l);
    r.log.flush();
}
