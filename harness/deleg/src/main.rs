//! Delegation monitor: recording implementations behind every delegatable trait, and traits declared the way a user
//! would declare them. Each call must reach the implementation the type names, once, unchanged.
#![allow(clippy::all)]
use jcommon::*;
use jester_maths::prime::*;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::*;
use jester_sharing_proc::delegatable_protocol;
use num::BigUint;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;

type F = Mersenne89;
type Sh = (usize, F);

#[derive(Clone, PartialEq, Debug)]
struct Call {
    who: String,
    method: &'static str,
    types: String,
    args: String,
}

thread_local! {
    static CALLS: RefCell<Vec<Call>> = RefCell::new(vec![]);
}
fn note(who: &str, method: &'static str, types: String, args: String) -> u64 {
    let c = Call { who: who.to_string(), method, types, args };
    let v = c.value();
    CALLS.with(|l| l.borrow_mut().push(c));
    v
}
impl Call {
    /// what the implementation returns
    fn value(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for s in [self.who.as_str(), self.method, self.types.as_str(), self.args.as_str()].iter() {
            for b in s.bytes().chain(Some(0xff)) {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        h >> 3
    }
}
fn sh(v: u64) -> Sh {
    ((v % 250) as usize, F::from(BigUint::from(v)))
}
fn show(s: &Sh) -> String {
    format!("{}:{}", s.0, s.1.as_uint())
}
fn shows(s: &[Sh]) -> String {
    s.iter().map(show).collect::<Vec<_>>().join(",")
}
fn ty<X: ?Sized>() -> String {
    std::any::type_name::<X>().to_string()
}

pub trait Tag: Send + Sync + 'static {
    const NAME: &'static str;
}
pub struct A;
pub struct B;
pub struct Mine;
impl Tag for A {
    const NAME: &'static str = "A";
}
impl Tag for B {
    const NAME: &'static str = "B";
}
impl Tag for Mine {
    const NAME: &'static str = "own";
}
/// A named implementation.
pub struct Rec<D>(PhantomData<D>);

/// A protocol instance with an identity.
pub trait Id: Send + Sync {
    fn id(&self) -> u64;
    fn touch(&mut self);
}

type Fut<'a, O> = Pin<Box<dyn Future<Output = O> + 'a>>;
type SFut<'a, O> = Pin<Box<dyn Future<Output = O> + Send + 'a>>;

mod body {
    use super::*;
    pub fn multiply<'a, P: Id>(who: &str, p: &'a mut P, l: &Sh, r: &Sh) -> SFut<'a, Sh> {
        let v = note(who, "multiply", ty::<P>(), format!("{} {} {}", p.id(), show(l), show(r)));
        Box::pin(async move {
            p.touch();
            sh(v)
        })
    }
    pub fn unbounded_multiply<'a, P: Id>(who: &str, p: &'a mut P, x: &[(Sh, Sh)]) -> SFut<'a, Vec<Sh>> {
        let a = x.iter().map(|y| format!("({} {})", show(&y.0), show(&y.1))).collect::<Vec<_>>().join(",");
        let v = note(who, "unbounded_multiply", ty::<P>(), format!("{} {}", p.id(), a));
        Box::pin(async move {
            p.touch();
            vec![sh(v), sh(v + 1)]
        })
    }
    pub fn inverse<'a, P: Id, R: RngCore>(who: &str, rng: &'a mut R, p: &'a mut P, s: &Sh) -> Fut<'a, Sh> {
        let x = rng.next_u64();
        let v = note(who, "inverse", ty::<(P, R)>(), format!("{} {} {}", x, p.id(), show(s)));
        Box::pin(async move {
            p.touch();
            rng.next_u32();
            sh(v)
        })
    }
    pub fn unbounded_inverse<'a, P: Id, R: RngCore>(who: &str, rng: &'a mut R, p: &'a mut P, s: &[Sh]) -> Fut<'a, Vec<Sh>> {
        let x = rng.next_u64();
        let v = note(who, "unbounded_inverse", ty::<(P, R)>(), format!("{} {} {}", x, p.id(), shows(s)));
        Box::pin(async move {
            p.touch();
            rng.next_u32();
            vec![sh(v), sh(v + 1)]
        })
    }
    pub fn shared_or<'a, P: Id, R: RngCore>(who: &str, rng: &'a mut R, p: &'a mut P, s: &Sh) -> Fut<'a, Sh> {
        let x = rng.next_u64();
        let v = note(who, "shared_or", ty::<(P, R)>(), format!("{} {} {}", x, p.id(), show(s)));
        Box::pin(async move {
            p.touch();
            rng.next_u32();
            sh(v)
        })
    }
    pub fn unbounded_shared_or<'a, P: Id, R: RngCore>(who: &str, rng: &'a mut R, p: &'a mut P, s: &[Sh]) -> Fut<'a, Sh> {
        let x = rng.next_u64();
        let v = note(who, "unbounded_shared_or", ty::<(P, R)>(), format!("{} {} {}", x, p.id(), shows(s)));
        Box::pin(async move {
            p.touch();
            rng.next_u32();
            sh(v)
        })
    }
    pub fn joint_conditional_selection<'a, P: Id>(who: &str, p: &'a mut P, c: &Sh, l: &Sh, r: &Sh) -> Fut<'a, Sh> {
        let v = note(who, "joint_conditional_selection", ty::<P>(), format!("{} {} {} {}", p.id(), show(c), show(l), show(r)));
        Box::pin(async move {
            p.touch();
            sh(v)
        })
    }
    pub fn generate_random_number_sharing<P: Id, R: RngCore>(who: &str, rng: &mut R, p: &mut P) -> SFut<'static, Sh> {
        let x = rng.next_u64();
        let v = note(who, "generate_random_number_sharing", ty::<(P, R)>(), format!("{} {}", x, p.id()));
        p.touch();
        Box::pin(async move { sh(v) })
    }
    pub fn generate_random_bit<'a, P: Id, R: RngCore>(who: &str, rng: &mut R, p: &'a mut P) -> SFut<'a, Sh> {
        let x = rng.next_u64();
        let v = note(who, "generate_random_bit", ty::<(P, R)>(), format!("{} {}", x, p.id()));
        Box::pin(async move {
            p.touch();
            sh(v)
        })
    }
}

// the methods of the library's traits, told to record as `$who`
macro_rules! m_mul { ($who:expr, $P:ty) => {
    fn multiply<'a>(protocol: &'a mut $P, lhs: &Sh, rhs: &Sh) -> SFut<'a, Sh> { body::multiply($who, protocol, lhs, rhs) }
}; }
macro_rules! m_umul { ($who:expr, $P:ty) => {
    fn unbounded_multiply<'a>(protocol: &'a mut $P, pairs: &[(Sh, Sh)]) -> SFut<'a, Vec<Sh>> { body::unbounded_multiply($who, protocol, pairs) }
}; }
macro_rules! m_inv { ($who:expr, $P:ty) => {
    fn inverse<'a, R>(rng: &'a mut R, protocol: &'a mut $P, share: &Sh) -> Fut<'a, Sh> where R: RngCore + CryptoRng { body::inverse($who, rng, protocol, share) }
}; }
macro_rules! m_uinv { ($who:expr, $P:ty) => {
    fn unbounded_inverse<'a, R>(rng: &'a mut R, protocol: &'a mut $P, shares: &[Sh]) -> Fut<'a, Vec<Sh>> where R: RngCore + CryptoRng { body::unbounded_inverse($who, rng, protocol, shares) }
}; }
macro_rules! m_or { ($who:expr, $P:ty) => {
    fn shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut $P, bits: &Sh) -> Fut<'a, Sh> where R: RngCore + CryptoRng { body::shared_or($who, rng, protocol, bits) }
}; }
macro_rules! m_uor { ($who:expr, $P:ty) => {
    fn unbounded_shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut $P, bits: &[Sh]) -> Fut<'a, Sh> where R: RngCore + CryptoRng { body::unbounded_shared_or($who, rng, protocol, bits) }
}; }
macro_rules! m_sel { ($who:expr, $P:ty) => {
    fn joint_conditional_selection<'a>(protocol: &'a mut $P, condition: &Sh, lhs: &Sh, rhs: &Sh) -> Fut<'a, Sh> { body::joint_conditional_selection($who, protocol, condition, lhs, rhs) }
}; }
macro_rules! m_rnd { ($who:expr, $P:ty) => {
    fn generate_random_number_sharing<R>(rng: &mut R, protocol: &mut $P) -> SFut<'static, Sh> where R: RngCore + CryptoRng { body::generate_random_number_sharing($who, rng, protocol) }
}; }
macro_rules! m_bit { ($who:expr, $P:ty) => {
    fn generate_random_bit<'a, R>(rng: &mut R, protocol: &'a mut $P) -> SFut<'a, Sh> where R: RngCore + CryptoRng { body::generate_random_bit($who, rng, protocol) }
}; }

macro_rules! choose {
    // the type delegates to a named implementation
    ($P:ident, Delegate $tag:ident, $Tr:ident $Impl:ident $Marker:ident $Del:ident $body:ident) => {
        impl $Marker for $P { type Marker = Delegate; }
        impl $Del<F, Sh, $P> for $P { type Delegate = Rec<($tag, $P)>; }
    };
    // the type brings its own implementation
    ($P:ident, Own $tag:ident, $Tr:ident $Impl:ident $Marker:ident $Del:ident $body:ident) => {
        impl $Marker for $P { type Marker = $tag; }
        impl $Impl<F, Sh, $P, $tag> for $P { $body!(concat!("own ", stringify!($P)), $P); }
        // a named implementation that must not be used
        impl $Del<F, Sh, $P> for $P { type Delegate = Rec<(B, $P)>; }
    };
}

macro_rules! protocols {
    ($($P:ident: $m1:ident $t1:ident, $m2:ident $t2:ident, $m3:ident $t3:ident, $m4:ident $t4:ident, $m5:ident $t5:ident, $m6:ident $t6:ident, $m7:ident $t7:ident, $m8:ident $t8:ident, $m9:ident $t9:ident;)*) => {$(
        pub struct $P { id: u64, touched: u64 }
        impl Id for $P {
            fn id(&self) -> u64 { self.id }
            fn touch(&mut self) { self.touched += 1 }
        }
        impl ShamirSecretSharingScheme<F> for $P {}
        impl CliqueCommunicationScheme<F, Sh> for $P {
            fn reveal_shares(&mut self, _: Sh) -> SFut<'static, F> { unimplemented!() }
            fn distribute_secret(&mut self, _: F) -> SFut<'static, Vec<Sh>> { unimplemented!() }
        }
        impl<D: Tag> MultiplicationScheme<F, Sh, $P> for Rec<(D, $P)> { m_mul!(D::NAME, $P); }
        impl<D: Tag> UnboundedMultiplicationScheme<F, Sh, $P> for Rec<(D, $P)> { m_umul!(D::NAME, $P); }
        impl<D: Tag> InversionScheme<F, Sh, $P> for Rec<(D, $P)> { m_inv!(D::NAME, $P); }
        impl<D: Tag> UnboundedInversionScheme<F, Sh, $P> for Rec<(D, $P)> { m_uinv!(D::NAME, $P); }
        impl<D: Tag> OrFunctionScheme<F, Sh, $P> for Rec<(D, $P)> { m_or!(D::NAME, $P); }
        impl<D: Tag> UnboundedOrFunctionScheme<F, Sh, $P> for Rec<(D, $P)> { m_uor!(D::NAME, $P); }
        impl<D: Tag> ConditionalSelectionScheme<F, Sh, $P> for Rec<(D, $P)> { m_sel!(D::NAME, $P); }
        impl<D: Tag> RandomNumberGenerationScheme<F, Sh, $P> for Rec<(D, $P)> { m_rnd!(D::NAME, $P); }
        impl<D: Tag> RandomBitGenerationScheme<F, Sh, $P> for Rec<(D, $P)> { m_bit!(D::NAME, $P); }
        choose!($P, $m1 $t1, MultiplicationScheme MultiplicationSchemeImpl MultiplicationSchemeMarker MultiplicationSchemeDelegate m_mul);
        choose!($P, $m2 $t2, UnboundedMultiplicationScheme UnboundedMultiplicationSchemeImpl UnboundedMultiplicationSchemeMarker UnboundedMultiplicationSchemeDelegate m_umul);
        choose!($P, $m3 $t3, InversionScheme InversionSchemeImpl InversionSchemeMarker InversionSchemeDelegate m_inv);
        choose!($P, $m4 $t4, UnboundedInversionScheme UnboundedInversionSchemeImpl UnboundedInversionSchemeMarker UnboundedInversionSchemeDelegate m_uinv);
        choose!($P, $m5 $t5, OrFunctionScheme OrFunctionSchemeImpl OrFunctionSchemeMarker OrFunctionSchemeDelegate m_or);
        choose!($P, $m6 $t6, UnboundedOrFunctionScheme UnboundedOrFunctionSchemeImpl UnboundedOrFunctionSchemeMarker UnboundedOrFunctionSchemeDelegate m_uor);
        choose!($P, $m7 $t7, ConditionalSelectionScheme ConditionalSelectionSchemeImpl ConditionalSelectionSchemeMarker ConditionalSelectionSchemeDelegate m_sel);
        choose!($P, $m8 $t8, RandomNumberGenerationScheme RandomNumberGenerationSchemeImpl RandomNumberGenerationSchemeMarker RandomNumberGenerationSchemeDelegate m_rnd);
        choose!($P, $m9 $t9, RandomBitGenerationScheme RandomBitGenerationSchemeImpl RandomBitGenerationSchemeMarker RandomBitGenerationSchemeDelegate m_bit);
        impl $P {
            const CHOICE: [(&'static str, &'static str); 9] = [
                (stringify!($m1), stringify!($t1)), (stringify!($m2), stringify!($t2)), (stringify!($m3), stringify!($t3)),
                (stringify!($m4), stringify!($t4)), (stringify!($m5), stringify!($t5)), (stringify!($m6), stringify!($t6)),
                (stringify!($m7), stringify!($t7)), (stringify!($m8), stringify!($t8)), (stringify!($m9), stringify!($t9)),
            ];
            fn try_one(r: &mut R, o: &mut Out) {
                lib_call::<$P, R>(stringify!($P), &Self::CHOICE, $P { id: r.below(1 << 40), touched: 0 }, r.clone(), r, |p| p.touched, o);
                lib_call::<$P, Other>(stringify!($P), &Self::CHOICE, $P { id: r.below(1 << 40), touched: 0 }, Other(r.clone()), r, |p| p.touched, o);
            }
        }
    )*};
}

/// a second generator type, so that the generator's type is observable
#[derive(Clone)]
pub struct Other(R);
impl RngCore for Other {
    fn next_u32(&mut self) -> u32 {
        !self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        !self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.0.try_fill_bytes(d)
    }
}
impl CryptoRng for Other {}

protocols! {
    AllA: Delegate A, Delegate A, Delegate A, Delegate A, Delegate A, Delegate A, Delegate A, Delegate A, Delegate A;
    AllOwn: Own Mine, Own Mine, Own Mine, Own Mine, Own Mine, Own Mine, Own Mine, Own Mine, Own Mine;
    Odd: Own Mine, Delegate A, Own Mine, Delegate A, Own Mine, Delegate A, Own Mine, Delegate A, Own Mine;
    Even: Delegate B, Own A, Delegate B, Own A, Delegate B, Own A, Delegate B, Own A, Delegate B;
    Mixed: Delegate A, Delegate B, Delegate B, Delegate A, Delegate B, Delegate A, Delegate A, Delegate B, Own B;
    Third: Delegate B, Delegate B, Own Mine, Delegate A, Delegate A, Own Mine, Own B, Own B, Delegate A;
}

fn lib_call<P, G>(name: &str, choice: &[(&str, &str); 9], mut p: P, g: G, r: &mut R, touched: fn(&P) -> u64, o: &mut Out)
where
    P: Id
        + MultiplicationScheme<F, Sh, P>
        + UnboundedMultiplicationScheme<F, Sh, P>
        + InversionScheme<F, Sh, P>
        + UnboundedInversionScheme<F, Sh, P>
        + OrFunctionScheme<F, Sh, P>
        + UnboundedOrFunctionScheme<F, Sh, P>
        + ConditionalSelectionScheme<F, Sh, P>
        + RandomNumberGenerationScheme<F, Sh, P>
        + RandomBitGenerationScheme<F, Sh, P>
        + ThresholdSecretSharingScheme<F, Sh>
        + LinearSharingScheme<F, Sh>
        + CliqueCommunicationScheme<F, Sh>,
    G: RngCore + CryptoRng + Clone,
{
    let k = r.below(9) as usize;
    let a: Vec<Sh> = (0..3).map(|_| sh(r.below(1 << 60))).collect();
    let many: Vec<Sh> = (0..r.below(5)).map(|_| sh(r.below(1 << 60))).collect();
    let pairs: Vec<(Sh, Sh)> = (0..r.below(5)).map(|_| (sh(r.below(1 << 60)), sh(r.below(1 << 60)))).collect();
    let mut g = g;
    let before = g.clone();
    let x = before.clone().next_u64();
    let id = p.id();
    let who = if choice[k].0 == "Own" { format!("own {}", name) } else { choice[k].1.to_string() };
    let (pt, prt) = (ty::<P>(), ty::<(P, G)>());
    let (method, types, args): (&'static str, String, String) = match k {
        0 => ("multiply", pt, format!("{} {} {}", id, show(&a[0]), show(&a[1]))),
        1 => ("unbounded_multiply", pt, format!("{} {}", id, pairs.iter().map(|y| format!("({} {})", show(&y.0), show(&y.1))).collect::<Vec<_>>().join(","))),
        2 => ("inverse", prt, format!("{} {} {}", x, id, show(&a[0]))),
        3 => ("unbounded_inverse", prt, format!("{} {} {}", x, id, shows(&many))),
        4 => ("shared_or", prt, format!("{} {} {}", x, id, show(&a[0]))),
        5 => ("unbounded_shared_or", prt, format!("{} {} {}", x, id, shows(&many))),
        6 => ("joint_conditional_selection", pt, format!("{} {} {} {}", id, show(&a[0]), show(&a[1]), show(&a[2]))),
        7 => ("generate_random_number_sharing", prt, format!("{} {}", x, id)),
        _ => ("generate_random_bit", prt, format!("{} {}", x, id)),
    };
    let want = Call { who, method, types, args };
    let v = want.value();
    let result = guard(|| {
        use futures::executor::block_on;
        match k {
            0 => vec![block_on(<P as MultiplicationScheme<F, Sh, P>>::multiply(&mut p, &a[0], &a[1]))],
            1 => block_on(<P as UnboundedMultiplicationScheme<F, Sh, P>>::unbounded_multiply(&mut p, &pairs)),
            2 => vec![block_on(<P as InversionScheme<F, Sh, P>>::inverse(&mut g, &mut p, &a[0]))],
            3 => block_on(<P as UnboundedInversionScheme<F, Sh, P>>::unbounded_inverse(&mut g, &mut p, &many)),
            4 => vec![block_on(<P as OrFunctionScheme<F, Sh, P>>::shared_or(&mut g, &mut p, &a[0]))],
            5 => vec![block_on(<P as UnboundedOrFunctionScheme<F, Sh, P>>::unbounded_shared_or(&mut g, &mut p, &many))],
            6 => vec![block_on(<P as ConditionalSelectionScheme<F, Sh, P>>::joint_conditional_selection(&mut p, &a[0], &a[1], &a[2]))],
            7 => vec![block_on(<P as RandomNumberGenerationScheme<F, Sh, P>>::generate_random_number_sharing(&mut g, &mut p))],
            _ => vec![block_on(<P as RandomBitGenerationScheme<F, Sh, P>>::generate_random_bit(&mut g, &mut p))],
        }
    });
    let expect = if k == 1 || k == 3 { vec![sh(v), sh(v + 1)] } else { vec![sh(v)] };
    // the generator must have been handed through: drawn exactly what the implementation draws
    let mut after = before.clone();
    if ![0, 1, 6].contains(&k) {
        after.next_u64();
        if k < 7 {
            after.next_u32();
        }
    }
    let same = after.next_u64() == g.next_u64();
    let case = format!("{} {}", name, method);
    o.judge(&case, want, result.map(|v| shows(&v)), shows(&expect));
    if !same {
        o.viol("the generator was not left where the implementation left it", &case);
    }
    if touched(&p) != 1 || p.id() != id {
        o.viol("the protocol instance was not handed through", &case);
    }
}

// ------------------------------------------------------------------ traits as a user declares them

pub trait Named {
    const N: u64;
}
macro_rules! named { ($($t:ident $n:expr),*) => { $(#[derive(Debug, Clone, PartialEq)] pub struct $t; impl Named for $t { const N: u64 = $n; })* }; }
named!(N1 1, N2 2, N3 3);

#[delegatable_protocol]
pub trait Wide<T, S, P>
where
    T: Send + Named,
    S: Send + Named,
    P: Send,
{
    fn one(a: u64) -> u64;
    fn two(a: u64, b: u64) -> u64;
    fn three(a: u64, b: u64, c: u64) -> u64;
    fn twelve(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64, h: u64, i: u64, j: u64, k: u64, l: u64) -> u64;
    fn none() -> u64;
    fn swapped(b: u64, a: u64) -> u64;
    fn refs<'a>(left: &'a mut Vec<u64>, right: &'a mut Vec<u64>) -> &'a mut Vec<u64>;
    fn generic<X: Named, Y: Named>(v: u64) -> u64;
    fn generic_where<Y, X, Z>(x: u64, y: u64) -> u64
    where
        X: Named,
        Y: Named,
        Z: Named;
    fn with_fn<C>(f: C, x: u64) -> u64
    where
        C: Fn(u64) -> u64;
    fn owned(a: Vec<u64>, b: Vec<u64>) -> Vec<u64>;
    fn unit(a: &std::cell::Cell<u64>, b: u64);
}

/// no type parameter but the protocol; default methods
#[delegatable_protocol]
pub trait Lone<P>
where
    P: Send,
{
    fn must(a: u64, b: u64) -> u64;
    fn may(a: u64, b: u64) -> u64 {
        note("default", "may", String::new(), format!("{} {}", a, b))
    }
    fn may_not(a: u64, b: u64, c: u64) -> u64 {
        note("default", "may_not", String::new(), format!("{} {} {}", a, b, c))
    }
    fn generic_may<X: Named, Y: Named>(a: u64) -> u64 {
        note("default", "generic_may", format!("{} {}", X::N, Y::N), format!("{}", a))
    }
    fn must_ignored(_b: u64, _a: u64) -> u64;
    fn ignored(_b: u64, _a: u64, __: u64) -> u64 {
        note("default", "ignored", String::new(), format!("{} {} {}", _b, _a, __))
    }
    fn changed(mut b: u64, mut a: u64) -> u64 {
        b += 1;
        a += 2;
        note("default", "changed", String::new(), n2(b - 1, a - 2))
    }
    fn words(r#type: u64, marker: u64, protocol: u64, delegate: u64, this: u64) -> u64 {
        note("default", "words", String::new(), format!("{:?}", [r#type, marker, protocol, delegate, this]))
    }
    fn none_at_all() -> u64 {
        note("default", "none_at_all", String::new(), String::new())
    }
}

/// parameters in another order, a trailing comma, a bound less
#[delegatable_protocol]
pub trait Turned<P, B, A>
where
    A: Named,
    P: Sync
{
    fn turn(b: B, a: u64) -> (u64, B);
}

pub mod inner {
    use super::*;
    /// declared in a module of its own, private to the crate
    #[delegatable_protocol]
    pub(crate) trait Hidden<T, P>
    where
        T: Named,
        P: Sized,
    {
        fn first(x: T, y: u64) -> u64;
        fn second(y: u64, x: T) -> u64;
    }
}
use inner::*;

fn n2(a: u64, b: u64) -> String {
    format!("{} {}", a, b)
}
macro_rules! wide_body {
    ($who:expr, $T:ident, $S:ident) => {
        fn one(a: u64) -> u64 { note(&$who, "one", format!("{} {}", $T::N, $S::N), format!("{}", a)) }
        fn two(a: u64, b: u64) -> u64 { note(&$who, "two", format!("{} {}", $T::N, $S::N), n2(a, b)) }
        fn three(a: u64, b: u64, c: u64) -> u64 { note(&$who, "three", format!("{} {}", $T::N, $S::N), format!("{} {} {}", a, b, c)) }
        fn twelve(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64, h: u64, i: u64, j: u64, k: u64, l: u64) -> u64 {
            note(&$who, "twelve", format!("{} {}", $T::N, $S::N), format!("{:?}", [a, b, c, d, e, f, g, h, i, j, k, l]))
        }
        fn none() -> u64 { note(&$who, "none", format!("{} {}", $T::N, $S::N), String::new()) }
        fn swapped(b: u64, a: u64) -> u64 { note(&$who, "swapped", format!("{} {}", $T::N, $S::N), n2(b, a)) }
        fn refs<'a>(left: &'a mut Vec<u64>, right: &'a mut Vec<u64>) -> &'a mut Vec<u64> {
            let v = note(&$who, "refs", format!("{} {}", $T::N, $S::N), format!("{:?} {:?}", left, right));
            left.push(v);
            right.push(v + 1);
            if v % 2 == 0 { left } else { right }
        }
        fn generic<X: Named, Y: Named>(v: u64) -> u64 { note(&$who, "generic", format!("{} {} {} {}", $T::N, $S::N, X::N, Y::N), format!("{}", v)) }
        fn generic_where<Y, X, Z>(x: u64, y: u64) -> u64 where X: Named, Y: Named, Z: Named {
            note(&$who, "generic_where", format!("{} {} {} {} {}", $T::N, $S::N, Y::N, X::N, Z::N), n2(x, y))
        }
        fn with_fn<C>(f: C, x: u64) -> u64 where C: Fn(u64) -> u64 {
            let y = f(x);
            note(&$who, "with_fn", format!("{} {}", $T::N, $S::N), n2(x, y))
        }
        fn owned(a: Vec<u64>, b: Vec<u64>) -> Vec<u64> { vec![note(&$who, "owned", format!("{} {}", $T::N, $S::N), format!("{:?} {:?}", a, b)), 7] }
        fn unit(a: &std::cell::Cell<u64>, b: u64) { let v = note(&$who, "unit", format!("{} {}", $T::N, $S::N), n2(a.get(), b)); a.set(v) }
    };
}

pub struct UserD;
pub struct UserO;
pub struct UserM;
pub struct UserK;
pub struct W<T, S>(PhantomData<(T, S)>);
/// a delegate that overrides the default methods, and one that keeps them
pub struct L1;
pub struct L2;

impl<T: Named + Send, S: Named + Send> Wide<T, S, UserD> for W<T, S> { wide_body!("W", T, S); }
impl<T: Named + Send, S: Named + Send> Wide<T, S, UserM> for W<T, S> { wide_body!("W", T, S); }
impl WideMarker for UserD { type Marker = Delegate; }
impl<T: Named + Send, S: Named + Send> WideDelegate<T, S, UserD> for UserD { type Delegate = W<T, S>; }
impl WideMarker for UserM { type Marker = Delegate; }
impl<T: Named + Send, S: Named + Send> WideDelegate<T, S, UserM> for UserM { type Delegate = W<T, S>; }
impl WideMarker for UserO { type Marker = Mine; }
impl<T: Named + Send, S: Named + Send> WideImpl<T, S, UserO, Mine> for UserO { wide_body!("own UserO", T, S); }
impl WideMarker for UserK { type Marker = UserK; }
impl<T: Named + Send, S: Named + Send> WideImpl<T, S, UserK, UserK> for UserK { wide_body!("own UserK", T, S); }

macro_rules! lone_all {
    ($who:expr) => {
        fn must(a: u64, b: u64) -> u64 { note($who, "must", String::new(), n2(a, b)) }
        fn may(a: u64, b: u64) -> u64 { note($who, "may", String::new(), n2(a, b)) }
        fn may_not(a: u64, b: u64, c: u64) -> u64 { note($who, "may_not", String::new(), format!("{} {} {}", a, b, c)) }
        fn generic_may<X: Named, Y: Named>(a: u64) -> u64 { note($who, "generic_may", format!("{} {}", X::N, Y::N), format!("{}", a)) }
        fn must_ignored(a: u64, b: u64) -> u64 { note($who, "must_ignored", String::new(), n2(a, b)) }
        fn ignored(a: u64, b: u64, c: u64) -> u64 { note($who, "ignored", String::new(), format!("{} {} {}", a, b, c)) }
        fn changed(a: u64, b: u64) -> u64 { note($who, "changed", String::new(), n2(a, b)) }
        fn words(a: u64, b: u64, c: u64, d: u64, e: u64) -> u64 { note($who, "words", String::new(), format!("{:?}", [a, b, c, d, e])) }
        fn none_at_all() -> u64 { note($who, "none_at_all", String::new(), String::new()) }
    };
}
impl Lone<UserD> for L1 { lone_all!("L1"); }
impl Lone<UserM> for L2 {
    fn must(a: u64, b: u64) -> u64 { note("L2", "must", String::new(), n2(a, b)) }
    fn may_not(a: u64, b: u64, c: u64) -> u64 { note("L2", "may_not", String::new(), format!("{} {} {}", a, b, c)) }
    fn must_ignored(a: u64, b: u64) -> u64 { note("L2", "must_ignored", String::new(), n2(a, b)) }
    fn ignored(_x: u64, _y: u64, _z: u64) -> u64 { note("L2", "ignored", String::new(), format!("{} {} {}", _x, _y, _z)) }
}
impl LoneMarker for UserD { type Marker = Delegate; }
impl LoneDelegate<UserD> for UserD { type Delegate = L1; }
impl LoneMarker for UserM { type Marker = Delegate; }
impl LoneDelegate<UserM> for UserM { type Delegate = L2; }
impl LoneMarker for UserO { type Marker = Mine; }
impl LoneImpl<UserO, Mine> for UserO { lone_all!("own UserO"); }
impl LoneMarker for UserK { type Marker = Mine; }
impl LoneImpl<UserK, Mine> for UserK {
    fn must(a: u64, b: u64) -> u64 { note("own UserK", "must", String::new(), n2(a, b)) }
    fn may(a: u64, b: u64) -> u64 { note("own UserK", "may", String::new(), n2(a, b)) }
    fn must_ignored(a: u64, b: u64) -> u64 { note("own UserK", "must_ignored", String::new(), n2(a, b)) }
    fn changed(mut a: u64, b: u64) -> u64 {
        a ^= 1;
        note("own UserK", "changed", String::new(), n2(a ^ 1, b))
    }
    fn words(a: u64, b: u64, c: u64, d: u64, e: u64) -> u64 { note("own UserK", "words", String::new(), format!("{:?}", [a, b, c, d, e])) }
}

pub struct Tn<Q>(PhantomData<Q>);
impl<B: std::fmt::Debug + Clone, A: Named> Turned<UserD, B, A> for Tn<A> {
    fn turn(b: B, a: u64) -> (u64, B) { (note("Tn", "turn", format!("{} {}", A::N, ty::<B>()), format!("{:?} {}", b, a)), b) }
}
impl TurnedMarker for UserD { type Marker = Delegate; }
impl<B: std::fmt::Debug + Clone, A: Named> TurnedDelegate<UserD, B, A> for UserD { type Delegate = Tn<A>; }
impl TurnedMarker for UserO { type Marker = Mine; }
impl<B: std::fmt::Debug + Clone, A: Named> TurnedImpl<UserO, B, A, Mine> for UserO {
    fn turn(b: B, a: u64) -> (u64, B) { (note("own UserO", "turn", format!("{} {}", A::N, ty::<B>()), format!("{:?} {}", b, a)), b) }
}

pub struct H;
impl<T: Named + std::fmt::Debug> Hidden<T, UserD> for H {
    fn first(x: T, y: u64) -> u64 { note("H", "first", format!("{}", T::N), format!("{:?} {}", x, y)) }
    fn second(y: u64, x: T) -> u64 { note("H", "second", format!("{}", T::N), format!("{} {:?}", y, x)) }
}
impl HiddenMarker for UserD { type Marker = Delegate; }
impl<T: Named + std::fmt::Debug> HiddenDelegate<T, UserD> for UserD { type Delegate = H; }
impl HiddenMarker for UserO { type Marker = A; }
impl<T: Named + std::fmt::Debug> HiddenImpl<T, UserO, A> for UserO {
    fn first(x: T, y: u64) -> u64 { note("own UserO", "first", format!("{}", T::N), format!("{:?} {}", x, y)) }
    fn second(y: u64, x: T) -> u64 { note("own UserO", "second", format!("{}", T::N), format!("{} {:?}", y, x)) }
}

fn wide<P, T, S>(who: &str, r: &mut R, o: &mut Out)
where
    P: Wide<T, S, P> + Send,
    T: Named + Send,
    S: Named + Send,
{
    let mut n = || r.below(1 << 50);
    let (a, b, c) = (n(), n(), n());
    let ts = format!("{} {}", T::N, S::N);
    let call = |method: &'static str, types: String, args: String| Call { who: who.to_string(), method, types, args };
    let case = |m: &str| format!("user-declared trait Wide<{}>: {} -> {}", ts, m, who);
    let mut go = |c: Call, f: &mut dyn FnMut() -> u64| {
        let m = c.method;
        let w = c.value().to_string();
        let v = guard(|| f().to_string());
        o.judge(&case(m), c, v, w);
    };
    go(call("one", ts.clone(), format!("{}", a)), &mut || P::one(a));
    go(call("two", ts.clone(), n2(a, b)), &mut || P::two(a, b));
    go(call("three", ts.clone(), format!("{} {} {}", a, b, c)), &mut || P::three(a, b, c));
    go(call("none", ts.clone(), String::new()), &mut || P::none());
    go(call("swapped", ts.clone(), n2(a, b)), &mut || P::swapped(a, b));
    let t: Vec<u64> = (0..12).map(|_| n()).collect();
    go(call("twelve", ts.clone(), format!("{:?}", t)), &mut || P::twelve(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11]));
    go(call("generic", format!("{} 1 2", ts), format!("{}", a)), &mut || P::generic::<N1, N2>(a));
    go(call("generic", format!("{} 3 1", ts), format!("{}", b)), &mut || P::generic::<N3, N1>(b));
    go(call("generic_where", format!("{} 1 2 3", ts), n2(a, b)), &mut || P::generic_where::<N1, N2, N3>(a, b));
    go(call("generic_where", format!("{} 3 1 1", ts), n2(b, c)), &mut || P::generic_where::<N3, N1, N1>(b, c));
    let k = b % 1000;
    go(call("with_fn", ts.clone(), n2(a, a + k)), &mut || P::with_fn(|x| x + k, a));
    let (v1, v2): (Vec<u64>, Vec<u64>) = ((0..a % 4).map(|i| i + a).collect(), (0..b % 4).map(|i| i + b).collect());
    go(call("owned", ts.clone(), format!("{:?} {:?}", v1, v2)), &mut || P::owned(v1.clone(), v2.clone())[0]);
    let cell = std::cell::Cell::new(a);
    go(call("unit", ts.clone(), n2(a, c)), &mut || {
        cell.set(a);
        P::unit(&cell, c);
        cell.get()
    });
    let want = call("refs", ts.clone(), format!("{:?} {:?}", v1, v2));
    let v = want.value();
    let (mut l, mut rr) = (v1.clone(), v2.clone());
    l.push(v);
    rr.push(v + 1);
    let expect = format!("{:?} {:?} {:?}", l, rr, if v % 2 == 0 { &l } else { &rr });
    let (mut x, mut y) = (v1.clone(), v2.clone());
    let got = guard(|| {
        let z = P::refs(&mut x, &mut y).clone();
        format!("{:?} {:?} {:?}", x, y, z)
    });
    o.judge(&case("refs"), want, got, expect);
}

fn lone<P: Lone<P> + Send>(who: [&str; 9], r: &mut R, o: &mut Out) {
    let (a, b, c) = (r.below(1 << 50), r.below(1 << 50), r.below(1 << 50));
    let mut go = |w: &str, method: &'static str, types: &str, args: String, f: &mut dyn FnMut() -> u64| {
        let c = Call { who: w.to_string(), method, types: types.to_string(), args };
        let v = c.value().to_string();
        let g = guard(|| f().to_string());
        o.judge(&format!("user-declared trait Lone: {} -> {}", method, w), c, g, v);
    };
    go(who[0], "must", "", n2(a, b), &mut || P::must(a, b));
    go(who[1], "may", "", n2(a, b), &mut || P::may(a, b));
    go(who[2], "may_not", "", format!("{} {} {}", a, b, c), &mut || P::may_not(a, b, c));
    go(who[3], "generic_may", "2 3", format!("{}", a), &mut || P::generic_may::<N2, N3>(a));
    go(who[4], "must_ignored", "", n2(a, b), &mut || P::must_ignored(a, b));
    go(who[5], "ignored", "", format!("{} {} {}", a, b, c), &mut || P::ignored(a, b, c));
    go(who[6], "changed", "", n2(a, b), &mut || P::changed(a, b));
    go(who[7], "words", "", format!("{:?}", [a, b, c, b, a]), &mut || P::words(a, b, c, b, a));
    go(who[8], "none_at_all", "", String::new(), &mut || P::none_at_all());
}

fn turned<P, B, A>(who: &str, b: B, r: &mut R, o: &mut Out)
where
    P: Turned<P, B, A> + Sync,
    B: std::fmt::Debug + Clone + PartialEq,
    A: Named,
{
    let a = r.below(1 << 50);
    let c = Call { who: who.to_string(), method: "turn", types: format!("{} {}", A::N, ty::<B>()), args: format!("{:?} {}", b, a) };
    let w = format!("{:?}", (c.value(), b.clone()));
    let g = guard(|| format!("{:?}", P::turn(b, a)));
    o.judge(&format!("user-declared trait Turned: turn -> {}", who), c, g, w);
}

fn hidden<P, T>(who: &str, x: T, r: &mut R, o: &mut Out)
where
    P: Hidden<T, P>,
    T: Named + std::fmt::Debug + Clone,
{
    let y = r.below(1 << 50);
    for m in 0..2 {
        let c = Call {
            who: who.to_string(),
            method: if m == 0 { "first" } else { "second" },
            types: format!("{}", T::N),
            args: if m == 0 { format!("{:?} {}", x, y) } else { format!("{} {:?}", y, x) },
        };
        let w = c.value().to_string();
        let g = guard(|| if m == 0 { P::first(x.clone(), y) } else { P::second(y, x.clone()) }.to_string());
        o.judge(&format!("user-declared trait Hidden: {} -> {}", c.method, who), c, g, w);
    }
}

// ------------------------------------------------------------------

struct Out {
    log: Log,
    calls: u64,
    bad: u64,
    seen: HashSet<String>,
    per: BTreeMap<String, u64>,
}
impl Out {
    fn viol(&mut self, what: &str, case: &str) {
        self.bad += 1;
        if self.bad <= 6 {
            self.log.viol(what, case)
        }
    }
    fn judge(&mut self, case: &str, want: Call, got: Result<String, String>, expect: String) {
        let calls: Vec<Call> = CALLS.with(|l| l.borrow_mut().drain(..).collect());
        self.calls += 1;
        *self.per.entry(want.method.to_string()).or_insert(0) += 1;
        if self.seen.len() < 200_000 {
            self.seen.insert(format!("{}/{}", case, want.args));
        }
        match got {
            Err(e) => return self.viol(&format!("the call panicked: {}", e), case),
            Ok(g) => {
                if calls.len() != 1 {
                    return self.viol(&format!("{} invocations for one call: {:?}", calls.len(), calls), &format!("{} with {:?}", case, want));
                }
                if calls[0] != want {
                    return self.viol(&format!("the call arrived as {:?}", calls[0]), &format!("{} with {:?}", case, want));
                }
                if g != expect {
                    return self.viol(&format!("the call returned {} where the implementation returned {}", g, expect), case);
                }
            }
        }
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut o = Out { log: Log::new(&a), calls: 0, bad: 0, seen: HashSet::new(), per: BTreeMap::new() };
    let rounds = if a.thorough { 60_000 } else { 4_000 };
    for i in 0..rounds {
        let mut r = rng(a.seed, 2500, i * a.shards + a.shard);
        let r = &mut r;
        o.log.begin(&|| format!("round {}", i));
        AllA::try_one(r, &mut o);
        AllOwn::try_one(r, &mut o);
        Odd::try_one(r, &mut o);
        Even::try_one(r, &mut o);
        Mixed::try_one(r, &mut o);
        Third::try_one(r, &mut o);
        wide::<UserD, N1, N2>("W", r, &mut o);
        wide::<UserD, N2, N1>("W", r, &mut o);
        wide::<UserM, N3, N2>("W", r, &mut o);
        wide::<UserO, N1, N3>("own UserO", r, &mut o);
        wide::<UserK, N2, N2>("own UserK", r, &mut o);
        lone::<UserD>(["L1"; 9], r, &mut o);
        lone::<UserM>(["L2", "default", "L2", "default", "L2", "L2", "default", "default", "default"], r, &mut o);
        lone::<UserO>(["own UserO"; 9], r, &mut o);
        lone::<UserK>(["own UserK", "own UserK", "default", "default", "own UserK", "default", "own UserK", "own UserK", "default"], r, &mut o);
        turned::<UserD, String, N1>("Tn", format!("s{}", r.below(99)), r, &mut o);
        turned::<UserD, u64, N2>("Tn", r.below(99), r, &mut o);
        turned::<UserO, Vec<u8>, N3>("own UserO", vec![r.below(99) as u8], r, &mut o);
        hidden::<UserD, N1>("H", N1, r, &mut o);
        hidden::<UserO, N2>("own UserO", N2, r, &mut o);
    }
    let per: Vec<String> = o.per.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    let l = format!("{{\"stats\":{{\"calls\":{}}},\"per\":{{{}}},\"tests\":0,\"min_p\":1}}", o.calls, per.join(","));
    o.log.line(&l);
    let mut h: Vec<u64> = o
        .seen
        .iter()
        .map(|s| s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))
        .collect();
    h.sort();
    for c in h.chunks(1000) {
        let l = format!("{{\"seen\":[{}]}}", c.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","));
        o.log.line(&l);
    }
    let l = format!("{{\"sample\":{}}}", q("six protocol types mixing delegated and own implementations of the nine library traits; Wide<N2,N1>::twelve, refs, generic_where::<N3,N1,N1>; Lone with kept and overridden default methods"));
    o.log.line(&l);
    o.log.line("{\"end\":1}");
    o.log.flush();
}
