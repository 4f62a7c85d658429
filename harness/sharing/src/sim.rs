//! A simulated clique: parties, message queue, dealer of multiplication triples, adversarial scheduler. The hub keeps
//! every share that is sent, so it can judge consistency, masks and opened values.
use crate::zp;
use jcommon::*;
use jester_sharing::beaver_randomization_multiplication::{BeaverCommunicationScheme, BeaverRerandomizationMultiplication};
use jester_sharing::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::*;
use num::Zero;
use num_bigint::RandBigInt;
use rand::{CryptoRng, Error, RngCore};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

pub trait G: PrimeField + Send + Sync + 'static {}
impl<T: PrimeField + Send + Sync + 'static> G for T {}
pub type Sh<T> = (usize, T);

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Open,
    Share,
    Triples(usize),
}

pub struct Step {
    pub kind: Kind,
    pub dep: Vec<Option<Vec<BigUint>>>,
    pub secrets: Vec<Option<BigUint>>,
    got: Vec<Vec<usize>>,
    need: Vec<usize>,
    wakers: Vec<Option<Waker>>,
    triples: Vec<Vec<(BigUint, BigUint, BigUint)>>,
    pub value: Option<BigUint>,
}

pub struct Hub {
    pub n: usize,
    pub t: usize,
    pub p: BigUint,
    pub rng: R,
    pub steps: Vec<Step>,
    pub next: Vec<usize>,
    queue: Vec<(usize, usize, usize)>,
    pub bad: Vec<String>,
    pub instant: bool,
    pub lazy: bool,
    pub zero_mask: bool,
    pub triples_dealt: usize,
    pub messages: u64,
    /// called once, after that many polls
    pub interrupt: Option<(u64, Box<dyn FnOnce() + Send>)>,
    /// the transport of this party fails at this communication step
    pub panic_at: Option<(usize, usize)>,
}
pub type HubRef = Arc<Mutex<Hub>>;

pub fn lock(h: &HubRef) -> MutexGuard<'_, Hub> {
    match h.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

impl Hub {
    pub fn new(n: usize, t: usize, p: &BigUint, rng: R) -> HubRef {
        Arc::new(Mutex::new(Hub {
            n,
            t,
            p: p.clone(),
            rng,
            steps: vec![],
            next: vec![0; n],
            queue: vec![],
            bad: vec![],
            instant: false,
            lazy: false,
            zero_mask: false,
            triples_dealt: 0,
            messages: 0,
            interrupt: None,
            panic_at: None,
        }))
    }

    fn begin(&mut self, me: usize, kind: Kind) -> usize {
        let k = self.next[me];
        self.next[me] += 1;
        let n = self.n;
        if k == self.steps.len() {
            let need = (0..n).map(|_| self.rng.range(self.t as u64, n as u64 + 1) as usize).collect();
            let mut triples = vec![];
            if let Kind::Triples(count) = kind {
                triples = vec![vec![]; n];
                self.triples_dealt += count;
                for _ in 0..count {
                    let a = self.rng.0.gen_biguint_below(&self.p);
                    let b = self.rng.0.gen_biguint_below(&self.p);
                    let c = zp::mul(&a, &b, &self.p);
                    let (a, b, c) = (
                        zp::share(&a, n, self.t, &self.p, &mut self.rng),
                        zp::share(&b, n, self.t, &self.p, &mut self.rng),
                        zp::share(&c, n, self.t, &self.p, &mut self.rng),
                    );
                    for i in 0..n {
                        triples[i].push((a[i].clone(), b[i].clone(), c[i].clone()));
                    }
                }
            }
            self.steps.push(Step {
                kind: kind.clone(),
                dep: vec![None; n],
                secrets: vec![None; n],
                got: vec![vec![]; n],
                need,
                wakers: vec![None; n],
                triples,
                value: None,
            });
        }
        if self.steps[k].kind != kind {
            self.bad.push(format!("communication step {}: party {} calls {:?} where another party calls {:?}", k, me + 1, kind, self.steps[k].kind));
        }
        k
    }

    fn deposit(&mut self, k: usize, me: usize, data: Vec<BigUint>) {
        let n = self.n;
        self.steps[k].dep[me] = Some(data);
        match self.steps[k].kind {
            Kind::Triples(_) => self.send(k, n, me),
            _ => {
                self.steps[k].got[me].push(me);
                for to in 0..n {
                    if to != me {
                        self.send(k, me, to);
                    }
                }
            }
        }
        if self.steps[k].dep.iter().all(|d| d.is_some()) {
            match self.steps[k].kind {
                Kind::Open => {
                    let ys: Vec<BigUint> = self.steps[k].dep.iter().map(|d| d.as_ref().unwrap()[0].clone()).collect();
                    match zp::secret_of(&ys, self.t, &self.p) {
                        Some(v) => self.steps[k].value = Some(v),
                        None => self.bad.push(format!("communication step {}: the opened shares are not on one polynomial of degree {}", k, self.t - 1)),
                    }
                }
                Kind::Share => {
                    let mut s = BigUint::zero();
                    for c in &self.steps[k].secrets {
                        s += c.as_ref().unwrap();
                    }
                    if (s % &self.p).is_zero() {
                        self.zero_mask = true;
                    }
                }
                _ => {}
            }
        }
    }

    fn send(&mut self, k: usize, from: usize, to: usize) {
        self.messages += 1;
        if self.instant {
            self.arrive(k, from, to)
        } else {
            self.queue.push((k, from, to))
        }
    }

    fn arrive(&mut self, k: usize, from: usize, to: usize) {
        self.steps[k].got[to].push(from);
        if self.ready(k, to) {
            if let Some(w) = self.steps[k].wakers[to].take() {
                w.wake()
            }
        }
    }

    fn ready(&self, k: usize, to: usize) -> bool {
        let s = &self.steps[k];
        match s.kind {
            Kind::Open => s.got[to].len() >= s.need[to],
            Kind::Share => s.got[to].len() == self.n,
            Kind::Triples(_) => !s.got[to].is_empty(),
        }
    }

    fn opened(&self, k: usize, to: usize) -> BigUint {
        let s = &self.steps[k];
        // a threshold-sized subset of what has arrived, not always the same one
        let arrived = &s.got[to][..s.need[to]];
        let mut from: Vec<usize> = (0..self.t).map(|i| arrived[(i + k * 7 + to) % arrived.len()]).collect();
        from.sort();
        let xs: Vec<usize> = from.iter().map(|i| i + 1).collect();
        let ys: Vec<BigUint> = from.iter().map(|i| s.dep[*i].as_ref().unwrap()[0].clone()).collect();
        zp::at(&xs, &ys, 0, &self.p)
    }

    pub fn structure(&self) -> String {
        self.steps
            .iter()
            .map(|s| match s.kind {
                Kind::Open => "O".to_string(),
                Kind::Share => "S".to_string(),
                Kind::Triples(n) => format!("T{}", n),
            })
            .collect::<Vec<_>>()
            .join("")
    }
}

pub struct Party<T> {
    pub hub: HubRef,
    pub me: usize,
    pub marker: PhantomData<T>,
}

impl<T> Party<T> {
    pub fn new(hub: &HubRef, me: usize) -> Self {
        Party { hub: hub.clone(), me, marker: PhantomData }
    }
}

struct Wait<T, O> {
    hub: HubRef,
    me: usize,
    k: usize,
    unsent: Option<Vec<BigUint>>,
    take: fn(&Hub, usize, usize) -> O,
    marker: PhantomData<T>,
}
impl<T, O> Unpin for Wait<T, O> {}
impl<T, O> Future for Wait<T, O> {
    type Output = O;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        let s = &mut *self;
        let mut h = lock(&s.hub);
        if let Some(d) = s.unsent.take() {
            h.deposit(s.k, s.me, d);
        }
        if h.ready(s.k, s.me) {
            Poll::Ready((s.take)(&h, s.k, s.me))
        } else {
            h.steps[s.k].wakers[s.me] = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl<T: G> Party<T> {
    fn post(&self, kind: Kind, f: impl FnOnce(&mut Hub, usize) -> Vec<BigUint>) -> (usize, Option<Vec<BigUint>>) {
        let mut h = lock(&self.hub);
        let k = h.begin(self.me, kind);
        if h.panic_at.map_or(false, |(i, at)| i == self.me && k >= at) {
            drop(h);
            panic!("the transport fails");
        }
        let d = f(&mut h, k);
        if h.lazy {
            (k, Some(d))
        } else {
            h.deposit(k, self.me, d);
            (k, None)
        }
    }
    fn wait<O>(&self, k: usize, unsent: Option<Vec<BigUint>>, take: fn(&Hub, usize, usize) -> O) -> Wait<T, O> {
        Wait { hub: self.hub.clone(), me: self.me, k, unsent, take, marker: PhantomData }
    }
}

impl<T: G> ShamirSecretSharingScheme<T> for Party<T> {}

impl<T: G> CliqueCommunicationScheme<T, Sh<T>> for Party<T> {
    fn reveal_shares(&mut self, share: Sh<T>) -> Pin<Box<dyn Future<Output = T> + Send>> {
        let me = self.me;
        let (k, u) = self.post(Kind::Open, |h, k| {
            if share.0 != me + 1 {
                h.bad.push(format!("communication step {}: party {} opens a share of party {}", k, me + 1, share.0));
            }
            vec![share.1.as_uint()]
        });
        Box::pin(self.wait(k, u, |h, k, me| T::from(h.opened(k, me))))
    }

    fn distribute_secret(&mut self, secret: T) -> Pin<Box<dyn Future<Output = Vec<Sh<T>>> + Send>> {
        let me = self.me;
        let (k, u) = self.post(Kind::Share, |h, k| {
            let s = secret.as_uint();
            let (n, t, p) = (h.n, h.t, h.p.clone());
            let d = zp::share(&s, n, t, &p, &mut h.rng);
            if h.steps[k].kind == Kind::Share {
                h.steps[k].secrets[me] = Some(s);
            }
            d
        });
        Box::pin(self.wait(k, u, |h, k, me| {
            h.steps[k].got[me].iter().map(|from| (me + 1, T::from(h.steps[k].dep[*from].as_ref().unwrap()[me].clone()))).collect()
        }))
    }
}

impl<T: G> BeaverCommunicationScheme<Sh<T>> for Party<T> {
    fn get_reconstruction_threshold(&self) -> usize {
        lock(&self.hub).t
    }
    fn obtain_beaver_triples<'a>(&'a mut self, count: usize) -> Pin<Box<dyn Future<Output = Vec<(Sh<T>, Sh<T>, Sh<T>)>> + Send + 'a>> {
        let (k, u) = self.post(Kind::Triples(count), |_, _| vec![]);
        Box::pin(self.wait(k, u, |h, k, me| {
            let x = me + 1;
            h.steps[k].triples[me]
                .iter()
                .map(|(a, b, c)| ((x, T::from(a.clone())), (x, T::from(b.clone())), (x, T::from(c.clone()))))
                .collect()
        }))
    }
}

macro_rules! delegate {
    ($($marker:ident $del:ident $to:ident;)*) => {$(
        impl<T: G> $marker for Party<T> {
            type Marker = Delegate;
        }
        impl<T: G> $del<T, Sh<T>, Party<T>> for Party<T> {
            type Delegate = $to<T, Sh<T>, Party<T>>;
        }
    )*};
}
impl<T: G> MultiplicationSchemeMarker for Party<T> {
    type Marker = Delegate;
}
impl<T: G> MultiplicationSchemeDelegate<T, Sh<T>, Party<T>> for Party<T> {
    type Delegate = Beaver<T>;
}
impl<T: G> UnboundedMultiplicationSchemeMarker for Party<T> {
    type Marker = Delegate;
}
impl<T: G> UnboundedMultiplicationSchemeDelegate<T, Sh<T>, Party<T>> for Party<T> {
    type Delegate = Beaver<T>;
}
delegate! {
    InversionSchemeMarker InversionSchemeDelegate JointUnboundedInversion;
    UnboundedInversionSchemeMarker UnboundedInversionSchemeDelegate JointUnboundedInversion;
    OrFunctionSchemeMarker OrFunctionSchemeDelegate JointUnboundedOrFunction;
    UnboundedOrFunctionSchemeMarker UnboundedOrFunctionSchemeDelegate JointUnboundedOrFunction;
    ConditionalSelectionSchemeMarker ConditionalSelectionSchemeDelegate JointConditionalSelection;
    RandomNumberGenerationSchemeMarker RandomNumberGenerationSchemeDelegate SumRandomNumberGeneration;
}
pub type Beaver<T> = BeaverRerandomizationMultiplication<T, Sh<T>, Party<T>>;
pub type Inversion<T> = JointUnboundedInversion<T, Sh<T>, Party<T>>;
pub type Or<T> = JointUnboundedOrFunction<T, Sh<T>, Party<T>>;
pub type Select<T> = JointConditionalSelection<T, Sh<T>, Party<T>>;
pub type Sum<T> = SumRandomNumberGeneration<T, Sh<T>, Party<T>>;

/// A party's generator; `broken` ones always return zero bytes.
#[derive(Clone)]
pub struct PRng {
    pub inner: R,
    pub broken: bool,
    pub drawn: u64,
}
impl RngCore for PRng {
    fn next_u32(&mut self) -> u32 {
        self.drawn += 4;
        if self.broken {
            0
        } else {
            self.inner.next_u32()
        }
    }
    fn next_u64(&mut self) -> u64 {
        self.drawn += 8;
        if self.broken {
            0
        } else {
            self.inner.next_u64()
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.drawn += d.len() as u64;
        if self.broken {
            d.iter_mut().for_each(|b| *b = 0)
        } else {
            self.inner.fill_bytes(d)
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for PRng {}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Mul,
    UMul,
    Inv,
    UInv,
    Or,
    UOr,
    Sel,
    Rnd(usize),
}

pub async fn apply<T: G>(op: Op, inp: Vec<Sh<T>>, rng: &mut PRng, party: &mut Party<T>) -> Vec<Sh<T>> {
    // every other party passes equal shares as one and the same object
    let same = |a: usize, b: usize, me: usize| if me % 2 == 0 && inp[a] == inp[b] { &inp[a] } else { &inp[b] };
    match op {
        Op::Mul => {
            let rhs = same(0, 1, party.me);
            vec![<Beaver<T> as MultiplicationScheme<T, Sh<T>, Party<T>>>::multiply(party, &inp[0], rhs).await]
        }
        Op::UMul => {
            let pairs: Vec<_> = inp.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect();
            <Beaver<T> as UnboundedMultiplicationScheme<T, Sh<T>, Party<T>>>::unbounded_multiply(party, &pairs).await
        }
        Op::Inv => vec![<Inversion<T> as InversionScheme<T, Sh<T>, Party<T>>>::inverse(rng, party, &inp[0]).await],
        Op::UInv => <Inversion<T> as UnboundedInversionScheme<T, Sh<T>, Party<T>>>::unbounded_inverse(rng, party, &inp).await,
        Op::Or => vec![<Or<T> as OrFunctionScheme<T, Sh<T>, Party<T>>>::shared_or(rng, party, &inp[0]).await],
        Op::UOr => vec![<Or<T> as UnboundedOrFunctionScheme<T, Sh<T>, Party<T>>>::unbounded_shared_or(rng, party, &inp).await],
        Op::Sel => {
            let lhs = same(0, 1, party.me);
            let rhs = if inp[1] == inp[2] { same(1, 2, party.me) } else { same(0, 2, party.me) };
            vec![<Select<T> as ConditionalSelectionScheme<T, Sh<T>, Party<T>>>::joint_conditional_selection(party, &inp[0], lhs, rhs).await]
        }
        Op::Rnd(k) => {
            let mut v = vec![];
            for _ in 0..k {
                v.push(<Sum<T> as RandomNumberGenerationScheme<T, Sh<T>, Party<T>>>::generate_random_number_sharing(rng, party).await);
            }
            v
        }
    }
}

/// The plain results; None where only the number of results is fixed (random numbers).
pub fn plain(op: &Op, x: &[BigUint], p: &BigUint) -> Option<Vec<BigUint>> {
    let one = BigUint::from(1u32);
    Some(match op {
        Op::Mul => vec![zp::mul(&x[0], &x[1], p)],
        Op::UMul => x.chunks(2).map(|c| zp::mul(&c[0], &c[1], p)).collect(),
        Op::Inv | Op::UInv => x.iter().map(|a| zp::inv(a, p)).collect(),
        Op::Or | Op::UOr => vec![if x.iter().any(|b| *b == one) { one } else { BigUint::zero() }],
        Op::Sel => vec![if x[0] == one { x[1].clone() } else { x[2].clone() }],
        Op::Rnd(_) => return None,
    })
}

#[derive(Clone, Debug)]
pub struct Policy {
    /// poll only parties that were woken
    pub strict: bool,
    /// 0 uniform, 1 one party is starved, 2 newest message first, 3 oldest message first, 4 all messages before any poll,
    /// 5 parties run as far as they can before any message
    pub style: u8,
    pub lazy: bool,
    /// other threads may hold locks the parties wait for
    pub external: bool,
}
impl Policy {
    pub fn random(r: &mut R) -> Policy {
        Policy { strict: r.chance(3, 4), style: r.below(6) as u8, lazy: r.chance(1, 4), external: false }
    }
    pub fn plain() -> Policy {
        Policy { strict: true, style: 3, lazy: false, external: false }
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// Run one future per party to completion under the policy. Returns the outputs and a fingerprint of the interleaving.
pub fn run<O>(hub: &HubRef, futs: Vec<Pin<Box<dyn Future<Output = O> + '_>>>, pol: &Policy, r: &mut R) -> Result<(Vec<O>, u64), String> {
    let n = futs.len();
    lock(hub).lazy = pol.lazy;
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = O> + '_>>>> = futs.into_iter().map(Some).collect();
    let mut outs: Vec<Option<O>> = (0..n).map(|_| None).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let starved = r.below(n as u64) as usize;
    let mut print: u64 = 0xcbf29ce484222325;
    let mut polls = 0u64;
    let mut left = n;
    let mut idle_since: Option<std::time::Instant> = None;
    while left > 0 {
        let queued = lock(hub).queue.len();
        let mut cand: Vec<usize> = (0..n).filter(|i| futs[*i].is_some() && flags[*i].0.load(Ordering::SeqCst)).collect();
        if cand.is_empty() && queued == 0 {
            if pol.external {
                // another thread may be about to release a lock
                let t = *idle_since.get_or_insert_with(std::time::Instant::now);
                if t.elapsed().as_secs() < 90 {
                    std::thread::yield_now();
                    continue;
                }
            }
            return Err("stalled: every message has been delivered and no party can continue".into());
        }
        idle_since = None;
        if !pol.strict && r.chance(1, 8) {
            // a spurious poll
            cand = (0..n).filter(|i| futs[*i].is_some()).collect();
        }
        if pol.style == 1 && cand.len() + queued > 1 && cand.contains(&starved) && cand.len() > 1 {
            cand.retain(|i| *i != starved);
        }
        let poll = if cand.is_empty() {
            false
        } else if queued == 0 {
            true
        } else {
            match pol.style {
                4 => false,
                5 => true,
                1 if cand == [starved] => r.chance(1, 50),
                _ => r.chance(1, 2),
            }
        };
        if poll {
            let i = *r.pick(&cand);
            flags[i].0.store(false, Ordering::SeqCst);
            print = (print ^ (i as u64 + 1)).wrapping_mul(0x100000001b3);
            polls += 1;
            if polls > 3_000_000 {
                return Err("not finished after three million polls".into());
            }
            let f = futs[i].as_mut().unwrap();
            let w = &wakers[i];
            match guard(|| f.as_mut().poll(&mut Context::from_waker(w))) {
                Err(e) => return Err(format!("party {} panicked: {}", i + 1, e)),
                Ok(Poll::Ready(o)) => {
                    outs[i] = Some(o);
                    futs[i] = None;
                    left -= 1;
                }
                Ok(Poll::Pending) => {}
            }
            let mut h = lock(hub);
            if let Some(b) = h.bad.pop() {
                return Err(b);
            }
            if h.interrupt.as_ref().map_or(false, |(at, _)| *at <= polls) {
                let (_, f) = h.interrupt.take().unwrap();
                drop(h);
                f();
            }
        } else {
            let mut h = lock(hub);
            let i = match pol.style {
                2 => queued - 1,
                3 => 0,
                1 => {
                    // messages from and to the starved party last
                    let ok: Vec<usize> = (0..queued).filter(|m| h.queue[*m].1 != starved && h.queue[*m].2 != starved).collect();
                    if ok.is_empty() {
                        r.below(queued as u64) as usize
                    } else {
                        *r.pick(&ok)
                    }
                }
                _ => r.below(queued as u64) as usize,
            };
            let (k, from, to) = if pol.style == 3 { h.queue.remove(i) } else { h.queue.swap_remove(i) };
            print = (print ^ (1000 + k as u64 * 64 + from as u64 * 8 + to as u64)).wrapping_mul(0x100000001b3);
            h.arrive(k, from, to);
        }
    }
    // whatever is still under way no longer matters; steps must match in number
    let h = lock(hub);
    if let Some(b) = h.bad.last() {
        return Err(b.clone());
    }
    if h.next.iter().any(|x| *x != h.next[0]) {
        return Err(format!("the parties took different numbers of communication steps: {:?}", h.next));
    }
    Ok((outs.into_iter().map(|o| o.unwrap()).collect(), print))
}

/// Run the parties in lockstep: all go as far as they can, then everything under way arrives, and so on.
/// Returns the outputs and how often messages had to arrive.
pub fn run_rounds<O>(hub: &HubRef, futs: Vec<Pin<Box<dyn Future<Output = O> + '_>>>) -> Result<(Vec<O>, u64), String> {
    let n = futs.len();
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = O> + '_>>>> = futs.into_iter().map(Some).collect();
    let mut outs: Vec<Option<O>> = (0..n).map(|_| None).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let mut rounds = 0;
    loop {
        let mut progress = true;
        while progress {
            progress = false;
            for i in 0..n {
                if futs[i].is_some() && flags[i].0.swap(false, Ordering::SeqCst) {
                    progress = true;
                    let w = Waker::from(flags[i].clone());
                    let f = futs[i].as_mut().unwrap();
                    match guard(|| f.as_mut().poll(&mut Context::from_waker(&w))) {
                        Err(e) => return Err(format!("party {} panicked: {}", i + 1, e)),
                        Ok(Poll::Ready(o)) => {
                            outs[i] = Some(o);
                            futs[i] = None;
                        }
                        Ok(Poll::Pending) => {}
                    }
                }
            }
        }
        let mut h = lock(hub);
        if let Some(b) = h.bad.pop() {
            return Err(b);
        }
        if futs.iter().all(|f| f.is_none()) {
            drop(h);
            return Ok((outs.into_iter().map(|o| o.unwrap()).collect(), rounds));
        }
        let all = std::mem::take(&mut h.queue);
        if all.is_empty() {
            return Err("stalled: every message has been delivered and no party can continue".into());
        }
        for (k, from, to) in all {
            h.arrive(k, from, to);
        }
        rounds += 1;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Crash {
    /// one participant is gone
    Drop(usize),
    /// half of all messages under way are lost
    Lose,
    /// nothing more happens to it than that nobody goes on with it
    Leave,
}

/// A run that comes to nothing: after a while something fails, some more happens, and in the end all of it is dropped.
/// Returns the number of parties that had finished and of those that panicked.
pub fn doomed<O>(
    hub: &HubRef,
    futs: Vec<Pin<Box<dyn Future<Output = O> + '_>>>,
    after: u64,
    crash: &Crash,
    keep: bool,
    r: &mut R,
    between: &mut dyn FnMut(&mut R),
) -> (u64, u64) {
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = O> + '_>>>> = futs.into_iter().map(Some).collect();
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag);
    let (mut done, mut failed) = (0, 0);
    let mut act = |futs: &mut Vec<Option<Pin<Box<dyn Future<Output = O> + '_>>>>, r: &mut R| {
        let queued = lock(hub).queue.len();
        if queued > 0 && r.chance(1, 2) {
            let mut h = lock(hub);
            let i = r.below(queued as u64) as usize;
            let (k, from, to) = h.queue.swap_remove(i);
            h.arrive(k, from, to);
            return;
        }
        let i = r.below(futs.len() as u64) as usize;
        if let Some(f) = futs[i].as_mut() {
            match guard(|| f.as_mut().poll(&mut Context::from_waker(&waker))) {
                Err(_) => {
                    failed += 1;
                    futs[i] = None
                }
                Ok(Poll::Ready(_)) => {
                    done += 1;
                    futs[i] = None
                }
                Ok(Poll::Pending) => {}
            }
        }
    };
    for _ in 0..after {
        act(&mut futs, r);
    }
    match crash {
        Crash::Drop(i) => futs[*i] = None,
        Crash::Lose => {
            let mut h = lock(hub);
            let mut k = 0;
            h.queue.retain(|_| {
                k += 1;
                k % 2 == 0
            })
        }
        Crash::Leave => {}
    }
    for _ in 0..r.below(40) {
        act(&mut futs, r);
    }
    if !keep {
        while futs.iter().any(|f| f.is_some()) {
            let i = r.below(futs.len() as u64) as usize;
            futs[i] = None;
        }
    }
    between(r);
    for _ in 0..r.below(20) {
        act(&mut futs, r);
    }
    while futs.iter().any(|f| f.is_some()) {
        let i = r.below(futs.len() as u64) as usize;
        futs[i] = None;
    }
    (done, failed)
}

/// All parties' output shares (one vector per party) -> the shared values, or what is wrong with them.
pub fn values<T: G>(outs: &[Vec<Sh<T>>], t: usize, p: &BigUint) -> Result<Vec<BigUint>, String> {
    let m = outs[0].len();
    for (i, o) in outs.iter().enumerate() {
        if o.len() != m {
            return Err(format!("party {} has {} results, party 1 has {}", i + 1, o.len(), m));
        }
        if let Some(s) = o.iter().find(|s| s.0 != i + 1) {
            return Err(format!("party {} holds a share numbered {}", i + 1, s.0));
        }
    }
    (0..m)
        .map(|j| {
            let ys: Vec<BigUint> = outs.iter().map(|o| o[j].1.as_uint()).collect();
            if ys.iter().any(|y| y >= p) {
                return Err(format!("share of result {} is not reduced", j));
            }
            zp::secret_of(&ys, t, p).ok_or_else(|| format!("the shares of result {} are not on one polynomial of degree {}: {:?}", j, t - 1, ys.iter().map(|y| y.to_string()).collect::<Vec<_>>()))
        })
        .collect()
}

/// Dealer's sharing of the inputs: one vector per party.
pub fn deal<T: G>(x: &[BigUint], n: usize, t: usize, p: &BigUint, r: &mut R) -> Vec<Vec<Sh<T>>> {
    let mut v: Vec<Vec<Sh<T>>> = vec![vec![]; n];
    for s in x {
        for (i, y) in zp::share(s, n, t, p, r).into_iter().enumerate() {
            v[i].push((i + 1, T::from(y)));
        }
    }
    v
}
