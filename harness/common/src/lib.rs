//! Shared plumbing of the monitoring harnesses: command line, seeded generators, event log, panic capture.
use rand::{ChaChaRng, CryptoRng, Error, Rng, RngCore, SeedableRng};
use std::cell::{Cell, RefCell};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Args {
    pub mode: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub thorough: bool,
    pub trace: bool,
    pub scale: u64,
    pub out: String,
    pub input: String,
    pub only: Option<u64>,
}

pub fn args() -> Args {
    let mut a = Args {
        mode: String::new(),
        seed: 1,
        shard: 0,
        shards: 1,
        thorough: false,
        trace: false,
        scale: 1,
        out: String::new(),
        input: String::new(),
        only: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        match k.as_str() {
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--shard" => a.shard = it.next().unwrap().parse().unwrap(),
            "--shards" => a.shards = it.next().unwrap().parse().unwrap(),
            "--thorough" => a.thorough = true,
            "--trace" => a.trace = true,
            "--scale" => a.scale = it.next().unwrap().parse().unwrap(),
            "--out" => a.out = it.next().unwrap(),
            "--input" => a.input = it.next().unwrap(),
            "--only" => a.only = Some(it.next().unwrap().parse().unwrap()),
            _ => a.mode = k,
        }
    }
    a
}

/// Deterministic, cryptographically secure generator keyed by (seed, stream).
#[derive(Clone)]
pub struct R(pub ChaChaRng);

pub fn rng(seed: u64, stream: u64, sub: u64) -> R {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&stream.to_le_bytes());
    s[16..24].copy_from_slice(&sub.to_le_bytes());
    s[24] = 0x4a;
    R(ChaChaRng::from_seed(s))
}

impl RngCore for R {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.0.try_fill_bytes(d)
    }
}
impl CryptoRng for R {}

impl R {
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.0.gen_range(0, n)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo)
    }
    /// below(big) with probability num/den, else below(small)
    pub fn mixed(&mut self, num: u64, den: u64, big: u64, small: u64) -> u64 {
        let top = if self.chance(num, den) { big } else { small };
        self.below(top)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.0.fill_bytes(&mut v);
        v
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}

/// Wraps a generator and counts the bytes drawn from it.
pub struct Counting<'a> {
    pub inner: &'a mut R,
    pub drawn: u64,
}
impl<'a> RngCore for Counting<'a> {
    fn next_u32(&mut self) -> u32 {
        self.drawn += 4;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.drawn += 8;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.drawn += d.len() as u64;
        self.inner.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.drawn += d.len() as u64;
        self.inner.try_fill_bytes(d)
    }
}
impl<'a> CryptoRng for Counting<'a> {}

/// Event log: one JSON object per line.
pub struct Log {
    w: Option<BufWriter<File>>,
    pub trace: bool,
}
impl Log {
    pub fn new(a: &Args) -> Log {
        Log {
            w: if a.out.is_empty() {
                None
            } else {
                Some(BufWriter::with_capacity(1 << 18, File::create(&a.out).unwrap()))
            },
            trace: a.trace,
        }
    }
    pub fn line(&mut self, s: &str) {
        match self.w.as_mut() {
            Some(w) => {
                w.write_all(s.as_bytes()).unwrap();
                w.write_all(b"\n").unwrap();
            }
            None => println!("{}", s),
        }
    }
    /// In trace mode announce the case about to run, so that a crash can be attributed to it.
    pub fn begin(&mut self, what: &dyn Fn() -> String) {
        if self.trace {
            let l = format!("{{\"begin\":{}}}", q(&what()));
            self.line(&l);
            self.flush();
        }
    }
    pub fn viol(&mut self, what: &str, case: &str) {
        let l = format!("{{\"viol\":{},\"case\":{}}}", q(what), q(case));
        self.line(&l);
        self.flush();
    }
    pub fn flush(&mut self) {
        if let Some(w) = self.w.as_mut() {
            w.flush().unwrap();
        }
    }
}
impl Drop for Log {
    fn drop(&mut self) {
        self.flush();
    }
}

/// JSON string literal
pub fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        o.push(D[(x >> 4) as usize] as char);
        o.push(D[(x & 15) as usize] as char);
    }
    o
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static GUARDS: Cell<u32> = Cell::new(0);
}

/// Remember panic messages raised under `guard` silently; any other panic is reported on stderr.
/// To be called once in main.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".to_string());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let guarded = GUARDS.try_with(|g| g.get() > 0).unwrap_or(false);
        if !guarded {
            eprintln!("PANIC {} at {}", msg, loc);
        }
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, loc)
            }
        });
    }));
}

/// Run the code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDS.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
