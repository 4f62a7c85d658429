//! Reference arithmetic modulo p and polynomial checks, independent of the code under test; also chi-square tests.
use num::{BigUint, One, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn add(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a + b) % p
}
pub fn sub(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    ((a + p) - b) % p
}
pub fn mul(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a * b) % p
}
pub fn inv(a: &BigUint, p: &BigUint) -> BigUint {
    a.modpow(&(p - 2u32), p)
}

thread_local! {
    static WEIGHTS: RefCell<HashMap<(BigUint, Vec<usize>, usize), Rc<Vec<BigUint>>>> = RefCell::new(HashMap::new());
}

/// Lagrange weights of the points xs for evaluation at `at`.
pub fn weights(xs: &[usize], at: usize, p: &BigUint) -> Rc<Vec<BigUint>> {
    let key = (p.clone(), xs.to_vec(), at);
    if let Some(w) = WEIGHTS.with(|c| c.borrow().get(&key).cloned()) {
        return w;
    }
    let xv: Vec<BigUint> = xs.iter().map(|x| BigUint::from(*x) % p).collect();
    let a = BigUint::from(at) % p;
    let w: Vec<BigUint> = (0..xs.len())
        .map(|i| {
            let (mut nu, mut de) = (BigUint::one(), BigUint::one());
            for j in 0..xs.len() {
                if j != i {
                    nu = mul(&nu, &sub(&a, &xv[j], p), p);
                    de = mul(&de, &sub(&xv[i], &xv[j], p), p);
                }
            }
            mul(&nu, &inv(&de, p), p)
        })
        .collect();
    let w = Rc::new(w);
    WEIGHTS.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 4000 {
            c.clear();
        }
        c.insert(key, w.clone());
    });
    w
}

pub fn at(xs: &[usize], ys: &[BigUint], x: usize, p: &BigUint) -> BigUint {
    let w = weights(xs, x, p);
    let mut s = BigUint::zero();
    for (a, b) in w.iter().zip(ys) {
        s += a * b;
    }
    s % p
}

/// Do these points (x = 1..) lie on one polynomial of degree below t? Then return its value at zero.
pub fn secret_of(ys: &[BigUint], t: usize, p: &BigUint) -> Option<BigUint> {
    let xs: Vec<usize> = (1..=t).collect();
    for x in t + 1..=ys.len() {
        if at(&xs, &ys[..t], x, p) != ys[x - 1] {
            return None;
        }
    }
    Some(at(&xs, &ys[..t], 0, p))
}

/// The same for many points: by coefficients and Horner's rule.
pub fn secret_of_many(ys: &[BigUint], t: usize, p: &BigUint) -> Option<BigUint> {
    if ys.len() < t {
        return None;
    }
    let c = Interp::new(t, p).coefficients(&ys[..t]);
    for (i, y) in ys.iter().enumerate().skip(t) {
        let mut v = BigUint::zero();
        for a in c.iter().rev() {
            v = (v * (i + 1) + a) % p;
        }
        if v != *y {
            return None;
        }
    }
    Some(c[0].clone())
}

/// A fresh random polynomial of degree below t with the given value at zero, evaluated at 1..n.
pub fn share(secret: &BigUint, n: usize, t: usize, p: &BigUint, r: &mut jcommon::R) -> Vec<BigUint> {
    use num_bigint::RandBigInt;
    let c: Vec<BigUint> = (1..t).map(|_| r.0.gen_biguint_below(p)).collect();
    (1..=n)
        .map(|x| {
            let mut v = BigUint::zero();
            for a in c.iter().rev() {
                v = (v + a) * x % p;
            }
            (v + secret) % p
        })
        .collect()
}

/// Coefficients of the polynomial of degree below t through the points (1..t, ys).
pub struct Interp {
    m: Vec<Vec<BigUint>>,
    p: BigUint,
}
impl Interp {
    pub fn new(t: usize, p: &BigUint) -> Interp {
        // columns: coefficients of the i-th Lagrange polynomial
        let mut m = vec![];
        for i in 1..=t {
            let mut c = vec![BigUint::one()];
            let mut de = BigUint::one();
            for j in 1..=t {
                if i != j {
                    let bj = BigUint::from(j) % p;
                    let mut d = vec![BigUint::zero(); c.len() + 1];
                    for (k, v) in c.iter().enumerate() {
                        d[k + 1] = add(&d[k + 1], v, p);
                        d[k] = sub(&d[k], &mul(v, &bj, p), p);
                    }
                    c = d;
                    de = mul(&de, &sub(&(BigUint::from(i) % p), &bj, p), p);
                }
            }
            let di = inv(&de, p);
            m.push(c.iter().map(|v| mul(v, &di, p)).collect());
        }
        Interp { m, p: p.clone() }
    }
    pub fn coefficients(&self, ys: &[BigUint]) -> Vec<BigUint> {
        let t = self.m.len();
        (0..t)
            .map(|k| {
                let mut s = BigUint::zero();
                for i in 0..t {
                    s += &self.m[i][k] * &ys[i];
                }
                s % &self.p
            })
            .collect()
    }
}

fn ln_gamma(x: f64) -> f64 {
    const C: [f64; 9] = [
        0.99999999999980993,
        676.5203681218851,
        -1259.1392167224028,
        771.32342877765313,
        -176.61502916214059,
        12.507343278686905,
        -0.13857109526572012,
        9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    let x = x - 1.0;
    let mut a = C[0];
    let t = x + 7.5;
    for (i, c) in C.iter().enumerate().skip(1) {
        a += c / (x + i as f64);
    }
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Upper tail of the chi-square distribution.
pub fn chi2_sf(x: f64, k: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    let (a, z) = (k / 2.0, x / 2.0);
    if z < a + 1.0 {
        let mut term = 1.0 / a;
        let mut s = term;
        let mut n = a;
        for _ in 0..1000000 {
            n += 1.0;
            term *= z / n;
            s += term;
            if term < s * 1e-15 {
                break;
            }
        }
        return (1.0 - s * (-z + a * z.ln() - ln_gamma(a)).exp()).max(0.0);
    }
    let tiny = 1e-300;
    let mut b = z + 1.0 - a;
    let mut c = 1.0 / tiny;
    let mut d = 1.0 / b;
    let mut h = d;
    for i in 1..1000000 {
        let i = i as f64;
        let an = -i * (i - a);
        b += 2.0;
        d = an * d + b;
        if d.abs() < tiny {
            d = tiny;
        }
        c = b + an / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-14 {
            break;
        }
    }
    (-z + a * z.ln() - ln_gamma(a)).exp() * h
}

pub const ALPHA: f64 = 1e-10;

/// p-value of "these counts are uniform over their cells"
pub fn p_uniform(counts: &[u32]) -> f64 {
    let n: u64 = counts.iter().map(|x| *x as u64).sum();
    let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    chi2_sf(x, counts.len() as f64 - 1.0)
}

/// p-value of "these two histograms come from one distribution"; sparse cells are pooled
pub fn p_same(a: &[u32], b: &[u32]) -> f64 {
    let (na, nb) = (a.iter().map(|x| *x as f64).sum::<f64>(), b.iter().map(|x| *x as f64).sum::<f64>());
    if na == 0.0 || nb == 0.0 {
        return 1.0;
    }
    let t = na + nb;
    let mut cells: Vec<(f64, f64)> = vec![];
    let (mut pa, mut pb) = (0.0, 0.0);
    for (x, y) in a.iter().zip(b) {
        let (x, y) = (*x as f64, *y as f64);
        if (x + y) * na.min(nb) / t < 8.0 {
            pa += x;
            pb += y;
        } else {
            cells.push((x, y));
        }
    }
    if pa + pb > 0.0 {
        cells.push((pa, pb));
    }
    if cells.len() < 2 {
        return 1.0;
    }
    let mut x2 = 0.0;
    for (x, y) in &cells {
        let (ea, eb) = ((x + y) * na / t, (x + y) * nb / t);
        x2 += (x - ea).powi(2) / ea + (y - eb).powi(2) / eb;
    }
    chi2_sf(x2, cells.len() as f64 - 1.0)
}
