//! The curve of stable pools, solved exactly: what the pallet approximates by iteration is bounded here from both sides.
use crate::rt::*;
pub type Z = BigInt;
pub const K: u32 = 16;
pub const DEN: u128 = 10_000_000_000;
pub const ONE: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Iv {
    pub lo: Z,
    pub hi: Z,
}
pub fn z<T: Into<Z>>(x: T) -> Z {
    x.into()
}
pub fn at<T: Into<Z>>(x: T) -> Iv {
    let x = x.into();
    Iv { lo: x.clone(), hi: x }
}
/// rounded down also below zero
pub fn fdiv(a: &Z, b: &Z) -> Z {
    num_integer::Integer::div_floor(a, b)
}
fn cdiv(a: &Z, b: &Z) -> Z {
    -fdiv(&-a, b)
}
impl Iv {
    pub fn has(&self, x: u128) -> bool {
        self.lo <= z(x) && z(x) <= self.hi
    }
    pub fn map(&self, f: impl Fn(&Z) -> Z) -> Iv {
        let (a, b) = (f(&self.lo), f(&self.hi));
        if a <= b {
            Iv { lo: a, hi: b }
        } else {
            Iv { lo: b, hi: a }
        }
    }
    pub fn plus(&self, o: &Iv) -> Iv {
        Iv { lo: &self.lo + &o.lo, hi: &self.hi + &o.hi }
    }
    pub fn minus(&self, o: &Iv) -> Iv {
        Iv { lo: &self.lo - &o.hi, hi: &self.hi - &o.lo }
    }
    /// of numbers that are not negative
    pub fn muldiv(&self, m: &Iv, d: &Iv) -> Option<Iv> {
        if d.lo <= Z::zero() {
            return None;
        }
        let (ln, hn) = (&self.lo * &m.lo, &self.hi * &m.hi);
        Some(Iv { lo: fdiv(&ln, if ln.is_negative() { &d.lo } else { &d.hi }), hi: fdiv(&hn, if hn.is_negative() { &d.hi } else { &d.lo }) })
    }
    pub fn abs(&self) -> Iv {
        if self.lo.is_negative() && self.hi.is_positive() {
            Iv { lo: Z::zero(), hi: (-&self.lo).max(self.hi.clone()) }
        } else {
            self.map(|x| x.abs())
        }
    }
}
fn pow(x: &Z, n: usize) -> Z {
    x.pow(n as u32)
}
/// D times 2^16, rounded down
pub fn d_exact(xp: &[Z], ann: &Z) -> Option<Z> {
    let n = xp.len();
    let sum: Z = xp.iter().sum();
    if sum.is_zero() {
        return Some(sum);
    }
    if xp.iter().any(|x| !x.is_positive()) {
        return None;
    }
    let nn = xp.iter().product::<Z>() * pow(&z(n), n);
    let p = z(100);
    let lin = (ann - &p) * (&nn << (K as usize * n));
    let con = ann * &sum * (&nn << (K as usize * (n + 1)));
    let f = |x: &Z| -> Z { (&p * pow(x, n + 1)) + &lin * x - &con };
    let mut x: Z = &sum << K as usize;
    for _ in 0..4000 {
        let step = f(&x) / ((&p * z(n + 1) * pow(&x, n)) + &lin);
        if !step.is_positive() {
            break;
        }
        x -= step;
    }
    while f(&x).is_positive() {
        x -= 1;
    }
    while !f(&(&x + 1)).is_positive() {
        x += 1;
    }
    Some(x)
}
fn float(x: &Z) -> f64 {
    x.to_f64().unwrap_or(f64::INFINITY)
}
/// how far off D the rounding of the steps to it may lead
fn off(d: f64, xs: &[Z], ann: f64) -> f64 {
    let n = xs.len() as f64;
    let (mut c, mut e) = (d, 0.0);
    for x in xs {
        c = c * d / (float(x) * n);
        e += 1.0 / c;
    }
    e * c * d / ((ann / 100.0 - 1.0) * d + (n + 1.0) * c)
}
/// the steps to D come to rest
pub fn rests(xp: &[Z], d: &Z, ann: &Z) -> bool {
    off(float(d), xp, float(ann)) < 0.9
}
/// the D the pallet may find: none if the pool is too lopsided or small for it to be told
pub fn d_iv(xp: &[Z], ann: &Z) -> Option<Iv> {
    let x = d_exact(xp, ann)?;
    if x.is_zero() {
        return Some(at(0));
    }
    let d = &x >> K as usize;
    let e = off(float(&d), xp, float(ann));
    if d < z(1000) || d > z(10u128.pow(33)) || e > 1e-4 * float(&d) {
        return None;
    }
    let slack = z(3 + (e * 2.0) as u128);
    Some(Iv { lo: &d - &slack, hi: d + slack })
}
/// y times 2^16, rounded down
pub fn y_exact(others: &[Z], d: &Z, ann: &Z) -> Option<Z> {
    let n = others.len() + 1;
    if others.iter().any(|x| !x.is_positive()) {
        return None;
    }
    let s: Z = others.iter().sum();
    let q = (s - d) * ann + z(100) * d;
    let four_c = z(400) * pow(d, n + 1) * ann;
    let den = pow(&z(n), n) * others.iter().product::<Z>();
    let r = ((((&q * &q) << (2 * K as usize)) * &den + (four_c << (2 * K as usize))) / den).sqrt();
    Some(fdiv(&(r - (q << K as usize)), &(z(2) * ann)))
}
pub fn y_iv(others: &[Iv], d: &Iv, ann: &Z) -> Option<Iv> {
    if d.lo.is_negative() {
        return None;
    }
    let lo: Vec<Z> = others.iter().map(|x| x.lo.clone()).collect();
    let hi: Vec<Z> = others.iter().map(|x| x.hi.clone()).collect();
    if d.hi.is_zero() {
        return lo.iter().all(|x| x.is_positive()).then(|| at(0));
    }
    let a = y_exact(&hi, &d.lo, ann)? >> K as usize;
    let b = (y_exact(&lo, &d.hi, ann)? >> K as usize) + 1;
    let n = others.len() as f64 + 1.0;
    // the last step divides by ann as well
    let df = float(&d.hi);
    let mut c = df;
    let mut e = 0.0;
    for x in &hi {
        c = c * df / (float(x) * n);
        e += 1.0 / c;
    }
    c = c * df * 100.0 / (float(ann) * n);
    e += 1.0 / c;
    if e > 1e-4 {
        return None;
    }
    let slack = z(2 + (e * 2.0 * float(&b)) as u128);
    Some(Iv { lo: a - &slack, hi: b + slack })
}

/// a pool as it is now, with the price of the base pool's shares if it has such
#[derive(Clone, Debug)]
pub struct Curve {
    pub mult: Vec<u128>,
    pub bal: Vec<u128>,
    pub fee: u128,
    pub admin: u128,
    pub amp: u128,
    pub vp: Option<u128>,
    pub supply: u128,
}
pub struct Swapped {
    pub out: Iv,
    pub admin: Iv,
    /// what is left of the other balance, before fees; below zero it fails
    pub dy: Iv,
}
pub struct Added {
    pub d0: Iv,
    pub d1: Iv,
    pub bal: Vec<Iv>,
    pub fees: Vec<Iv>,
    pub kept: Vec<Iv>,
    pub mint: Iv,
}
pub struct One {
    pub out: Iv,
    pub admin: Iv,
    pub fee: Iv,
    pub expected: Iv,
}
impl Curve {
    pub fn n(&self) -> usize {
        self.bal.len()
    }
    pub fn ann(&self) -> Z {
        z(self.amp) * z(self.n())
    }
    fn norm(&self, i: usize, x: &Z) -> Z {
        let v = x * z(self.mult[i]);
        match self.vp {
            Some(vp) if i + 1 == self.n() => fdiv(&(v * z(vp)), &z(ONE)),
            _ => v,
        }
    }
    /// back from the common scale, but for the multiplier
    fn plain(&self, i: usize, x: &Z) -> Z {
        match self.vp {
            Some(vp) if i + 1 == self.n() => fdiv(&(x * z(ONE)), &z(vp)),
            _ => x.clone(),
        }
    }
    pub fn xp(&self, bal: &[Z]) -> Vec<Z> {
        bal.iter().enumerate().map(|(i, x)| self.norm(i, x)).collect()
    }
    pub fn balances(&self) -> Vec<Z> {
        self.bal.iter().map(|x| z(*x)).collect()
    }
    pub fn d(&self, bal: &[Z]) -> Option<Iv> {
        d_iv(&self.xp(bal), &self.ann())
    }
    fn d_of(&self, bal: &[Iv]) -> Option<Iv> {
        let lo: Vec<Z> = bal.iter().map(|x| x.lo.clone()).collect();
        let hi: Vec<Z> = bal.iter().map(|x| x.hi.clone()).collect();
        Some(Iv { lo: self.d(&lo)?.lo, hi: self.d(&hi)?.hi })
    }
    /// a hundred-millionth of a hundredth per unit
    pub fn part(&self) -> u128 {
        self.fee * self.n() as u128 / (4 * (self.n() as u128 - 1))
    }
    pub fn swap(&self, i: usize, j: usize, dx: u128) -> Option<Swapped> {
        let xp = self.xp(&self.balances());
        let d = d_iv(&xp, &self.ann())?;
        let mut others: Vec<Iv> = vec![];
        for k in 0..self.n() {
            if k == j {
                continue;
            }
            others.push(at(if k == i { &xp[k] + self.norm(i, &z(dx)) } else { xp[k].clone() }));
        }
        let y = y_iv(&others, &d, &self.ann())?;
        let dy = at(&xp[j] - 1).minus(&y);
        let dy_plain = dy.map(|x| self.plain(j, x));
        let fee = dy_plain.map(|x| fdiv(&(x * z(self.fee)), &z(DEN)));
        let out = dy_plain.map(|x| fdiv(&(x - fdiv(&(x * z(self.fee)), &z(DEN))), &z(self.mult[j])));
        let admin = fee.map(|x| fdiv(&fdiv(&(x * z(self.admin)), &z(DEN)), &z(self.mult[j])));
        Some(Swapped { out, admin, dy })
    }
    /// amounts are what the balances become
    fn with_fees(&self, d0: &Iv, d1: &Iv, new: &[Z]) -> Option<(Vec<Iv>, Vec<Iv>, Vec<Iv>)> {
        let (mut fees, mut bal, mut kept) = (vec![], vec![], vec![]);
        for i in 0..self.n() {
            let ideal = d1.muldiv(&at(self.bal[i]), d0)?;
            let diff = ideal.minus(&at(new[i].clone())).abs();
            let fee = diff.map(|x| fdiv(&(x * z(self.part())), &z(DEN)));
            let admin = fee.map(|x| fdiv(&(x * z(self.admin)), &z(DEN)));
            bal.push(at(new[i].clone()).minus(&admin));
            kept.push(at(new[i].clone()).minus(&fee));
            fees.push(fee);
        }
        Some((fees, bal, kept))
    }
    pub fn add(&self, amounts: &[u128]) -> Option<Added> {
        let new: Vec<Z> = self.bal.iter().zip(amounts).map(|(b, a)| z(*b) + z(*a)).collect();
        let d1 = self.d(&new)?;
        if self.supply == 0 {
            let bal: Vec<Iv> = new.into_iter().map(at).collect();
            return Some(Added { d0: at(0), mint: d1.clone(), d1, fees: vec![at(0); self.n()], kept: bal.clone(), bal });
        }
        let d0 = self.d(&self.balances())?;
        let (fees, bal, kept) = self.with_fees(&d0, &d1, &new)?;
        let d2 = self.d_of(&kept)?;
        let mint = d2.minus(&d0).muldiv(&at(self.supply), &d0)?;
        Some(Added { d0, d1, bal, fees, kept, mint })
    }
    /// what is burned, but for the one added
    pub fn imbalance(&self, amounts: &[u128]) -> Option<Added> {
        let new: Vec<Z> = self.bal.iter().zip(amounts).map(|(b, a)| z(*b) - z(*a)).collect();
        if new.iter().any(|x| !x.is_positive()) {
            return None;
        }
        let (d0, d1) = (self.d(&self.balances())?, self.d(&new)?);
        let (fees, bal, kept) = self.with_fees(&d0, &d1, &new)?;
        let d2 = self.d_of(&kept)?;
        let mint = d0.minus(&d2).muldiv(&at(self.supply), &d0)?;
        Some(Added { d0, d1: d2, bal, fees, kept, mint })
    }
    pub fn one(&self, lp: u128, index: usize) -> Option<One> {
        let ann = self.ann();
        let xp = self.xp(&self.balances());
        let d0 = d_iv(&xp, &ann)?;
        let d1 = d0.map(|d| d - fdiv(&(z(lp) * d), &z(self.supply)));
        if d1.hi.is_positive() && d1.lo < z(1000) {
            return None;
        }
        let rest = |v: &[Iv]| -> Vec<Iv> { v.iter().enumerate().filter(|(k, _)| *k != index).map(|(_, x)| x.clone()).collect() };
        let whole: Vec<Iv> = xp.iter().cloned().map(at).collect();
        let y = y_iv(&rest(&whole), &d1, &ann)?;
        let mut reduced = vec![];
        let mut expected = at(0);
        for k in 0..self.n() {
            // of the two D the same one is meant: their quotient is known better than each
            let kept = Iv { lo: fdiv(&(&xp[k] * &d1.lo), &d0.lo).min(fdiv(&(&xp[k] * &d1.hi), &d0.hi)) - 1, hi: cdiv(&(&xp[k] * &d1.hi), &d0.hi).max(cdiv(&(&xp[k] * &d1.lo), &d0.lo)) };
            let dx = if k == index { kept.minus(&y) } else { at(xp[k].clone()).minus(&kept) };
            if k == index {
                expected = dx.clone();
            }
            let cut = dx.map(|x| fdiv(&(x * z(self.part())), &z(DEN)));
            reduced.push(at(xp[k].clone()).minus(&cut));
        }
        let y2 = y_iv(&rest(&reduced), &d1, &ann)?;
        let dy = reduced[index].minus(&y2);
        let m = z(self.mult[index]);
        let out = dy.map(|x| fdiv(&(self.plain(index, x) - 1), &m));
        let gross = y.map(|y| fdiv(&(self.plain(index, &xp[index]) - self.plain(index, y)), &m));
        let fee = gross.minus(&out);
        let admin = fee.map(|x| fdiv(&(x * z(self.admin)), &z(DEN)));
        Some(One { out, admin, fee, expected })
    }
    /// how much a unit of the last currency, on the common scale, may matter: in shares, or of another currency
    pub fn last_digit(&self) -> Option<Z> {
        let xp = self.xp(&self.balances());
        let d = d_exact(&xp, &self.ann())?;
        let g: Vec<Z> = (0..xp.len())
            .map(|k| {
                let mut more = xp.clone();
                more[k] += 1;
                Some(d_exact(&more, &self.ann())? - &d)
            })
            .collect::<Option<_>>()?;
        let last = g.last()? + 1;
        let shares = if d.is_positive() { &last * z(self.supply) / &d } else { z(0) };
        let least = g.iter().min()?.max(&z(1)).clone();
        Some(shares.max(last / least) + 1)
    }
    /// a share's worth, times 10^18
    pub fn price(&self) -> Option<Iv> {
        if self.supply == 0 {
            return None;
        }
        self.d(&self.balances())?.muldiv(&at(ONE), &at(self.supply))
    }
}
