use crate::model::{ATTO, D};
use world::*;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut r = Rng(0x9E37_79B9_7F4A_7C15);
        for p in parts {
            r.0 ^= *p;
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn percent(&mut self, p: u32) -> bool {
        self.next() % 100 < p as u64
    }
    pub fn pick<T: Clone>(&mut self, s: &[T]) -> T {
        s[self.below(s.len())].clone()
    }
    pub fn weighted<T: Clone>(&mut self, s: &[(T, u32)]) -> T {
        let total: u64 = s.iter().map(|x| x.1 as u64).sum();
        let mut k = self.next() % total;
        for (x, w) in s {
            if k < *w as u64 {
                return x.clone();
            }
            k -= *w as u64;
        }
        unreachable!()
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// A decimal between the bounds, with few or many digits.
    pub fn dec(&mut self, lo: f64, hi: f64) -> D {
        let x = lo + (hi - lo) * self.unit();
        self.digits(x)
    }
    /// The same, spread over the orders of magnitude.
    pub fn log(&mut self, lo: f64, hi: f64) -> D {
        let x = (lo.ln() + (hi.ln() - lo.ln()) * self.unit()).exp();
        self.digits(x)
    }
    pub fn digits(&mut self, x: f64) -> D {
        let d = from_f64(x);
        match self.below(4) {
            0 => d,
            1 => significant(d, 2),
            2 => significant(d, 4),
            _ => d + ATTO * D::from(self.next() % 1_000_000_000) ,
        }
    }
}

pub fn from_f64(x: f64) -> D {
    D::try_from(format!("{:.12}", x).as_str()).unwrap()
}
pub fn to_f64(d: D) -> f64 {
    d.to_string().parse().unwrap()
}

/// The leading digits of a number.
pub fn significant(d: D, n: i32) -> D {
    if d.is_zero() {
        return d;
    }
    let e = to_f64(d).abs().log10().floor() as i32;
    let places = n - 1 - e;
    if places >= 18 {
        d
    } else if places >= 0 {
        d.checked_round(places, RoundingMode::ToZero).unwrap()
    } else {
        let unit = from_f64(10f64.powi(-places));
        (d / unit).checked_round(0, RoundingMode::ToZero).unwrap() * unit
    }
}
