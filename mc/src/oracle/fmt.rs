//! How a value is printed.
use super::expr::Q;
use num::bigint::BigInt;
use num::{Integer, One, Signed, ToPrimitive, Zero};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Settings {
    pub radix: u32,
    pub convert: Option<u32>,
    pub precision: u32,
    pub extra: u32,
    pub fractional: bool,
    pub commas: bool,
    pub upper: bool,
}

impl Default for Settings {
    fn default() -> Self {
        Settings { radix: 10, convert: None, precision: 5, extra: 10, fractional: false, commas: false, upper: false }
    }
}

impl Settings {
    pub fn out_radix(&self) -> u32 {
        self.convert.unwrap_or(self.radix)
    }
}

fn digits(v: &BigInt, radix: u32, upper: bool) -> String {
    if v.is_zero() {
        return "0".to_string();
    }
    let mut v = v.clone();
    let r = BigInt::from(radix);
    let mut out: Vec<char> = Vec::new();
    while !v.is_zero() {
        let (a, b) = v.div_rem(&r);
        let d = b.to_u32().unwrap();
        let c = char::from_digit(d, radix).unwrap();
        out.push(if upper { c.to_ascii_uppercase() } else { c });
        v = a;
    }
    out.into_iter().rev().collect()
}

fn group(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 {
            out.push(',');
        }
        out.push(c);
    }
    out
}

fn int(v: &BigInt, s: &Settings) -> String {
    let d = digits(v, s.out_radix(), s.upper);
    if s.commas {
        group(&d)
    } else {
        d
    }
}

pub fn format(v: &Q, s: &Settings) -> String {
    let sign = if v.is_negative() { "-" } else { "" };
    let v = if v.is_negative() { -v.clone() } else { v.clone() };
    if s.fractional {
        let n = int(v.numer(), s);
        return if v.is_integer() { format!("{}{}", sign, n) } else { format!("{}{}/{}", sign, n, int(v.denom(), s)) };
    }
    let mut scale = BigInt::one();
    for _ in 0..s.precision {
        scale *= s.out_radix();
    }
    let num = v.numer() * &scale;
    let den = v.denom();
    let exact = (&num % den).is_zero();
    let rounded: BigInt = (&num * 2 + den) / (den * 2);
    let (i, f) = rounded.div_rem(&scale);
    let mut frac = digits(&f, s.out_radix(), s.upper);
    while (frac.len() as u32) < s.precision {
        frac.insert(0, '0');
    }
    if s.precision == 0 {
        frac.clear();
    }
    if exact {
        while frac.ends_with('0') {
            frac.pop();
        }
    }
    let point = if frac.is_empty() { "" } else { "." };
    format!("{}{}{}{}", sign, int(&i, s), point, frac)
}
