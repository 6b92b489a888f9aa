//! C05: roots and fractional powers.
use crate::drv;
use crate::engine::*;
use crate::oracle::expr::*;
use num::bigint::BigInt;
use num::{One, Signed, ToPrimitive, Zero};

pub struct C05;

/// radix, precision, extra precision
const SETTINGS: &[(u32, u32, u32)] = &[
    (10, 5, 10),
    (10, 0, 0),
    (10, 1, 0),
    (2, 0, 0),
    (2, 3, 2),
    (3, 1, 1),
    (16, 5, 0),
    (7, 0, 4),
    (16, 40, 20),
    (10, 250, 10),
    (2, 255, 255),
];

fn setting(unit: &str) -> (u32, u32, u32) {
    let k: usize = unit.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(0);
    SETTINGS[k]
}

/// The value of what the calculator prints in fractional mode, in radix 10.
fn parse_fraction(s: &str) -> Option<Q> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (n, d) = t.split_once('/').unwrap_or((t, "1"));
    let n: BigInt = n.parse().ok()?;
    let d: BigInt = d.parse().ok()?;
    if d.is_zero() {
        return None;
    }
    let q = Q::new(n, d);
    Some(if neg { -q } else { q })
}

fn radix_expr(v: &Q, radix: u32) -> String {
    let n = v.numer().magnitude().to_str_radix(radix);
    let body = if v.is_integer() { n } else { format!("({}/{})", n, v.denom().to_str_radix(radix)) };
    if v.is_negative() {
        format!("(0-{})", body)
    } else {
        body
    }
}

fn bases(tier: Tier) -> Vec<Q> {
    let mut v: Vec<Q> = Vec::new();
    for n in 0..=tier.pick(40, 130) {
        v.push(q(n, 1));
    }
    for d in 2..=tier.pick(9, 16) {
        for n in 1..=tier.pick(12, 24) {
            v.push(q(n, d));
        }
    }
    for n in [49, 64, 100, 125, 128, 243, 255, 256, 257, 1000, 1024, 4095, 4096, 59049, 65536, 999_999, 1_000_000, 1_000_001] {
        v.push(q(n, 1));
        v.push(q(1, n));
    }
    for e in [19u32, 20, 30, 32, 64] {
        let p = Q::from(BigInt::from(10).pow(e));
        for x in [p.clone(), &p + Q::one(), &p - Q::one(), p.recip(), (&p + Q::one()).recip()] {
            v.push(x);
        }
        let p = Q::from(BigInt::from(2).pow(e * 3));
        for x in [p.clone(), &p + Q::one(), &p - Q::one(), p.recip()] {
            v.push(x);
        }
    }
    let neg: Vec<Q> = v.iter().filter(|x| !x.is_zero()).map(|x| -x.clone()).collect();
    v.extend(neg);
    v.sort();
    v.dedup();
    v
}

fn exponents(tier: Tier) -> Vec<Q> {
    let mut v = Vec::new();
    for d in tier.pick(vec![2, 3, 4, 5, 6, 7, 10, 12, 25], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 25, 99, 100, 101, 250]) {
        for n in tier.pick(vec![1, -1, 2, 3, -3, 5], vec![1, -1, 2, -2, 3, -3, 4, 5, -5, 6, 7, -7, 9, 13, 24]) {
            let e = q(n, d);
            if !e.is_integer() {
                v.push(e);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// |x - r^(1/d)| <= eps?
fn close(x: &Q, r: &Q, d: u64, eps: &Q) -> bool {
    if r.is_negative() {
        return close(&-x, &-r, d, eps);
    }
    let lo = x - eps;
    let hi = x + eps;
    if hi.is_negative() {
        return false;
    }
    (lo.is_negative() || ipow(&lo, d) <= *r) && ipow(&hi, d) >= *r
}

/// Degrees beyond this, and powers of more bits than that, are judged by intervals instead of exact
/// powers.
const HUGE: u64 = 100_000;
const LONG: u64 = 20_000;

/// A positive number between `lo * 2^e` and `hi * 2^e`, both of which are rounded outwards.
#[derive(Clone)]
struct Interval {
    lo: BigInt,
    hi: BigInt,
    e: BigInt,
    bits: u64,
}

impl Interval {
    fn new(lo: BigInt, hi: BigInt, e: BigInt, bits: u64) -> Interval {
        let k = hi.bits().saturating_sub(bits);
        Interval { lo: lo >> k, hi: (hi >> k) + 1u32, e: e + k, bits }
    }

    fn of(x: &Q, bits: u64) -> Interval {
        let k = bits + x.denom().bits();
        let m = (x.numer() << k) / x.denom();
        Interval::new(m.clone(), m + 1u32, -BigInt::from(k), bits)
    }

    fn pow(&self, n: &BigInt) -> Interval {
        let mut r = Interval::of(&Q::one(), self.bits);
        for i in (0..n.bits()).rev() {
            r = Interval::new(&r.lo * &r.lo, &r.hi * &r.hi, &r.e * 2u32, self.bits);
            if n.bit(i) {
                r = Interval::new(&r.lo * &self.lo, &r.hi * &self.hi, &r.e + &self.e, self.bits);
            }
        }
        r
    }

    /// Certainly greater than the other one.
    fn above(&self, o: &Interval) -> bool {
        let (a, b) = (BigInt::from(self.lo.bits()) + &self.e, BigInt::from(o.hi.bits()) + &o.e);
        if a != b {
            return a > b;
        }
        let (x, y) = (self.lo.bits(), o.hi.bits());
        (&self.lo << y.saturating_sub(x)) > (&o.hi << x.saturating_sub(y))
    }
}

/// |x - b^(n/d)| <= eps? `None` if it is too close to call.
fn near(x: &Q, b: &Q, n: &BigInt, d: &BigInt, eps: &Q) -> Option<bool> {
    let bits = 200 + n.bits() + d.bits() + 2 * (eps.denom().bits() + x.numer().bits() + b.numer().bits() + b.denom().bits());
    let r = Interval::of(b, bits).pow(n);
    let hi = x + eps;
    if !hi.is_positive() {
        return Some(false);
    }
    let hi = Interval::of(&hi, bits).pow(d);
    if r.above(&hi) {
        return Some(false);
    }
    let lo = x - eps;
    if lo.is_positive() {
        let lo = Interval::of(&lo, bits).pow(d);
        if lo.above(&r) {
            return Some(false);
        }
        if !r.above(&lo) {
            return None;
        }
    }
    if hi.above(&r) {
        Some(true)
    } else {
        None
    }
}

fn judge(b: &Q, e: &Q, eps: &Q, answer: &str) -> Result<&'static str, String> {
    let long = e.numer().magnitude() * (b.numer().bits() + b.denom().bits()) > LONG.into();
    if long || e.denom().to_u64().map_or(true, |d| d > HUGE) {
        let error = b.is_zero() && e.is_negative() || b.is_negative() && !e.denom().bit(0);
        if error {
            return if answer.starts_with("Error: ") { Ok("errors") } else { Err(format!("{} instead of an error", answer)) };
        }
        let x = parse_fraction(answer).ok_or_else(|| format!("{} instead of a value", answer))?;
        let x = if b.is_negative() && e.numer().bit(0) { -x } else { x };
        let mut b = b.abs();
        if b.is_zero() || b.is_one() {
            return if x == b { Ok("exact") } else { Err(format!("{} instead of +-{}", answer, b)) };
        }
        if e.is_negative() {
            b = b.recip();
        }
        if let Some(root) = e.denom().to_u32().and_then(|d| exact_root(&b, d)) {
            // The root of the base is small, but its power may not be.
            let n = e.numer().magnitude().to_u64().unwrap();
            let r = ipow(&root, n);
            return if x == r { Ok("exact") } else { Err(format!("{} instead of {}", answer, r)) };
        }
        return match near(&x, &b, &e.numer().abs(), e.denom(), eps) {
            Some(true) => Ok("approximate_by_intervals"),
            Some(false) => Err(format!("{} is too far from {}^({})", answer, b, e)),
            None => Ok("too_close_to_call"),
        };
    }
    let d = e.denom().to_u64().unwrap();
    let n = e.numer().magnitude().to_u64().unwrap();
    if b.is_zero() && e.is_negative() || b.is_negative() && d % 2 == 0 {
        return if answer.starts_with("Error: ") { Ok("errors") } else { Err(format!("{} instead of an error", answer)) };
    }
    let mut r = ipow(b, n);
    if e.is_negative() {
        r = r.recip();
    }
    let x = parse_fraction(answer).ok_or_else(|| format!("{} instead of a value", answer))?;
    if let Some(root) = exact_root(&r, d as u32) {
        return if x == root { Ok("exact") } else { Err(format!("{} instead of {}", x, root)) };
    }
    if x.is_negative() && !r.is_negative() || x.is_positive() && r.is_negative() {
        return Err(format!("{} has the wrong sign", answer));
    }
    if close(&x, &r, d, eps) {
        Ok("approximate")
    } else {
        Err(format!("{} is too far from the root of degree {} of {}", answer, d, r))
    }
}

fn parse_case(case: &str) -> Option<(String, Q, Q)> {
    let mut it = case.split('\t');
    let line = it.next()?.to_string();
    let b = parse_fraction(it.next()?)?;
    let e = parse_fraction(it.next()?)?;
    Some((line, b, e))
}

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        let mut v = Vec::new();
        for (k, (r, p, e)) in SETTINGS.iter().enumerate() {
            let (r, p, e) = (r.to_string(), p.to_string(), e.to_string());
            v.push(unit(
                &format!("grid{}", k),
                &["--no-db", "-f", "--convert-to-radix", "10", "-r", &r, "-p", &p, "--extra-precision", &e],
                tier.pick(4, 8),
            ));
        }
        v
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let (radix, p, e) = setting(unit);
        let tier = ctx.tier;
        let eps = Q::new(BigInt::one(), BigInt::from(radix).pow(p + e));
        let mut cases: Vec<(String, Q, Q)> = Vec::new();
        let mut i = 0u64;
        let heavy = p + e > 100;
        for b in bases(tier) {
            for x in exponents(tier) {
                let d = x.denom().to_u64().unwrap();
                let n = x.numer().magnitude().to_u64().unwrap();
                if heavy && (d > 12 || i % tier.pick(7, 3) != 0) {
                    i += 1;
                    continue;
                }
                if n * (b.numer().bits() + b.denom().bits()) > 20_000 {
                    continue;
                }
                i += 1;
                if !ctx.mine(i / 8) {
                    continue;
                }
                let be = radix_expr(&b, radix);
                cases.push((format!("{}^{}", be, radix_expr(&x, radix)), b.clone(), x.clone()));
                if x == q(1, 2) {
                    cases.push((format!("sqrt {}", be), b.clone(), x.clone()));
                }
            }
        }
        // High degrees.
        for d in [1000i64, 999, 4001, 10007] {
            for b in [q(2, 1), q(1, 2), q(10, 1), q(3, 7), q(1_000_000, 1), q(-5, 1), q(-5, 3)] {
                i += 1;
                if ctx.mine(i) && !heavy && p + e < 20 {
                    cases.push((format!("{}^(1/{})", radix_expr(&b, radix), BigInt::from(d).to_str_radix(radix)), b, q(1, d)));
                }
            }
        }
        // Degrees around the sizes of machine words.
        for k in [31u32, 32, 33, 63, 64, 65, 128] {
            for off in [-2i64, -1, 0, 1, 2, 3] {
                let d = BigInt::from(2).pow(k) + off;
                for n in [1i64, -1, 3, 2] {
                    for b in [q(4, 1), q(1, 4), q(1000, 1), q(-8, 1), q(-3, 7), q(0, 1), q(1, 1), q(-1, 1)] {
                        i += 1;
                        let x = Q::new(BigInt::from(n), d.clone());
                        if ctx.mine(i) && p + e < 100 {
                            cases.push((format!("{}^{}", radix_expr(&b, radix), radix_expr(&x, radix)), b, x));
                        }
                    }
                }
            }
        }
        // Exponents of many digits, whose numerators alone would give enormous powers.
        let decimals: [(u64, u32); 14] = [
            (1234567, 7),
            (1234567, 5),
            (123456789, 9),
            (314159265, 8),
            (141421356237309505, 17),
            (999999999999, 12),
            (1000001, 6),
            (1000000000001, 12),
            (5, 10),
            (12345678901234567, 16),
            (100001, 4),
            (7999999, 6),
            (3333333333333333333, 19),
            (10000000005, 9),
        ];
        for b in [q(2, 1), q(1, 2), q(15, 2), q(21, 20), q(10, 1), q(3, 7), q(4, 1), q(1_000_001, 1_000_000), q(999, 1000), q(-5, 1), q(-5, 3), q(1, 1), q(-1, 1), q(0, 1)] {
            let mut xs: Vec<(Q, Option<String>)> = Vec::new();
            for (n, k) in &decimals {
                let t = format!("{:0>w$}", n, w = *k as usize + 1);
                let (a, f) = t.split_at(t.len() - *k as usize);
                xs.push((Q::new(BigInt::from(*n), BigInt::from(10).pow(*k)), Some(format!("{}.{}", a, f))));
            }
            for (n, d) in [(1_000_001u64, 1_000_003u64), (1_000_002, 1_000_003), (u64::MAX, u64::MAX - 1), (u64::MAX - 1, u64::MAX), (1 << 63, u64::MAX), (20_000_000_003, 10_000_000_001)] {
                xs.push((Q::new(n.into(), d.into()), None));
                // A numerator beyond any word.
                let m = BigInt::from(n) * d * d;
                xs.push((Q::new(m.clone() + 2u32, m), None));
            }
            for (x, text) in xs {
                for x in [x.clone(), -x] {
                    i += 1;
                    if x.is_integer() || !ctx.mine(i) || heavy && i % tier.pick(9, 2) != 0 {
                        continue;
                    }
                    let xe = match &text {
                        Some(t) if radix == 10 => format!("{}{}", if x.is_negative() { "-" } else { "" }, t),
                        _ => radix_expr(&x, radix),
                    };
                    cases.push((format!("{}^{}", radix_expr(&b, radix), xe), b.clone(), x));
                }
            }
        }
        for chunk in cases.chunks(500) {
            let mut k = 0;
            let mut errors: Vec<(usize, String)> = Vec::new();
            let mut counts: Vec<&'static str> = Vec::new();
            let c = &mut *ctx;
            let ended = drv::run_lines(&mut |a| {
                if let Some(a) = a {
                    let (l, b, x) = &chunk[k - 1];
                    match judge(b, x, &eps, a) {
                        Ok(kind) => counts.push(kind),
                        Err(m) => errors.push((k - 1, format!("{}: {}", l, m))),
                    }
                    c.distinct("states", hash_of(l));
                    c.sample(|| format!("{} -> {}", l, a));
                }
                if k >= chunk.len() || errors.len() >= 3 {
                    return None;
                }
                k += 1;
                let (l, b, x) = &chunk[k - 1];
                c.case(&format!("{}\t{}\t{}", l, b, x));
                Some(l.clone())
            });
            if let Some(m) = ended.problem() {
                errors.push((k.saturating_sub(1), m));
            }
            for kind in counts {
                ctx.count(kind, 1);
            }
            ctx.count("transitions", k as u64);
            ctx.count("traces_validated_against_impl", 1);
            for (k, m) in errors {
                let (l, b, x) = &chunk[k];
                ctx.violation(vec![format!("{}\t{}\t{}", l, b, x)], &m);
            }
            if ctx.stop() {
                return;
            }
        }
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        ctx.case(case);
        let (radix, p, e) = setting(unit);
        let eps = Q::new(BigInt::one(), BigInt::from(radix).pow(p + e));
        let (line, b, x) = parse_case(case).ok_or("bad case")?;
        let a = drv::ask(&[&line])?;
        let a = a.first().ok_or("not answered")?;
        judge(&b, &x, &eps, a).map(|_| ()).map_err(|m| format!("{}: {}", line, m))
    }

    fn rule(&self) -> &'static str {
        "the exact rational that the calculator uses (printed in fractional mode) is compared with the true root by exact interval arithmetic"
    }
}
