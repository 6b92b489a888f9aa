//! What a line means: lexer, recogniser and exact evaluator.
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{BigUint, One, Signed, ToPrimitive, Zero};

pub type Q = BigRational;

pub fn q(n: i64, d: i64) -> Q {
    Q::new(BigInt::from(n), BigInt::from(d))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(Q),
    Var(String),
    Sqrt,
    Abs,
    Fun(bool), // true: max
    Op(char),
    Open,
    Close,
    Comma,
    Assign,
}

fn digit(c: char) -> Option<u32> {
    match c {
        '0'..='9' => Some(c as u32 - '0' as u32),
        'a'..='z' => Some(c as u32 - 'a' as u32 + 10),
        'A'..='Z' => Some(c as u32 - 'A' as u32 + 10),
        _ => None,
    }
}

/// The value of a number literal, if it is one.
pub fn literal(word: &str, radix: u32) -> Option<Q> {
    let mut value = BigInt::zero();
    let mut scale = BigInt::one();
    let mut point = false;
    let mut digits = 0;
    for c in word.chars() {
        if c == '_' {
            continue;
        }
        if c == '.' {
            if point {
                return None;
            }
            point = true;
            continue;
        }
        let d = digit(c)?;
        if d >= radix {
            return None;
        }
        digits += 1;
        value = value * radix + d;
        if point {
            scale *= radix;
        }
    }
    if digits == 0 {
        return None;
    }
    Some(Q::new(value, scale))
}

pub fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')
}

/// `None`: the line contains something that is no token.
pub fn lex(line: &str, radix: u32) -> Option<Vec<Tok>> {
    let mut out = Vec::new();
    let mut word = String::new();
    for c in line.chars().chain(std::iter::once(' ')) {
        if !c.is_ascii() {
            return None;
        }
        let single = "+-*/%^()=,".contains(c);
        if !single && !is_space(c) {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            let w = std::mem::take(&mut word);
            out.push(if w.starts_with('$') {
                Tok::Var(w)
            } else {
                match w.as_str() {
                    "sqrt" => Tok::Sqrt,
                    "abs" => Tok::Abs,
                    "max" => Tok::Fun(true),
                    "min" => Tok::Fun(false),
                    _ => Tok::Num(literal(&w, radix)?),
                }
            });
        }
        match c {
            '(' => out.push(Tok::Open),
            ')' => out.push(Tok::Close),
            ',' => out.push(Tok::Comma),
            '=' => out.push(Tok::Assign),
            _ if single => out.push(Tok::Op(c)),
            _ => {}
        }
    }
    Some(out)
}

#[derive(Clone, Debug)]
pub enum Ast {
    Num(Q),
    Var(String),
    Neg(Box<Ast>),
    Sqrt(Box<Ast>),
    Abs(Box<Ast>),
    Fun(bool, Vec<Ast>),
    Bin(char, Box<Ast>, Box<Ast>),
}

struct Parser<'a> {
    t: &'a [Tok],
    i: usize,
}

fn level(op: char) -> u32 {
    match op {
        '^' => 4,
        '%' => 3,
        '*' | '/' => 2,
        _ => 1,
    }
}

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }

    fn operand(&mut self) -> Option<Ast> {
        let t = self.peek()?;
        self.i += 1;
        Some(match t {
            Tok::Num(v) => Ast::Num(v.clone()),
            Tok::Var(n) => Ast::Var(n.clone()),
            Tok::Op('-') => Ast::Neg(Box::new(self.operand()?)),
            Tok::Sqrt => Ast::Sqrt(Box::new(self.operand()?)),
            Tok::Abs => Ast::Abs(Box::new(self.operand()?)),
            Tok::Open => {
                let e = self.expr(1)?;
                self.expect(Tok::Close)?;
                e
            }
            Tok::Fun(max) => {
                if self.peek() == Some(&Tok::Open) {
                    self.i += 1;
                    let mut args = vec![self.expr(1)?];
                    while self.peek() == Some(&Tok::Comma) {
                        self.i += 1;
                        args.push(self.expr(1)?);
                    }
                    self.expect(Tok::Close)?;
                    Ast::Fun(*max, args)
                } else {
                    Ast::Fun(*max, vec![self.operand()?])
                }
            }
            _ => return None,
        })
    }

    fn expect(&mut self, t: Tok) -> Option<()> {
        if self.peek() == Some(&t) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }

    fn expr(&mut self, min: u32) -> Option<Ast> {
        let mut left = self.operand()?;
        while let Some(Tok::Op(o)) = self.peek() {
            if level(*o) < min {
                break;
            }
            self.i += 1;
            let right = self.expr(level(*o) + 1)?;
            left = Ast::Bin(*o, Box::new(left), Box::new(right));
        }
        Some(left)
    }
}

#[derive(Clone, Debug)]
pub struct Line {
    pub assign: Option<String>,
    pub ast: Ast,
}

/// `None`: not a complete expression.
pub fn parse(t: &[Tok]) -> Option<Line> {
    let (assign, rest) = match t {
        [Tok::Var(n), Tok::Assign, rest @ ..] => (Some(n.clone()), rest),
        _ => (None, t),
    };
    let mut p = Parser { t: rest, i: 0 };
    let ast = p.expr(1)?;
    if p.i != rest.len() {
        return None;
    }
    Some(Line { assign, ast })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum No {
    /// The property leaves the value open (an irrational root is involved).
    Inexact,
    /// An error must be reported.
    Error,
    /// Too expensive to be fed to the program.
    TooBig,
    /// The properties leave open which value a variable has.
    Unclear,
}

fn bits(v: &Q) -> u64 {
    v.numer().bits() + v.denom().bits()
}

pub fn ipow(b: &Q, n: u64) -> Q {
    let mut r = Q::one();
    let mut base = b.clone();
    let mut n = n;
    while n > 0 {
        if n & 1 == 1 {
            r = &r * &base;
        }
        n >>= 1;
        if n > 0 {
            base = &base * &base;
        }
    }
    r
}

/// The integer d-th root if `v` is a d-th power of an integer.
pub fn exact_root(v: &Q, d: u32) -> Option<Q> {
    if !v.is_integer() {
        return None;
    }
    let m: BigUint = v.numer().magnitude().clone();
    let r = m.nth_root(d);
    if r.pow(d) == m {
        let r = BigInt::from(r);
        Some(Q::from(if v.is_negative() { -r } else { r }))
    } else {
        None
    }
}

pub fn power(b: &Q, e: &Q) -> Result<Q, No> {
    if b.is_zero() && e.is_negative() {
        return Err(No::Error);
    }
    if e.is_integer() && bits(e) < 1000 {
        // Any exponent will do for these.
        if b.is_zero() {
            return Ok(if e.is_zero() { Q::one() } else { Q::zero() });
        }
        if b.numer().magnitude().is_one() && b.is_integer() {
            return Ok(if e.numer().bit(0) { b.clone() } else { Q::one() });
        }
    }
    if !e.is_integer() && bits(e) < 1000 {
        if b.is_zero() || b.is_one() {
            return Ok(b.clone());
        }
        if (-b).is_one() {
            return match (e.numer().bit(0), e.denom().bit(0)) {
                (_, false) => Err(No::Error),
                (true, true) => Ok(b.clone()),
                (false, true) => Ok(Q::one()),
            };
        }
    }
    let n = e.numer().magnitude().to_u64().ok_or(No::TooBig)?;
    let d = e.denom().magnitude().to_u64().ok_or(No::TooBig)?;
    if n.saturating_mul(bits(b)) > 40_000 {
        return Err(No::TooBig);
    }
    let mut r = ipow(b, n);
    if e.is_negative() {
        r = r.recip();
    }
    if d == 1 {
        return Ok(r);
    }
    if d > 2000 || bits(&r) > 20_000 {
        return Err(No::TooBig);
    }
    if r.is_negative() && d % 2 == 0 {
        return Err(No::Error);
    }
    exact_root(&r, d as u32).ok_or(No::Inexact)
}

pub fn rem_trunc(a: &Q, b: &Q) -> Q {
    let quot = (a / b).trunc();
    a - b * quot
}

/// The worse of two failures wins; values of both sides are needed for the rest.
fn both(a: Result<Q, No>, b: Result<Q, No>) -> Result<(Q, Q), No> {
    match (a, b) {
        (Ok(a), Ok(b)) => Ok((a, b)),
        (Err(a), Err(b)) => Err(a.max(b)),
        (Err(a), _) => Err(a),
        (_, Err(b)) => Err(b),
    }
}

pub fn eval_with(a: &Ast, vars: &dyn Fn(&str) -> Result<Q, No>) -> Result<Q, No> {
    let r = match a {
        Ast::Num(v) => v.clone(),
        Ast::Var(n) => vars(n)?,
        Ast::Neg(x) => -eval_with(x, vars)?,
        Ast::Abs(x) => {
            let v = eval_with(x, vars)?;
            if v.is_negative() {
                -v
            } else {
                v
            }
        }
        Ast::Sqrt(x) => power(&eval_with(x, vars)?, &q(1, 2))?,
        Ast::Fun(is_max, args) => {
            let mut best: Result<Option<Q>, No> = Ok(None);
            for x in args {
                let v = eval_with(x, vars);
                best = match (best, v) {
                    (Ok(None), Ok(v)) => Ok(Some(v)),
                    (Ok(Some(b)), Ok(v)) => Ok(Some(if (v > b) == *is_max { v } else { b })),
                    (Ok(_), Err(e)) => Err(e),
                    (Err(e), Ok(_)) => Err(e),
                    (Err(e), Err(f)) => Err(e.max(f)),
                };
            }
            best?.unwrap()
        }
        Ast::Bin(op, x, y) => {
            let x = eval_with(x, vars);
            let y = eval_with(y, vars);
            // Division by zero is an error whatever the dividend.
            if let (Err(No::Inexact), Ok(d)) = (&x, &y) {
                if d.is_zero() && (*op == '/' || *op == '%') {
                    return Err(No::Error);
                }
            }
            // The cost of an inexact operand is unknown.
            if *op == '^' && (x == Err(No::Inexact) || y == Err(No::Inexact)) {
                return Err(No::TooBig);
            }
            let (x, y) = both(x, y)?;
            match op {
                '+' => x + y,
                '-' => x - y,
                '*' => x * y,
                '/' if y.is_zero() => return Err(No::Error),
                '/' => x / y,
                '%' if y.is_zero() => return Err(No::Error),
                '%' => rem_trunc(&x, &y),
                _ => power(&x, &y)?,
            }
        }
    };
    if bits(&r) > 100_000 {
        return Err(No::TooBig);
    }
    Ok(r)
}
