//! What a session must answer to each line, and what it must do to the stored data.
use super::expr::*;
use super::fmt::{format, Settings};
use num::ToPrimitive;
use std::collections::{BTreeMap, BTreeSet};

/// What the answer to a line must be.
#[derive(Clone, Debug, PartialEq)]
pub enum Judge {
    Exactly(String),
    /// An answer that starts with "Error: ".
    Error,
    /// An answer that is no error.
    Fine,
    /// An answer that is no error, with exactly these words among the ones of its kind (numbers, or true/false/none).
    Words(Vec<String>),
    /// An answer that is no error and contains all of these.
    Mentions(Vec<String>),
    /// One line per variable: its name and whether it must be reported as unchanged.
    Reload(Vec<(String, bool)>),
    /// Any answer that is not empty.
    Answer,
    /// Any answer.
    Any,
    /// Depends on what the property leaves open: nothing that follows can be judged.
    Unclear,
    /// The line is not fed to the program.
    Skip,
}

fn is_error(a: &str) -> bool {
    a.starts_with("Error: ") || a.starts_with("Runtime Error: ")
}

impl Judge {
    pub fn check(&self, line: &str, answer: &str) -> Result<(), String> {
        let wrong = |what: String| Err(format!("`{}` was answered `{}`, must be {}", line, answer, what));
        match self {
            Judge::Exactly(e) if e == answer => Ok(()),
            Judge::Exactly(e) => wrong(format!("`{}`", e)),
            Judge::Error if answer.starts_with("Error: ") => Ok(()),
            Judge::Error => wrong("an error".into()),
            Judge::Fine if !is_error(answer) => Ok(()),
            Judge::Fine => wrong("no error".into()),
            Judge::Words(w) => {
                let kind = |s: &str| {
                    s.chars().all(|c| c.is_ascii_digit()) || matches!(s, "true" | "false" | "none")
                };
                let got: Vec<String> = answer
                    .to_lowercase()
                    .split(|c: char| !c.is_ascii_alphanumeric())
                    .filter(|s| !s.is_empty() && kind(s))
                    .map(|s| s.to_string())
                    .collect();
                if !is_error(answer) && got == *w {
                    Ok(())
                } else {
                    wrong(format!("{:?}", w))
                }
            }
            Judge::Mentions(w) => {
                if !is_error(answer) && w.iter().all(|w| answer.contains(w.as_str())) {
                    Ok(())
                } else {
                    wrong(format!("something that mentions {:?}", w))
                }
            }
            Judge::Reload(names) => {
                if is_error(answer) {
                    return wrong("no error".into());
                }
                for (n, unchanged) in names {
                    let l = answer
                        .lines()
                        .find(|l| l.split(|c: char| c.is_ascii_whitespace() || c == ',').any(|w| w == n || w.trim_end_matches([':', '.', ';']) == n));
                    match l {
                        Some(l) if l.to_lowercase().contains("unchanged") == *unchanged => {}
                        _ => return wrong(format!("a report for {} ({})", n, if *unchanged { "unchanged" } else { "reloaded" })),
                    }
                }
                Ok(())
            }
            Judge::Answer if answer.trim().is_empty() => wrong("an answer".into()),
            Judge::Answer | Judge::Any | Judge::Unclear | Judge::Skip => Ok(()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Help(Option<String>),
    Reload(Vec<String>),
    Purge(Vec<String>),
    Histcap(Option<i64>),
    Get(Setting),
    Set(Setting, Value),
    /// Unknown command or refused argument.
    Bad,
    /// Not specified: such lines are not used.
    Unclear,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Setting {
    Fractional,
    Radix,
    Convert,
    Upper,
    Commas,
    Precision,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Bool(bool),
    Int(i64),
    Pair(i64, i64),
    None,
}

pub enum Kind {
    Blank,
    Command(Cmd),
    /// Contains something that is no token.
    NoTokens,
    /// No complete expression; the variables in it.
    Malformed(BTreeSet<String>),
    Expr(BTreeSet<String>, Line),
}

/// Command names and their aliases.
pub const COMMANDS: &[(&str, &[&str])] = &[
    ("help", &["h"]),
    ("reloadvar", &[]),
    ("purgevar", &[]),
    ("histcap", &[]),
    ("fractional", &["f"]),
    ("radix", &["r"]),
    ("converttoradix", &[]),
    ("upper", &[]),
    ("commas", &["comma"]),
    ("precision", &["p"]),
];

pub fn canonical(name: &str) -> Option<&'static str> {
    COMMANDS.iter().find(|(n, a)| *n == name || a.contains(&name)).map(|(n, _)| *n)
}

/// A list of integers in radix 10: `Err` if it is not one.
fn ints(arg: &str) -> Result<Vec<i64>, ()> {
    let mut out = Vec::new();
    let mut minus = false;
    for t in lex(arg, 10).ok_or(())? {
        match t {
            Tok::Op('-') if !minus => minus = true,
            Tok::Num(v) if v.is_integer() => {
                let n = v.to_integer().to_i64().ok_or(())?;
                out.push(if minus { -n } else { n });
                minus = false;
            }
            _ => return Err(()),
        }
    }
    if minus {
        return Err(());
    }
    Ok(out)
}

fn names(arg: &str) -> Result<Vec<String>, ()> {
    let mut out: Vec<String> = Vec::new();
    for t in lex(arg, 10).ok_or(())? {
        match t {
            Tok::Var(n) => {
                if !out.contains(&n) {
                    out.push(n)
                }
            }
            _ => return Err(()),
        }
    }
    Ok(out)
}

fn command(rest: &str, s: &Settings) -> Cmd {
    let (name, arg) = match rest.split_once(is_space) {
        Some((n, a)) => (n, a),
        None => (rest, ""),
    };
    if arg.trim_start().starts_with('/') && canonical(name) != Some("help") {
        return Cmd::Bad;
    }
    let flag = |which| {
        let a = arg.trim().to_lowercase();
        match a.as_str() {
            "" => Cmd::Get(which),
            "t" | "true" => Cmd::Set(which, Value::Bool(true)),
            "f" | "false" => Cmd::Set(which, Value::Bool(false)),
            _ => Cmd::Bad,
        }
    };
    let radix = |which| match ints(arg).as_deref() {
        Ok([]) => Cmd::Get(which),
        Ok([n]) if (2..=16).contains(n) => Cmd::Set(which, Value::Int(*n)),
        _ => Cmd::Bad,
    };
    match canonical(name) {
        None => Cmd::Bad,
        Some("help") => {
            let a = arg.trim();
            if a.is_empty() {
                Cmd::Help(None)
            } else if canonical(a).is_some() {
                Cmd::Help(Some(a.to_string()))
            } else {
                Cmd::Bad
            }
        }
        Some("reloadvar") => names(arg).map(Cmd::Reload).unwrap_or(Cmd::Bad),
        Some("purgevar") => names(arg).map(Cmd::Purge).unwrap_or(Cmd::Bad),
        Some("histcap") => match ints(arg).as_deref() {
            Ok([]) => Cmd::Histcap(None),
            Ok([n]) if *n >= 1 => Cmd::Histcap(Some(*n)),
            _ => Cmd::Bad,
        },
        Some("fractional") => flag(Setting::Fractional),
        Some("upper") => flag(Setting::Upper),
        Some("commas") => flag(Setting::Commas),
        Some("radix") => radix(Setting::Radix),
        Some("converttoradix") => {
            if arg.trim().to_lowercase() == "none" {
                Cmd::Set(Setting::Convert, Value::None)
            } else {
                radix(Setting::Convert)
            }
        }
        Some("precision") => {
            let byte = |n: i64| (0..=255).contains(&n);
            match ints(arg).as_deref() {
                Ok([]) => Cmd::Get(Setting::Precision),
                Ok([p]) if byte(*p) && p + s.extra as i64 <= 255 => {
                    Cmd::Set(Setting::Precision, Value::Pair(*p, s.extra as i64))
                }
                Ok([p, e]) if byte(*p) && byte(*e) && p + e <= 255 => Cmd::Set(Setting::Precision, Value::Pair(*p, *e)),
                _ => Cmd::Bad,
            }
        }
        Some(_) => Cmd::Unclear,
    }
}

pub fn classify(line: &str, s: &Settings) -> Kind {
    if !line.is_ascii() {
        return Kind::NoTokens;
    }
    if let Some(rest) = line.trim_start_matches(is_space).strip_prefix('/') {
        return Kind::Command(command(rest, s));
    }
    let t = match lex(line, s.radix) {
        None => return Kind::NoTokens,
        Some(t) => t,
    };
    if t.is_empty() {
        return Kind::Blank;
    }
    let vars: BTreeSet<String> = t
        .iter()
        .filter_map(|t| match t {
            Tok::Var(n) => Some(n.clone()),
            _ => None,
        })
        .collect();
    match parse(&t) {
        None => Kind::Malformed(vars),
        Some(l) => Kind::Expr(vars, l),
    }
}

/// The stored data as seen by a session, one call per storage step.
pub trait Storage {
    fn record(&mut self, line: &str);
    /// The recorded line references the variable.
    fn touch(&mut self, name: &str);
    fn load(&mut self, name: &str) -> Option<Q>;
    fn set(&mut self, name: &str, value: &Q);
    fn purge(&mut self, name: &str);
    fn capacity(&mut self) -> i64;
    fn set_capacity(&mut self, n: i64);
}

/// A session's own data. A variable without value has a value that the model does not know.
#[derive(Clone, Debug, Default)]
pub struct Session {
    pub settings: Settings,
    pub vars: BTreeMap<String, Option<Q>>,
    /// Variables are refused, as in `--input` mode.
    pub no_vars: bool,
    /// What a line that failed may have loaded or not, depending on the order in which it was evaluated.
    pub maybe: BTreeMap<String, Q>,
    /// The other order of touches and removals by one line.
    pub reverse: bool,
}

fn ordered<'a>(names: impl IntoIterator<Item = &'a String>, reverse: bool) -> Vec<String> {
    let mut v: Vec<String> = names.into_iter().cloned().collect();
    if reverse {
        v.reverse();
    }
    v
}

impl Session {
    pub fn new(settings: Settings) -> Session {
        Session { settings, ..Session::default() }
    }

    pub fn set_var(&mut self, name: &str, v: Q) {
        self.know(name, Some(v));
    }

    fn know(&mut self, name: &str, v: Option<Q>) {
        self.maybe.remove(name);
        self.vars.insert(name.to_string(), v);
    }

    fn value_of(&mut self, ast: &Ast, store: &mut Option<&mut dyn Storage>) -> Result<Q, No> {
        let mut names = BTreeSet::new();
        fn collect(a: &Ast, out: &mut BTreeSet<String>) {
            match a {
                Ast::Num(_) => {}
                Ast::Var(n) => {
                    out.insert(n.clone());
                }
                Ast::Neg(x) | Ast::Abs(x) | Ast::Sqrt(x) => collect(x, out),
                Ast::Fun(_, v) => v.iter().for_each(|x| collect(x, out)),
                Ast::Bin(_, x, y) => {
                    collect(x, out);
                    collect(y, out)
                }
            }
        }
        collect(ast, &mut names);
        if self.no_vars && !names.is_empty() {
            return Err(No::Error);
        }
        let mut loaded = Vec::new();
        if let Some(s) = store {
            for n in &names {
                if self.vars.contains_key(n) {
                    continue;
                }
                let v = s.load(n);
                if self.maybe.get(n).is_some_and(|m| Some(m) != v.as_ref()) {
                    return Err(No::Unclear);
                }
                if let Some(v) = v {
                    self.know(n, Some(v));
                    loaded.push(n);
                }
            }
        }
        let r = eval_with(ast, &|n| match self.vars.get(n) {
            None => Err(No::Error),
            Some(None) => Err(No::Inexact),
            Some(Some(v)) => Ok(v.clone()),
        });
        if r == Err(No::Error) {
            for n in loaded {
                if let Some(Some(v)) = self.vars.remove(n) {
                    self.maybe.insert(n.clone(), v);
                }
            }
        }
        r
    }

    /// What the answer to the line must be; performs the effects of the line.
    pub fn line(&mut self, line: &str, mut store: Option<&mut dyn Storage>) -> Judge {
        let kind = classify(line, &self.settings);
        // Lines that are too expensive must be known before they have any effect.
        if let Kind::Expr(_, l) = &kind {
            if self.clone().value_of(&l.ast, &mut None) == Err(No::TooBig) {
                return Judge::Skip;
            }
        }
        if matches!(kind, Kind::Command(Cmd::Unclear)) {
            return Judge::Skip;
        }
        if let Some(s) = store.as_mut() {
            s.record(line);
        }
        let reverse = self.reverse;
        let touch = |names: &BTreeSet<String>, store: &mut Option<&mut dyn Storage>| {
            if let Some(s) = store {
                ordered(names, reverse).iter().for_each(|n| s.touch(n));
            }
        };
        match kind {
            Kind::Blank => Judge::Exactly(String::new()),
            Kind::NoTokens => Judge::Error,
            Kind::Malformed(v) => {
                touch(&v, &mut store);
                Judge::Error
            }
            Kind::Expr(v, l) => {
                touch(&v, &mut store);
                let r = self.value_of(&l.ast, &mut store);
                if self.no_vars && l.assign.is_some() {
                    return Judge::Error;
                }
                match r {
                    Ok(value) => {
                        if let Some(n) = l.assign {
                            if let Some(s) = store {
                                s.set(&n, &value);
                            }
                            self.know(&n, Some(value.clone()));
                        }
                        Judge::Exactly(format(&value, &self.settings))
                    }
                    Err(No::Error) => Judge::Error,
                    Err(No::Inexact) => {
                        if let Some(n) = l.assign {
                            self.know(&n, None);
                        }
                        Judge::Any
                    }
                    Err(No::TooBig) => Judge::Skip,
                    Err(No::Unclear) => Judge::Unclear,
                }
            }
            Kind::Command(c) => self.command(c, store),
        }
    }

    fn command(&mut self, c: Cmd, store: Option<&mut dyn Storage>) -> Judge {
        let s = &mut self.settings;
        match c {
            Cmd::Bad => Judge::Error,
            Cmd::Unclear => Judge::Skip,
            Cmd::Help(None) => Judge::Mentions(COMMANDS.iter().map(|(n, _)| n.to_string()).collect()),
            Cmd::Help(Some(n)) => Judge::Mentions(vec![format!("/{}", canonical(&n).unwrap())]),
            Cmd::Get(which) => Judge::Words(match which {
                Setting::Fractional => vec![s.fractional.to_string()],
                Setting::Upper => vec![s.upper.to_string()],
                Setting::Commas => vec![s.commas.to_string()],
                Setting::Radix => vec![s.radix.to_string()],
                Setting::Convert => vec![s.convert.map_or("none".to_string(), |n| n.to_string())],
                Setting::Precision => vec![s.precision.to_string(), s.extra.to_string()],
            }),
            Cmd::Set(which, v) => {
                match (which, v) {
                    (Setting::Fractional, Value::Bool(b)) => s.fractional = b,
                    (Setting::Upper, Value::Bool(b)) => s.upper = b,
                    (Setting::Commas, Value::Bool(b)) => s.commas = b,
                    (Setting::Radix, Value::Int(n)) => s.radix = n as u32,
                    (Setting::Convert, Value::Int(n)) => s.convert = Some(n as u32),
                    (Setting::Convert, Value::None) => s.convert = None,
                    (Setting::Precision, Value::Pair(p, e)) => {
                        s.precision = p as u32;
                        s.extra = e as u32;
                    }
                    _ => unreachable!(),
                }
                Judge::Fine
            }
            Cmd::Purge(_) if self.no_vars => Judge::Error,
            Cmd::Purge(names) => {
                for n in &names {
                    self.vars.remove(n);
                    self.maybe.remove(n);
                }
                if let Some(s) = store {
                    ordered(&names, self.reverse).iter().for_each(|n| s.purge(n));
                }
                Judge::Fine
            }
            Cmd::Reload(names) => match store {
                None => Judge::Error,
                Some(s) => {
                    let mut report = Vec::new();
                    for n in ordered(&names, self.reverse) {
                        match s.load(&n) {
                            Some(v) => {
                                self.know(&n, Some(v));
                                report.push((n.clone(), false));
                            }
                            None => report.push((n.clone(), true)),
                        }
                    }
                    ordered(&names, self.reverse).iter().for_each(|n| s.touch(n));
                    Judge::Reload(report)
                }
            },
            Cmd::Histcap(n) => match (store, n) {
                (None, _) => Judge::Error,
                (Some(s), None) => Judge::Words(vec![s.capacity().to_string()]),
                (Some(s), Some(n)) => {
                    s.set_capacity(n);
                    Judge::Fine
                }
            },
        }
    }
}
