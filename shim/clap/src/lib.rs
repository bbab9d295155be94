//! Stand-in for clap: the derive macros for arguments, options, subcommands and value enums that
//! linkspace uses, with clap's way of reading a command line. No help texts.
pub use clap_derive::{Args, Parser, Subcommand, ValueEnum};

pub enum ArgAction {
    Append,
    Count,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Flag,
    Count,
    /// takes a value; may be given more than once
    Opt(bool),
    /// may be given more than once; only after `--`
    Pos(bool, bool),
}
#[derive(Clone, Debug)]
pub struct Def {
    pub key: &'static str,
    pub long: Vec<String>,
    pub short: Option<char>,
    pub kind: Kind,
    pub env: Option<&'static str>,
    pub default: Option<&'static str>,
    pub global: bool,
    pub conflicts: Vec<&'static str>,
    pub requires: Vec<&'static str>,
}
#[derive(Default, Debug)]
pub struct Matches {
    pub vals: Vec<(&'static str, Vec<String>)>,
    pub sub: Option<(String, Vec<String>)>,
    pub globals: Vec<Def>,
}
pub type Res<T> = Result<T, String>;
impl Matches {
    pub fn of(&self, key: &str) -> Option<&Vec<String>> {
        self.vals.iter().find(|v| v.0 == key).map(|v| &v.1)
    }
    fn push(&mut self, key: &'static str, v: String) {
        match self.vals.iter_mut().find(|x| x.0 == key) {
            Some(x) => x.1.push(v),
            None => self.vals.push((key, vec![v])),
        }
    }
    fn set(&mut self, d: &Def, v: String) -> Res<()> {
        if self.of(d.key).is_some() && matches!(d.kind, Kind::Flag | Kind::Opt(false) | Kind::Pos(false, _)) {
            return Err(format!("{} given more than once", d.key));
        }
        self.push(d.key, v);
        Ok(())
    }
    pub fn all<T: std::str::FromStr>(&self, d: &Def) -> Res<Option<Vec<T>>>
    where
        T::Err: std::fmt::Display,
    {
        let env = || d.env.and_then(|e| std::env::var(e).ok()).map(|v| vec![v]);
        let vals = self.of(d.key).cloned().or_else(env).or_else(|| d.default.map(|v| vec![v.to_string()]));
        let Some(vals) = vals else { return Ok(None) };
        vals.iter().map(|v| v.parse().map_err(|e| format!("{}: {v:?}: {e}", d.key))).collect::<Res<Vec<T>>>().map(Some)
    }
    pub fn one<T: std::str::FromStr>(&self, d: &Def) -> Res<Option<T>>
    where
        T::Err: std::fmt::Display,
    {
        Ok(self.all(d)?.and_then(|v: Vec<T>| v.into_iter().last()))
    }
    pub fn flag(&self, d: &Def) -> bool {
        self.of(d.key).is_some() || d.env.and_then(|e| std::env::var(e).ok()).is_some_and(|v| !matches!(v.to_lowercase().as_str(), "" | "n" | "no" | "f" | "false" | "off" | "0"))
    }
    pub fn count(&self, d: &Def) -> usize {
        self.of(d.key).map_or(0, |v| v.len())
    }
}
pub fn read(defs: &[Def], subs: &[Vec<String>], any_sub: bool, globals: &[Def], args: &[String]) -> Res<Matches> {
    let mut m = Matches::default();
    m.globals = globals.iter().chain(defs).filter(|d| d.global).cloned().collect();
    let find_long = |n: &str| defs.iter().chain(globals).find(|d| d.long.iter().any(|l| l == n)).cloned();
    let find_short = |c: char| defs.iter().chain(globals).find(|d| d.short == Some(c)).cloned();
    let mut pos = defs.iter().filter(|d| matches!(d.kind, Kind::Pos(_, false))).cloned().collect::<std::collections::VecDeque<Def>>();
    let last = defs.iter().find(|d| matches!(d.kind, Kind::Pos(_, true))).cloned();
    let mut i = 0;
    let mut plain = false;
    while i < args.len() {
        let a = args[i].clone();
        i += 1;
        if !plain && a == "--" {
            if let Some(l) = &last {
                for v in &args[i..] {
                    m.set(l, v.clone())?;
                }
                break;
            }
            plain = true;
            continue;
        }
        if !plain && a.starts_with("--") {
            let (n, v) = match a[2..].split_once('=') {
                Some((n, v)) => (n, Some(v.to_string())),
                None => (&a[2..], None),
            };
            let d = find_long(n).ok_or_else(|| format!("unknown option {a}"))?;
            match d.kind {
                Kind::Flag | Kind::Count if v.is_some() => return Err(format!("{a}: takes no value")),
                Kind::Flag | Kind::Count => m.set(&d, String::new())?,
                _ => {
                    let v = match v {
                        Some(v) => v,
                        None => {
                            i += 1;
                            args.get(i - 1).filter(|v| *v == "-" || !v.starts_with('-')).cloned().ok_or_else(|| format!("{a}: no value"))?
                        }
                    };
                    m.set(&d, v)?
                }
            }
            continue;
        }
        if !plain && a.len() > 1 && a.starts_with('-') {
            let mut cs = a[1..].char_indices();
            while let Some((at, c)) = cs.next() {
                let d = find_short(c).ok_or_else(|| format!("unknown option -{c}"))?;
                if matches!(d.kind, Kind::Flag | Kind::Count) {
                    m.set(&d, String::new())?;
                    continue;
                }
                let rest = &a[1 + at + c.len_utf8()..];
                let v = if rest.is_empty() {
                    i += 1;
                    args.get(i - 1).filter(|v| *v == "-" || !v.starts_with('-')).cloned().ok_or_else(|| format!("{a}: no value"))?
                } else {
                    rest.strip_prefix('=').unwrap_or(rest).to_string()
                };
                m.set(&d, v)?;
                break;
            }
            continue;
        }
        let known = subs.iter().find(|s| s.iter().any(|n| *n == a));
        if !plain && (known.is_some() || (any_sub && pos.is_empty())) {
            m.sub = Some((known.map_or(a, |s| s[0].clone()), args[i..].to_vec()));
            break;
        }
        match pos.front() {
            Some(d) if d.kind == Kind::Pos(true, false) => {
                let d = d.clone();
                m.set(&d, a)?
            }
            Some(_) => {
                let d = pos.pop_front().unwrap();
                m.set(&d, a)?
            }
            None => return Err(format!("unexpected argument {a:?}")),
        }
    }
    for d in defs {
        if m.of(d.key).is_some() {
            if let Some(c) = d.conflicts.iter().find(|c| **c != d.key && m.of(c).is_some()) {
                return Err(format!("{} conflicts with {c}", d.key));
            }
            if let Some(c) = d.requires.iter().find(|c| m.of(c).is_none()) {
                return Err(format!("{} requires {c}", d.key));
            }
        }
    }
    Ok(m)
}
pub trait Args: Sized {
    fn defs(out: &mut Vec<Def>);
    /// names of the subcommands, and whether others are accepted
    fn subs() -> (Vec<Vec<String>>, bool) {
        (vec![], false)
    }
    fn take(m: &mut Matches) -> Res<Self>;
}
pub trait Subcommand: Sized {
    fn names() -> (Vec<Vec<String>>, bool);
    fn parse_sub(name: &str, args: &[String], m: &mut Matches) -> Res<Self>;
}
pub fn parse_args<T: Args>(args: &[String], m: &mut Matches) -> Res<T> {
    let mut defs = vec![];
    T::defs(&mut defs);
    let (subs, any) = T::subs();
    let globals = m.globals.clone();
    let mut inner = read(&defs, &subs, any, &globals, args)?;
    let r = T::take(&mut inner)?;
    // global options given below belong to the command above
    for (k, v) in inner.vals {
        if globals.iter().any(|g| g.key == k) && m.of(k).is_none() {
            m.vals.push((k, v));
        }
    }
    Ok(r)
}
pub trait Parser: Args {
    fn parse() -> Self {
        let args: Vec<String> = std::env::args().skip(1).collect();
        match parse_args::<Self>(&args, &mut Matches::default()) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("error: usage: {e}");
                std::process::exit(2)
            }
        }
    }
}
