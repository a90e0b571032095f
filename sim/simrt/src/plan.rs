//! A plan is the complete, explicit description of one simulated run: the
//! workload, the faults and the preemptions. It is generated from the seed,
//! minimised line by line, and is what a replay file holds.

use model::rng::Rng;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pre {
    pub step: u64,
    pub to: u32,
    pub edge: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub kw: String,
    pub sub: String,
    pub args: Vec<(String, i64)>,
}

impl Line {
    pub fn new(kw: &str, sub: &str, args: &[(&str, i64)]) -> Line {
        Line {
            kw: kw.into(),
            sub: sub.into(),
            args: args.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.args.iter().find(|a| a.0 == k).map(|a| a.1).unwrap_or(0)
    }
    pub fn parse(s: &str) -> Option<Line> {
        let mut it = s.split_whitespace();
        let kw = it.next()?.to_string();
        let mut sub = String::from("-");
        let mut args = Vec::new();
        for (i, w) in it.enumerate() {
            match w.split_once('=') {
                Some((k, v)) => args.push((k.to_string(), v.parse().ok()?)),
                None if i == 0 => sub = w.to_string(),
                None => return None,
            }
        }
        Some(Line { kw, sub, args })
    }
}

impl fmt::Display for Line {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {}", self.kw, self.sub)?;
        for (k, v) in &self.args {
            write!(f, " {k}={v}")?;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub lines: Vec<Line>,
}

impl Plan {
    pub fn push(&mut self, kw: &str, sub: &str, args: &[(&str, i64)]) {
        self.lines.push(Line::new(kw, sub, args));
    }
    pub fn of<'a>(&'a self, kw: &'a str) -> impl Iterator<Item = &'a Line> + 'a {
        self.lines.iter().filter(move |l| l.kw == kw)
    }
    /// Forced switches: at a scheduling step, or that many branches of
    /// instrumented code after it.
    pub fn preemptions(&self) -> Vec<Pre> {
        let mut v: Vec<Pre> = self
            .of("pre")
            .map(|l| Pre { step: l.get("step") as u64, to: l.get("to") as u32, edge: l.get("edge") as u64 })
            .collect();
        v.sort();
        v
    }
    pub fn push_pre(&mut self, r: &mut Rng, span: i64) {
        let mut a = vec![("step", r.range(1, span)), ("to", r.range(0, 4))];
        if r.chance(2, 5) {
            let most = 1 << r.range(1, 13);
            a.push(("edge", r.range(1, most)));
        }
        self.push("pre", "-", &a);
    }
    pub fn parse(s: &str) -> Plan {
        Plan {
            lines: s
                .lines()
                .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
                .filter_map(Line::parse)
                .collect(),
        }
    }
}

impl fmt::Display for Plan {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for l in &self.lines {
            writeln!(f, "{l}")?;
        }
        Ok(())
    }
}
