//! A step of a simulated run: one line of a replay file.
//!
//! `name a b c | fault=value fault=value`

use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Step {
    pub op: String,
    pub args: Vec<u64>,
    pub faults: Vec<(String, u64)>,
}

impl Step {
    pub fn new(op: &str, args: &[u64]) -> Self {
        Self { op: op.to_string(), args: args.to_vec(), faults: vec![] }
    }

    pub fn fault(mut self, kind: &str, v: u64) -> Self {
        self.faults.push((kind.to_string(), v));
        self
    }

    pub fn arg(&self, i: usize) -> u64 {
        self.args.get(i).copied().unwrap_or(0)
    }

    pub fn get_fault(&self, kind: &str) -> Option<u64> {
        self.faults.iter().find(|(k, _)| k == kind).map(|(_, v)| *v)
    }

    pub fn parse(line: &str) -> Option<Step> {
        let (head, tail) = match line.split_once('|') {
            Some((h, t)) => (h, t),
            None => (line, ""),
        };
        let mut it = head.split_whitespace();
        let op = it.next()?.to_string();
        let args = it.map(|a| a.parse().ok()).collect::<Option<Vec<u64>>>()?;
        let faults = tail
            .split_whitespace()
            .map(|f| {
                let (k, v) = f.split_once('=')?;
                Some((k.to_string(), v.parse().ok()?))
            })
            .collect::<Option<Vec<_>>>()?;
        Some(Step { op, args, faults })
    }
}

impl fmt::Display for Step {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.op)?;
        for a in &self.args {
            write!(f, " {a}")?;
        }
        if !self.faults.is_empty() {
            f.write_str(" |")?;
            for (k, v) in &self.faults {
                write!(f, " {k}={v}")?;
            }
        }
        Ok(())
    }
}
