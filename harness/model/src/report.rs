//! One-line records the harness programs print for the driver to collect.

use std::collections::BTreeMap;
use std::io::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: u64,
    pub max_print: u64,
    pub known: BTreeMap<String, (u64, String)>,
}

impl Report {
    pub fn new() -> Self {
        Report { max_print: 20, ..Default::default() }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 6 {
            self.samples.push(s.into());
        }
    }
    /// `what`: one line; `input`: the failing input; `repro`: Rust source.
    pub fn violation(&mut self, what: &str, input: &str, repro: &str) {
        self.violations += 1;
        if self.violations <= self.max_print {
            println!(
                "MC {{\"kind\":\"violation\",\"what\":{},\"input\":{},\"repro\":{}}}",
                esc(what),
                esc(input),
                esc(repro)
            );
            std::io::stdout().flush().ok();
        }
    }
    /// A deviation in the exact form that a known finding describes.
    pub fn candidate_known(&mut self, key: &str, what: &str) {
        let e = self.known.entry(key.to_string()).or_insert((0, what.to_string()));
        e.0 += 1;
    }
    pub fn finish(&self) {
        for (k, (n, w)) in &self.known {
            println!("MC {{\"kind\":\"known\",\"key\":{},\"n\":{n},\"what\":{}}}", esc(k), esc(w));
        }
        for s in &self.samples {
            println!("MC {{\"kind\":\"sample\",\"text\":{}}}", esc(s));
        }
        for (k, n) in &self.counts {
            println!("MC {{\"kind\":\"count\",\"key\":{},\"n\":{n}}}", esc(k));
        }
        println!("MC {{\"kind\":\"done\",\"violations\":{}}}", self.violations);
    }
}
