//! Runs functions of the real crate on concrete inputs: one request per input
//! line, one JSON result per output line.
mod calc;
mod codec;
mod proc;
use std::io::{self, BufRead, Write};
use std::panic;

pub type Args<'a> = std::iter::Peekable<std::str::SplitAsciiWhitespace<'a>>;

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let out = io::stdout();
    let mut out = io::BufWriter::new(out.lock());
    for line in io::stdin().lock().lines() {
        let line = line.unwrap();
        let r = panic::catch_unwind(|| run(&line));
        let s = match r {
            Ok(s) => s,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                format!("[\"panic\",{:?}]", m.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\' && *c != '\n').take(120).collect::<String>())
            }
        };
        writeln!(out, "{}", s).unwrap();
    }
}

fn run(line: &str) -> String {
    let mut a = line.split_ascii_whitespace().peekable();
    let key = a.next().expect("key").to_string();
    if let Some(s) = calc::run(&key, &mut a) {
        return s;
    }
    if let Some(s) = codec::run(&key, &mut a) {
        return s;
    }
    if let Some(s) = proc::run(&key, &mut a) {
        return s;
    }
    format!("[\"unknown\",{:?}]", key)
}
