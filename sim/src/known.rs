//! Known findings: genuine defects that are recorded rather than repaired.
//!
//! `known_findings.txt` identifies each by a specific input. A check runs the input against the real
//! code in a child process; if it still fails the finding is reported as known, and nothing else is
//! ever suppressed by it.
use crate::model::*;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::ILTagFactory;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Known {
    pub lines: Vec<String>,
    pub violation: Option<String>,
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    l.split_whitespace().find_map(|w| w.strip_prefix(k))
}

pub fn run(prop: &str, _dir: &Path) -> Known {
    let mut out = Known::default();
    let text = std::fs::read_to_string(crate::root().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let l = match l.strip_prefix("known: ") {
            Some(l) => l,
            None => continue,
        };
        if field(l, "property=") != Some(prop) {
            continue;
        }
        let input = field(l, "input=").unwrap_or("");
        let what = l.split(" -- ").nth(1).unwrap_or("");
        if fails(input) {
            out.lines.push(format!("KNOWN-FINDING: property={} input={} {}", prop, input, what));
        }
    }
    out
}

/// The process handling the input is ended by a signal.
fn fails(input: &str) -> bool {
    let mut k = match Command::new(std::env::current_exe().unwrap())
        .args(["deep", input])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(k) => k,
        Err(_) => return false,
    };
    let t = Instant::now();
    loop {
        match k.try_wait() {
            Ok(Some(st)) => return st.signal().is_some(),
            Ok(None) if t.elapsed() < Duration::from_secs(60) => std::thread::sleep(Duration::from_millis(5)),
            _ => {
                let _ = k.kill();
                let _ = k.wait();
                return false;
            }
        }
    }
}

/// `depth` sequences, each the only child of the one around it.
pub fn nested_sequences(depth: u64) -> Vec<u8> {
    // built from the inside, back to front
    let mut rev: Vec<u8> = Vec::new();
    for _ in 0..depth {
        let mut h = vec![22u8];
        ilint_put(&mut h, rev.len() as u64);
        rev.extend(h.iter().rev());
    }
    rev.reverse();
    rev
}

/// Child process: decodes the input on a stack of 2 MiB, the default of a Rust thread.
pub fn deep_child(args: &[String]) -> i32 {
    let input = args.get(2).cloned().unwrap_or_default();
    let depth: u64 = match input.strip_prefix("nested-sequences:") {
        Some(n) => n.parse().unwrap_or(1),
        None => return 2,
    };
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let b = nested_sequences(depth);
        let f = ILStandardTagFactory::new(false);
        match f.from_bytes(&b) {
            Ok(_) => println!("decoded {} levels", depth),
            Err(e) => println!("{:?}", e),
        }
    });
    let _ = t.expect("thread").join();
    0
}
