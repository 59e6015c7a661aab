#![allow(dead_code)]
mod core;
mod hash;
mod io_sim;
mod known;
mod mem;
mod model;
mod probe;
mod props;
mod runner;
mod sched;

use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::SimAlloc = mem::SimAlloc;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn num(args: &[String], name: &str, def: u64) -> u64 {
    arg(args, name).and_then(|s| s.parse().ok()).unwrap_or(def)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    runner::install_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("worker") => worker(&args),
        Some("one") => one(&args),
        Some("serve") => serve(&args),
        Some("replay") => replay(&args),
        Some("determinism") => determinism(&args),
        Some("hashes") => hashes(&args),
        Some("deep") => known::deep_child(&args),
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|worker|one|replay|determinism|list ...");
            2
        }
    };
    std::process::exit(code);
}

fn esc(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r
}

fn line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}
fn unline(s: &str) -> String {
    s.replace("\\n", " ").replace("\\\\", "\\")
}

// ---------------------------------------------------------------------------------------------

/// Runs indices start, start+stride, ... < runs, until the time budget is used up.
fn worker(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap().to_string();
    let seed = num(args, "--seed", 1);
    let start = num(args, "--start", 0);
    let stride = num(args, "--stride", 1);
    let runs = num(args, "--runs", 1);
    let ms = num(args, "--ms", 10_000);
    let thorough = arg(args, "--tier") == Some("thorough");
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    let mut prog = std::fs::File::create(dir.join(format!("idx{}", start))).unwrap();
    let mut hashes: Vec<u64> = Vec::new();
    let (mut n, mut evals, mut ns, mut steps, mut nontriv) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut gauges: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut found: Option<(u64, core::Viol)> = None;
    unsafe {
        // a runaway allocation ends this worker, not the sandbox
        setrlimit(9, &[12 << 30, 12 << 30]);
    }
    let t0 = Instant::now();
    let mut i = start;
    while i < runs && t0.elapsed() < Duration::from_millis(ms) {
        let _ = prog.seek(SeekFrom::Start(0));
        let _ = prog.write_all(&i.to_le_bytes());
        let o = runner::run_once(&prop, runner::gen_mode(seed, &prop, i), false, thorough);
        n += 1;
        evals += o.evals;
        ns += o.sim_ns;
        steps += o.steps;
        for (k, v) in o.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.gauges {
            let g = gauges.entry(k).or_insert(0);
            *g = (*g).max(v);
        }
        if o.nontrivial {
            nontriv += 1;
            if hashes.len() < 4_000_000 {
                hashes.push(o.hash);
            }
        }
        if let Some(s) = o.sample {
            if samples.len() < 1 && o.nontrivial {
                samples.push(format!("run {}: {}", i, s));
            }
        }
        if let Some(v) = o.viol {
            found = Some((i, v));
            break;
        }
        i += stride;
    }
    let mut b = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(dir.join(format!("hashes{}", start)), &b);
    let mut out = String::new();
    out += &format!("RUNS\t{}\nEVALS\t{}\nNS\t{}\nSTEPS\t{}\nNONTRIV\t{}\n", n, evals, ns, steps, nontriv);
    out += &format!("GETRANDOM\t{}\n", hash::calls());
    for (k, v) in faults {
        out += &format!("FAULT\t{}\t{}\n", k, v);
    }
    for (k, v) in probes {
        out += &format!("PROBE\t{}\t{}\n", k, v);
    }
    for (k, v) in gauges {
        out += &format!("GAUGE\t{}\t{}\n", k, v);
    }
    for s in samples {
        out += &format!("SAMPLE\t{}\n", line(&s));
    }
    if let Some((i, v)) = found {
        out += &format!("VIOL\t{}\t{}\t{}\n", i, line(&v.class), line(&v.msg));
    }
    out += "END\n";
    let tmp = dir.join(format!("out{}.tmp", start));
    let _ = std::fs::write(&tmp, out);
    let _ = std::fs::rename(&tmp, dir.join(format!("out{}", start)));
    0
}

struct Replay {
    prop: String,
    class: String,
    hash: u64,
    thorough: bool,
    tape: Vec<u64>,
    seq: Option<Vec<String>>,
}

fn field<'a>(s: &'a str, name: &str) -> Option<&'a str> {
    let k = format!("\"{}\":", name);
    let p = s.find(&k)? + k.len();
    let r = s[p..].trim_start();
    if let Some(r) = r.strip_prefix('"') {
        Some(&r[..r.find('"')?])
    } else if let Some(r) = r.strip_prefix('[') {
        Some(&r[..r.find(']')?])
    } else {
        Some(r[..r.find([',', '\n', '}'])?].trim())
    }
}

fn load_replay(p: &Path) -> Option<Replay> {
    let s = std::fs::read_to_string(p).ok()?;
    Some(Replay {
        prop: field(&s, "property")?.to_string(),
        class: field(&s, "class")?.to_string(),
        hash: field(&s, "event_hash")?.parse().ok()?,
        thorough: field(&s, "tier")? == "thorough",
        tape: field(&s, "tape")?
            .split(',')
            .filter_map(|x| x.trim().parse().ok())
            .collect(),
        seq: match (field(&s, "sequence_from"), field(&s, "sequence_stride")) {
            (Some(a), Some(b)) => Some(
                ["--seed", field(&s, "seed")?, "--run", field(&s, "run")?, "--from", a, "--stride", b]
                    .iter()
                    .map(|x| x.to_string())
                    .collect(),
            ),
            _ => None,
        },
    })
}

/// Executes one tape (or seed and run) and prints the result; used by replay and the shrinker.
fn one(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap().to_string();
    let thorough = arg(args, "--tier") == Some("thorough");
    let mode = match arg(args, "--tape") {
        Some(f) => {
            let s = std::fs::read_to_string(f).unwrap();
            core::Mode::Replay(s.split(',').filter_map(|x| x.trim().parse().ok()).collect())
        }
        None => runner::gen_mode(num(args, "--seed", 1), &prop, num(args, "--run", 0)),
    };
    let trace = args.iter().any(|a| a == "--trace");
    unsafe {
        setrlimit(9, &[12 << 30, 12 << 30]);
    }
    if let (Some(from), Some(stride)) = (arg(args, "--from"), arg(args, "--stride")) {
        // everything the worker ran before in the same process
        let (mut i, stride): (u64, u64) = (from.parse().unwrap(), stride.parse().unwrap());
        while i < num(args, "--run", 0) {
            runner::run_once(&prop, runner::gen_mode(num(args, "--seed", 1), &prop, i), false, thorough);
            i += stride;
        }
    }
    if let Some(f) = arg(args, "--spill") {
        core::spill_to(f);
    }
    let o = runner::run_once(&prop, mode, trace, thorough);
    for t in &o.trace {
        println!("TRACE\t{}", line(t));
    }
    for (k, v) in &o.faults {
        println!("FAULT\t{}\t{}", k, v);
    }
    if args.iter().any(|a| a == "--sample") {
        println!("SAMPLE {:?} evals {} steps {} nontrivial {}", o.sample, o.evals, o.steps, o.nontrivial);
        println!("PROBES {:?}", o.probes);
        println!("GAUGES {:?}", o.gauges);
    }
    println!("HASH\t{}", o.hash);
    println!(
        "TAPE\t{}",
        o.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    );
    match o.viol {
        Some(v) => {
            println!("VIOL\t{}\t{}", line(&v.class), line(&v.msg));
            1
        }
        None => 0,
    }
}

struct OneResult {
    class: Option<String>,
    msg: String,
    hash: u64,
    tape: Vec<u64>,
    trace: Vec<String>,
    faults: Vec<(String, String)>,
}

/// Runs `one` in a child process; a crash or hang of the child is a violation class of its own.
fn one_child(prop: &str, tier: &str, src: &[String], trace: bool, timeout: Duration) -> OneResult {
    let exe = std::env::current_exe().unwrap();
    let spill = scratch_file();
    let mut c = Command::new(exe);
    c.arg("one").arg("--spill").arg(&spill);
    c.arg("--prop").arg(prop).arg("--tier").arg(tier).args(src);
    if trace {
        c.arg("--trace");
    }
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t0 = Instant::now();
    let mut class = None;
    let mut msg = String::new();
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                if let Some(sig) = st.signal() {
                    class = Some("abort".to_string());
                    msg = format!("the process was ended by signal {}", sig);
                }
                break;
            }
            None => {
                if t0.elapsed() > timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    class = Some("hang".to_string());
                    msg = format!("the run did not finish within {:?}", timeout);
                    break;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
    }
    let out = h.join().unwrap_or_default();
    let spilled = std::fs::read_to_string(&spill).unwrap_or_default();
    let _ = std::fs::remove_file(&spill);
    let mut r = OneResult {
        class,
        msg,
        hash: 0,
        tape: Vec::new(),
        trace: Vec::new(),
        faults: Vec::new(),
    };
    for l in out.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "TRACE" => r.trace.push(unline(f.get(1).unwrap_or(&""))),
            "FAULT" if f.len() > 2 => r.faults.push((f[1].into(), f[2].into())),
            "HASH" => r.hash = f[1].parse().unwrap_or(0),
            "TAPE" => r.tape = f.get(1).unwrap_or(&"").split(',').filter_map(|x| x.parse().ok()).collect(),
            "VIOL" if f.len() > 2 => {
                r.class = Some(unline(f[1]));
                r.msg = unline(f[2]);
            }
            _ => (),
        }
    }
    if r.tape.is_empty() {
        // the process died; the draws it had made up to then are in the spill file
        r.tape = spilled.split(',').filter_map(|x| x.parse().ok()).collect();
    }
    r
}

/// Executes one tape per line of standard input; answers class and number of draws used.
fn serve(args: &[String]) -> i32 {
    use std::io::{BufRead, Write};
    let prop = arg(args, "--prop").unwrap().to_string();
    let thorough = arg(args, "--tier") == Some("thorough");
    unsafe {
        setrlimit(9, &[12 << 30, 12 << 30]);
    }
    for l in std::io::stdin().lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let tape = l.split(',').filter_map(|x| x.trim().parse().ok()).collect();
        let o = runner::run_once(&prop, core::Mode::Replay(tape), false, thorough);
        let class = o.viol.map(|v| line(&v.class)).unwrap_or_default();
        println!("{}\t{}", class, o.tape.len());
        let _ = std::io::stdout().flush();
    }
    0
}

/// A child that executes candidate tapes for the minimiser, so that no candidate can take this
/// process along; restarted when it dies or does not answer.
struct Server {
    prop: String,
    tier: String,
    kid: Option<(Child, std::process::ChildStdin, std::sync::mpsc::Receiver<String>)>,
}

impl Server {
    fn new(prop: &str, tier: &str) -> Server {
        Server { prop: prop.into(), tier: tier.into(), kid: None }
    }
    fn start(&mut self) {
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .args(["serve", "--prop", &self.prop, "--tier", &self.tier])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let si = ch.stdin.take().unwrap();
        let so = ch.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            use std::io::BufRead;
            for l in std::io::BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        self.kid = Some((ch, si, rx));
    }
    fn stop(&mut self) {
        if let Some((mut ch, si, _)) = self.kid.take() {
            drop(si);
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }
    /// Class of violation (None: none) and draws used.
    fn run(&mut self, tape: &[u64], timeout: Duration) -> (Option<String>, usize) {
        use std::io::Write;
        if self.kid.is_none() {
            self.start();
        }
        let (_, si, rx) = self.kid.as_mut().unwrap();
        let l = tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") + "\n";
        let sent = si.write_all(l.as_bytes()).and_then(|_| si.flush()).is_ok();
        let r = if sent { rx.recv_timeout(timeout) } else { Err(std::sync::mpsc::RecvTimeoutError::Disconnected) };
        match r {
            Ok(l) => {
                let mut f = l.split('\t');
                let class = unline(f.next().unwrap_or(""));
                let used = f.next().and_then(|x| x.parse().ok()).unwrap_or(tape.len());
                (if class.is_empty() { None } else { Some(class) }, used)
            }
            Err(e) => {
                self.stop();
                let c = match e {
                    std::sync::mpsc::RecvTimeoutError::Timeout => "hang",
                    _ => "abort",
                };
                (Some(c.into()), tape.len())
            }
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop();
    }
}

fn scratch_file() -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = root().join("target");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("spill-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)))
}

fn replay(args: &[String]) -> i32 {
    let p = PathBuf::from(args.get(2).expect("file"));
    let r = match load_replay(&p) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", p.display());
            return 2;
        }
    };
    let dir = scratch();
    let tape = dir.join("tape");
    std::fs::write(&tape, r.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    let long = r.seq.is_some();
    let src = match r.seq {
        Some(v) => v,
        None => vec!["--tape".to_string(), tape.to_string_lossy().into_owned()],
    };
    let o = one_child(
        &r.prop,
        if r.thorough { "thorough" } else { "quick" },
        &src,
        true,
        Duration::from_secs(if long { 300 } else { 60 }),
    );
    let _ = std::fs::remove_dir_all(&dir);
    if !args.iter().any(|a| a == "--quiet") {
        for t in &o.trace {
            println!("{}", t);
        }
    }
    match o.class {
        Some(c) => {
            let same = c == r.class && (o.hash == r.hash || r.hash == 0);
            println!("{}: {} ({})", r.prop, c, o.msg);
            println!(
                "{}",
                if same {
                    "reproduced exactly as recorded"
                } else {
                    "a violation, but not the recorded one"
                }
            );
            println!("VIOLATION property={} replay={}", r.prop, p.display());
            1
        }
        None => {
            println!("{}: the recorded run does not violate the property on this tree", r.prop);
            0
        }
    }
}

fn scratch() -> PathBuf {
    let d = root().join("target").join(format!("run-{}-{}", std::process::id(), {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        N.fetch_add(1, Ordering::Relaxed)
    }));
    std::fs::create_dir_all(&d).unwrap();
    d
}

#[derive(Default)]
struct Totals {
    runs: u64,
    evals: u64,
    ns: u64,
    steps: u64,
    nontriv: u64,
    getrandom: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    gauges: BTreeMap<String, u64>,
    samples: Vec<String>,
    hashes: HashSet<u64>,
}

fn check(args: &[String]) -> i32 {
    let prop = args.get(2).cloned().unwrap_or_default();
    let p = match props::find(&prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match arg(args, "--tier") {
        Some(t) => t.to_string(),
        None => std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
    };
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let jobs = num(args, "--jobs", 8);
    let runs = num(args, "--runs", if thorough { p.thorough } else { p.quick });
    let ms = num(args, "--ms", if thorough { 480_000 } else { 50_000 });
    println!(
        "{}: seed {} tier {} up to {} runs on {} workers",
        prop, seed, tier, runs, jobs
    );
    let t0 = Instant::now();
    let dir = scratch();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<Option<Child>> = Vec::new();
    for w in 0..jobs {
        kids.push(Some(
            Command::new(&exe)
                .args([
                    "worker", "--prop", &prop, "--seed", &seed.to_string(), "--tier", tier, "--start", &w.to_string(),
                    "--stride", &jobs.to_string(), "--runs", &runs.to_string(), "--ms", &ms.to_string(), "--dir",
                    &dir.to_string_lossy(),
                ])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap(),
        ));
    }
    let mut seen: Vec<(u64, Instant)> = (0..jobs).map(|_| (u64::MAX, Instant::now())).collect();
    let mut found: Option<(u64, String, String)> = None;
    let mut tot = Totals::default();
    let consider = |found: &mut Option<(u64, String, String)>, v: (u64, String, String)| {
        if found.as_ref().map(|f| v.0 < f.0).unwrap_or(true) {
            *found = Some(v);
        }
    };
    let idx_of = |w: u64| -> u64 {
        std::fs::read(dir.join(format!("idx{}", w)))
            .ok()
            .filter(|b| b.len() == 8)
            .map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]))
            .unwrap_or(u64::MAX)
    };
    let mut grace: Option<Instant> = None;
    while kids.iter().any(|k| k.is_some()) {
        for w in 0..jobs as usize {
            let done = match &mut kids[w] {
                None => continue,
                Some(k) => k.try_wait().unwrap(),
            };
            if let Some(st) = done {
                use std::os::unix::process::ExitStatusExt;
                kids[w] = None;
                let out = std::fs::read_to_string(dir.join(format!("out{}", w))).unwrap_or_default();
                if !out.ends_with("END\n") {
                    let i = idx_of(w as u64);
                    if i == u64::MAX {
                        eprintln!("worker {} failed to start: {:?}", w, st);
                        return 2;
                    }
                    consider(
                        &mut found,
                        (i, "abort".into(), format!("the process was ended ({:?}) during the run", st.signal())),
                    );
                }
                for l in out.lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                    match f[0] {
                        "RUNS" => tot.runs += n(1),
                        "EVALS" => tot.evals += n(1),
                        "NS" => tot.ns += n(1),
                        "STEPS" => tot.steps += n(1),
                        "NONTRIV" => tot.nontriv += n(1),
                        "GETRANDOM" => tot.getrandom += n(1),
                        "FAULT" => *tot.faults.entry(f[1].into()).or_insert(0) += n(2),
                        "PROBE" => *tot.probes.entry(f[1].into()).or_insert(0) += n(2),
                        "GAUGE" => {
                            let g = tot.gauges.entry(f[1].into()).or_insert(0);
                            *g = (*g).max(n(2));
                        }
                        "SAMPLE" => {
                            if tot.samples.len() < 4 {
                                tot.samples.push(unline(f[1]))
                            }
                        }
                        "VIOL" => consider(&mut found, (n(1), unline(f[2]), unline(f.get(3).unwrap_or(&"")))),
                        _ => (),
                    }
                }
                if let Ok(b) = std::fs::read(dir.join(format!("hashes{}", w))) {
                    for c in b.chunks_exact(8) {
                        tot.hashes
                            .insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
                    }
                }
                continue;
            }
            // watchdog
            let i = idx_of(w as u64);
            if seen[w].0 != i {
                seen[w] = (i, Instant::now());
            } else if seen[w].1.elapsed() > Duration::from_secs(60) {
                if let Some(mut k) = kids[w].take() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
                consider(
                    &mut found,
                    (i, "hang".into(), "the run did not finish within 60 s".into()),
                );
            }
        }
        if found.is_some() {
            // let the others finish their current runs, then stop
            let g = *grace.get_or_insert_with(Instant::now);
            if g.elapsed() > Duration::from_millis(300) {
                for k in kids.iter_mut() {
                    if let Some(mut k) = k.take() {
                        let _ = k.kill();
                        let _ = k.wait();
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let wall = t0.elapsed().as_secs_f64();

    let mut violations = 0;
    let mut code = 0;
    if let Some((i, class, msg)) = &found {
        if let Some(path) = report(&prop, seed, tier, jobs, *i, class, msg, &dir) {
            violations = 1;
            code = 1;
            println!("VIOLATION property={} replay={}", prop, path.display());
        }
    }
    let known = known::run(&prop, &dir);
    for k in &known.lines {
        println!("{}", k);
    }
    if let Some(v) = &known.violation {
        violations += 1;
        code = 1;
        println!("VIOLATION property={} replay={}", prop, v);
    }
    evidence(p, seed, tier, &tot, wall, violations, &known);
    println!(
        "{}: {} runs, {} evaluations, {} distinct non-trivial histories, {:.1} s simulated, {:.1} s wall",
        prop,
        tot.runs,
        tot.evals,
        tot.hashes.len(),
        tot.ns as f64 / 1e9,
        wall
    );
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Minimises the failing run, verifies the replay in fresh processes and writes the replay file.
/// None: a crash or hang that does not happen again, i.e. one the environment caused.
fn report(prop: &str, seed: u64, tier: &str, jobs: u64, idx: u64, class: &str, msg: &str, dir: &Path) -> Option<PathBuf> {
    let hard = class == "abort" || class == "hang";
    println!("{}: run {} violates the property: {} ({})", prop, idx, class, msg);
    let t0 = Instant::now();
    let limit = Duration::from_secs(40);
    let tfile = dir.join("shrink.tape");
    let one_run = |i: u64| {
        vec!["--seed".to_string(), seed.to_string(), "--run".to_string(), i.to_string()]
    };
    let by_tape = |t: &[u64]| {
        std::fs::write(&tfile, t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
        vec!["--tape".to_string(), tfile.to_string_lossy().into_owned()]
    };
    // executed in a child, so that whatever the code does cannot take this process along
    let o = one_child(prop, tier, &one_run(idx), false, Duration::from_secs(if hard { 45 } else { 60 }));
    let mut tape = o.tape;
    let mut tries = 0;
    let single = o.class.as_deref() == Some(class);
    let mut seq: Option<u64> = None;
    if single {
        let deadline = t0 + limit;
        if class != "hang" {
            let child = hard || sched_class(class);
            let mut server = Server::new(prop, tier);
            let (t, n) = runner::shrink(
                tape.clone(),
                class,
                |cand| {
                    // one child for all candidates; those that end it get a child each
                    if child {
                        let r = one_child(prop, tier, &by_tape(cand), false, Duration::from_secs(10));
                        r.class.map(|c| (c, r.tape.len()))
                    } else {
                        let (c, n) = server.run(cand, Duration::from_secs(10));
                        c.map(|c| (c, n))
                    }
                },
                deadline,
            );
            tries = n;
            let v = one_child(prop, tier, &by_tape(&t), false, Duration::from_secs(45));
            if v.class.as_deref() == Some(class) {
                tape = t;
            }
        }
    } else {
        // the outcome depends on what ran before in the same process: replay the worker's sequence
        let start = idx % jobs;
        let mut src = one_run(idx);
        src.extend(["--from".to_string(), start.to_string(), "--stride".to_string(), jobs.to_string()]);
        let v = one_child(prop, tier, &src, false, Duration::from_secs(300));
        if v.class.as_deref() == Some(class) {
            seq = Some(start);
        } else if hard {
            println!("{}: the {} of run {} does not happen again; not a property of the code", prop, class, idx);
            return None;
        }
        tape = v.tape;
    }
    let src = match seq {
        Some(start) => {
            let mut src = one_run(idx);
            src.extend(["--from".to_string(), start.to_string(), "--stride".to_string(), jobs.to_string()]);
            src
        }
        None => by_tape(&tape),
    };
    let tmo = Duration::from_secs(if seq.is_some() { 300 } else { 45 });
    let a = one_child(prop, tier, &src, true, tmo);
    let b = one_child(prop, tier, &src, true, tmo);
    let same = a.class == b.class && a.hash == b.hash && a.class.as_deref() == Some(class);
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let path = d.join(format!("{}-seed{}-run{}.json", prop, seed, idx));
    let mut s = String::new();
    s += "{\n";
    s += &format!("  \"property\": \"{}\",\n  \"seed\": {},\n  \"run\": {},\n  \"tier\": \"{}\",\n", prop, seed, idx, tier);
    s += &format!("  \"class\": \"{}\",\n", esc(a.class.as_deref().unwrap_or(class)));
    s += &format!("  \"message\": \"{}\",\n", esc(if a.msg.is_empty() { msg } else { &a.msg }));
    s += &format!("  \"event_hash\": {},\n", a.hash);
    match seq {
        Some(st) => s += &format!("  \"sequence_from\": {},\n  \"sequence_stride\": {},\n", st, jobs),
        None => (),
    }
    s += &format!("  \"minimiser_runs\": {},\n  \"replayed_in_fresh_processes\": \"{}\",\n", tries, if same { "2 of 2 identical" } else { "differs" });
    s += &format!(
        "  \"tape\": [{}],\n",
        tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    );
    s += &format!(
        "  \"faults\": {{{}}},\n",
        a.faults.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ")
    );
    s += &format!(
        "  \"trace\": [\n{}\n  ]\n}}\n",
        a.trace.iter().take(400).map(|t| format!("    \"{}\"", esc(t))).collect::<Vec<_>>().join(",\n")
    );
    let _ = std::fs::write(&path, s);
    println!(
        "{}: minimised to {} choices in {} runs, {:.1} s; replay {}: {} ({})",
        prop,
        tape.len(),
        tries,
        t0.elapsed().as_secs_f64(),
        if same { "identical in 2 fresh processes" } else { "NOT identical" },
        a.class.clone().unwrap_or_else(|| class.to_string()),
        if a.msg.is_empty() { msg } else { &a.msg }
    );
    Some(path)
}

fn sched_class(c: &str) -> bool {
    c == "deadlock" || c.starts_with("blocked")
}

fn evidence(p: &props::Prop, seed: u64, tier: &str, t: &Totals, wall: f64, violations: u64, known: &known::Known) {
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let per_h = |x: u64| (x as f64 / wall.max(0.001) * 3600.0) as u64;
    let map = |m: &BTreeMap<String, u64>| {
        m.iter()
            .map(|(k, v)| format!("\"{}\": {}", esc(k), v))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let mut s = String::new();
    s += "{\n";
    s += &format!("  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n", p.id, tier, seed);
    s += "  \"coverage\": {\n";
    s += &format!("    \"evaluations\": {},\n", t.evals);
    s += &format!("    \"distinct_nontrivial\": {},\n", t.hashes.len());
    s += &format!("    \"rule\": \"{}\",\n", esc(p.rule));
    s += &format!(
        "    \"samples\": [{}],\n",
        t.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", ")
    );
    s += &format!("    \"simulated_runs\": {},\n    \"nontrivial_runs\": {},\n", t.runs, t.nontriv);
    s += &format!("    \"runs_and_seeds_per_hour\": {},\n", per_h(t.runs));
    s += &format!("    \"simulated_seconds\": {:.3},\n    \"steps\": {},\n", t.ns as f64 / 1e9, t.steps);
    s += &format!("    \"distinct_histories_measure\": \"64-bit digest of the sequence of seam events (stream calls with positions and lengths, faults, scheduling decisions, operation results) of a run\",\n");

    s += &format!("    \"faults_injected\": {{{}}},\n", map(&t.faults));
    s += &format!("    \"rare_conditions_reached\": {{{}}},\n", map(&t.probes));
    s += &format!("    \"largest_measured\": {{{}}},\n", map(&t.gauges));
    s += &format!("    \"hash_seeds_drawn_through_getrandom_seam\": {},\n", t.getrandom);
    s += &format!("    \"known_findings\": [{}],\n", known.lines.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", "));
    s += "    \"real_components\": [\"il2_iltags (all of it, from /repo)\", \"std::io adapters (Cursor, BufReader, BufWriter, read_exact, write_all)\", \"std HashMap\", \"threads (one at a time)\"],\n";
    s += "    \"simulated_components\": [\"byte streams and storage\", \"scheduler\", \"hash randomness\", \"memory accounting\", \"clock\", \"user-defined tags, payloads, readers and writers\"]\n";
    s += "  },\n";
    s += "  \"assumptions\": [\"sampling: a clean batch is evidence, not proof\", \"the reference model in sim/src/model.rs states the encoding correctly\"],\n";
    s += &format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, violations);
    let _ = std::fs::write(d.join(format!("{}.json", p.id)), s);
}

/// Prints index and history digest of runs, for comparing processes.
fn hashes(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap().to_string();
    let seed = num(args, "--seed", 1);
    let start = num(args, "--start", 0);
    let stride = num(args, "--stride", 1);
    let runs = num(args, "--runs", 1);
    let mut i = start;
    while i < runs {
        let o = runner::run_once(&prop, runner::gen_mode(seed, &prop, i), false, false);
        println!("{} {:016x} {} {}", i, o.hash, o.tape.len(), o.steps);
        i += stride;
    }
    0
}

/// Executes every run several times, in different processes and worker counts, and once more from its
/// recorded tape, and compares the histories.
fn determinism(args: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let only = args.get(2).filter(|s| !s.starts_with('-')).cloned();
    let runs = num(args, "--runs", 200);
    let seeds = num(args, "--seeds", 3);
    let mut bad = 0;
    for p in props::all() {
        if let Some(o) = &only {
            if o != p.id {
                continue;
            }
        }
        let mut total = 0;
        for seed in 1..=seeds {
            let mut maps: Vec<BTreeMap<u64, String>> = Vec::new();
            for jobs in [1u64, 3, 8, 16] {
                let mut kids = Vec::new();
                for w in 0..jobs {
                    kids.push(
                        Command::new(&exe)
                            .args(["hashes", "--prop", p.id, "--seed", &seed.to_string(), "--start", &w.to_string(), "--stride", &jobs.to_string(), "--runs", &runs.to_string()])
                            .stdout(Stdio::piped())
                            .stderr(Stdio::null())
                            .spawn()
                            .unwrap(),
                    );
                }
                let mut m = BTreeMap::new();
                for k in kids {
                    let o = k.wait_with_output().unwrap();
                    for l in String::from_utf8_lossy(&o.stdout).lines() {
                        let (a, b) = l.split_once(' ').unwrap();
                        m.insert(a.parse::<u64>().unwrap(), b.to_string());
                    }
                }
                maps.push(m);
            }
            total += maps[0].len();
            for m in &maps[1..] {
                for (k, v) in &maps[0] {
                    if m.get(k) != Some(v) {
                        bad += 1;
                        println!("{} seed {} run {}: {} / {:?}", p.id, seed, k, v, m.get(k));
                    }
                }
            }
            // tape replay
            for i in 0..runs.min(50) {
                let a = runner::run_once(p.id, runner::gen_mode(seed, p.id, i), false, false);
                let b = runner::run_once(p.id, core::Mode::Replay(a.tape.clone()), true, false);
                if a.hash != b.hash || a.tape != b.tape {
                    bad += 1;
                    println!("{} seed {} run {}: tape replay differs", p.id, seed, i);
                }
            }
        }
        println!("{}: {} runs x 4 process layouts, divergences so far {}", p.id, total, bad);
    }
    if bad > 0 {
        1
    } else {
        0
    }
}
