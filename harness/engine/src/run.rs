use crate::{catch, cov, install_hook, shrink::shrink, Rng, Src, MAX_CHOICES};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};

pub struct Prop {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub case: fn(&mut Src),
    /// Fixed scenarios, run once per build.
    pub directed: &'static [(&'static str, fn())],
}

static THOROUGH: AtomicBool = AtomicBool::new(false);
static CRASH: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static FLAKY: AtomicBool = AtomicBool::new(false);
static EXTRA: AtomicU64 = AtomicU64::new(0);

pub(crate) fn thorough() -> bool {
    THOROUGH.load(Ordering::Relaxed)
}

pub(crate) fn crash_buf() -> *mut u64 {
    CRASH.load(Ordering::Relaxed)
}

/// Failures may depend on the schedule: one that does not show again when
/// its case is repeated counts all the same.
pub fn schedules_matter() {
    FLAKY.store(true, Ordering::Relaxed);
}

/// Adds a number (measured by a check on this run) to the evidence.
pub fn set_extra_worker_cases(n: u64) {
    EXTRA.fetch_add(n, Ordering::Relaxed);
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
}

fn map_crash_file(path: &str) {
    use std::os::fd::AsRawFd;
    let len = (MAX_CHOICES + 2) * 8;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path);
    if let Ok(f) = f {
        if f.set_len(len as u64).is_ok() {
            let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
            if p as isize != -1 {
                CRASH.store(p as *mut u64, Ordering::Relaxed);
            }
        }
    }
}

struct Outcome {
    src: Src,
    fail: Option<String>,
    new_cov: bool,
}

/// Seconds of processor time one case may take (usual cases take far less
/// than a second). Ends the process with SIGVTALRM.
const CASE_CPU_SECONDS: i64 = 60;

/// Wall-clock seconds after which a worker of a quick run stops.
const QUICK_SECONDS: u64 = 480;

#[cfg(target_pointer_width = "64")]
fn limit_cpu() {
    extern "C" {
        fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    }
    let t = [0, 0, CASE_CPU_SECONDS, 0];
    unsafe { setitimer(1, &t, std::ptr::null_mut()) };
}

#[cfg(not(target_pointer_width = "64"))]
fn limit_cpu() {
    extern "C" {
        fn setitimer(which: i32, new: *const [i32; 4], old: *mut [i32; 4]) -> i32;
    }
    let t = [0, 0, CASE_CPU_SECONDS as i32, 0];
    unsafe { setitimer(1, &t, std::ptr::null_mut()) };
}

fn exec(p: &Prop, mut src: Src) -> Outcome {
    limit_cpu();
    let guided = cov::instrumented();
    if guided {
        cov::start();
    }
    let r = catch(|| (p.case)(&mut src));
    let new_cov = guided && cov::finish();
    if !src.crash.is_null() {
        unsafe { *src.crash = 0 };
    }
    Outcome { src, fail: r.err(), new_cov }
}

fn describe(p: &Prop, choices: &[u64]) -> (Vec<String>, Option<String>) {
    let mut src = Src::new(Rng::new(&[0]), choices.to_vec(), true);
    src.log_on = true;
    let o = exec(p, src);
    (o.src.log, o.fail)
}

fn hash(v: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ v.len() as u64;
    for &x in v {
        h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(lines: &[String]) -> String {
    let mut s = lines.join("; ");
    if s.chars().count() > 1500 {
        s = s.chars().take(1500).collect::<String>() + " ...";
    }
    s
}

fn mutate(rng: &mut Rng, corpus: &[(Vec<u64>, Vec<u64>)]) -> Vec<u64> {
    let n = corpus.len() as u64;
    let pick = |rng: &mut Rng| -> usize {
        // Favour recent entries.
        if rng.below(2) == 0 {
            (n - 1 - rng.below(n.min(16))) as usize
        } else {
            rng.below(n) as usize
        }
    };
    let (base, maxes) = &corpus[pick(rng)];
    let mut v = base.clone();
    for _ in 0..1 + rng.below(4) {
        if v.is_empty() {
            break;
        }
        let i = rng.below(v.len() as u64) as usize;
        match rng.below(10) {
            0..=2 => {
                let max = maxes.get(i).copied().unwrap_or(u64::MAX);
                v[i] = crate::biased(rng, max);
            }
            3 => v[i] = v[i].wrapping_add(1),
            4 => v[i] = v[i].wrapping_sub(1),
            5 => {
                let k = 1 + rng.below(8.min((v.len() - i) as u64)) as usize;
                v.drain(i..i + k.min(v.len() - i));
            }
            6 => {
                let k = 1 + rng.below(16.min((v.len() - i) as u64)) as usize;
                let part: Vec<u64> = v[i..i + k.min(v.len() - i)].to_vec();
                let tail = v.split_off(i);
                v.extend(part);
                v.extend(tail);
            }
            7 => {
                let (other, _) = &corpus[pick(rng)];
                if !other.is_empty() {
                    let j = rng.below(other.len() as u64) as usize;
                    let k = 1 + rng.below(32) as usize;
                    let part = other[j..(j + k).min(other.len())].to_vec();
                    let tail = v.split_off(i);
                    v.extend(part);
                    if rng.below(2) == 0 {
                        v.extend(tail);
                    }
                }
            }
            8 => v.truncate(i),
            _ => {
                // Input-to-state: make a compared value equal its partner.
                let s = cov::st();
                let m = s.npairs.min(s.pairs.len());
                if m > 0 {
                    for _ in 0..8 {
                        let (a, b) = s.pairs[rng.below(m as u64) as usize];
                        if let Some(j) = v.iter().position(|&x| x == b) {
                            v[j] = a;
                            break;
                        }
                        if let Some(j) = v.iter().position(|&x| x == a) {
                            v[j] = b;
                            break;
                        }
                    }
                }
            }
        }
    }
    v
}

fn replay_text(p: &Prop, msg: &str, choices: &[u64]) -> String {
    let (log, m2) = describe(p, choices);
    let mut s = String::new();
    let _ = writeln!(s, "property {}", p.id);
    let _ = writeln!(s, "build {}", std::env::var("VP_BUILD").unwrap_or_default());
    for l in m2.as_deref().unwrap_or(msg).lines() {
        let _ = writeln!(s, "# failure: {}", l);
    }
    for l in log.iter().take(400) {
        let _ = writeln!(s, "# {}", l.replace('\n', " "));
    }
    let _ = write!(s, "choices");
    for c in choices {
        let _ = write!(s, " {}", c);
    }
    s.push('\n');
    s
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn load_dict(args: &[String]) {
    if let Some(f) = arg(args, "--dict") {
        if let Ok(t) = std::fs::read_to_string(f) {
            for w in t.split_whitespace() {
                if let Ok(v) = w.parse() {
                    cov::add_dict(v);
                }
            }
        }
    }
}

pub fn main(p: &Prop) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    if arg(&args, "--tier").as_deref() == Some("thorough") {
        THOROUGH.store(true, Ordering::Relaxed);
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(p, &args),
        Some("replay") => replay(p, &args),
        Some("rule") => println!("{}", p.rule),
        _ => {
            eprintln!("usage: run --seed S --worker W --cases N --out DIR | replay FILE");
            std::process::exit(2);
        }
    }
}

fn replay(p: &Prop, args: &[String]) {
    let text = std::fs::read_to_string(&args[2]).expect("replay file");
    for l in text.lines() {
        if let Some(name) = l.strip_prefix("directed ") {
            for (n, f) in p.directed {
                if n == &name {
                    match catch(f) {
                        Ok(()) => println!("replay: passes"),
                        Err(m) => {
                            println!("replay: FAILS: {}", m);
                            std::process::exit(1);
                        }
                    }
                }
            }
        }
        if let Some(c) = l.strip_prefix("choices") {
            let c: Vec<u64> = c.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let (log, fail) = describe(p, &c);
            for l in log {
                println!("  {}", l);
            }
            match fail {
                None => println!("replay: passes"),
                Some(m) => {
                    println!("replay: FAILS: {}", m);
                    std::process::exit(1);
                }
            }
        }
    }
}

fn run(p: &Prop, args: &[String]) {
    let num = |k: &str, d: u64| arg(args, k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let seed = num("--seed", 1);
    let worker = num("--worker", 0);
    let cases = num("--cases", 100);
    let out = arg(args, "--out").expect("--out");
    load_dict(args);
    map_crash_file(&format!("{}/w{}.crash", out, worker));
    let guided = cov::instrumented();

    let fail_path = format!("{}/w{}.fail", out, worker);
    let mut directed = 0;
    if num("--directed", 0) == 1 {
        for (name, f) in p.directed {
            directed += 1;
            if let Err(m) = catch(f) {
                let t = format!(
                    "property {}\nbuild {}\n# failure: {}\ndirected {}\n",
                    p.id,
                    std::env::var("VP_BUILD").unwrap_or_default(),
                    m.replace('\n', " "),
                    name
                );
                std::fs::write(&fail_path, t).unwrap();
                std::process::exit(1);
            }
        }
    }

    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut choices_total = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut corpus: Vec<(Vec<u64>, Vec<u64>)> = Vec::new();
    let mut mutated = 0u64;

    // On a very slow machine a quick run covers less rather than run out of
    // the time it has; the evidence tells how many cases there were.
    let began = std::time::Instant::now();
    let mut done = 0;
    for i in 0..cases {
        if i % 16 == 0 && !thorough() && began.elapsed().as_secs() > QUICK_SECONDS {
            break;
        }
        done = i + 1;
        let mut rng = Rng::new(&[seed, worker, i]);
        let prefix = if guided && !corpus.is_empty() && rng.below(5) < 3 {
            mutated += 1;
            mutate(&mut rng, &corpus)
        } else {
            Vec::new()
        };
        let o = exec(p, Src::new(rng, prefix, false));
        choices_total += o.src.rec.len() as u64;
        if let Some(msg) = o.fail {
            let t0 = std::time::Instant::now();
            let first = o.src.rec.clone();
            let confirmed = exec(p, Src::new(Rng::new(&[0]), first.clone(), true));
            if confirmed.fail.is_none() && FLAKY.load(Ordering::Relaxed) {
                std::fs::write(&fail_path, replay_text(p, &msg, &first)).unwrap();
                std::process::exit(1);
            }
            if confirmed.fail.is_none() {
                eprintln!("HARNESS: failure does not reproduce: {}", msg);
                std::process::exit(3);
            }
            let best = shrink(first, 6000, |c| {
                if t0.elapsed().as_secs() > 60 {
                    return None;
                }
                let o = exec(p, Src::new(Rng::new(&[0]), c.to_vec(), true));
                match o.fail {
                    Some(m) if !m.starts_with("HARNESS") => Some(o.src.rec),
                    _ => None,
                }
            });
            if msg.starts_with("HARNESS") {
                eprintln!("{}", msg);
                std::process::exit(3);
            }
            std::fs::write(&fail_path, replay_text(p, &msg, &best)).unwrap();
            std::process::exit(1);
        }
        for l in &o.src.labels {
            *labels.entry(l).or_insert(0) += 1;
        }
        if o.new_cov && o.src.rec.len() < 20_000 && corpus.len() < 4000 {
            corpus.push((o.src.rec.clone(), o.src.maxes.clone()));
        }
        if o.src.nontrivial {
            nontrivial += 1;
            hashes.insert(hash(&o.src.rec));
            if samples.len() < 2 && o.src.rec.len() < 3000 && i >= worker * 3 {
                let (log, _) = describe(p, &o.src.rec);
                samples.push(clip(&log));
            }
        }
    }

    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"cases\":{},\"nontrivial\":{},\"distinct\":{},\"choices\":{},\"directed\":{},\"guided\":{},\"mutated\":{},\"corpus\":{},\"edges\":{},\"dict\":{},\"extra\":{},\"rule\":{},\"labels\":{{",
        done, nontrivial, hashes.len(), choices_total, directed, guided, mutated,
        corpus.len(), cov::st().edges, cov::st().dict.len(),
        EXTRA.load(Ordering::Relaxed), json_str(p.rule)
    );
    for (k, (l, n)) in labels.iter().enumerate() {
        let _ = write!(j, "{}{}:{}", if k > 0 { "," } else { "" }, json_str(l), n);
    }
    j.push_str("},\"samples\":[");
    for (k, s) in samples.iter().enumerate() {
        let _ = write!(j, "{}{}", if k > 0 { "," } else { "" }, json_str(s));
    }
    j.push_str("]}");
    let mut hv: Vec<u64> = hashes.into_iter().collect();
    hv.sort();
    let mut f = std::io::BufWriter::new(
        std::fs::File::create(format!("{}/w{}.hashes", out, worker)).unwrap(),
    );
    for h in hv.into_iter().take(2_000_000) {
        f.write_all(&h.to_le_bytes()).unwrap();
    }
    f.flush().unwrap();
    std::fs::write(format!("{}/w{}.json", out, worker), j).unwrap();
}
