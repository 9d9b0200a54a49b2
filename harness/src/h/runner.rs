//! Runs the suites of one property: parallel seeded generation, shrinking, replay files, evidence.

use super::gen::{hash_str, mix, Gen};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub type Res = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Suite {
    pub name: &'static str,
    /// cases in the quick tier; the thorough tier runs `quick * thorough_factor`
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Gen) -> Res,
}

pub struct Known {
    pub key: &'static str,
    /// Ok: no longer fails. Err: what fails.
    pub f: fn() -> Res,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: &'static [Suite],
    pub known: &'static [Known],
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

fn run_case(s: &Suite, mut g: Gen) -> (Gen, Res) {
    let r = match guard(|| (s.f)(&mut g)) {
        Ok(r) => r,
        Err(m) => Err(m),
    };
    (g, r)
}

/// Errors of the check itself (an inconsistent generator or model), never a violation.
pub const HARNESS_BUG: &str = "HARNESS:";

struct Best {
    idx: u64,
    rec: Vec<u32>,
    msg: String,
}

fn shrink(s: &Suite, rec: Vec<u32>, msg: String, budget: Duration) -> (Vec<u32>, String) {
    let start = Instant::now();
    let mut best = rec;
    let mut best_msg = msg;
    let try_ = |cand: Vec<u32>, best: &mut Vec<u32>, best_msg: &mut String| -> bool {
        let (g, r) = run_case(s, Gen::replay(cand, false));
        match r {
            Err(m) if !m.contains(HARNESS_BUG) => {
                // canonical form: what was actually drawn
                let mut rec = g.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let better = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
                if better {
                    *best = rec;
                    *best_msg = m;
                }
                better
            }
            _ => false,
        }
    };
    loop {
        let mut improved = false;
        // delete blocks
        for k in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                if start.elapsed() > budget {
                    return (best, best_msg);
                }
                let lo = i.saturating_sub(k);
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(lo..i);
                    if try_(c, &mut best, &mut best_msg) {
                        improved = true;
                    }
                }
                i = i.saturating_sub(if k > 4 { k / 2 } else { 1 });
            }
        }
        // reduce values
        let mut i = 0;
        while i < best.len() {
            if start.elapsed() > budget {
                return (best, best_msg);
            }
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if try_(c, &mut best, &mut best_msg) {
                    improved = true;
                } else {
                    let mut lo = 0;
                    let mut hi = best.get(i).copied().unwrap_or(0);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_(c, &mut best, &mut best_msg) {
                            improved = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    // delete-and-decrement: for counts followed by elements
                    if i + 1 < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.remove(i + 1);
                        if try_(c, &mut best, &mut best_msg) {
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return (best, best_msg);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Progress {
    /// per thread: case idx+1, start millis, thread id
    cur: Vec<(AtomicU64, AtomicU64, AtomicU64)>,
}

/// Processor time used by a thread of this process, in milliseconds
fn cpu_ms(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let get = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (get(11) + get(12)) * 10
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// A case may use this much processor time (they normally take microseconds)
const CASE_CPU_MS: u64 = 40_000;

fn in_flight_path(verif: &str, id: &str) -> String {
    format!("{}/replays/.{}-in-flight-{}", verif, id, std::process::id())
}

/// Runs the check in a child process, so that a parse that overflows the stack or aborts is
/// reported with the case that did it.
fn supervise(p: &Property, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let verif = verif_dir();
    let _ = std::fs::create_dir_all(format!("{}/replays", verif));
    let flight = in_flight_path(&verif, p.id);
    let run = |args: &[String]| {
        std::process::Command::new(&exe)
            .args(args)
            .env("HARNESS_CHILD", &flight)
            .status()
            .expect("start child")
    };
    let start = Instant::now();
    let st = run(&args[1..]);
    let cases = std::fs::read(&flight).unwrap_or_default();
    let _ = std::fs::remove_file(&flight);
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    for rec in cases.chunks(64) {
        let text = String::from_utf8_lossy(rec).trim_end_matches(['\0', ' ']).to_string();
        let mut it = text.split_whitespace();
        let (Some(suite), Some(seed)) = (it.next(), it.next()) else { continue };
        let path = format!("{}/replays/{}-{}-crash.txt", verif, p.id, suite);
        let _ = std::fs::write(
            &path,
            format!("property {}\nsuite {}\nseedcase {}\nmessage the process died with signal {}\n", p.id, suite, seed, sig),
        );
        let r = run(&["--replay".to_string(), path.clone()]);
        let _ = std::fs::remove_file(&flight);
        if r.code().is_none() {
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  suite {}: the process died with signal {} (stack overflow or abort)", suite, sig);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
            write_evidence(p, tier, seed, 1, 0, &[format!("crashing case {}", path)], &[], &BTreeMap::new(), start, 1);
            std::process::exit(1);
        }
    }
    println!("CHECK-ERROR property={}: the process died with signal {}", p.id, sig);
    std::process::exit(2)
}

pub fn main(p: &Property) -> ! {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("panic at {}: {}", loc, msg));
            }
        });
    }));
    let args: Vec<String> = std::env::args().collect();
    let Ok(flight) = std::env::var("HARNESS_CHILD") else { supervise(p, &args) };
    let flight = std::fs::File::create(flight).expect("case file");
    if args.len() > 2 && args[1] == "--replay" {
        replay(p, &args[2]);
    }
    let only = if args.len() > 2 && args[1] == "--suite" {
        Some(args[2].clone())
    } else {
        None
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let start = Instant::now();
    let verif = verif_dir();
    let replays = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&replays);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));

    // Known findings: only those listed in the committed file are tolerated.
    let listed = std::fs::read_to_string(format!("{}/known-findings.txt", verif)).unwrap_or_default();
    let mut violations = 0u64;
    for k in p.known {
        let tag = format!("known: property={} key={} ", p.id, k.key);
        let line = listed.lines().find(|l| l.starts_with(&tag));
        let r = match guard(k.f) {
            Ok(r) => r,
            Err(m) => Err(m),
        };
        if let Err(m) = r {
            match line {
                Some(_) => println!("KNOWN-FINDING: property={} {}: {}", p.id, k.key, m),
                None => {
                    let path = format!("{}/{}-known-{}.txt", replays, p.id, k.key);
                    let _ = std::fs::write(&path, format!("{}\n", m));
                    println!("VIOLATION property={} replay={}", p.id, path);
                    println!("  {}", m);
                    violations += 1;
                }
            }
        }
    }

    let mut evals = 0u64;
    let mut distinct_total = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut suite_ev: Vec<String> = Vec::new();
    let mut labels_total: BTreeMap<String, u64> = BTreeMap::new();
    let threads: usize = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .min(8)
        });

    for s in p.suites {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let n = ((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * scale).max(1.0) as u64;
        let suite_seed = mix(seed ^ hash_str(p.id) ^ hash_str(s.name).rotate_left(17));
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let done = AtomicBool::new(false);
        let best: Mutex<Option<Best>> = Mutex::new(None);
        let harness_err: Mutex<Option<String>> = Mutex::new(None);
        let merged: Mutex<(HashSet<u64>, BTreeMap<&'static str, u64>, Vec<(u64, String)>, u64, u64)> =
            Mutex::new((HashSet::new(), BTreeMap::new(), Vec::new(), 0, 0));
        let progress = Progress {
            cur: (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect(),
        };
        let t0 = Instant::now();
        let baseline = LIVE.load(SeqCst);
        std::thread::scope(|sc| {
            // watchdog
            sc.spawn(|| {
                // first seen (case, processor time) of slow cases
                let mut slow: Vec<Option<(u64, u64)>> = vec![None; threads];
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(25));
                    let now = t0.elapsed().as_millis() as u64;
                    let live = LIVE.load(SeqCst) - baseline;
                    let mut hung = None;
                    for (i, (idx, st, tid)) in progress.cur.iter().enumerate() {
                        let idx = idx.load(SeqCst);
                        let age = now.saturating_sub(st.load(SeqCst));
                        if idx == 0 || age < 3000 {
                            slow[i] = None;
                            if !(idx != 0 && live > 6_000_000_000 && age > 400) {
                                continue;
                            }
                        }
                        let cpu = cpu_ms(tid.load(SeqCst));
                        let used = match slow[i] {
                            Some((c, t)) if c == idx => cpu.saturating_sub(t),
                            _ => {
                                slow[i] = Some((idx, cpu));
                                0
                            }
                        };
                        if used > CASE_CPU_MS || (live > 6_000_000_000 && age > 400) {
                            hung = Some((i, idx - 1, age));
                        }
                    }
                    if let Some((_, idx, age)) = hung {
                        let path = format!("{}/{}-{}-{}.txt", replays, p.id, s.name, idx);
                        let body = format!(
                            "property {}\nsuite {}\nseedcase {}\nmessage case did not finish ({} ms, {} bytes live)\n",
                            p.id, s.name, suite_seed.wrapping_add(mix(idx)), age, live
                        );
                        let _ = std::fs::write(&path, body);
                        println!("VIOLATION property={} replay={}", p.id, path);
                        println!("  suite {} case {}: parse did not terminate", s.name, idx);
                        write_evidence(p, tier, seed, idx, 0, &[format!("hung case {}", idx)], &[], &BTreeMap::new(), start, 1);
                        std::process::exit(1);
                    }
                }
            });
            let mut hs = Vec::new();
            for t in 0..threads {
                let (next, stop_at, best, merged, progress, harness_err, flight) =
                    (&next, &stop_at, &best, &merged, &progress, &harness_err, &flight);
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        use std::os::unix::fs::FileExt;
                        progress.cur[t].2.store(own_tid(), SeqCst);
                        let mut distinct = HashSet::new();
                        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut samp = Vec::new();
                        let (mut ev, mut checks) = (0u64, 0u64);
                        loop {
                            let idx = next.fetch_add(1, SeqCst);
                            if idx >= n || idx > stop_at.load(SeqCst) {
                                break;
                            }
                            progress.cur[t].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                            progress.cur[t].0.store(idx + 1, SeqCst);
                            let tag = format!("{:<64}", format!("{} {}", s.name, suite_seed.wrapping_add(mix(idx))));
                            let _ = flight.write_all_at(tag.as_bytes(), t as u64 * 64);
                            let want = idx < 400;
                            let (g, r) = run_case(s, Gen::seeded(suite_seed.wrapping_add(mix(idx)), want));
                            progress.cur[t].0.store(0, SeqCst);
                            ev += 1;
                            checks += g.checks;
                            for (l, c) in g.labels {
                                *labels.entry(l).or_insert(0) += c;
                            }
                            if let Some(k) = g.nontrivial {
                                distinct.insert(k);
                                if let (true, Some(d)) = (want, g.desc) {
                                    samp.push((idx, d));
                                }
                            }
                            if let Err(m) = r {
                                if m.contains(HARNESS_BUG) {
                                    *harness_err.lock().unwrap() = Some(m);
                                    stop_at.store(0, SeqCst);
                                    break;
                                }
                                stop_at.fetch_min(idx, SeqCst);
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |b| idx < b.idx) {
                                    *b = Some(Best { idx, rec: g.rec, msg: m });
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.0.extend(distinct);
                        for (l, c) in labels {
                            *m.1.entry(l).or_insert(0) += c;
                        }
                        m.2.extend(samp);
                        m.3 += ev;
                        m.4 += checks;
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                let _ = h.join();
            }
            done.store(true, SeqCst);
        });
        if let Some(m) = harness_err.into_inner().unwrap() {
            println!("CHECK-ERROR property={} suite={}: {}", p.id, s.name, m);
            std::process::exit(2);
        }
        let (distinct, labels, mut samp, ev, checks) = merged.into_inner().unwrap();
        evals += ev;
        distinct_total += distinct.len() as u64;
        samp.sort();
        for (_, d) in samp.iter().take(3) {
            samples.push(format!("[{}] {}", s.name, d));
        }
        suite_ev.push(format!(
            "{{\"name\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"comparisons\":{},\"wall_s\":{:.2}}}",
            esc(s.name),
            ev,
            distinct.len(),
            checks,
            t0.elapsed().as_secs_f64()
        ));
        for (l, c) in &labels {
            *labels_total.entry(format!("{}/{}", s.name, l)).or_insert(0) += c;
        }
        if let Some(b) = best.into_inner().unwrap() {
            violations += 1;
            let secs = std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(15);
            // shrink on a big stack, under the same time limit
            let (rec, msg) = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || shrink(s, b.rec.clone(), b.msg.clone(), Duration::from_secs(secs)))
                    .unwrap()
                    .join()
                    .unwrap_or((b.rec.clone(), b.msg.clone()))
            });
            let (g, _) = run_case(s, Gen::replay(rec.clone(), true));
            let desc = g.desc.unwrap_or_default();
            let path = format!("{}/{}-{}.txt", replays, p.id, s.name);
            let body = format!(
                "property {}\nsuite {}\ndraws {}\ncase {}\nmessage {}\n",
                p.id,
                s.name,
                rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
                desc.replace('\n', "\\n"),
                msg
            );
            let _ = std::fs::write(&path, body);
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  suite {} (first failing case {}): {}", s.name, b.idx, msg);
            println!("  case: {}", desc);
        }
    }
    write_evidence(p, tier, seed, evals, distinct_total, &samples, &suite_ev, &labels_total, start, violations);
    println!(
        "property {}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        p.id,
        evals,
        distinct_total,
        violations,
        start.elapsed().as_secs_f64()
    );
    std::process::exit(if violations > 0 { 1 } else { 0 });
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Property,
    tier: &str,
    seed: u64,
    evals: u64,
    distinct: u64,
    samples: &[String],
    suites: &[String],
    labels: &BTreeMap<String, u64>,
    start: Instant,
    violations: u64,
) {
    let j = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"suites\":[{}],\"features\":{{{}}}}},\n\"assumptions\":[{}],\n\"wall_s\":{:.3},\n\"violations\":{}\n}}\n",
        esc(p.id),
        esc(tier),
        seed,
        evals,
        distinct,
        esc(p.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        suites.join(","),
        labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        p.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        start.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), p.id), j);
}

fn replay(p: &Property, path: &str) -> ! {
    let text = std::fs::read_to_string(path).expect("replay file");
    let mut suite = "";
    let mut draws: Option<Vec<u32>> = None;
    let mut seedcase = None;
    for l in text.lines() {
        if let Some(s) = l.strip_prefix("suite ") {
            suite = s;
        } else if let Some(s) = l.strip_prefix("draws") {
            draws = Some(s.split_whitespace().map(|x| x.parse().unwrap()).collect());
        } else if let Some(s) = l.strip_prefix("seedcase ") {
            seedcase = Some(s.trim().parse::<u64>().unwrap());
        }
    }
    let s = p.suites.iter().find(|s| s.name == suite).expect("suite");
    let g = match (draws, seedcase) {
        (Some(d), _) => Gen::replay(d, true),
        (None, Some(sc)) => Gen::seeded(sc, true),
        _ => panic!("nothing to replay"),
    };
    let (g, r) = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || run_case(s, g)).unwrap().join().unwrap()
    });
    println!("case: {}", g.desc.unwrap_or_default());
    match r {
        Ok(()) => {
            println!("replay: property {} holds on this case", p.id);
            std::process::exit(0)
        }
        Err(m) => {
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {}", m);
            std::process::exit(1)
        }
    }
}
