//! Searches for an input on which the code under test breaks a property, against an independent
//! reference; replays one. Used when the verifier gives no counterexample of its own, and as the
//! bounded stand-in where a function cannot be verified.
mod conn;
mod dict;
mod low;
mod net;
mod rf;
mod stream;
mod traffic;
mod util;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static A: Counting = Counting;

pub struct Scenario {
    pub name: &'static str,
    pub props: &'static [&'static str],
    /// cases of a quick run
    pub cases: u64,
    pub run: fn(&mut Case) -> Res,
}

fn scenarios() -> Vec<Scenario> {
    let mut v = low::scenarios();
    v.extend(stream::scenarios());
    v.extend(traffic::scenarios());
    v
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

thread_local! { static PANIC: std::cell::RefCell<String> = Default::default(); }

fn one(s: &Scenario, seed: u64, idx: u64, thorough: bool) -> Res {
    let mut r = Rng(seed ^ hash(s.name));
    r.next();
    let mut c = Case { rng: Rng(r.next() ^ idx.wrapping_mul(0xA24BAED4963EE407)), idx, thorough };
    let run = s.run;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m} {}", PANIC.with(|p| p.borrow().clone())))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = l);
    }));
    rf::self_test();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], a[3].parse().unwrap(), a[4] == "thorough", a[5].parse().unwrap(), &a[6]),
        Some("one") => {
            let all = scenarios();
            let s = all.iter().find(|s| s.name == a[2]).expect("scenario");
            match one(s, a[3].parse().unwrap(), a[4].parse().unwrap(), a.get(5).is_some_and(|x| x == "thorough")) {
                Ok(()) => println!("HOLDS"),
                Err(e) => {
                    println!("FAILS {e}");
                    std::process::exit(1);
                }
            }
        }
        Some("constants") => dict::list(),
        Some("list") => {
            for s in scenarios() {
                println!("{} {} {:?}", s.name, s.cases, s.props);
            }
        }
        _ => panic!("usage"),
    }
}

/// Runs the scenarios of a property; writes a JSON summary to `out`.
fn run(prop: &str, seed: u64, thorough: bool, secs: u64, out: &str) {
    let all = scenarios();
    let mine: Vec<&Scenario> = all.iter().filter(|s| s.props.contains(&prop) || prop == "all").collect();
    let start = Instant::now();
    let fail: Mutex<Option<(String, u64, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let mut lines = vec![];
    let mut total = 0u64;
    for (at, s) in mine.iter().enumerate() {
        let t0 = Instant::now();
        // what is left of the time, shared evenly by the scenarios that are left
        let left = Duration::from_secs(secs).saturating_sub(start.elapsed());
        let deadline = t0 + left / (mine.len() - at) as u32;
        eprintln!("scenario {}", s.name);
        let n = s.cases * if s.name.starts_with("timed") { if thorough { 40 } else { 1 } } else if thorough { 2000 } else { 8 };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let current: Vec<Mutex<Option<(u64, Instant)>>> = (0..8).map(|_| Mutex::new(None)).collect();
        let finished = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|w| {
                    let (next, done, stop, fail, current) = (&next, &done, &stop, &fail, &current);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            // the first cases always run, whatever the time
                            if i >= n || stop.load(Ordering::Relaxed) || (i >= 16 && Instant::now() > deadline) {
                                break;
                            }
                            *current[w].lock().unwrap() = Some((i, Instant::now()));
                            let r = one(s, seed, i, thorough);
                            *current[w].lock().unwrap() = None;
                            done.fetch_add(1, Ordering::Relaxed);
                            if let Err(e) = r {
                                // a second run rules out disturbances of timing-dependent cases
                                if !s.name.starts_with("timed") || one(s, seed, i, thorough).is_err() {
                                    let mut f = fail.lock().unwrap();
                                    if f.is_none() {
                                        *f = Some((s.name.to_string(), i, e));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        })
                        .unwrap()
                })
                .collect();
            // watchdog: a case that never ends is a failure of its own
            let (current, finished, stop) = (&current, &finished, &stop);
            sc.spawn(move || {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    for c in current {
                        if let Some((i, t)) = *c.lock().unwrap() {
                            if t.elapsed() > Duration::from_secs(150) {
                                summary(out, prop, &[], 0, start, Some((s.name.to_string(), i, "does not end".to_string())), seed, thorough);
                                std::process::exit(1);
                            }
                        }
                    }
                    let _ = stop;
                }
            });
            for h in hs {
                let _ = h.join();
            }
            finished.store(true, Ordering::Relaxed);
        });
        let d = done.load(Ordering::Relaxed);
        total += d;
        lines.push(format!("{{\"scenario\": \"{}\", \"cases\": {}, \"seconds\": {:.2}}}", s.name, d, t0.elapsed().as_secs_f64()));
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }
    let f = fail.lock().unwrap().clone();
    let bad = f.is_some();
    summary(out, prop, &lines, total, start, f, seed, thorough);
    std::process::exit(if bad { 1 } else { 0 });
}

fn summary(out: &str, prop: &str, lines: &[String], total: u64, start: Instant, f: Option<(String, u64, String)>, seed: u64, thorough: bool) {
    let esc = |s: &str| s.chars().map(|c| if c == '"' || c == '\\' { format!("\\{c}") } else if (c as u32) < 32 { " ".into() } else { c.to_string() }).collect::<String>();
    let fail = match &f {
        Some((s, i, e)) => format!("{{\"scenario\": \"{}\", \"case\": {}, \"seed\": {}, \"tier\": \"{}\", \"message\": \"{}\"}}", s, i, seed, if thorough { "thorough" } else { "quick" }, esc(e)),
        None => "null".into(),
    };
    let t = format!(
        "{{\"property\": \"{}\", \"evaluations\": {}, \"hooks\": {}, \"seconds\": {:.2}, \"scenarios\": [{}], \"failure\": {}}}\n",
        prop,
        total,
        cfg!(bip324_verif),
        start.elapsed().as_secs_f64(),
        lines.join(", "),
        fail
    );
    std::fs::File::create(out).unwrap().write_all(t.as_bytes()).unwrap();
}
