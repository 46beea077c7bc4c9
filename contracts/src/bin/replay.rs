//! Runs contracts against the real code on concrete inputs.
//!
//! `replay search PROP SECS SEED OUT [NAME]` looks for a failing input,
//! `replay run FILE` runs one recorded input, `replay list PROP` lists the contracts.
use kompact_contracts::{
    nondet::{Discard, TapeSrc},
    registry,
};
use std::{
    fs,
    io::Write,
    os::unix::fs::FileExt,
    panic,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

enum Outcome {
    Pass,
    Discarded,
    Fail(String),
}

static LAST: Mutex<String> = Mutex::new(String::new());
/// Every run starts with systems of its own.
static FRESH: AtomicBool = AtomicBool::new(false);
static BEAT: AtomicU64 = AtomicU64::new(0);

fn run_one(f: fn(&mut TapeSrc), src: &mut TapeSrc) -> Outcome {
    LAST.lock().unwrap_or_else(|e| e.into_inner()).clear();
    if FRESH.load(Ordering::Relaxed) {
        kompact_contracts::sys::reset();
    }
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(src)));
    match r {
        Ok(()) => Outcome::Pass,
        Err(e) if e.is::<Discard>() => Outcome::Discarded,
        Err(e) => {
            kompact_contracts::sys::reset();
            let mut m = LAST.lock().unwrap_or_else(|e| e.into_inner()).clone();
            if m.is_empty() {
                m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
            }
            Outcome::Fail(m)
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn shrink(f: fn(&mut TapeSrc), tape: Vec<u8>, msg: String) -> (Vec<u8>, String) {
    let (mut best, mut best_msg) = (tape.clone(), msg.clone());
    let start = Instant::now();
    FRESH.store(true, Ordering::Relaxed);
    let mut try_tape = |t: Vec<u8>, best: &mut Vec<u8>, best_msg: &mut String| -> bool {
        if start.elapsed() > Duration::from_secs(5) {
            return false;
        }
        BEAT.fetch_add(1, Ordering::Relaxed);
        let mut s = TapeSrc::replay(t);
        match run_one(f, &mut s) {
            Outcome::Fail(m) => {
                let mut t = s.tape;
                t.truncate(s.pos.max(1));
                *best = t;
                *best_msg = m;
                true
            }
            _ => false,
        }
    };
    for _ in 0..3 {
        // drop suffixes and blocks, then zero and halve bytes
        let mut block = best.len() / 2;
        while block > 0 {
            let mut i = 0;
            while i + block <= best.len() {
                let mut t = best.clone();
                t.drain(i..i + block);
                if !try_tape(t, &mut best, &mut best_msg) {
                    i += block;
                }
            }
            block /= 2;
        }
        for i in 0..best.len() {
            for v in [0u8, 1, best.get(i).copied().unwrap_or(0) / 2] {
                if i < best.len() && best[i] > v {
                    let mut t = best.clone();
                    t[i] = v;
                    if try_tape(t, &mut best, &mut best_msg) {
                        break;
                    }
                }
            }
        }
    }
    // What is left must fail on its own.
    match run_one(f, &mut TapeSrc::replay(best.clone())) {
        Outcome::Fail(m) => (best, m),
        _ => (tape, msg),
    }
}

fn seed_of(seed: u64, name: &str, i: u64) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ seed;
    for b in name.bytes().chain(i.to_le_bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| match c {
            '"' => "\\\"".chars().collect::<Vec<_>>(),
            '\\' => "\\\\".chars().collect(),
            '\n' => "\\n".chars().collect(),
            c if (c as u32) < 32 => " ".chars().collect(),
            c => vec![c],
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let hook: Box<dyn Fn(&panic::PanicHookInfo<'_>) + Send + Sync> = Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = LAST.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_empty() {
            *g = format!("{} at {}", msg, loc);
        }
    });
    panic::set_hook(hook);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (p, n, _) in registry() {
                if args.len() < 3 || p == args[2] {
                    println!("{p} {n}");
                }
            }
        }
        Some("run") => {
            let text = fs::read_to_string(&args[2]).unwrap();
            let get = |k: &str| -> String {
                text.lines()
                    .find_map(|l| l.strip_prefix(&format!("{k}=")))
                    .unwrap_or("")
                    .to_string()
            };
            let (name, prop) = (get("contract"), get("property"));
            let f = registry().into_iter().find(|e| e.1 == name && e.0 == prop).expect("unknown contract").2;
            let mut src = if get("tape").is_empty() && !get("seed").is_empty() {
                TapeSrc::random(get("seed").parse().unwrap())
            } else if !get("ktape").is_empty() {
                TapeSrc::counterexample(unhex(&get("ktape")))
            } else {
                TapeSrc::replay(unhex(&get("tape")))
            };
            watchdog(None);
            match run_one(f, &mut src) {
                Outcome::Pass => println!("PASS {name}"),
                Outcome::Discarded => println!("DISCARDED {name}"),
                Outcome::Fail(m) => {
                    println!("FAIL {name}: {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            let prop = &args[2];
            let secs: f64 = args[3].parse().unwrap();
            let seed: u64 = args[4].parse().unwrap();
            let out = args[5].clone();
            let only = args.get(6);
            let todo: Vec<_> = registry()
                .into_iter()
                .filter(|e| e.0 == prop && only.is_none_or(|o| o.split(',').any(|x| x == e.1)))
                .collect();
            FRESH.store(std::env::var_os("KV_FRESH").is_some(), Ordering::Relaxed);
            let per = secs / todo.len().max(1) as f64;
            let progress = Arc::new(Mutex::new((String::new(), 0u64)));
            watchdog(Some((out.clone(), prop.clone(), progress.clone())));
            let mut failed = false;
            let mut lines = String::new();
            for (p, name, f) in todo {
                let cur = fs::File::create(format!("{out}.current")).unwrap();
                // The input about to run is written down first, so that an abort can be replayed.
                let (mut runs, mut passed, mut bytes) = (0u64, 0u64, 0usize);
                let mut seen = std::collections::HashSet::new();
                let mut sample: Vec<u8> = Vec::new();
                let start = Instant::now();
                let mut i = 0u64;
                while start.elapsed().as_secs_f64() < per || passed < 3 && i < 2000 {
                    let sd = seed_of(seed, name, i);
                    BEAT.fetch_add(1, Ordering::Relaxed);
                    *progress.lock().unwrap() = (name.to_string(), sd);
                    cur.write_all_at(
                        format!("property={p}\ncontract={name}\nseed={sd:020}\n").as_bytes(),
                        0,
                    )
                    .ok();
                    let mut src = TapeSrc::random(sd);
                    match run_one(f, &mut src) {
                        Outcome::Pass => {
                            passed += 1;
                            bytes = bytes.max(src.tape.len());
                            seen.insert({
                                use std::hash::{DefaultHasher, Hash, Hasher};
                                let mut h = DefaultHasher::new();
                                src.tape.hash(&mut h);
                                h.finish()
                            });
                            if src.tape.len() <= 200 && src.tape.len() > sample.len() {
                                sample = src.tape.clone();
                            }
                        }
                        Outcome::Discarded => {}
                        Outcome::Fail(m) => {
                            let (t, m) = shrink(f, src.tape, m);
                            fs::write(
                                &out,
                                format!(
                                    "property={p}\ncontract={name}\ntape={}\nmessage={}\n",
                                    hex(&t),
                                    m.replace('\n', " ")
                                ),
                            )
                            .unwrap();
                            println!("FAIL {name}: {}", m.replace('\n', " "));
                            failed = true;
                            break;
                        }
                    }
                    runs += 1;
                    i += 1;
                }
                lines += &format!(
                    "{{\"contract\":\"{}\",\"runs\":{},\"passed\":{},\"distinct\":{},\"max_input_bytes\":{},\"sample\":\"{}\"}}\n",
                    esc(name), runs, passed, seen.len(), bytes, hex(&sample)
                );
                if failed {
                    break;
                }
            }
            fs::write(format!("{out}.stats"), lines).unwrap();
            fs::remove_file(format!("{out}.current")).ok();
            std::io::stdout().flush().ok();
            std::process::exit(if failed { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: replay list|run|search ...");
            std::process::exit(2);
        }
    }
}

/// A contract that does not return within 20 s counts as failing.
fn watchdog(search: Option<(String, String, Arc<Mutex<(String, u64)>>)>) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(20) {
                if let Some((out, prop, progress)) = &search {
                    let (name, sd) = progress.lock().unwrap().clone();
                    fs::write(
                        out,
                        format!("property={prop}\ncontract={name}\nseed={sd}\nmessage=does not return\n"),
                    )
                    .ok();
                    println!("FAIL {name}: does not return within 20 s");
                } else {
                    println!("FAIL: does not return within 20 s");
                }
                std::process::exit(1);
            }
        }
    });
}
