//! Runs the real crate against independent oracles.
//!   harness run PROP SEED SECONDS OUT [MAXCASES]   harness replay FILE
mod alloc;
mod codec;
mod data;
mod front;
mod gen;
mod gram;
mod rng;

use rng::Rng;
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Watching = alloc::Watching;

type Run = fn(&mut Rng, u64) -> codec::Case;

fn properties() -> Vec<(&'static str, Run)> {
    vec![
        ("P01", codec::scalars),
        ("P02", codec::collections),
        ("P03", codec::ids),
        ("P04", codec::malformed),
        ("P05", codec::truncated),
        ("P06", codec::trimming),
        ("P07", data::records),
        ("P08", data::whole),
        ("P09", gram::postings),
        ("P10", gram::tree),
        ("P11", gram::fuzzy),
        ("P12", gram::search),
        ("P13", data::categories),
        ("P14", data::tags),
        ("P15", data::orders),
        ("P16", data::features),
        ("P17", front::facets),
        ("P18", front::filters),
        ("P19", front::suggestion),
        ("P20", data::producer),
        ("P21", data::vendors),
        ("P22", front::endpoint),
        ("P23", front::observers),
    ]
}

static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}

fn one(f: Run, seed: u64, index: u64) -> codec::Case {
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(index));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rng, index))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static CURRENT: AtomicU64 = AtomicU64::new(0);

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{what} at {at}");
        }
    }));
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    let code = t.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let arg = |k: usize| args.get(k).cloned().unwrap_or_default();
    match arg(1).as_str() {
        "run" => {
            let name = arg(2);
            let seed: u64 = arg(3).parse().unwrap_or(1);
            let secs: f64 = arg(4).parse().unwrap_or(5.0);
            let out = arg(5);
            let most: u64 = arg(6).parse().unwrap_or(u64::MAX);
            let f = match properties().into_iter().find(|(n, _)| *n == name) {
                Some((_, f)) => f,
                None => {
                    eprintln!("no property {name}");
                    return 3;
                }
            };
            let marker = format!("{out}.at");
            // A case that never ends is reported by this thread
            {
                let marker = marker.clone();
                std::thread::spawn(move || {
                    let mut last = (u64::MAX, Instant::now());
                    loop {
                        std::thread::sleep(Duration::from_millis(500));
                        let now = CURRENT.load(Ordering::Relaxed);
                        if now != last.0 {
                            last = (now, Instant::now());
                        } else if last.1.elapsed() > Duration::from_secs(60) {
                            let _ = std::fs::write(&marker, format!("{now}"));
                            eprintln!("case {now} does not end");
                            std::process::exit(4);
                        }
                    }
                });
            }
            let slow = std::env::var_os("HARNESS_SLOW").is_some();
            let start = Instant::now();
            let mut n = 0;
            let mut seen = HashSet::new();
            let mut samples: Vec<String> = Vec::new();
            let mut failure: Option<(u64, String)> = None;
            let mut at_file = std::fs::File::create(&marker).ok();
            // What a case puts in an arena stays until the end
            while start.elapsed().as_secs_f64() < secs && n < most && alloc::live() < 3 << 30 {
                CURRENT.store(n, Ordering::Relaxed);
                if let Some(f) = &mut at_file {
                    use std::io::Seek;
                    let _ = f.seek(std::io::SeekFrom::Start(0));
                    let _ = write!(f, "{n:<20}");
                }
                let began = Instant::now();
                let outcome = one(f, seed, n);
                if slow && began.elapsed().as_secs_f64() > 0.4 {
                    eprintln!("case {n} took {:.2} s", began.elapsed().as_secs_f64());
                }
                match outcome {
                    Ok(about) => {
                        if samples.len() < 5 && n > 20 && n % 7 == 3 {
                            samples.push(about.chars().take(400).collect());
                        }
                        seen.insert(about);
                        n += 1;
                    }
                    Err(e) => {
                        failure = Some((n, e));
                        n += 1;
                        break;
                    }
                }
            }
            let mut o = String::from("{");
            o.push_str(&format!("\"property\":{},\"seed\":{seed},\"evaluations\":{n},\"distinct\":{},", json(&name), seen.len()));
            o.push_str(&format!("\"samples\":[{}],", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")));
            match &failure {
                Some((i, e)) => o.push_str(&format!("\"failure\":{{\"index\":{i},\"what\":{}}}", json(e))),
                None => o.push_str("\"failure\":null"),
            }
            o.push('}');
            let _ = std::fs::write(&out, o);
            let _ = std::fs::remove_file(&marker);
            i32::from(failure.is_some())
        }
        // Reads a gram tree nested 200000 levels deep on a stack of 8 MB
        "deep" => std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(|| {
                codec::deep_tree(200_000);
                0
            })
            .unwrap()
            .join()
            .unwrap_or(1),
        "case" => {
            let f = match properties().into_iter().find(|(n, _)| *n == arg(2)) {
                Some((_, f)) => f,
                None => return 3,
            };
            match one(f, arg(3).parse().unwrap_or(1), arg(4).parse().unwrap_or(0)) {
                Ok(s) => {
                    println!("holds: {s}");
                    0
                }
                Err(e) => {
                    println!("FAILS: {e}");
                    1
                }
            }
        }
        _ => {
            eprintln!("harness run PROP SEED SECONDS OUT | harness case PROP SEED INDEX");
            3
        }
    }
}
