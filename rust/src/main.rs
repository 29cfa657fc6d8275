#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use lyv::src::{Discard, Native};
    use std::cell::RefCell;
    use std::panic::{AssertUnwindSafe, catch_unwind};
    use std::time::{Duration, Instant};
    thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|c| *c.borrow_mut() = format!("{m}{loc}"));
    }));
    let args: Vec<String> = std::env::args().collect();
    let list = lyv::all();
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let esc = |s: &str| {
        s.chars()
            .map(|c| match c {
                '"' => "\\\"".to_string(),
                '\\' => "\\\\".to_string(),
                c if (c as u32) < 0x20 => " ".to_string(),
                c => c.to_string(),
            })
            .collect::<String>()
    };
    // returns (discarded, reached, failure)
    let once = |f: fn(&mut Native), s: &mut Native| -> (bool, Option<String>) {
        match catch_unwind(AssertUnwindSafe(|| f(s))) {
            Ok(()) => (false, None),
            Err(e) if e.is::<Discard>() => (true, None),
            Err(_) => (false, Some(MSG.with(|c| c.borrow().clone()))),
        }
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, _) in &list {
                println!("{n}");
            }
        }
        // run SEED MAX_ITERS BUDGET_MS names...
        Some("run") => {
            let seed: u64 = args[2].parse().unwrap();
            let iters: u64 = args[3].parse().unwrap();
            let budget = Duration::from_millis(args[4].parse().unwrap());
            let mut handles = vec![];
            for name in &args[5..] {
                let Some(&(n, f)) = list.iter().find(|(n, _)| n == name) else {
                    println!("{{\"harness\":\"{name}\",\"missing\":true}}");
                    continue;
                };
                let hex = hex.clone();
                handles.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let start = Instant::now();
                    let (mut done, mut disc, mut reached) = (0u64, 0u64, 0u64);
                    let mut fail = None;
                    while done < iters && (done % 64 != 0 || start.elapsed() < budget) {
                        let mut s = Native::rng(seed.wrapping_mul(1_000_003).wrapping_add(done));
                        let (d, e) = once(f, &mut s);
                        done += 1;
                        disc += d as u64;
                        reached += s.reached as u64;
                        if let Some(m) = e {
                            fail = Some((m, hex(&s.log)));
                            break;
                        }
                    }
                    let fj = match &fail {
                        None => "null".to_string(),
                        Some((m, h)) => format!("{{\"msg\":\"{}\",\"input\":\"{}\"}}", esc(m), h),
                    };
                    println!(
                        "{{\"harness\":\"{n}\",\"iters\":{done},\"discarded\":{disc},\"reached\":{reached},\"ms\":{},\"fail\":{fj}}}",
                        start.elapsed().as_millis()
                    );
                }).unwrap());
            }
            for h in handles {
                let _ = h.join();
            }
        }
        Some("replay") => {
            let &(n, f) = list.iter().find(|(n, _)| *n == args[2]).expect("no such harness");
            let h = &args[3];
            let bytes: Vec<u8> = (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            let mut s = Native::replay(bytes);
            let (d, e) = once(f, &mut s);
            match e {
                Some(m) => {
                    println!("FAIL {n}: {m}");
                    std::process::exit(1);
                }
                None => println!("{} {n}", if d { "DISCARDED" } else { "OK" }),
            }
        }
        _ => {
            eprintln!("usage: lyv list | run SEED ITERS BUDGET_MS NAMES.. | replay NAME HEX");
            std::process::exit(2);
        }
    }
}
