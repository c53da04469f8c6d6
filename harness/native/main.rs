//! Replays recorded inputs against the real code (real std, real regex).
//! stdin: one case per line, "REPEAT MILLIS v0 v1 ..."; stdout: one JSON object per case.
use hcore::sx::{Stop, R};
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--list" {
        for (n, _) in hcore::all() {
            println!("{}", n);
        }
        return;
    }
    let f = hcore::all().into_iter().find(|(n, _)| *n == a[1]).map(|(_, f)| f).unwrap_or_else(|| {
        eprintln!("no harness {}", a[1]);
        std::process::exit(3)
    });
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST.with(|x| *x.borrow_mut() = format!("{} at {}", m, l));
    }));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t: Vec<u64> = line.split_whitespace().filter(|x| x.as_bytes()[0].is_ascii_digit()).map(|x| x.parse().unwrap()).collect();
        let io: Vec<&str> = line.split_whitespace().filter(|x| x.starts_with('i')).map(|x| &x[1..]).collect();
        let sched: Vec<u8> = line.split_whitespace().filter(|x| x.starts_with('s')).flat_map(|x| x[1..].bytes().map(|b| b - b'0')).collect();
        if t.len() < 2 {
            continue;
        }
        let (rep, ms, ins) = (t[0], t[1], &t[2..]);
        let t0 = Instant::now();
        let mut res = ("ok".to_string(), String::new());
        let mut runs = 0;
        let mut notes = vec![];
        let mut underrun = false;
        let mut left = 0i64;
        for k in 0..rep {
            if k > 0 && t0.elapsed() > Duration::from_millis(ms) {
                break;
            }
            runs += 1;
            R.with(|r| {
                let mut r = r.borrow_mut();
                r.inputs = ins.to_vec();
                r.i = 0;
                r.notes.clear();
                r.fails.clear();
                r.underrun = false;
                r.io = io.join(",");
                r.sched = sched.clone();
            });
            let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            R.with(|r| {
                let r = r.borrow();
                notes = r.notes.clone();
                underrun = r.underrun;
                left = r.inputs.len() as i64 - r.i as i64;
                match o {
                    Ok(()) => {}
                    Err(e) => match e.downcast_ref::<Stop>() {
                        Some(s) => res = (s.0.to_string(), r.fails.last().cloned().unwrap_or_default()),
                        None => res = ("panic".into(), LAST.with(|x| x.borrow().clone())),
                    },
                }
            });
            if res.0 != "ok" {
                break;
            }
        }
        let n: Vec<String> = notes.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
        println!("{{\"result\":\"{}\",\"msg\":\"{}\",\"runs\":{},\"underrun\":{},\"unread\":{},\"notes\":[{}]}}", res.0, esc(&res.1), runs, underrun, left, n.join(","));
        std::io::stdout().flush().unwrap();
    }
}
thread_local! { static LAST: std::cell::RefCell<String> = Default::default(); }
