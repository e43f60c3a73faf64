//! Runs cases one after another: a progress mark before each, one line of events after each, panics
//! turned into an event, and an abort when a case does not return.
use crate::json::{self, J};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

thread_local! {
    static LOG: RefCell<Vec<J>> = RefCell::new(Vec::new());
}

/// Appends an event to the log of the current case.
pub fn log(t: &str, mut kv: Vec<(&str, J)>) {
    kv.push(("t", json::s(t)));
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() > 200_000 {
            std::process::exit(98); // a case that never ends
        }
        l.push(json::obj(kv))
    });
}

pub fn log_len() -> usize {
    LOG.with(|l| l.borrow().len())
}

const LIMIT: Duration = Duration::from_secs(20);

/// Runs a case and returns its events.
fn events(f: fn(&J), case: J) -> Vec<J> {
    let id = case.at("id").int();
    LOG.with(|l| l.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| f(&case)));
    if let Err(p) = r {
        let m = match p.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => p.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default(),
        };
        if m.starts_with("harness:") {
            eprintln!("case {}: {}", id, m);
            std::process::exit(96);
        }
        log("panic", vec![("m", json::s(m))]);
    }
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// `vfXXX CASES OUT`: OUT gets "S id" before and "E {json}" after each case.
pub fn main_with(f: fn(&J)) {
    let args: Vec<String> = std::env::args().collect();
    let cases = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("harness: cases"));
    let mut out = std::fs::OpenOptions::new()
        .append(true)
        .create(true)
        .open(&args[2])
        .expect("harness: out");
    std::panic::set_hook(Box::new(|_| {}));
    let tick = Arc::new(AtomicU64::new(0));
    let tick2 = tick.clone();
    std::thread::spawn(move || {
        let mut last = 0;
        loop {
            std::thread::sleep(LIMIT);
            let now = tick2.load(Ordering::SeqCst);
            if now == last {
                std::process::exit(97); // the case hangs
            }
            last = now;
        }
    });
    let worker = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            for line in cases.lines() {
                let line = line.expect("harness: read");
                if line.is_empty() {
                    continue;
                }
                let case = json::parse(&line);
                let id = case.at("id").int();
                writeln!(out, "S {}", id).unwrap();
                tick.fetch_add(1, Ordering::SeqCst);
                // A case may ask for a small stack, in KiB.
                let ev = match case.get("stk").map(|k| k.int()).unwrap_or(0) {
                    0 => events(f, case),
                    k => std::thread::Builder::new()
                        .stack_size((k as usize) << 10)
                        .spawn(move || events(f, case))
                        .unwrap()
                        .join()
                        .expect("harness: case"),
                };
                let mut s = String::from("E ");
                json::obj(vec![("id", J::I(id)), ("ev", J::A(ev))]).write(&mut s);
                s.push('\n');
                out.write_all(s.as_bytes()).unwrap();
            }
        })
        .unwrap();
    if worker.join().is_err() {
        std::process::exit(95);
    }
}
