//! Executes cases (one JSON object per line on stdin) against osmgraphing's public API and prints
//! one JSON object per case with what was observed.  It judges nothing: the verdict is TLC's.
mod ops;
use serde_json::{json, Value};
use std::io::{self, BufRead, Write};
use std::panic::{self, AssertUnwindSafe};
use std::sync::{
    atomic::{AtomicU64, Ordering},
    Arc, Mutex,
};
use std::time::{Duration, Instant};

fn main() {
    let scratch = std::env::args().nth(1).expect("scratch-dir");
    let op_timeout: u64 = std::env::args()
        .nth(2)
        .and_then(|s| s.parse().ok())
        .unwrap_or(20);
    let scratch = std::path::PathBuf::from(scratch);
    panic::set_hook(Box::new(|_| {}));

    // watchdog: reports a hanging operation and ends the process
    let start = Instant::now();
    let deadline = Arc::new(AtomicU64::new(u64::MAX));
    let current: Arc<Mutex<(Value, Vec<Value>)>> = Arc::new(Mutex::new((Value::Null, vec![])));
    {
        let deadline = Arc::clone(&deadline);
        let current = Arc::clone(&current);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            if start.elapsed().as_millis() as u64 > deadline.load(Ordering::SeqCst) {
                let cur = current.lock().unwrap();
                let mut obs = cur.1.clone();
                obs.push(json!({"hang": true}));
                let out = io::stdout();
                let mut out = out.lock();
                let _ = writeln!(out, "{}", json!({"id": cur.0, "obs": obs}));
                let _ = out.flush();
                std::process::exit(3);
            }
        });
    }

    let stdin = io::stdin();
    let mut n = 0usize;
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case is json");
        let dir = scratch.join(format!("c{}", n));
        n += 1;
        std::fs::create_dir_all(&dir).expect("scratch");
        std::env::set_current_dir(&dir).expect("cd");
        {
            let mut cur = current.lock().unwrap();
            cur.0 = case["id"].clone();
            cur.1.clear();
        }

        let mut world = ops::World::new();
        for op in case["ops"].as_array().expect("ops") {
            deadline.store(
                start.elapsed().as_millis() as u64 + op_timeout * 1000,
                Ordering::SeqCst,
            );
            let result = panic::catch_unwind(AssertUnwindSafe(|| world.exec(op)));
            deadline.store(u64::MAX, Ordering::SeqCst);
            let ob = match result {
                Ok(v) => v,
                Err(e) => {
                    let msg = if let Some(s) = e.downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = e.downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "?".to_string()
                    };
                    json!({ "panic": msg })
                }
            };
            current.lock().unwrap().1.push(ob);
        }
        let obs = current.lock().unwrap().1.clone();
        let out = io::stdout();
        let mut out = out.lock();
        writeln!(out, "{}", json!({"id": case["id"], "obs": obs})).unwrap();
        out.flush().unwrap();
        drop(out);
        std::env::set_current_dir(&scratch).expect("cd");
        let _ = std::fs::remove_dir_all(&dir);
    }
}
