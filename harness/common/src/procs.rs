//! Helpers for observing threads of this process and waiting with patience.

use std::sync::mpsc;
use std::time::{Duration, Instant};

/// How something that should end by itself ended.
#[derive(Debug)]
pub enum Ended<T> {
    Yes(T),
    Panicked(String),
    Stuck(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Task {
    pub tid: u32,
    pub name: String,
    pub state: char,
    /// voluntary and involuntary context switches
    pub switches: u64,
}

pub fn tasks() -> Vec<Task> {
    let Ok(dir) = std::fs::read_dir("/proc/self/task") else { return Vec::new() };
    dir.flatten()
        .filter_map(|e| {
            let tid = e.file_name().to_str()?.parse().ok()?;
            let status = std::fs::read_to_string(e.path().join("status")).ok()?;
            let field = |k: &str| status.lines().find_map(|l| l.strip_prefix(k)).map(|v| v.trim().to_string());
            let n = |k: &str| field(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
            Some(Task {
                tid,
                name: field("Name:")?,
                state: field("State:")?.chars().next()?,
                switches: n("voluntary_ctxt_switches:") + n("nonvoluntary_ctxt_switches:"),
            })
        })
        .collect()
}

/// Run `f` on its own thread. It is called stuck when it has not returned after `patience`, twice
/// confirmed: in the second period either no thread that matters made a step, or the whole period
/// (four times as long) passed anyway.
pub fn ends<T: Send + 'static>(patience: Duration, relevant: impl Fn(&Task) -> bool, f: impl FnOnce() -> T + Send + 'static) -> Ended<T> {
    let (tx, rx) = mpsc::channel();
    let worker = std::thread::Builder::new()
        .name("chk-ends".into())
        .spawn(move || {
            let r = crate::no_panic("ends", f);
            let _ = tx.send(r);
        })
        .expect("spawn");
    let take = |r: Result<T, crate::Failure>| match r {
        Ok(x) => Ended::Yes(x),
        Err(f) => Ended::Panicked(f.what),
    };
    match rx.recv_timeout(patience) {
        Ok(r) => {
            let _ = worker.join();
            return take(r);
        }
        Err(mpsc::RecvTimeoutError::Disconnected) => return Ended::Stuck("its thread vanished".into()),
        Err(mpsc::RecvTimeoutError::Timeout) => (),
    }
    let look = || tasks().into_iter().filter(|t| relevant(t)).collect::<Vec<_>>();
    let until = Instant::now() + 4 * patience;
    let mut before = look();
    while Instant::now() < until {
        match rx.recv_timeout(patience) {
            Ok(r) => {
                let _ = worker.join();
                return take(r);
            }
            Err(_) => {
                let now = look();
                if now == before && now.iter().all(|t| t.state == 'S') {
                    return Ended::Stuck(format!("no thread makes a step: {:?}", now.iter().map(|t| &t.name).collect::<Vec<_>>()));
                }
                before = now;
            }
        }
    }
    Ended::Stuck(format!("not returned after {} s", 5 * patience.as_secs()))
}

/// Wait for a condition, polling.
pub fn wait_for(limit: Duration, mut cond: impl FnMut() -> bool) -> bool {
    let until = Instant::now() + limit;
    let mut pause = Duration::from_micros(50);
    loop {
        if cond() {
            return true;
        }
        if Instant::now() > until {
            return false;
        }
        std::thread::sleep(pause);
        pause = (pause * 2).min(Duration::from_millis(20));
    }
}

/// A port nobody has, outside the range from which the system picks ports for others.
pub fn free_port(free: impl Fn(u16) -> bool) -> Option<u16> {
    use std::sync::atomic::{AtomicU32, Ordering};
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let start = std::process::id().wrapping_mul(7919);
    (0..20_000).map(|_| 12_000 + (start.wrapping_add(NEXT.fetch_add(1, Ordering::Relaxed)) % 20_000) as u16).find(|p| free(*p))
}
