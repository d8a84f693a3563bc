//! U04: signals that the application handles end neither node.
//!
//! The histories of U01, U03 and T01 are run and judged as there, while a thread of the check sends
//! the signal SIGUSR1, which has a handler that does nothing, to the threads of the node.

use crate::{tcp, udp};
use common::prelude::*;
use common::procs::tasks;
use common::proptest::collection::vec;
use common::{cases, check, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Weather {
    /// microseconds between two rounds of signals
    pause: u16,
    /// how many in a row for each thread
    burst: u8,
    /// whether the handler asks the system to restart calls
    restart: bool,
}

fn weather() -> impl Strategy<Value = Weather> {
    (prop_oneof![2 => 0..50u16, 2 => 50..500u16, 1 => 500..5000u16], 1..4u8, any::<bool>()).prop_map(|(pause, burst, restart)| Weather { pause, burst, restart })
}

extern "C" fn nothing(_: libc::c_int) {}

struct Storm {
    on: Arc<AtomicBool>,
    hits: Arc<AtomicUsize>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Storm {
    fn new(w: &Weather) -> Storm {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = nothing as *const () as usize;
            a.sa_flags = if w.restart { libc::SA_RESTART } else { 0 };
            assert!(libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut()) == 0);
        }
        let (on, hits) = (Arc::new(AtomicBool::new(true)), Arc::new(AtomicUsize::new(0)));
        let (o, h, w) = (on.clone(), hits.clone(), w.clone());
        let thread = std::thread::Builder::new()
            .name("chk-storm".into())
            .spawn(move || {
                let me = unsafe { libc::getpid() };
                while o.load(Ordering::Relaxed) {
                    for t in tasks().iter().filter(|t| !t.name.starts_with("chk-")) {
                        for _ in 0..w.burst {
                            if unsafe { libc::syscall(libc::SYS_tgkill, me, t.tid as libc::c_int, libc::SIGUSR1) } == 0 {
                                h.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                    }
                    std::thread::sleep(Duration::from_micros(w.pause.into()));
                }
            })
            .unwrap();
        Storm { on, hits, thread: Some(thread) }
    }
    fn hits(&self) -> usize {
        self.hits.load(Ordering::Relaxed)
    }
}

impl Drop for Storm {
    fn drop(&mut self) {
        self.on.store(false, Ordering::Relaxed);
        let _ = self.thread.take().map(|t| t.join());
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Under<T> {
    weather: Weather,
    history: T,
}

fn under<T: std::fmt::Debug>(s: impl Strategy<Value = T>) -> impl Strategy<Value = Under<T>> {
    (weather(), s).prop_map(|(weather, history)| Under { weather, history })
}

fn outcome(storm: Storm, inner: Outcome) -> Verdict {
    let hits = storm.hits();
    drop(storm);
    Ok(Outcome::when(inner.nontrivial && hits > 0).label(match hits {
        0 => "no signal",
        1..=9 => "1 to 9 signals",
        10..=99 => "10 to 99 signals",
        _ => "100 signals and more",
    }))
}

fn in_storm<T>(c: &Under<T>, f: impl Fn(&T) -> Verdict) -> Verdict {
    let storm = Storm::new(&c.weather);
    let inner = f(&c.history)?;
    outcome(storm, inner)
}

pub fn u04(run: &mut Run) {
    run.rule("the histories, crowds and shutdowns of U01 and U03 and the life cycles of T01, judged as there, while the threads of the node are sent up to thousands of signals that have a handler; non-trivial: the history is, and a signal reached a thread of the node");
    run.assume("SIGUSR1 stands for any signal with a handler; it is directed at the node's threads");
    run.sub("datagrams", cases(1500).threads(1).shrink(40), || under(vec(udp::op(), 1..24).prop_map(|ops| udp::History { ops })), |c| in_storm(c, udp::u01_history));
    run.sub("crowd", cases(40).threads(1).shrink(20), || under(udp::crowd(200)), |c| in_storm(c, udp::u01_crowd));
    run.sub("shutdown", cases(800).threads(1).shrink(3), || under(udp::shutdown(false)), |c| in_storm(c, udp::u03_shutdown));
    run.sub("tcp", cases(1500).threads(1).shrink(40), || under(tcp::life()), |c| in_storm(c, tcp::t01_life));
}
