//! L03: a node that was suspended goes on where it was.
//!
//! What goes on is seen as in L01; that the node still holds its port is seen by trying to bind it.

use crate::exec::{Node, Scratch};
use crate::l01::{connect, garbage, put, World, LONG};
use common::prelude::*;
use common::procs::wait_for;
use common::{cases, check, Failure, Hex, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::net::TcpListener;
use std::sync::atomic::Ordering;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Good { n: u8 },
    /// suspended for a while, with commands and nonsense arriving meanwhile
    Suspend { ms: u16, queued: u8, bad: u8, tstp: bool },
    /// suspended in the middle of a command, the rest of which comes meanwhile or afterwards
    Middle { cut: u8, times: u8, after: bool },
    /// many times in a row, for moments
    Flicker { times: u8, us: u16, between: bool },
    /// signals that mean nothing to it
    Ignored { kinds: Vec<u8> },
    Idle { ms: u16 },
    /// another start on the directory while it is suspended
    Rival,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    steps: Vec<Step>,
    /// how it is ended: 0 interrupted, 1 interrupted while suspended, 2 suspended after it was interrupted
    end: u8,
}

fn stop(w: &World, tstp: bool) -> Result<(), Failure> {
    let n = w.node.as_ref().unwrap();
    n.signal(if tstp { libc::SIGTSTP } else { libc::SIGSTOP });
    let stopped = |limit| wait_for(limit, || n.state() == 'T');
    if tstp && !stopped(Duration::from_millis(30)) {
        // a process without a terminal is not suspended by this one
        n.signal(libc::SIGSTOP);
    }
    assert!(stopped(LONG), "SIGSTOP does not suspend vru-node");
    Ok(())
}

fn resume(w: &World) {
    w.node.as_ref().unwrap().signal(libc::SIGCONT);
}

fn holds(w: &mut World, when: &str) -> Result<(), Failure> {
    w.alive(when)?;
    let port = w.port;
    let given_up = TcpListener::bind(("0.0.0.0", port)).is_ok();
    w.alive(when)?;
    check!(!given_up, "port-given-up", "{when}: the running node no longer holds its port");
    Ok(())
}

fn l03_history(h: &History) -> Verdict {
    let s = Scratch::new();
    let mut w = World::with_port(&s)?;
    let (mut suspended, mut queues, mut middles) = (0, 0, 0);
    for (k, step) in h.steps.iter().enumerate() {
        let when = format!("step {k} ({step:?})");
        let first = w.next.load(Ordering::SeqCst);
        match step {
            Step::Good { n } => {
                for _ in 0..*n {
                    let i = w.number();
                    let c = w.command(i, 7);
                    put(&mut connect(&w.dir, LONG)?, &c);
                }
            }
            Step::Suspend { ms, queued, bad, tstp } => {
                stop(&w, *tstp)?;
                for i in 0..(*queued).max(*bad) {
                    if i < *bad {
                        put(&mut connect(&w.dir, LONG)?, &garbage(i, &Hex(vec![0; 9])));
                    }
                    if i < *queued {
                        let n = w.number();
                        let c = w.command(n, 7);
                        put(&mut connect(&w.dir, LONG)?, &c);
                        queues += 1;
                    }
                }
                std::thread::sleep(Duration::from_millis((*ms).into()));
                resume(&w);
                suspended += 1;
            }
            Step::Middle { cut, times, after } => {
                let i = w.number();
                let c = w.command(i, 7);
                let at = usize::from(*cut) % c.len();
                let mut to = connect(&w.dir, LONG)?;
                put(&mut to, &c[..at]);
                std::thread::sleep(Duration::from_millis(5));
                for t in 0..*times {
                    stop(&w, false)?;
                    if !after && t == 0 {
                        put(&mut to, &c[at..]);
                    }
                    resume(&w);
                    suspended += 1;
                }
                if *after || *times == 0 {
                    put(&mut to, &c[at..]);
                }
                middles += 1;
            }
            Step::Flicker { times, us, between } => {
                for _ in 0..*times {
                    w.node.as_ref().unwrap().signal(libc::SIGSTOP);
                    std::thread::sleep(Duration::from_micros((*us).into()));
                    resume(&w);
                    if *between {
                        let i = w.number();
                        let c = w.command(i, 7);
                        put(&mut connect(&w.dir, LONG)?, &c);
                    }
                }
                suspended += usize::from(*times);
            }
            Step::Ignored { kinds } => {
                for k in kinds {
                    let s = [libc::SIGCONT, libc::SIGWINCH, libc::SIGCHLD, libc::SIGURG][usize::from(k % 4)];
                    w.node.as_ref().unwrap().signal(s);
                }
            }
            Step::Idle { ms } => std::thread::sleep(Duration::from_millis((*ms).into())),
            Step::Rival => {
                stop(&w, false)?;
                let mut r = Node::start(&w.dir, 0, None);
                let ended = r.wait(LONG);
                check!(ended, "rival-stays", "{when}: a second start on the directory does not end while the node there is suspended: {}", r.tail());
                resume(&w);
                suspended += 1;
            }
        }
        w.done(first, &when)?;
        holds(&mut w, &when)?;
    }
    // a last command, so that all that waited was dealt with
    let last = w.number();
    let c = w.command(last, 1);
    put(&mut connect(&w.dir, LONG)?, &c);
    w.done(last, "the last command")?;
    holds(&mut w, "the end")?;
    let seen = w.target.seen();
    check!(seen == (1..=last).collect::<Vec<_>>(), "order", "the commands were not carried out once each and in order: {seen:?}");
    let wake = match h.end {
        1 => {
            stop(&w, false)?;
            true
        }
        2 => true,
        _ => false,
    };
    if wake {
        w.alive("the end")?;
        w.node.as_ref().unwrap().signal(libc::SIGINT);
        if h.end == 2 {
            w.node.as_ref().unwrap().signal(libc::SIGSTOP);
        }
        resume(&w);
        let n = w.node.as_mut().unwrap();
        check!(n.wait(LONG), "interrupt-ignored", "SIGINT does not end the node that was suspended: {}", n.tail());
        check!(n.done.map_or(false, |s| s.code() == Some(0)), "interrupt-crash", "after SIGINT the node {}: {}", n.status(), n.tail());
        if let Some(p) = n.panicked() {
            return Err(Failure::new("node-panicked", p));
        }
    } else {
        w.interrupt("the end")?;
    }
    let mut names: Vec<_> = w.node.as_ref().unwrap().announced().iter().map(|i| i.to_string()).collect();
    names.dedup();
    check!(names.len() == 1, "identity", "the node announced {names:?}");
    Ok(Outcome::when(suspended > 0 || h.end > 0)
        .label_if(suspended > 0, "suspended")
        .label_if(suspended > 20, "suspended more than 20 times")
        .label_if(queues > 0, "commands came meanwhile")
        .label_if(middles > 0, "in the middle of a command")
        .label(match h.end { 0 => "interrupted", 1 => "interrupted while suspended", _ => "suspended while interrupted" }))
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        2 => (1u8..12).prop_map(|n| Step::Good { n }),
        4 => (prop_oneof![8 => 0u16..40, 1 => 40u16..400, 1 => 1900u16..3200], 0u8..40, prop_oneof![2 => Just(0u8), 1 => 1u8..8], any::<bool>())
            .prop_map(|(ms, queued, bad, tstp)| Step::Suspend { ms, queued, bad, tstp }),
        2 => (any::<u8>(), 1u8..5, any::<bool>()).prop_map(|(cut, times, after)| Step::Middle { cut, times, after }),
        1 => (1u8..60, 0u16..2000, any::<bool>()).prop_map(|(times, us, between)| Step::Flicker { times, us, between }),
        1 => common::proptest::collection::vec(any::<u8>(), 1..8).prop_map(|kinds| Step::Ignored { kinds }),
        1 => prop_oneof![8 => 1u16..100, 1 => 1900u16..2500].prop_map(|ms| Step::Idle { ms }),
        1 => Just(Step::Rival),
    ]
}

pub fn l03(run: &mut Run) {
    run.set_budget(150, 3600);
    run.rule("histories of commands, of suspensions (for moments or seconds, with up to 40 commands and nonsense arriving meanwhile, in the middle of a command, up to 60 in a row, with a second start on the directory) and of signals without a meaning, ended by an interrupt before, while or after the node is suspended; non-trivial: it was suspended");
    run.assume("the node is suspended by SIGSTOP or SIGTSTP and resumed by SIGCONT; it holds its port as long as the check cannot bind it");
    let history = || (common::proptest::collection::vec(step(), 1..8), 0u8..3).prop_map(|(steps, end)| History { steps, end });
    // longer ones
    let mut times = vec![0u16, 1, 2100, 5000, 12_000];
    if !run.quick() {
        times.extend([20_000, 35_000, 65_000]);
    }
    let long = times
        .into_iter()
        .flat_map(|ms| {
            let s = |queued, bad| Step::Suspend { ms, queued, bad, tstp: false };
            let idle = || Step::Idle { ms: 2300 };
            [
                History { steps: vec![s(3, 0)], end: 0 },
                History { steps: vec![s(0, 2)], end: 2 },
                History { steps: vec![idle(), s(0, 0), idle(), s(2, 0)], end: 0 },
            ]
        })
        .collect();
    run.each("lengths", long, l03_history);
    run.sub("histories", cases(300).thorough(6000).shrink(40), history, l03_history);
}
