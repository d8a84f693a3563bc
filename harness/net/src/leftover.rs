//! U05: nodes that were shut down leave nothing behind.
//!
//! What there is to be left behind in a process: threads, open files and sockets, and the port.

use crate::udp::{leak, node_threads, op_with_text, perform, Live, Op, Senders};
use crate::{identity, is_node_thread, key};
use common::prelude::*;
use common::procs::{ends, wait_for, Ended};
use common::proptest::collection::vec;
use common::{cases, check, fail, no_panic, take_foreign_panics, Failure, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::net::{SocketAddr, TcpListener, UdpSocket};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vru_session::{Command, Node as _};

const PATIENCE: Duration = Duration::from_secs(15);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cycle {
    Udp {
        ops: Vec<Op>,
        /// peers in addition, each from a sender of its own
        peers: u8,
        /// a datagram wakes the node at the end
        wake: bool,
        /// the event stream: 0 kept, 1 dropped before the end
        drop_events: bool,
        hasty: bool,
    },
    Tcp {
        /// what connects are to: 0 somebody who listens, 1 nobody, 2 refused at once
        connects: Vec<u8>,
        clear: bool,
        hang_up: bool,
        drop_events: bool,
    },
    /// a start on an address that is in use
    Taken { tcp: bool, times: u8 },
}

/// Open files by what they are.
fn files() -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    if let Ok(dir) = std::fs::read_dir("/proc/self/fd") {
        for e in dir.flatten() {
            if let Ok(to) = std::fs::read_link(e.path()) {
                let to = to.to_string_lossy().into_owned();
                if !to.starts_with("/proc/") {
                    *m.entry(to).or_default() += 1;
                }
            }
        }
    }
    m
}

/// Connections the check itself holds.
fn with(mut files: BTreeMap<String, usize>, held: &[(std::net::TcpStream, SocketAddr)]) -> BTreeMap<String, usize> {
    use std::os::fd::AsRawFd;
    for (s, _) in held {
        if let Ok(to) = std::fs::read_link(format!("/proc/self/fd/{}", s.as_raw_fd())) {
            *files.entry(to.to_string_lossy().into_owned()).or_default() += 1;
        }
    }
    files
}

fn extra(before: &BTreeMap<String, usize>) -> Vec<String> {
    files().into_iter().filter(|(k, n)| *n > before.get(k).copied().unwrap_or(0)).map(|(k, n)| format!("{k} x{n}")).collect()
}

fn nothing_left(before: &BTreeMap<String, usize>, what: &str) -> Result<(), Failure> {
    if !wait_for(PATIENCE, || node_threads() == 0) {
        let names: Vec<_> = common::procs::tasks().into_iter().filter(is_node_thread).map(|t| t.name).collect();
        leak();
        fail!("threads-left", "{what} leaves threads behind: {names:?}");
    }
    let mut left = Vec::new();
    wait_for(PATIENCE, || {
        left = extra(before);
        left.is_empty()
    });
    check!(left.is_empty(), "files-left", "{what} leaves open files behind: {left:?}");
    Ok(())
}

fn joined(e: Ended<()>, what: &str) -> Result<(), Failure> {
    match e {
        Ended::Yes(()) => Ok(()),
        Ended::Panicked(t) => fail!("join-panic", "{what}: join: {t}"),
        Ended::Stuck(t) => {
            leak();
            fail!("join-stuck", "{what}: join does not return: {t}")
        }
    }
}

fn u05_cycles(cycles: &Vec<Cycle>) -> Verdict {
    take_foreign_panics();
    wait_for(PATIENCE, || node_threads() == 0);
    let senders = Senders::new();
    let open = TcpListener::bind("127.0.0.1:0").expect("bind");
    open.set_nonblocking(true).unwrap();
    let (mut nodes, mut most) = (0, 0);
    for (k, cycle) in cycles.iter().enumerate() {
        match cycle {
            Cycle::Udp { ops, peers, wake, drop_events, hasty } => {
                let what = format!("a UDP node (cycle {k})");
                let crowd: Vec<_> = (0..*peers).map(|_| UdpSocket::bind("127.0.0.1:0").expect("bind")).collect();
                let before = files();
                let mut live = Live::start()?;
                let mut room = 0;
                for op in ops {
                    perform(&mut live, &senders, op, &mut room)?;
                    if !hasty && matches!(op, Op::Send(..)) {
                        live.sync()?;
                        room = 0;
                    }
                }
                for (i, s) in crowd.iter().enumerate() {
                    let address = s.local_addr().unwrap();
                    live.connect(crate::stranger(i), address)?;
                    s.send_to(&[0; 1280], live.to).expect("send over loopback");
                    if i % 30 == 29 {
                        live.sync()?;
                    }
                }
                if !hasty {
                    live.sync()?;
                }
                most = most.max(crowd.len());
                if *drop_events {
                    live.events = None;
                }
                let port = live.to.port();
                let (ended, events) = live.shut(*wake);
                joined(ended, &what)?;
                let again = wait_for(PATIENCE, || UdpSocket::bind(("0.0.0.0", port)).is_ok());
                check!(again, "port-left", "{what}: its port cannot be bound after join");
                nothing_left(&before, &what)?;
                drop(events);
                nodes += 1;
            }
            Cycle::Tcp { connects, clear, hang_up, drop_events } => {
                let what = format!("a TCP node (cycle {k})");
                let before = files();
                let running = Arc::new(AtomicBool::new(true));
                let (pk, sk) = key();
                let r = running.clone();
                let (node, events) = match no_panic("spawn", || vru_tcp::Node::spawn(sk, pk, SocketAddr::from(([127, 0, 0, 1], 0)), (), r))? {
                    Ok(x) => x,
                    Err(e) => fail!("spawn", "{what} does not start: {e}"),
                };
                for c in connects {
                    let address = match c % 3 {
                        0 => open.local_addr().unwrap(),
                        1 => "127.7.7.7:1".parse().unwrap(),
                        _ => "255.255.255.255:9".parse().unwrap(),
                    };
                    no_panic("command", || node.command(Command::Connect { peer_pi: identity(0), address }))?;
                }
                // the other side stays where it is, or hangs up
                let others: Vec<_> = std::iter::from_fn(|| open.accept().ok()).collect();
                let others = if *hang_up { drop(others); Vec::new() } else { others };
                let events = if *drop_events { None } else { Some(events) };
                if *clear {
                    running.store(false, Ordering::Release);
                }
                joined(ends(Duration::from_secs(6), is_node_thread, move || node.join()), &what)?;
                nothing_left(&with(before, &others), &what)?;
                drop((events, others));
                nodes += 1;
            }
            Cycle::Taken { tcp, times } => {
                let what = format!("a start on an address in use (cycle {k})");
                let udp = UdpSocket::bind("0.0.0.0:0").expect("bind");
                let listener = TcpListener::bind("0.0.0.0:0").expect("bind");
                let before = files();
                for _ in 0..*times {
                    let (pk, sk) = key();
                    let running = Arc::new(AtomicBool::new(true));
                    let failed = if *tcp {
                        let a = listener.local_addr().unwrap();
                        no_panic("spawn", || vru_tcp::Node::spawn(sk, pk, a, (), running).is_err())?
                    } else {
                        let p = udp.local_addr().unwrap().port();
                        no_panic("spawn", || vru_udp::Node::spawn(sk, pk, p, running).is_err())?
                    };
                    check!(failed, "start-taken", "{what} succeeds");
                }
                nothing_left(&before, &what)?;
            }
        }
    }
    take_foreign_panics();
    Ok(Outcome::when(nodes > 0)
        .label_if(nodes > 3, "more than 3 nodes")
        .label_if(most > 20, "more than 20 peers"))
}

fn cycle() -> impl Strategy<Value = Cycle> {
    let peers = prop_oneof![2 => Just(0u8), 2 => 1..10u8, 1 => 10..120u8];
    prop_oneof![
        4 => (vec(op_with_text(), 0..12), peers, common::proptest::bool::weighted(0.97), any::<bool>(), any::<bool>())
            .prop_map(|(ops, peers, wake, drop_events, hasty)| Cycle::Udp { ops, peers, wake, drop_events, hasty }),
        3 => (vec(any::<u8>(), 0..30), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(connects, clear, hang_up, drop_events)| Cycle::Tcp { connects, clear, hang_up, drop_events }),
        1 => (any::<bool>(), 1..20u8).prop_map(|(tcp, times)| Cycle::Taken { tcp, times }),
    ]
}

pub fn u05(run: &mut Run) {
    run.rule("up to six life cycles in a row: UDP nodes with histories of datagrams and commands and up to 120 peers, TCP nodes with up to 30 connects, starts on addresses in use; after each the threads, the open files and the port are looked at; non-trivial: a node was started");
    run.assume("what is still there 15 s after the join is left behind");
    run.sub("cycles", cases(1500).threads(1).shrink(40), || vec(cycle(), 1..7), u05_cycles);
}
