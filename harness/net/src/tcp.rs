//! The TCP node.

use crate::{identity, is_node_thread, key};
use common::prelude::*;
use common::procs::{ends, wait_for, Ended};
use common::proptest::collection::vec;
use common::{cases, check, fail, no_panic, take_foreign_panics, Hex, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, TcpListener};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vru_session::{Command, Event, Node as _, NodeRef as _};
use vru_tcp::{Node, NodeError, NodeRef};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Place {
    /// a free port on 127.0.0.1, 0.0.0.0, [::1], [::], 127.3.2.1
    Free(u8),
    /// port zero on these
    Any(u8),
    /// a port somebody listens on
    Occupied,
    /// an address this machine does not have
    Foreign(u8),
}

fn ip(i: u8) -> std::net::IpAddr {
    match i % 5 {
        0 => Ipv4Addr::LOCALHOST.into(),
        1 => Ipv4Addr::UNSPECIFIED.into(),
        2 => Ipv6Addr::LOCALHOST.into(),
        3 => Ipv6Addr::UNSPECIFIED.into(),
        _ => Ipv4Addr::new(127, 3, 2, 1).into(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum To {
    /// somebody listens there
    Open,
    /// somebody listens there on IPv6
    Open6,
    /// nobody does
    Closed,
    Odd(u8),
    V4([u8; 4], u16),
    /// address, port, flow information, scope
    V6([u16; 8], u16, u32, u32),
}

const ODD: [&str; 14] = [
    "255.255.255.255:1",
    "255.255.255.255:0",
    "0.0.0.0:0",
    "127.0.0.1:0",
    "224.0.0.1:80",
    "239.255.255.255:65535",
    "192.0.2.1:4000",
    "240.0.0.1:4000",
    "[::]:0",
    "[ff02::1]:80",
    "[fe80::1]:80",
    "[2001:db8::1]:4000",
    "[::ffff:255.255.255.255]:4000",
    "[::1]:0",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Connect(u8, To),
    Local(u8, Hex),
    Read,
    /// the same destination many times in a row, one that refuses at once
    Many(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cycle {
    acts: Vec<Act>,
    /// clear the flag: 0 before the join, 1 never, 2 before the acts, 3 at the start
    clear: u8,
    /// the reader: 0 reads afterwards, 1 reads meanwhile, 2 is gone
    reader: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    place: Place,
    /// one after the other on the same address
    cycles: Vec<Cycle>,
}

fn odd32() -> impl Strategy<Value = u32> {
    prop_oneof![2 => Just(0), 1 => 0..4u32, 1 => Just(u32::MAX), 2 => any::<u32>()]
}

fn to() -> impl Strategy<Value = To> {
    prop_oneof![
        2 => Just(To::Open),
        1 => Just(To::Open6),
        1 => Just(To::Closed),
        4 => (0..ODD.len() as u8).prop_map(To::Odd),
        // not this machine, where the node itself may be listening
        1 => (any::<[u8; 4]>(), any::<u16>()).prop_map(|(a, p)| To::V4(a, p)),
        1 => (any::<[u16; 8]>(), any::<u16>(), odd32(), odd32()).prop_map(|(a, p, f, s)| To::V6(a, p, f, s)),
    ]
}

fn act() -> impl Strategy<Value = Act> {
    prop_oneof![
        4 => (0..6u8, to()).prop_map(|(i, t)| Act::Connect(i, t)),
        1 => (0..6u8, common::gen::sized(vec![0, 64], 3000)).prop_map(|(i, b)| Act::Local(i, b)),
        1 => Just(Act::Read),
    ]
}

fn act_or_many() -> impl Strategy<Value = Act> {
    prop_oneof![
        60 => act(),
        1 => (prop_oneof![1..300u16, 300..6000u16], 0..ODD.len() as u8).prop_map(|(n, o)| Act::Many(n, o)),
    ]
}

pub fn life() -> impl Strategy<Value = Life> {
    let place = prop_oneof![
        6 => (0..5u8).prop_map(Place::Free),
        1 => (0..5u8).prop_map(Place::Any),
        1 => Just(Place::Occupied),
        1 => (0..4u8).prop_map(Place::Foreign),
    ];
    let clear = prop_oneof![4 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
    let cycle = (vec(act_or_many(), 0..10), clear, 0..3u8).prop_map(|(acts, clear, reader)| Cycle { acts, clear, reader });
    (place, vec(cycle, 1..4)).prop_map(|(place, cycles)| Life { place, cycles })
}

fn free(i: std::net::IpAddr) -> Option<SocketAddr> {
    common::procs::free_port(|p| TcpListener::bind((i, p)).is_ok()).map(|p| (i, p).into())
}

/// Errors seen so far; anything else the node says is not judged.
fn drain(events: &NodeRef, errors: &mut usize) -> bool {
    loop {
        match events.try_recv() {
            Ok(Some(Event::Error(NodeError::Io(_)))) => *errors += 1,
            Ok(Some(_)) => (),
            Ok(None) => return false,
            Err(_) => return true,
        }
    }
}

pub fn t01_life(c: &Life) -> Verdict {
    take_foreign_panics();
    let open = TcpListener::bind("127.0.0.1:0").expect("bind");
    open.set_nonblocking(true).unwrap();
    let open_at = open.local_addr().unwrap();
    // where there is no IPv6, the other one once more
    let six = TcpListener::bind("[::1]:0").ok();
    if let Some(l) = &six {
        l.set_nonblocking(true).unwrap();
    }
    let six_at = six.as_ref().map_or(open_at, |l| l.local_addr().unwrap());
    let closed_at = closed_tcp();
    let occupied = TcpListener::bind("0.0.0.0:0").unwrap();
    let address = match c.place {
        Place::Free(i) => free(ip(i)).unwrap_or_else(|| free(ip(0)).unwrap()),
        Place::Any(i) => SocketAddr::new(ip(i), 0),
        Place::Occupied => SocketAddr::new(ip(1), occupied.local_addr().unwrap().port()),
        Place::Foreign(i) => ["192.0.2.1:4000", "[2001:db8::1]:4000", "255.255.255.255:4000", "[ff02::1]:4000"][i as usize % 4].parse().unwrap(),
    };
    let mut started = 0;
    let mut connects = 0;
    let (mut failing, mut many) = (false, false);
    for (k, cycle) in c.cycles.iter().enumerate() {
        let usable = TcpListener::bind(address).is_ok();
        let running = Arc::new(AtomicBool::new(cycle.clear != 3));
        let (pk, sk) = key();
        let r = running.clone();
        let (mut node, events) = match no_panic("spawn", || Node::spawn(sk, pk, address, (), r))? {
            Ok(x) => {
                check!(usable, "start-unusable", "a node started on {address}, which cannot be bound");
                x
            }
            Err(e) => {
                // once more, in case somebody else held it for a moment
                let (pk, sk) = key();
                let again = usable && TcpListener::bind(address).is_ok() && no_panic("spawn", || Node::spawn(sk, pk, address, (), Arc::new(AtomicBool::new(true))).is_err())?;
                check!(!again, "start", "a node does not start on the free address {address} (start {k}): {e}");
                continue;
            }
        };
        started += 1;
        if cycle.clear == 0 || cycle.clear == 1 {
            // running: its address is taken
            if address.port() != 0 {
                let taken = wait_for(Duration::from_secs(5), || TcpListener::bind(address).is_err());
                check!(taken, "not-listening", "a running node does not hold its address {address}");
            }
        }
        let mut events = Some(events);
        let mut reader = None;
        match cycle.reader {
            1 => {
                let e = events.take().unwrap();
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::Builder::new()
                    .name("chk-reader".into())
                    .spawn(move || {
                        let mut n = 0;
                        while let Ok(ev) = e.recv() {
                            n += usize::from(matches!(ev, Event::Error(_)));
                        }
                        let _ = tx.send(n);
                    })
                    .unwrap();
                reader = Some(rx);
            }
            2 => events = None,
            _ => (),
        }
        if cycle.clear == 2 {
            running.store(false, Ordering::Release);
        }
        let (mut tried, mut errors, mut expected) = (0, 0, 0);
        for a in &cycle.acts {
            match a {
                Act::Connect(i, t) => {
                    let to = match t {
                        To::Open => open_at,
                        To::Open6 => six_at,
                        To::Closed => closed_at,
                        To::Odd(o) => ODD[*o as usize % ODD.len()].parse().unwrap(),
                        To::V4(a, p) if a[0] != 127 && a[0] != 0 => SocketAddr::from((*a, *p)),
                        To::V4(_, p) => SocketAddr::from(([192, 0, 2, 9], *p)),
                        // unique local addresses, nobody here has one
                        To::V6(a, p, flow, scope) => {
                            let mut a = *a;
                            a[0] = 0xfd00 | a[0] & 0xff;
                            std::net::SocketAddrV6::new(a.into(), *p, *flow, *scope).into()
                        }
                    };
                    tried += 1;
                    failing |= !matches!(t, To::Open | To::Open6);
                    expected += usize::from(matches!(t, To::Open | To::Open6));
                    no_panic("command", || node.command(Command::Connect { peer_pi: identity((*i).into()), address: to }))?;
                }
                Act::Local(i, b) => no_panic("command", || node.command(Command::Local { destination: identity((*i).into()), command: b.to_vec() }))?,
                Act::Many(n, o) => {
                    let to: SocketAddr = ODD[*o as usize % ODD.len()].parse().unwrap();
                    let n = *n as usize;
                    node = match ends(Duration::from_secs(6), is_node_thread, move || {
                        for _ in 0..n {
                            node.command(Command::Connect { peer_pi: identity(0), address: to });
                        }
                        node
                    }) {
                        Ended::Yes(n) => n,
                        Ended::Panicked(t) => fail!("command-panic", "command: {t}"),
                        Ended::Stuck(t) => fail!("command-stuck", "one of {n} commands does not return: {t}"),
                    };
                    tried += n;
                    failing = true;
                    many |= n > 1000;
                }
                Act::Read => {
                    if let Some(e) = &events {
                        let over = drain(e, &mut errors);
                        check!(!over, "stream-ended", "the event stream ended while the node lives");
                    }
                }
            }
        }
        connects += tried;
        let mut accepted = 0;
        wait_for(Duration::from_secs(10), || {
            while open.accept().is_ok() {
                accepted += 1;
            }
            if let Some(l) = &six {
                while l.accept().is_ok() {
                    accepted += 1;
                }
            }
            accepted >= expected
        });
        if (cycle.clear == 0 || cycle.clear == 1) && address.port() != 0 {
            check!(TcpListener::bind(address).is_err(), "address-lost", "a running node gave up its address {address} after {tried} connects");
        }
        check!(accepted == expected, "connect", "{expected} connects to a listening address made {accepted} connections");
        if cycle.clear == 0 {
            running.store(false, Ordering::Release);
        }
        match ends(Duration::from_secs(6), is_node_thread, move || node.join()) {
            Ended::Yes(()) => (),
            Ended::Panicked(t) => fail!("join-panic", "join: {t}; {:?}", take_foreign_panics()),
            Ended::Stuck(t) => fail!("join-stuck", "join does not return: {t}"),
        }
        if let Some(e) = &events {
            let ok = wait_for(Duration::from_secs(15), || drain(e, &mut errors));
            check!(ok, "stream-open", "the event stream does not end after join");
            check!(e.recv().is_err(), "stream-open", "the event stream goes on after its end");
        }
        if let Some(r) = reader {
            match r.recv_timeout(Duration::from_secs(15)) {
                Ok(n) => errors += n,
                Err(_) => fail!("stream-open", "a waiting reader is not told that the event stream ended"),
            }
        }
        check!(errors <= tried, "errors", "{tried} connects, {errors} errors");
        let p = take_foreign_panics();
        check!(p.is_empty(), "thread-panic", "a thread of the node panicked: {p:?}");
        if address.port() != 0 {
            let again = wait_for(Duration::from_secs(5), || TcpListener::bind(address).is_ok());
            check!(again, "not-released", "{address} cannot be bound after join");
        }
    }
    Ok(Outcome::when(started > 0 && connects > 0 || started != c.cycles.len())
        .label_if(started > 1, "restarted on the same address")
        .label_if(many, "more than 1000 failures in a row")
        .label_if(failing, "unreachable destination")
        .label_if(started == 0, "unusable address"))
}

/// Nobody is expected to listen there; if somebody did, connecting would be judged the same.
fn closed_tcp() -> SocketAddr {
    "127.7.7.7:1".parse().unwrap()
}

pub fn t01(run: &mut Run) {
    run.rule("one to three starts on the same address (free, port zero, occupied, foreign; IPv4 and IPv6), commands with listening, refusing, broadcast, multicast, unroutable and arbitrary destinations, up to 6000 times in a row, the flag cleared before, during or never, events read afterwards, meanwhile or not at all; non-trivial: a connect was issued or an unusable address tried");
    run.assume("nobody connects to the node's own listener (handling an incoming connection is unimplemented in the crate); whether an address is usable is decided by binding it in the check");
    let all = ODD
        .iter()
        .enumerate()
        .map(|(i, _)| Life { place: Place::Free(0), cycles: vec![Cycle { acts: vec![Act::Connect(0, To::Odd(i as u8)), Act::Connect(1, To::Open)], clear: 0, reader: 0 }] })
        .collect();
    run.each_threads("destinations", 1, all, t01_life);
    run.sub("life", cases(6000).threads(1).shrink(60), life, t01_life);
}
