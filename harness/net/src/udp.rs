//! The UDP node, driven over the loopback interface.

use crate::{identity, is_node_thread, key, stranger};
use common::prelude::*;
use common::procs::{ends, tasks, wait_for, Ended};
use common::proptest::{collection::vec, sample::select};
use common::{cases, check, fail, gen, no_panic, take_foreign_panics, Failure, Outcome, Run, Verdict};
use refmodel::curves::Ed;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet, VecDeque};
use std::net::{SocketAddr, UdpSocket};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use vru_udp::{Command, Error, Event, LocalCommand, Node, NodeRef};

const FULL: usize = 1280;
/// the part of a datagram that holds the handshake's first message
const OPENING: usize = 1120;
const MARK: usize = 3;
const PATIENCE: Duration = Duration::from_secs(15);

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Size(SocketAddr, usize),
    Failed(SocketAddr),
    Trouble(String),
    Info(String),
    Other,
}

fn seen(e: Event) -> Seen {
    match e {
        Event::Error(Error::FrameSize(a, n)) => Seen::Size(a, n),
        Event::Error(Error::ConnectionFailed(a)) => Seen::Failed(a),
        Event::Error(e) => Seen::Trouble(format!("{e:?}")),
        Event::Info(s) => Seen::Info(s),
        Event::Local { .. } => Seen::Other,
    }
}

pub struct Live {
    node: Node,
    pub events: Option<NodeRef>,
    running: Arc<AtomicBool>,
    pub to: SocketAddr,
    marker: UdpSocket,
    mark: SocketAddr,
    log: Vec<Seen>,
}

fn free_port() -> u16 {
    common::procs::free_port(|p| UdpSocket::bind(("0.0.0.0", p)).is_ok()).expect("a free port")
}

impl Live {
    pub fn start() -> Result<Live, Failure> {
        let running = Arc::new(AtomicBool::new(true));
        for _ in 0..50 {
            let port = free_port();
            let (pk, sk) = key();
            let r = running.clone();
            match no_panic("spawn", || Node::spawn(sk, pk, port, r))? {
                Ok((node, events)) => {
                    let marker = UdpSocket::bind("127.0.0.1:0").unwrap();
                    let mark = marker.local_addr().unwrap();
                    let to = SocketAddr::from(([127, 0, 0, 1], port));
                    return Ok(Live { node, events: Some(events), running, to, marker, mark, log: Vec::new() });
                }
                Err(_) => continue,
            }
        }
        fail!("spawn", "a node does not start on a free port")
    }

    /// Collect what there is.
    fn pump(&mut self) -> bool {
        let Some(events) = &self.events else { return false };
        let mut ended = false;
        loop {
            match events.try_recv() {
                Ok(Some(e)) => self.log.push(seen(e)),
                Ok(None) => break,
                Err(_) => {
                    ended = true;
                    break;
                }
            }
        }
        ended
    }

    /// Everything sent so far has been taken in by the node: a datagram sent after it is reported.
    pub fn sync(&mut self) -> Result<(), Failure> {
        for attempt in 0..3 {
            self.marker.send_to(&[0; MARK], self.to).expect("send");
            let mark = self.mark;
            let (mut got, mut turn) = (false, 0);
            wait_for(PATIENCE, || {
                let from = self.log.len();
                let ended = self.pump();
                got |= self.log[from..].iter().any(|s| matches!(s, Seen::Size(a, _) if *a == mark));
                turn += 1;
                got || ended || (turn % 20 == 0 && hopeless())
            });
            self.log.retain(|s| !matches!(s, Seen::Size(a, _) if *a == mark));
            if got {
                return Ok(());
            }
            if attempt == 1 && hopeless() {
                break;
            }
        }
        fail!("silent", "the node stopped reporting: a datagram of {MARK} bytes was never reported as a size error; panics: {:?}", take_foreign_panics())
    }

    pub fn connect(&self, peer_pi: vru_session::handshake::Identity, address: SocketAddr) -> Result<(), Failure> {
        no_panic("command", || self.node.command(Command::Connect { peer_pi, address }))
    }

    /// Clear the flag and let the node notice soon.
    fn stop(&self, wake: bool) {
        self.running.store(false, Ordering::Release);
        if wake {
            let _ = self.marker.send_to(&[0; MARK], self.to);
        }
    }

    pub fn shut(self, wake: bool) -> (Ended<()>, Option<NodeRef>) {
        self.stop(wake);
        let Live { node, events, .. } = self;
        (ends(Duration::from_secs(6), is_node_thread, move || node.join()), events)
    }
}

/// threads left behind by cases that got stuck
static LEAKED: Mutex<Vec<u32>> = Mutex::new(Vec::new());

/// Threads of the node under test (cases run one at a time; the check's own threads are named chk-).
pub fn node_threads() -> usize {
    let l = LEAKED.lock().unwrap();
    tasks().iter().filter(|t| !t.name.starts_with("chk-") && !l.contains(&t.tid)).count()
}

pub fn leak() {
    *LEAKED.lock().unwrap() = tasks().iter().filter(|t| !t.name.starts_with("chk-")).map(|t| t.tid).collect();
}

/// No use in waiting: the node lost its threads, or one of them panicked a while ago.
fn hopeless() -> bool {
    node_threads() == 0 || !common::FOREIGN_PANICS.lock().unwrap().is_empty()
}

fn thread<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new().name(format!("chk-{name}")).spawn(f).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fill {
    Zero,
    Ones,
    Random(u64),
    /// the first bytes are those of the last answer this sender got
    Echo(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// sender, length, contents, how many in a row
    Send(u8, u32, Fill, u8),
    /// sender to expect, identity
    Connect(u8, u8),
    /// an address no sender has
    ConnectElsewhere(u8, u8),
    /// the address of a sender with one bit changed
    ConnectNear(u8, u8, u8),
    /// identity, text
    Text(u8, String),
}

fn fill() -> impl Strategy<Value = Fill> {
    prop_oneof![
        1 => Just(Fill::Zero),
        1 => Just(Fill::Ones),
        2 => any::<u64>().prop_map(Fill::Random),
        1 => any::<u64>().prop_map(Fill::Echo),
    ]
}

fn length() -> impl Strategy<Value = u32> {
    prop_oneof![
        8 => Just(FULL as u32),
        1 => Just(FULL as u32 - 1),
        1 => Just(FULL as u32 + 1),
        1 => select(vec![0u32, 1, 2, 15, 16, 17, 64, OPENING as u32, 1264, 1296, 2560, 9000, 65507]),
        1 => 0..1500u32,
        1 => 1281..65508u32,
    ]
}

pub fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        5 => (0..4u8, length(), fill(), prop_oneof![4 => Just(1u8), 1 => 2..4u8]).prop_map(|(s, l, f, n)| Op::Send(s, l, f, n)),
        4 => (0..4u8, 0..6u8).prop_map(|(s, i)| Op::Connect(s, i)),
        1 => (0..3u8, 0..6u8).prop_map(|(s, i)| Op::ConnectElsewhere(s, i)),
        2 => (0..4u8, 0..48u8, 0..6u8).prop_map(|(s, b, i)| Op::ConnectNear(s, b, i)),
    ]
}

/// No position is the start of a character in all of them.
fn long_text() -> impl Strategy<Value = String> {
    let c = prop_oneof![any::<char>(), Just('\u{e9}'), Just('\u{2603}'), Just('\u{1d54f}')];
    (0..4usize, vec(c, 1..4), prop_oneof![10..100usize, 100..3000usize]).prop_map(|(shift, c, n)| {
        "abcd"[..shift].chars().chain(c.into_iter().cycle().take(n)).collect()
    })
}

pub fn op_with_text() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => op(),
        2 => (0..6u8, prop_oneof![2 => Just(String::new()), 3 => ".{0,40}", 1 => Just("x".repeat(100_000)), 2 => long_text()]).prop_map(|(i, t)| Op::Text(i, t)),
    ]
}

/// Four senders: two addresses share a port, two ports share an address.
pub struct Senders {
    sockets: Vec<UdpSocket>,
    addresses: Vec<SocketAddr>,
    last: Vec<Vec<u8>>,
    /// every opening received, by sender
    openings: Vec<Vec<Vec<u8>>>,
}

impl Senders {
    pub fn new() -> Senders {
        for _ in 0..100 {
            let a = UdpSocket::bind("127.0.0.1:0").unwrap();
            let p = a.local_addr().unwrap().port();
            let b = UdpSocket::bind("127.0.0.1:0").unwrap();
            let q = b.local_addr().unwrap().port();
            if let (Ok(c), Ok(d)) = (UdpSocket::bind(("127.0.0.2", p)), UdpSocket::bind(("127.1.2.3", q))) {
                let sockets = vec![a, b, c, d];
                for s in &sockets {
                    s.set_nonblocking(true).unwrap();
                }
                let addresses = sockets.iter().map(|s| s.local_addr().unwrap()).collect();
                return Senders { sockets, addresses, last: vec![Vec::new(); 4], openings: vec![Vec::new(); 4] };
            }
        }
        panic!("no ports left");
    }

    fn send(&self, to: SocketAddr, s: usize, len: usize, f: &Fill) {
        let mut b = match f {
            Fill::Zero => vec![0; len],
            Fill::Ones => vec![0xff; len],
            Fill::Random(x) | Fill::Echo(x) => gen::expand(*x, len),
        };
        if let Fill::Echo(_) = f {
            let n = len.min(self.last[s].len());
            b[..n].copy_from_slice(&self.last[s][..n]);
        }
        self.sockets[s].send_to(&b, to).expect("send over loopback");
    }

    /// What the node sent to each; anything that is not a full datagram from the node is a failure.
    fn collect(&mut self, to: SocketAddr) -> Result<(), Failure> {
        let mut b = vec![0; 70000];
        for s in 0..4 {
            while let Ok((n, from)) = self.sockets[s].recv_from(&mut b) {
                if from != to {
                    continue;
                }
                check!(n == FULL, "answer-size", "the node sent a datagram of {n} bytes");
                self.last[s] = b[..n].to_vec();
                self.openings[s].push(b[..n].to_vec());
            }
        }
        Ok(())
    }
}

/// every opening any node of this run ever sent, in 32-byte blocks
static BLOCKS: OnceLock<Mutex<HashSet<Vec<u8>>>> = OnceLock::new();

fn fresh(o: &[u8]) -> Result<(), Failure> {
    let o = &o[..OPENING];
    check!(Ed::decode(&o[..32]).is_some(), "opening-no-point", "the first 32 bytes of an opening are no curve point: {}", hex::encode(&o[..32]));
    let mut all = BLOCKS.get_or_init(Default::default).lock().unwrap();
    for (i, b) in o.chunks(32).enumerate() {
        check!(all.insert(b.to_vec()), "opening-not-fresh", "bytes {}.. of an opening were sent before: {}", 32 * i, hex::encode(b));
    }
    Ok(())
}

/// Another address: one bit of the IP address or of the port differs.
fn near(a: SocketAddr, bit: u8) -> SocketAddr {
    let (SocketAddr::V4(a), bit) = (a, bit % 48) else { return a };
    if bit < 16 {
        (*a.ip(), a.port() ^ 1 << bit).into()
    } else {
        (std::net::Ipv4Addr::from(u32::from(*a.ip()) ^ 1 << (bit - 16)), a.port()).into()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub ops: Vec<Op>,
}

fn elsewhere(i: u8) -> SocketAddr {
    match i % 3 {
        0 => "127.9.9.9:9".parse().unwrap(),
        1 => "192.0.2.7:4000".parse().unwrap(),
        _ => "[2001:db8::1]:4000".parse().unwrap(),
    }
}

// ---------------------------------------------------------------- U01

/// What the property says should have been seen.
#[derive(Default)]
struct Model {
    pending: HashMap<SocketAddr, u8>,
    /// size errors and incoming reports in order
    due: VecDeque<Seen>,
    answers: Vec<usize>,
    /// per sender: full-size datagrams for which the report is not prescribed (a peer already connected)
    consumed: HashSet<SocketAddr>,
}

pub fn u01_history(h: &History) -> Verdict {
    let mut live = Live::start()?;
    let mut senders = Senders::new();
    let mut m = Model { answers: vec![0; 4], ..Model::default() };
    let (mut sizes, mut answered, mut refused) = (false, false, false);
    let mut checked = 0;
    let mut unsynced = 0;
    for op in &h.ops {
        match op {
            Op::Send(s, len, f, times) => {
                let s = *s as usize % 4;
                let a = senders.addresses[s];
                for _ in 0..*times {
                    // the receive buffer of a socket is small
                    if unsynced + *len as usize + 1000 > 90_000 {
                        live.sync()?;
                        unsynced = 0;
                    }
                    senders.send(live.to, s, *len as usize, f);
                    unsynced += *len as usize + 1000;
                    if *len as usize != FULL {
                        m.due.push_back(Seen::Size(a, *len as usize));
                        sizes = true;
                    } else if m.pending.remove(&a).is_some() {
                        m.answers[s] += 1;
                        m.consumed.insert(a);
                        answered = true;
                    } else {
                        m.due.push_back(Seen::Info(a.to_string()));
                    }
                }
                live.sync()?;
                unsynced = 0;
            }
            Op::Connect(..) | Op::ConnectElsewhere(..) | Op::ConnectNear(..) => {
                let (a, i) = match op {
                    Op::Connect(s, i) => (senders.addresses[*s as usize % 4], *i),
                    Op::ConnectElsewhere(s, i) => (elsewhere(*s), *i),
                    Op::ConnectNear(s, b, i) => (near(senders.addresses[*s as usize % 4], *b), *i),
                    _ => unreachable!(),
                };
                live.pump();
                let from = live.log.len();
                no_panic("command", || live.node.command(Command::Connect { peer_pi: identity(i.into()), address: a }))?;
                live.sync()?;
                let failed = live.log[from..].iter().filter(|s| matches!(s, Seen::Failed(_))).count();
                if m.pending.contains_key(&a) {
                    refused = true;
                    check!(failed == 1 && live.log[from..].contains(&Seen::Failed(a)), "second-connect", "a second connect to pending {a} was reported as failed {failed} times");
                } else {
                    check!(failed == 0, "first-connect", "a connect to {a}, which is not pending, was reported as failed");
                    m.pending.insert(a, i);
                }
            }
            Op::Text(..) => (),
        }
        // the log so far must be what is due, in order
        senders.collect(live.to)?;
        for s in 0..4 {
            check!(senders.openings[s].len() == m.answers[s], "answers", "sender {s} was sent {} datagrams instead of {} after {op:?}", senders.openings[s].len(), m.answers[s]);
        }
        judge_log(&live.log[checked..], &mut m)?;
        checked = live.log.len();
        check!(m.due.is_empty(), "not-reported", "not reported: {:?}", m.due.front());
    }
    // a last look after the end
    live.sync()?;
    judge_log(&live.log[checked..], &mut m)?;
    for o in senders.openings.iter().flatten() {
        fresh(o)?;
    }
    if let (Ended::Stuck(_), _) = live.shut(true) {
        leak();
    }
    take_foreign_panics();
    Ok(Outcome::when(sizes || answered).label_if(sizes, "size errors").label_if(answered, "answered").label_if(refused, "second connect refused"))
}

fn judge_log(log: &[Seen], m: &mut Model) -> Result<(), Failure> {
    for s in log {
        match s {
            Seen::Size(a, n) => match m.due.pop_front() {
                Some(Seen::Size(b, k)) if *a == b && (*n == k || k > FULL && *n > FULL) => (),
                other => fail!("size-error", "reported a datagram of {n} bytes from {a}, expected {other:?}"),
            },
            Seen::Info(t) if t.contains("incoming") => match m.due.pop_front() {
                Some(Seen::Info(a)) if t.contains(&a) => (),
                other => fail!("incoming", "reported {t:?}, expected {other:?}"),
            },
            // notes of the peer's own worker come at their own time and are not prescribed
            Seen::Info(_) | Seen::Failed(_) => (),
            Seen::Trouble(t) => fail!("trouble", "reported {t}"),
            Seen::Other => (),
        }
    }
    Ok(())
}

/// Connects and datagrams racing with each other: nothing is lost or answered twice.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    /// per sender: connects issued, datagrams sent
    plan: Vec<(u8, u8)>,
    seed: u64,
}

fn u01_race(c: &Race) -> Verdict {
    let mut live = Live::start()?;
    let mut senders = Senders::new();
    let start = std::sync::Barrier::new(2);
    let (to, addresses) = (live.to, senders.addresses.clone());
    let sockets: Vec<UdpSocket> = senders.sockets.iter().map(|s| s.try_clone().unwrap()).collect();
    let mut issued = 0;
    std::thread::scope(|sc| {
        let start = &start;
        let racer = std::thread::Builder::new().name("chk-racer".into());
        let _ = racer.spawn_scoped(sc, move || {
            start.wait();
            for round in 0..4u8 {
                for (s, (_, n)) in c.plan.iter().enumerate() {
                    if round < *n {
                        let _ = sockets[s].send_to(&gen::expand(c.seed, FULL), to);
                    }
                }
            }
        });
        start.wait();
        for round in 0..4u8 {
            for (s, (n, _)) in c.plan.iter().enumerate() {
                if round < *n {
                    issued += 1;
                    live.node.command(Command::Connect { peer_pi: identity(s), address: addresses[s] });
                }
            }
        }
    });
    live.sync()?;
    // whatever is still pending is consumed by one more datagram
    for s in 0..4 {
        senders.send(to, s, FULL, &Fill::Random(c.seed));
    }
    live.sync()?;
    senders.collect(to)?;
    let failed = live.log.iter().filter(|s| matches!(s, Seen::Failed(_))).count();
    let incoming = live.log.iter().filter(|s| matches!(s, Seen::Info(t) if t.contains("incoming"))).count();
    let answers: usize = senders.openings.iter().map(|o| o.len()).sum();
    let sent: usize = c.plan.iter().map(|(_, n)| usize::from(*n)).sum::<usize>() + 4;
    check!(failed + answers == issued, "race-connects", "{issued} connects: {failed} reported as failed, {answers} answered");
    check!(incoming + answers == sent, "race-datagrams", "{sent} full-size datagrams: {incoming} reported as incoming, {answers} answered");
    for o in senders.openings.iter().flatten() {
        fresh(o)?;
    }
    if let (Ended::Stuck(_), _) = live.shut(true) {
        leak();
    }
    take_foreign_panics();
    Ok(Outcome::when(issued > 0))
}

/// A crowd of senders: many requests pending at once, many peers, long histories.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    /// senders
    n: u16,
    /// identities in use; when fewer than senders, some are dialled at several addresses
    names: u16,
    rounds: Vec<Round>,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    /// of 256 senders: connects, connects again, sends, sends again
    rates: [u8; 4],
    /// of 256 sends: a datagram of another length
    odd: u8,
    /// of 256 senders: text to its identity
    texts: u8,
}

pub fn crowd(top: u16) -> impl Strategy<Value = Crowd> {
    let rate = || prop_oneof![1 => Just(0u8), 2 => Just(255), 2 => any::<u8>()];
    let round = ([rate(), rate(), rate(), rate()], prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop_oneof![1 => Just(0u8), 1 => any::<u8>()])
        .prop_map(|(rates, odd, texts)| Round { rates, odd, texts });
    let n = prop_oneof![1 => 1..=top, 1 => select(vec![15u16, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).prop_map(move |x| x.min(top))];
    (n, 1..500u16, vec(round, 1..5), any::<u64>()).prop_map(|(n, names, rounds, seed)| Crowd { n, names, rounds, seed })
}

pub struct CrowdRun {
    live: Live,
    sockets: Vec<UdpSocket>,
    addresses: Vec<SocketAddr>,
    /// what is due so far, by sender: failed connects, incoming reports, answers; sizes
    due: Vec<[usize; 3]>,
    sizes: HashMap<(SocketAddr, usize), usize>,
    pending: HashSet<usize>,
    most: usize,
}

fn crowd_run(c: &Crowd, texts: bool) -> Result<CrowdRun, Failure> {
    let live = Live::start()?;
    let n = c.n.max(1) as usize;
    let sockets: Vec<UdpSocket> = (0..n)
        .map(|i| {
            let s = UdpSocket::bind((std::net::Ipv4Addr::new(127, 0, (i / 200) as u8, 1 + (i % 200) as u8), 0)).expect("bind");
            s.set_nonblocking(true).unwrap();
            s
        })
        .collect();
    let addresses: Vec<SocketAddr> = sockets.iter().map(|s| s.local_addr().unwrap()).collect();
    let mut r = CrowdRun { live, sockets, addresses, due: vec![[0; 3]; n], sizes: HashMap::new(), pending: HashSet::new(), most: 0 };
    let name = |i: usize| stranger(i % c.names.max(1) as usize);
    for (k, round) in c.rounds.iter().enumerate() {
        let dice = gen::expand(c.seed.wrapping_add(k as u64), 12 * n + 16);
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|i| (dice[6 * i], dice[6 * i + 1], *i));
        let chance = |i: usize, which: usize, rate: u8| rate == 255 || dice[6 * n + (6 * i + which)] < rate;
        for again in 0..2 {
            for &i in &order {
                if chance(i, again, round.rates[again]) {
                    let command = Command::Connect { peer_pi: name(i), address: r.addresses[i] };
                    no_panic("command", || r.live.node.command(command))?;
                    if !r.pending.insert(i) {
                        r.due[i][0] += 1;
                    }
                }
            }
        }
        r.most = r.most.max(r.pending.len());
        if round.odd % 2 == 0 {
            order.reverse();
        }
        let mut room = 0;
        for again in 2..4 {
            for &i in &order {
                if !chance(i, again, round.rates[again]) {
                    continue;
                }
                if room >= 30 {
                    r.live.sync()?;
                    room = 0;
                }
                room += 1;
                let odd = dice[6 * i + 2] < round.odd;
                let len = if odd { [FULL - 1, FULL + 1, OPENING, 16 + i, 1264][dice[6 * i + 3] as usize % 5] } else { FULL };
                let body = if dice[6 * i + 4] < 40 { vec![0; len] } else { gen::expand(c.seed ^ i as u64, len) };
                r.sockets[i].send_to(&body, r.live.to).expect("send over loopback");
                if len != FULL {
                    *r.sizes.entry((r.addresses[i], len)).or_default() += 1;
                } else if r.pending.remove(&i) {
                    r.due[i][2] += 1;
                } else {
                    r.due[i][1] += 1;
                }
            }
        }
        r.live.sync()?;
        if texts {
            for &i in &order {
                if chance(i, 4, round.texts) {
                    let command = Command::Local { destination: name(i), command: LocalCommand::SendText(format!("{k} {i}")) };
                    no_panic("command", || r.live.node.command(command))?;
                }
            }
        }
    }
    Ok(r)
}

pub fn u01_crowd(c: &Crowd) -> Verdict {
    take_foreign_panics();
    let mut r = crowd_run(c, false)?;
    let mut b = vec![0; 70000];
    let mut answered = 0;
    for (i, s) in r.sockets.iter().enumerate() {
        let mut got = 0;
        while let Ok((n, from)) = s.recv_from(&mut b) {
            if from != r.live.to {
                continue;
            }
            check!(n == FULL, "answer-size", "the node sent a datagram of {n} bytes");
            fresh(&b[..n])?;
            got += 1;
        }
        check!(got == r.due[i][2], "crowd-answers", "sender {i} of {} was sent {got} datagrams instead of {}", c.n, r.due[i][2]);
        answered += got;
    }
    let mut failed: HashMap<SocketAddr, usize> = HashMap::new();
    let mut incoming: HashMap<String, usize> = HashMap::new();
    let mut sizes = HashMap::new();
    for e in &r.live.log {
        match e {
            Seen::Failed(a) => *failed.entry(*a).or_default() += 1,
            Seen::Info(t) if t.contains("incoming") => {
                let a = t.rsplit(' ').next().unwrap_or("");
                *incoming.entry(a.to_string()).or_default() += 1;
            }
            Seen::Size(a, n) => *sizes.entry((*a, *n)).or_default() += 1,
            Seen::Trouble(t) => fail!("trouble", "reported {t}"),
            _ => (),
        }
    }
    for (i, a) in r.addresses.iter().enumerate() {
        let (f, n) = (failed.remove(a).unwrap_or(0), incoming.remove(&a.to_string()).unwrap_or(0));
        check!(f == r.due[i][0], "crowd-refused", "{} connects to pending {a} instead of {} were reported as failed (sender {i} of {})", f, r.due[i][0], c.n);
        check!(n == r.due[i][1], "crowd-incoming", "{} datagrams from {a} instead of {} were reported as incoming (sender {i} of {})", n, r.due[i][1], c.n);
    }
    check!(failed.is_empty() && incoming.is_empty(), "crowd-strangers", "reports about nobody: {failed:?} {incoming:?}");
    check!(sizes == r.sizes, "crowd-sizes", "size errors {sizes:?} instead of {:?}", r.sizes);
    if let (Ended::Stuck(_), _) = r.live.shut(true) {
        leak();
    }
    take_foreign_panics();
    Ok(Outcome::when(answered > 0).label(match r.most {
        0..=15 => "below 16 pending",
        16..=63 => "16 to 63 pending",
        64..=127 => "64 to 127 pending",
        _ => "128 pending and more",
    }))
}

/// Events that nobody reads for a long time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Backlog {
    /// connects to an address that is pending; datagrams of another size; full ones from strangers
    parts: [u16; 3],
}

fn backlog() -> impl Strategy<Value = Backlog> {
    let part = || prop_oneof![2 => Just(0u16), 1 => 1..64u16, 2 => 64..2000u16, 2 => 2000..8000u16, 1 => select(vec![255u16, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8192])];
    [part(), part(), part()].prop_map(|parts| Backlog { parts })
}

/// Bytes waiting in the receive buffer of the socket at this port, where the system tells.
fn waiting(port: u16) -> Option<usize> {
    let t = std::fs::read_to_string("/proc/self/net/udp").ok()?;
    let mark = format!(":{port:04X}");
    t.lines().skip(1).find_map(|l| {
        let mut w = l.split_whitespace();
        let local = w.nth(1)?;
        let queues = w.nth(2)?;
        local.ends_with(&mark).then(|| usize::from_str_radix(queues.split(':').nth(1)?, 16).ok()).flatten()
    })
}

fn taken_in(port: u16) {
    match waiting(port) {
        None => std::thread::sleep(Duration::from_millis(5)),
        Some(_) => drop(wait_for(Duration::from_secs(2), || waiting(port).map_or(true, |w| w == 0))),
    }
}

struct Piled {
    live: Live,
    sender: SocketAddr,
    /// how many there were
    parts: [usize; 3],
}

fn pile_up(c: &Backlog) -> Result<Piled, Failure> {
    let Live { node, events, running, to, marker, mark, log } = Live::start()?;
    let address = elsewhere(0);
    let n = c.parts[0] as usize;
    let node = match ends(Duration::from_secs(6), is_node_thread, move || {
        for _ in 0..n + 1 {
            node.command(Command::Connect { peer_pi: identity(0), address });
        }
        node
    }) {
        Ended::Yes(node) => node,
        Ended::Panicked(t) => fail!("command-panic", "command: {t}"),
        Ended::Stuck(t) => {
            leak();
            fail!("command-stuck", "a command does not return: {t}");
        }
    };
    let socket = UdpSocket::bind("127.0.0.1:0").unwrap();
    let sender = socket.local_addr().unwrap();
    let full = [7; FULL];
    for (n, body) in [(c.parts[1], &full[..10]), (c.parts[2], &full[..])] {
        for k in 0..n {
            socket.send_to(body, to).expect("send over loopback");
            if k % 25 == 24 {
                // a node that does not read does not lose anything that matters here
                taken_in(to.port());
            }
        }
        taken_in(to.port());
    }
    let live = Live { node, events, running, to, marker, mark, log };
    Ok(Piled { live, sender, parts: c.parts.map(|x| x as usize) })
}

fn u01_backlog(c: &Backlog) -> Verdict {
    take_foreign_panics();
    let mut p = pile_up(c)?;
    p.live.sync()?;
    let mut got = [0; 3];
    for e in &p.live.log {
        match e {
            Seen::Failed(a) if *a == elsewhere(0) => got[0] += 1,
            Seen::Size(a, 10) if *a == p.sender => got[1] += 1,
            Seen::Info(t) if t.contains("incoming") && t.contains(&p.sender.to_string()) => got[2] += 1,
            other => fail!("backlog-other", "reported {other:?}"),
        }
    }
    check!(got == p.parts, "backlog", "failed connects, size errors, incoming datagrams: {:?} happened while nobody read, {got:?} were reported", p.parts);
    let total: usize = p.parts.iter().sum();
    if let (Ended::Stuck(_), _) = p.live.shut(true) {
        leak();
    }
    take_foreign_panics();
    Ok(Outcome::when(total > 100).label_if(total > 4000, "more than 4000 events unread"))
}

fn u03_backlog(c: &Backlog) -> Verdict {
    take_foreign_panics();
    let p = pile_up(c)?;
    let total: usize = p.parts.iter().sum();
    let (ended, events) = p.live.shut(true);
    match ended {
        Ended::Yes(()) => (),
        Ended::Panicked(t) => fail!("join-panic", "join: {t}"),
        Ended::Stuck(t) => {
            leak();
            fail!("join-stuck", "join does not return while {total} events are unread: {t}");
        }
    }
    let events = events.expect("kept");
    let ok = wait_for(PATIENCE, || loop {
        match events.try_recv() {
            Ok(Some(_)) => (),
            Ok(None) => break false,
            Err(_) => break true,
        }
    });
    check!(ok, "stream-open", "the event stream does not end after join and {total} events");
    take_foreign_panics();
    Ok(Outcome::when(total > 100).label_if(total > 4000, "more than 4000 events unread"))
}

/// Very many events over the life of one node.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Long {
    datagrams: u32,
    commands: u32,
    /// answered connects, spread evenly
    connects: u32,
}

fn u01_life(c: &Long) -> Verdict {
    take_foreign_panics();
    let mut live = Live::start()?;
    let socket = UdpSocket::bind("127.0.0.1:0").unwrap();
    let sender = socket.local_addr().unwrap();
    socket.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let parts = c.connects.max(1);
    live.connect(identity(0), elsewhere(0))?;
    for part in 0..parts {
        let (mut sizes, mut failed) = (0, 0);
        for k in 0..c.datagrams / parts {
            socket.send_to(&[1; 9], live.to).expect("send over loopback");
            if k % 60 == 59 {
                live.sync()?;
            }
        }
        live.sync()?;
        for _ in 0..c.commands / parts {
            live.connect(identity(0), elsewhere(0))?;
        }
        live.sync()?;
        for e in live.log.drain(..) {
            match e {
                Seen::Size(a, 9) if a == sender => sizes += 1,
                Seen::Failed(a) if a == elsewhere(0) => failed += 1,
                // of the connect before
                Seen::Info(_) => (),
                other => fail!("life-other", "reported {other:?}"),
            }
        }
        check!((sizes, failed) == (c.datagrams / parts, c.commands / parts), "life", "part {part}: {} datagrams of 9 bytes and {} connects to a pending address: {sizes} size errors and {failed} failed connects", c.datagrams / parts, c.commands / parts);
        if c.connects > 0 {
            live.connect(identity((1 + part % 5) as usize), sender)?;
            socket.send_to(&[0x5a; FULL], live.to).expect("send over loopback");
            let mut b = [0; 2000];
            let got = socket.recv_from(&mut b);
            check!(matches!(got, Ok((FULL, a)) if a == live.to), "life-answer", "part {part}: a connect that was due was answered with {got:?}");
            fresh(&b[..FULL])?;
        }
    }
    if let (Ended::Stuck(_), _) = live.shut(true) {
        leak();
    }
    take_foreign_panics();
    Ok(Outcome::ok().label_if(c.datagrams > 65_536, "more than 65536 datagrams"))
}

pub fn u01(run: &mut Run) {
    run.rule("histories of up to 24 operations: datagrams of 0 to 65507 bytes (full size, one off, boundary) from four senders that share addresses or ports, with constant, random or echoed contents, and connects to these and other addresses; races of connects with datagrams; crowds of up to 300 senders with up to 300 requests pending at once and several rounds of connects, repeated connects and datagrams in shuffled orders; up to 24000 events that nobody reads meanwhile; a node that gets 70000 datagrams and 70000 commands; non-trivial: a size error or an answered connect occurred");
    run.assume("datagrams on the loopback interface keep their order and are not lost below the receive buffer's size; a marker datagram shows that earlier ones were taken in");
    run.sub("history", cases(4000).threads(1).shrink(60), || vec(op(), 1..24).prop_map(|ops| History { ops }), u01_history);
    let lives = if run.quick() { vec![Long { datagrams: 70_000, commands: 70_000, connects: 7 }] } else { vec![Long { datagrams: 70_000, commands: 70_000, connects: 7 }, Long { datagrams: 2_000_000, commands: 0, connects: 20 }, Long { datagrams: 0, commands: 2_000_000, connects: 300 }] };
    run.each_threads("long life", 1, lives, u01_life);
    run.sub("race", cases(1000).threads(1).shrink(20), || (vec((0..5u8, 0..5u8), 4), any::<u64>()).prop_map(|(plan, seed)| Race { plan, seed }), u01_race);
    run.sub("crowd", cases(120).threads(1).shrink(60), || crowd(300), u01_crowd);
    run.sub("backlog", cases(16).threads(1).shrink(20), backlog, u01_backlog);
}

// ---------------------------------------------------------------- U02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Abuse {
    ops: Vec<Op>,
    /// the application stops listening after this many operations
    deaf_after: Option<u8>,
    /// commands after the flag was cleared and the node's threads are gone
    late: Vec<Op>,
    /// another node wants the same port in between
    second: bool,
}

fn abuse() -> impl Strategy<Value = Abuse> {
    (vec(op_with_text(), 1..30), common::proptest::option::weighted(0.15, 0..20u8), prop_oneof![3 => Just(Vec::new()), 1 => vec(op_with_text(), 1..8)], any::<bool>())
        .prop_map(|(ops, deaf_after, late, second)| Abuse { ops, deaf_after, late, second })
}

pub fn perform(live: &mut Live, senders: &Senders, op: &Op, room: &mut usize) -> Result<(), Failure> {
    match op {
        Op::Send(s, len, f, times) => {
            for _ in 0..*times {
                if *room + *len as usize + 1000 > 90_000 && live.events.is_some() {
                    live.sync()?;
                    *room = 0;
                }
                senders.send(live.to, *s as usize % 4, *len as usize, f);
                *room += *len as usize + 1000;
            }
        }
        Op::Connect(s, i) => {
            let address = senders.addresses[*s as usize % 4];
            no_panic("command", || live.node.command(Command::Connect { peer_pi: identity((*i).into()), address }))?;
        }
        Op::ConnectElsewhere(s, i) => {
            no_panic("command", || live.node.command(Command::Connect { peer_pi: identity((*i).into()), address: elsewhere(*s) }))?;
        }
        Op::ConnectNear(s, b, i) => {
            let address = near(senders.addresses[*s as usize % 4], *b);
            no_panic("command", || live.node.command(Command::Connect { peer_pi: identity((*i).into()), address }))?;
        }
        Op::Text(i, t) => {
            no_panic("command", || live.node.command(Command::Local { destination: identity((*i).into()), command: LocalCommand::SendText(t.clone()) }))?;
        }
    }
    Ok(())
}

fn u02_abuse(c: &Abuse) -> Verdict {
    take_foreign_panics();
    let mut live = Live::start()?;
    let mut senders = Senders::new();
    let mut room = 0;
    let panics = |when: &str| -> Result<(), Failure> {
        let p = take_foreign_panics();
        check!(p.is_empty(), "thread-panic", "{when}: a thread of the node panicked: {p:?}");
        Ok(())
    };
    let mut connected = false;
    for (k, op) in c.ops.iter().enumerate() {
        if c.deaf_after == Some(k as u8) {
            live.events = None;
        }
        perform(&mut live, &senders, op, &mut room)?;
        // let the datagram arrive before the next command, mostly
        if live.events.is_some() && matches!(op, Op::Send(..)) {
            live.sync()?;
            room = 0;
        }
        connected |= matches!(op, Op::Connect(..));
        panics("after an operation")?;
    }
    if c.second {
        let (pk, sk) = key();
        let r = no_panic("spawn-occupied", || Node::spawn(sk, pk, live.to.port(), Arc::new(AtomicBool::new(true))).is_err())?;
        check!(r, "spawn-occupied", "two nodes share a port");
    }
    // still alive: it reports, and it answers
    if live.events.is_some() {
        live.sync()?;
    }
    panics("at the end")?;
    senders.collect(live.to)?;
    let before = senders.openings[1].len();
    let a = senders.addresses[1];
    no_panic("command", || live.node.command(Command::Connect { peer_pi: identity(0), address: a }))?;
    let to = live.to;
    let mut bad = Ok(());
    let mut alive = false;
    for _ in 0..3 {
        senders.send(to, 1, FULL, &Fill::Zero);
        alive = wait_for(PATIENCE, || {
            bad = senders.collect(to);
            senders.openings[1].len() > before || bad.is_err()
        });
        if alive || hopeless() {
            break;
        }
    }
    bad?;
    check!(alive, "no-answer", "the node does not answer any more; panics: {:?}", take_foreign_panics());
    if live.events.is_some() {
        live.sync()?;
    }
    let late = !c.late.is_empty();
    if late {
        live.stop(true);
        // until its threads are gone (or as gone as they get)
        wait_for(Duration::from_secs(3), || node_threads() == 0);
        for op in &c.late {
            if !matches!(op, Op::Send(..)) {
                let mut room = 0;
                perform(&mut live, &senders, op, &mut room)?;
            }
        }
        panics("after the flag was cleared")?;
    }
    match live.shut(true) {
        (Ended::Panicked(t), _) => fail!("join-panic", "join: {t}"),
        // not this property's business
        (Ended::Stuck(_), _) => leak(),
        (Ended::Yes(()), _) => (),
    }
    panics("during shutdown")?;
    Ok(Outcome::when(connected).label_if(c.deaf_after.is_some(), "events not read").label_if(late, "commands after the end"))
}

fn u02_crowd(c: &Crowd) -> Verdict {
    take_foreign_panics();
    let mut r = crowd_run(c, true)?;
    r.live.sync()?;
    let p = take_foreign_panics();
    check!(p.is_empty(), "thread-panic", "a thread of the node panicked: {p:?}");
    // it still answers everybody who is waited for
    let waiting: Vec<usize> = r.pending.iter().copied().collect();
    for (k, &i) in waiting.iter().enumerate() {
        r.sockets[i].send_to(&[0; FULL], r.live.to).expect("send over loopback");
        if k % 30 == 29 {
            r.live.sync()?;
        }
    }
    r.live.sync()?;
    let mut b = vec![0; 70000];
    for i in 0..r.sockets.len() {
        let due = r.due[i][2] + usize::from(r.pending.contains(&i));
        let mut got = 0;
        while let Ok((_, from)) = r.sockets[i].recv_from(&mut b) {
            got += usize::from(from == r.live.to);
        }
        check!(got >= due, "no-answer", "sender {i} of {} is not answered any more", c.n);
    }
    match r.live.shut(true) {
        (Ended::Panicked(t), _) => fail!("join-panic", "join: {t}"),
        (Ended::Stuck(_), _) => leak(),
        (Ended::Yes(()), _) => (),
    }
    let p = take_foreign_panics();
    check!(p.is_empty(), "thread-panic", "during shutdown: a thread of the node panicked: {p:?}");
    Ok(Outcome::when(r.most > 0))
}

pub fn u02(run: &mut Run) {
    run.rule("histories of up to 30 operations: datagrams as in U01, connects, texts of any size to known, unknown and repeatedly addressed peers, the application dropping its event stream, a second node on the same port, commands after the node's threads ended; crowds as in U01 with texts to all peers; non-trivial: a connect to one of the senders occurred");
    run.assume("panics of node threads are seen by the process's panic hook; cases run one at a time");
    // the shortest way to a peer that is addressed twice
    let send = |s| Op::Send(s, FULL as u32, Fill::Zero, 1);
    let text = |i| Op::Text(i, "hello".into());
    let list = [
        vec![Op::Connect(0, 1), send(0), text(1), text(1)],
        vec![Op::Connect(0, 1), send(0), Op::Connect(0, 1), send(0), text(1), text(1), text(1)],
        vec![Op::Connect(0, 1), text(1), send(0), text(1), text(1)],
        vec![text(1), text(1), Op::Connect(0, 1), Op::Connect(1, 1), send(0), send(1), text(1), text(1), send(0), send(1), text(1)],
        vec![Op::Connect(0, 1), send(0), text(1), send(0), text(1), send(0), Op::Connect(0, 2), send(0), text(2), text(1), text(2)],
    ]
    .into_iter()
    .flat_map(|ops| [(ops.clone(), vec![]), (ops, vec![text(1), text(1), Op::Connect(0, 3)])])
    .map(|(ops, late)| Abuse { ops, deaf_after: None, late, second: false })
    .collect();
    run.each_threads("known-peers", 1, list, u02_abuse);
    run.sub("abuse", cases(3000).threads(1).shrink(60), abuse, u02_abuse);
    run.sub("crowd", cases(80).threads(1).shrink(60), || crowd(300), u02_crowd);
}

// ---------------------------------------------------------------- U03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shutdown {
    ops: Vec<Op>,
    /// 0: one datagram wakes the node; 1: nothing does; 2: datagrams keep arriving
    arrivals: u8,
    /// the reader: 0 reads afterwards, 1 reads meanwhile, 2 is gone
    reader: u8,
    /// operations without waiting for the node in between
    hasty: bool,
}

pub fn shutdown(quiet: bool) -> impl Strategy<Value = Shutdown> {
    let arrivals = if quiet { Just(1u8).boxed() } else { prop_oneof![2 => Just(0u8), 1 => Just(2)].boxed() };
    (vec(op_with_text(), 0..16), arrivals, 0..3u8, any::<bool>()).prop_map(|(ops, arrivals, reader, hasty)| Shutdown { ops, arrivals, reader, hasty })
}

pub fn u03_shutdown(c: &Shutdown) -> Verdict {
    take_foreign_panics();
    let mut live = Live::start()?;
    let senders = Senders::new();
    let mut room = 0;
    let mut connected = false;
    for op in &c.ops {
        perform(&mut live, &senders, op, &mut room)?;
        connected |= matches!(op, Op::Connect(..));
        if !c.hasty && matches!(op, Op::Send(..)) {
            live.sync()?;
            room = 0;
        }
    }
    if c.reader == 2 {
        live.events = None;
    }
    let flood = Arc::new(AtomicBool::new(c.arrivals == 2));
    let sockets: Vec<UdpSocket> = senders.sockets.iter().map(|s| s.try_clone().unwrap()).collect();
    let to = live.to;
    let sender = {
        let flood = flood.clone();
        thread("flood", move || {
            let mut k = 0u64;
            while flood.load(Ordering::Relaxed) {
                for s in &sockets {
                    let len = if k % 3 == 0 { 20 } else { FULL };
                    let _ = s.send_to(&gen::expand(k, len), to);
                    k += 1;
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        })
    };
    let meanwhile = if c.reader == 1 { live.events.take() } else { None };
    let reader = meanwhile.map(|e| {
        let (tx, rx) = std::sync::mpsc::channel();
        thread("reader", move || {
            while e.recv().is_ok() {}
            let _ = tx.send(());
        });
        rx
    });
    let (ended, events) = live.shut(c.arrivals != 1);
    flood.store(false, Ordering::Relaxed);
    let _ = sender.join();
    match ended {
        Ended::Yes(()) => (),
        Ended::Panicked(t) => fail!("join-panic", "join: {t}"),
        Ended::Stuck(t) => {
            leak();
            fail!("join-stuck", "join does not return: {t}");
        }
    }
    if let Some(e) = events {
        let ok = wait_for(PATIENCE, || loop {
            match e.try_recv() {
                Ok(Some(_)) => (),
                Ok(None) => break false,
                Err(_) => break true,
            }
        });
        check!(ok, "stream-open", "the event stream does not end after join");
    }
    if let Some(r) = reader {
        check!(r.recv_timeout(PATIENCE).is_ok(), "stream-open", "a waiting reader is not told that the event stream ended");
    }
    take_foreign_panics();
    Ok(Outcome::when(connected)
        .label(match c.arrivals { 0 => "one datagram at shutdown", 1 => "silence at shutdown", _ => "datagrams during shutdown" })
        .label(match c.reader { 0 => "read afterwards", 1 => "read meanwhile", _ => "nobody reads" }))
}

fn u03_crowd(c: &Crowd) -> Verdict {
    crowd_shut(c, true)
}

fn crowd_shut(c: &Crowd, wake: bool) -> Verdict {
    take_foreign_panics();
    let r = crowd_run(c, true)?;
    let peers: usize = r.due.iter().map(|d| d[2]).sum();
    let (ended, events) = r.live.shut(wake);
    match ended {
        Ended::Yes(()) => (),
        Ended::Panicked(t) => fail!("join-panic", "join: {t}"),
        Ended::Stuck(t) => {
            leak();
            fail!("join-stuck", "join does not return with {peers} peers: {t}");
        }
    }
    let events = events.expect("kept");
    let ok = wait_for(PATIENCE, || loop {
        match events.try_recv() {
            Ok(Some(_)) => (),
            Ok(None) => break false,
            Err(_) => break true,
        }
    });
    check!(ok, "stream-open", "the event stream does not end after join with {peers} peers");
    take_foreign_panics();
    Ok(Outcome::when(peers > 0).label(match peers {
        0..=63 => "below 64 peers",
        64..=255 => "64 to 255 peers",
        _ => "256 peers and more",
    }))
}

pub fn u03(run: &mut Run) {
    run.rule("histories of up to 16 operations as in U02, then shutdown while nothing, one datagram or a stream of datagrams arrives, the event stream being read afterwards, meanwhile or not at all; crowds as in U01, with up to 1200 peers; up to 24000 events unread; non-trivial: a connect to one of the senders occurred");
    run.assume("a join that has not returned after 12 s while no thread of the node makes a step, or after 30 s at all, does not return");
    let quiet = if run.quick() { 4 } else { 60 };
    run.sub("shutdown", cases(3000).threads(1).shrink(3), || shutdown(false), u03_shutdown);
    run.sub("crowd", cases(80).threads(1).shrink(10), || crowd(300), u03_crowd);
    run.sub("backlog", cases(16).threads(1).shrink(1), backlog, u03_backlog);
    run.sub("quiet-crowd", cases(quiet).thorough(quiet).threads(1).shrink(3), || crowd(300), |c| crowd_shut(c, false));
    run.sub("silent-shutdown", cases(quiet).thorough(quiet).threads(1).shrink(3), || shutdown(true), u03_shutdown);
}
