//! L01: the command socket executes every well-formed command and outlives bad ones.
//!
//! What a command did is seen at a TCP listener of the check's own on 0.0.0.0: the n-th command
//! asks to connect to 127.a.b.c with a.b.c = n, and the accepted connection tells by its local
//! address which command it came from.

use crate::exec::{client, Flag, Node, Scratch};
use common::prelude::*;
use common::procs::wait_for;
use common::{cases, check, gen, Failure, Hex, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vru_session::Command;

pub const LONG: Duration = Duration::from_secs(60);

pub struct Target {
    port: u16,
    seen: Arc<Mutex<Vec<u32>>>,
    /// on [::1]: connections are only counted
    six: Option<(TcpListener, u16)>,
    _stop: Flag,
}

impl Target {
    pub fn new() -> Target {
        let l = TcpListener::bind("0.0.0.0:0").expect("listen");
        unsafe { libc::listen(l.as_raw_fd(), 4096) };
        l.set_nonblocking(true).unwrap();
        let port = l.local_addr().unwrap().port();
        let seen = Arc::new(Mutex::new(Vec::new()));
        let stop = Arc::new(AtomicBool::new(false));
        let (s2, stop2) = (seen.clone(), stop.clone());
        std::thread::Builder::new()
            .name("chk-accept".into())
            .spawn(move || {
                while !stop2.load(Ordering::SeqCst) {
                    match l.accept() {
                        Ok((c, _)) => {
                            if let Ok(SocketAddr::V4(a)) = c.local_addr() {
                                let o = a.ip().octets();
                                s2.lock().unwrap().push(u32::from_be_bytes([0, o[1], o[2], o[3]]));
                            }
                        }
                        Err(_) => std::thread::sleep(Duration::from_micros(300)),
                    }
                }
            })
            .unwrap();
        let six = TcpListener::bind("[::1]:0").ok().map(|l| {
            unsafe { libc::listen(l.as_raw_fd(), 4096) };
            l.set_nonblocking(true).unwrap();
            let p = l.local_addr().unwrap().port();
            (l, p)
        });
        Target { port, seen, six, _stop: Flag(stop) }
    }
    pub fn address(&self, n: u32) -> SocketAddr {
        let [_, a, b, c] = n.to_be_bytes();
        SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, a, b, c)), self.port)
    }
    pub fn seen(&self) -> Vec<u32> {
        self.seen.lock().unwrap().clone()
    }
    pub fn count(&self, n: u32) -> usize {
        self.seen.lock().unwrap().iter().filter(|x| **x == n).count()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// well-formed commands, one connection each
    Good { n: u8, same_peer: bool },
    /// the same command several times, one connection each
    Repeat { n: u8, peers: u8 },
    /// to an IPv6 address
    Six { n: u8 },
    /// the same, written piece by piece
    Slow { pieces: u8, ms: u8 },
    /// a well-formed command that this node has nothing to do for
    Local { len: u32 },
    /// well-formed, but the connection cannot be made
    Unreachable { kind: u8 },
    /// no command at all
    Garbage { head: u8, body: Hex },
    Truncated { keep: u8 },
    Empty,
    /// a connection that stays open and says nothing (or the start of a command)
    Held { keep: u8 },
    /// a connection that goes on writing what is no command for as long as it can
    Flood { head: u8, body: Hex },
    /// several clients at once
    Together { clients: u8, each: u8 },
    /// the real client program
    Program,
    Restart { kill: bool, leave_held: bool },
}

pub struct World {
    pub dir: PathBuf,
    /// the node listens at this port, or at any if it is zero
    pub port: u16,
    pub target: Target,
    pub node: Option<Node>,
    pub next: AtomicU32,
    pub held: Vec<UnixStream>,
}

/// Connect without waiting: a full backlog is an error.
pub fn try_connect(sock: &Path) -> std::io::Result<UnixStream> {
    use std::io::Error;
    use std::os::fd::{FromRawFd, OwnedFd};
    use std::os::unix::ffi::OsStrExt;
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(Error::last_os_error());
        }
        let fd = OwnedFd::from_raw_fd(fd);
        let mut a: libc::sockaddr_un = std::mem::zeroed();
        a.sun_family = libc::AF_UNIX as _;
        let path = sock.as_os_str().as_bytes();
        assert!(path.len() < a.sun_path.len());
        for (d, b) in a.sun_path.iter_mut().zip(path) {
            *d = *b as _;
        }
        if libc::connect(fd.as_raw_fd(), (&raw const a).cast(), std::mem::size_of_val(&a) as _) != 0 {
            return Err(Error::last_os_error());
        }
        let s = UnixStream::from(fd);
        s.set_nonblocking(false)?;
        Ok(s)
    }
}

pub fn connect(dir: &Path, until: Duration) -> Result<UnixStream, Failure> {
    let sock = dir.join("ctrl.sock");
    let mut last = String::new();
    let mut got = None;
    wait_for(until, || match try_connect(&sock) {
        Ok(s) => {
            got = Some(s);
            true
        }
        Err(e) => {
            last = e.to_string();
            false
        }
    });
    got.ok_or_else(|| Failure::new("socket-dead", format!("cannot connect to the command socket: {last}")))
}

/// Write as far as the node reads; it may well hang up on nonsense.
pub fn put(s: &mut UnixStream, b: &[u8]) {
    s.set_write_timeout(Some(Duration::from_secs(20))).unwrap();
    let _ = s.write_all(b);
}

impl World {
    pub fn new(s: &Scratch) -> Result<World, Failure> {
        let mut w = World { dir: s.dir("n"), port: 0, target: Target::new(), node: None, next: AtomicU32::new(1), held: Vec::new() };
        w.start()?;
        Ok(w)
    }
    /// The same, listening at a port the check knows.
    pub fn with_port(s: &Scratch) -> Result<World, Failure> {
        let mut w = World { dir: s.dir("n"), port: 0, target: Target::new(), node: None, next: AtomicU32::new(1), held: Vec::new() };
        for attempt in 0.. {
            w.port = common::procs::free_port(|p| TcpListener::bind(("0.0.0.0", p)).is_ok()).expect("a free port");
            match w.start() {
                // somebody else may have taken the port meanwhile
                Err(_) if attempt < 8 && TcpListener::bind(("0.0.0.0", w.port)).is_err() => w.node = None,
                r => return r.map(|()| w),
            }
        }
        unreachable!()
    }
    pub fn start(&mut self) -> Result<(), Failure> {
        let mut last = String::new();
        for _ in 0..2 {
            let mut n = Node::start(&self.dir, self.port, None);
            if n.first(LONG).is_some() {
                // the socket must become usable; a connection that says nothing is a harmless way to see
                self.node = Some(n);
                match connect(&self.dir, Duration::from_secs(30)) {
                    Ok(_) => return Ok(()),
                    Err(f) => {
                        let n = self.node.as_mut().unwrap();
                        n.ended();
                        return Err(Failure::new("socket-dead", format!("a started node has no usable command socket: {} ({}; {})", f.what, n.status(), n.tail())));
                    }
                }
            }
            last = format!("{}: {}", n.status(), n.tail());
        }
        Err(Failure::new("no-start", format!("the node does not start: {last}")))
    }
    pub fn number(&self) -> u32 {
        self.next.fetch_add(1, Ordering::SeqCst)
    }
    pub fn command(&self, n: u32, peer: u64) -> Vec<u8> {
        bincode::serialize(&Command::Connect { peer_pi: crate::identity(peer), address: self.target.address(n) }).unwrap()
    }
    pub fn alive(&mut self, when: &str) -> Result<(), Failure> {
        let n = self.node.as_mut().unwrap();
        if n.ended() {
            n.wait(LONG);
            return Err(Failure::new("node-died", format!("{when}: the node ended ({}): {}", n.status(), n.tail())));
        }
        if let Some(p) = n.panicked() {
            return Err(Failure::new("node-panicked", format!("{when}: {p}")));
        }
        Ok(())
    }
    /// The commands from `from` on have all been carried out.
    pub fn done(&mut self, from: u32, when: &str) -> Result<(), Failure> {
        let to = self.next.load(Ordering::SeqCst);
        let until = Instant::now() + LONG;
        for n in from..to {
            while self.target.count(n) == 0 {
                self.alive(when)?;
                check!(
                    Instant::now() < until,
                    "command-lost",
                    "{when}: command {n} of {}..{} was not carried out within {} s ({})",
                    from,
                    to,
                    LONG.as_secs(),
                    self.node.as_ref().unwrap().tail()
                );
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        Ok(())
    }
    pub fn interrupt(&mut self, when: &str) -> Result<(), Failure> {
        self.alive(when)?;
        self.node.as_ref().unwrap().signal(libc::SIGINT);
        self.ended(when)
    }
    /// After an interrupt.
    pub fn ended(&mut self, when: &str) -> Result<(), Failure> {
        let n = self.node.as_mut().unwrap();
        let ended = n.wait(LONG);
        check!(ended, "interrupt-ignored", "{when}: SIGINT does not end the node: {}", n.tail());
        check!(n.done.map_or(false, |s| s.code() == Some(0)), "interrupt-crash", "{when}: after SIGINT the node {}: {}", n.status(), n.tail());
        if let Some(p) = n.panicked() {
            return Err(Failure::new("node-panicked", format!("{when}: {p}")));
        }
        Ok(())
    }
}

fn history(steps: &Vec<Step>) -> Verdict {
    let s = Scratch::new();
    let mut w = World::new(&s)?;
    let (mut bad, mut restarts, mut held) = (0, 0, 0);
    // first commands of steps, in whose place the order of all before and all after is known
    let mut fences = vec![1];
    let mut ordered = Vec::new();
    let mut repeated: Vec<(u32, usize)> = Vec::new();
    let mut sixes = 0;
    let mut floods = 0;
    let flooding = Flag(Arc::new(AtomicBool::new(false)));
    for (k, step) in steps.iter().enumerate() {
        let when = format!("step {k} ({})", brief(step));
        let first = w.next.load(Ordering::SeqCst);
        w.alive(&when)?;
        match step {
            Step::Good { n, same_peer } => {
                for _ in 0..*n {
                    let i = w.number();
                    let c = w.command(i, if *same_peer { 7 } else { u64::from(i) });
                    let mut s = connect(&w.dir, LONG)?;
                    put(&mut s, &c);
                }
                ordered.push((first, w.next.load(Ordering::SeqCst)));
                w.done(first, &when)?;
            }
            Step::Repeat { n, peers } => {
                let i = w.number();
                for k in 0..*n {
                    let c = w.command(i, 20 + u64::from(k % (*peers).max(1)));
                    put(&mut connect(&w.dir, LONG)?, &c);
                }
                repeated.push((i, usize::from(*n)));
                let until = Instant::now() + LONG;
                while w.target.count(i) < usize::from(*n) {
                    w.alive(&when)?;
                    check!(Instant::now() < until, "command-lost", "{when}: a command written {n} times was carried out {} times within {} s", w.target.count(i), LONG.as_secs());
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
            Step::Six { n } => {
                let port = w.target.six.as_ref().map(|(_, p)| *p);
                let Some(port) = port else { continue };
                for k in 0..*n {
                    let address = SocketAddr::from(([0u16, 0, 0, 0, 0, 0, 0, 1], port));
                    let c = Command::Connect { peer_pi: crate::identity(u64::from(k)), address };
                    put(&mut connect(&w.dir, LONG)?, &bincode::serialize(&c).unwrap());
                }
                let until = Instant::now() + LONG;
                let mut got = 0;
                while got < *n {
                    if w.target.six.as_ref().unwrap().0.accept().is_ok() {
                        got += 1;
                        continue;
                    }
                    w.alive(&when)?;
                    check!(Instant::now() < until, "command-lost", "{when}: {n} commands to connect over IPv6 made {got} connections within {} s", LONG.as_secs());
                    std::thread::sleep(Duration::from_micros(200));
                }
                sixes += 1;
            }
            Step::Slow { pieces, ms } => {
                let i = w.number();
                let c = w.command(i, 3);
                let mut s = connect(&w.dir, LONG)?;
                let n = usize::from(*pieces).clamp(1, c.len());
                for p in c.chunks((c.len() + n - 1) / n) {
                    put(&mut s, p);
                    std::thread::sleep(Duration::from_millis(u64::from(*ms)));
                }
                drop(s);
                w.done(first, &when)?;
            }
            Step::Local { len } => {
                let c: Command<SocketAddr> = Command::Local { destination: crate::identity(5), command: gen::expand(9, *len as usize) };
                put(&mut connect(&w.dir, LONG)?, &bincode::serialize(&c).unwrap());
            }
            Step::Unreachable { kind } => {
                let address: SocketAddr = match kind % 4 {
                    0 => "255.255.255.255:9".parse().unwrap(),
                    1 => "[::1]:1".parse().unwrap(),
                    2 => "127.0.0.1:1".parse().unwrap(),
                    _ => "[ff02::1]:9".parse().unwrap(),
                };
                let c = Command::Connect { peer_pi: crate::identity(5), address };
                put(&mut connect(&w.dir, LONG)?, &bincode::serialize(&c).unwrap());
            }
            Step::Garbage { head, body } => {
                bad += 1;
                put(&mut connect(&w.dir, LONG)?, &garbage(*head, body));
            }
            Step::Truncated { keep } => {
                bad += 1;
                // a command that must not be carried out; its number is spent
                let c = w.command(0xff_ffff, 4);
                let n = usize::from(*keep) % c.len();
                put(&mut connect(&w.dir, LONG)?, &c[..n]);
            }
            Step::Empty => {
                bad += 1;
                drop(connect(&w.dir, LONG)?);
            }
            Step::Held { keep } => {
                bad += 1;
                held += 1;
                let c = w.command(0xff_fffe, 4);
                let mut s = connect(&w.dir, LONG)?;
                put(&mut s, &c[..usize::from(*keep) % c.len()]);
                w.held.push(s);
            }
            Step::Flood { head, body } => {
                bad += 1;
                floods += 1;
                let mut to = connect(&w.dir, LONG)?;
                let (first, stop) = (garbage(head % 4, body), flooding.0.clone());
                to.set_write_timeout(Some(Duration::from_millis(50))).unwrap();
                let go = move || {
                    let _ = to.write_all(&first);
                    let more = [0xa5; 4096];
                    let mut written = 0;
                    while !stop.load(Ordering::SeqCst) {
                        // no more than a node that keeps it all can hold
                        if written > 16_000_000 {
                            std::thread::sleep(Duration::from_millis(20));
                        }
                        written += more.len();
                        match to.write(&more) {
                            Ok(n) if n > 0 => (),
                            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => (),
                            _ => break,
                        }
                    }
                };
                std::thread::Builder::new().name("chk-flood".into()).spawn(go).unwrap();
            }
            Step::Together { clients, each } => {
                let failed = Mutex::new(None);
                std::thread::scope(|sc| {
                    for t in 0..*clients {
                        let (w, failed) = (&w, &failed);
                        let go = move || {
                            for _ in 0..*each {
                                let i = w.number();
                                let c = w.command(i, u64::from(t));
                                match connect(&w.dir, LONG) {
                                    Ok(mut s) => put(&mut s, &c),
                                    Err(f) => *failed.lock().unwrap() = Some(f),
                                }
                            }
                        };
                        std::thread::Builder::new().name(format!("chk-c{t}")).spawn_scoped(sc, go).unwrap();
                    }
                });
                if let Some(f) = failed.into_inner().unwrap() {
                    return Err(f);
                }
                w.done(first, &when)?;
            }
            Step::Program => {
                let i = w.number();
                let args = ["connect".into(), crate::identity(6).to_string().into(), w.target.address(i).to_string().into()];
                let f = client(&w.dir, &args, LONG);
                check!(f.ok, "client-failed", "{when}: the client ended with {}: {}", f.status, f.text);
                w.done(first, &when)?;
            }
            Step::Restart { kill, leave_held } => {
                restarts += 1;
                if *kill {
                    w.alive(&when)?;
                    w.node.as_mut().unwrap().kill();
                } else {
                    w.interrupt(&when)?;
                }
                if !*leave_held {
                    w.held.clear();
                }
                w.node = None;
                w.start()?;
            }
        }
        fences.push(w.next.load(Ordering::SeqCst));
    }
    // still in working order?
    let first = w.number();
    let c = w.command(first, 1);
    put(&mut connect(&w.dir, LONG)?, &c);
    w.done(first, "the last command")?;
    w.interrupt("the end")?;
    let seen = w.target.seen();
    for n in &seen {
        check!(*n < 0xff_fff0, "partial-command", "a command that was not written to its end was carried out");
        check!(*n < w.next.load(Ordering::SeqCst) && *n > 0, "unknown-command", "a command nobody sent was carried out: {n}");
        let due = repeated.iter().find(|r| r.0 == *n).map_or(1, |r| r.1);
        let count = seen.iter().filter(|m| *m == n).count();
        check!(count == due, "command-twice", "command {n}, written {due} times, was carried out {count} times");
    }
    if let Some((l, _)) = &w.target.six {
        check!(l.accept().is_err(), "command-twice", "a command to connect over IPv6 was carried out more than once");
    }
    let place = |n: u32| seen.iter().position(|m| *m == n);
    for (a, b) in ordered {
        for n in a + 1..b {
            check!(place(n - 1) < place(n), "order", "commands {} and {n} were carried out in the wrong order", n - 1);
        }
    }
    for f in fences {
        let last = seen.iter().rposition(|m| *m < f);
        let first = seen.iter().position(|m| *m >= f);
        if let (Some(l), Some(x)) = (last, first) {
            check!(l < x, "order", "commands of a later step were carried out before command {f}");
        }
    }
    Ok(Outcome::when(bad > 0 || restarts > 0)
        .label_if(bad > 0, "bad connections")
        .label_if(restarts > 0, "restarts")
        .label_if(floods > 0, "unending garbage")
        .label_if(held > 0, "held-open connections")
        .label_if(!repeated.is_empty(), "the same command again")
        .label_if(sixes > 0, "IPv6"))
}

fn brief(s: &Step) -> String {
    match s {
        Step::Garbage { head, body } | Step::Flood { head, body } => format!("Garbage head {head} of {} bytes", body.0.len()),
        s => format!("{s:?}"),
    }
}

/// Bytes that are no command, however much of them is read.
pub fn garbage(head: u8, body: &Hex) -> Vec<u8> {
    let id = gen::expand(8, 32);
    let mut v = match head % 6 {
        // no such command
        0 => vec![2, 0, 0, 0],
        1 => vec![0xff; 4],
        2 => [vec![0, 0, 0, 1], id].concat(),
        // no such kind of address
        3 => [vec![0, 0, 0, 0], id, vec![2, 0, 0, 0]].concat(),
        // a length that nothing can have
        4 => return [vec![1, 0, 0, 0], id, vec![0xff; 8], body.0[..body.0.len().min(64)].to_vec()].concat(),
        _ => return [vec![1, 0, 0, 0], id, vec![0, 0, 0, 0, 0, 1, 0, 0], body.0[..body.0.len().min(64)].to_vec()].concat(),
    };
    v.extend(&body.0);
    v
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        4 => (1u8..20, any::<bool>()).prop_map(|(n, same_peer)| Step::Good { n, same_peer }),
        2 => (1u8..8, 1u8..3).prop_map(|(n, peers)| Step::Repeat { n, peers }),
        1 => (1u8..5).prop_map(|n| Step::Six { n }),
        1 => (2u8..12, 0u8..50).prop_map(|(pieces, ms)| Step::Slow { pieces, ms }),
        1 => prop_oneof![2 => 0u32..64, 2 => 0..0x10000u32, 1 => 0..0x30_0000u32].prop_map(|len| Step::Local { len }),
        1 => any::<u8>().prop_map(|kind| Step::Unreachable { kind }),
        3 => (any::<u8>(), prop_oneof![3 => 0usize..60, 1 => 0usize..20_000].prop_flat_map(gen::bytes)).prop_map(|(head, body)| Step::Garbage { head, body }),
        2 => any::<u8>().prop_map(|keep| Step::Truncated { keep }),
        2 => Just(Step::Empty),
        1 => any::<u8>().prop_map(|keep| Step::Held { keep }),
        1 => (any::<u8>(), (0usize..60).prop_flat_map(gen::bytes)).prop_map(|(head, body)| Step::Flood { head, body }),
        1 => (2u8..5, 1u8..12).prop_map(|(clients, each)| Step::Together { clients, each }),
        1 => Just(Step::Program),
        2 => (any::<bool>(), any::<bool>()).prop_map(|(kill, leave_held)| Step::Restart { kill, leave_held }),
    ]
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Life {
    commands: u32,
    bad_every: u32,
    /// after every command one of each kind that asks for nothing or cannot be carried out
    #[serde(default)]
    every_kind: bool,
}

/// Many commands over the life of one node.
fn life(c: &Life) -> Verdict {
    let s = Scratch::new();
    let mut w = World::new(&s)?;
    let mut from = 1;
    for k in 1..=c.commands {
        if c.bad_every > 0 && k % c.bad_every == 0 {
            put(&mut connect(&w.dir, LONG)?, &garbage((k % 4) as u8, &Hex(vec![0; 9])));
        }
        if c.every_kind {
            let refused = Command::Connect { peer_pi: crate::identity(5), address: "255.255.255.255:9".parse::<SocketAddr>().unwrap() };
            let closed = Command::Connect { peer_pi: crate::identity(5), address: "127.0.0.1:1".parse::<SocketAddr>().unwrap() };
            let local = Command::<SocketAddr>::Local { destination: crate::identity(5), command: vec![1, 2, 3] };
            for b in [&refused, &closed, &local] {
                put(&mut connect(&w.dir, LONG)?, &bincode::serialize(b).unwrap());
            }
            put(&mut connect(&w.dir, LONG)?, &w.command(0xff_ffff, 4)[..20]);
            drop(connect(&w.dir, LONG)?);
        }
        let n = w.number();
        let cmd = w.command(n, u64::from(n % 5));
        put(&mut connect(&w.dir, LONG)?, &cmd);
        if k % 50 == 0 || k == c.commands {
            w.done(from, &format!("after {k} commands"))?;
            from = w.next.load(Ordering::SeqCst);
        }
    }
    w.interrupt("the end")?;
    let seen = w.target.seen();
    check!(seen == (1..=c.commands).collect::<Vec<_>>(), "order", "{} commands were not carried out once each and in order: {:?}", c.commands, seen.windows(2).find(|p| p[1] != p[0] + 1));
    Ok(Outcome::ok().label_if(c.commands > 1000, "over 1000 commands"))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Busy {
    clients: u8,
    /// they say nothing and hang up, or send commands
    silent: bool,
    after_ms: u16,
    held: bool,
}

/// An interrupt stops a node that is being kept busy.
fn busy(b: &Busy) -> Verdict {
    let s = Scratch::new();
    let mut w = World::new(&s)?;
    let stop = Arc::new(AtomicBool::new(false));
    let sent = AtomicU32::new(0);
    let held = if b.held { Some(connect(&w.dir, LONG)?) } else { None };
    let command = bincode::serialize(&Command::<SocketAddr>::Local { destination: crate::identity(5), command: vec![1, 2, 3] }).unwrap();
    let r = std::thread::scope(|sc| {
        let flag = Flag(stop.clone());
        for t in 0..b.clients {
            let (stop, dir, command, sent) = (stop.clone(), w.dir.clone(), &command, &sent);
            let go = move || {
                while !stop.load(Ordering::SeqCst) {
                    if let Ok(mut s) = try_connect(&dir.join("ctrl.sock")) {
                        if !b.silent {
                            put(&mut s, command);
                        }
                        sent.fetch_add(1, Ordering::SeqCst);
                    } else {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
            };
            std::thread::Builder::new().name(format!("chk-b{t}")).spawn_scoped(sc, go).unwrap();
        }
        std::thread::sleep(Duration::from_millis(b.after_ms.into()));
        let r = w.interrupt("while the command socket is kept busy");
        drop(flag);
        r
    });
    drop(held);
    r?;
    Ok(Outcome::when(sent.load(Ordering::SeqCst) > 0))
}

pub fn l01(run: &mut Run) {
    run.set_budget(300, 3600);
    run.rule("histories: non-trivial with at least one bad connection or restart; long life: every case; busy: non-trivial when the node was given connections");
    run.assume("one command per connection, as the client sends it; the order is that of connections that do not overlap");
    run.assume("a command is called lost after 60 s without a sign of it");
    let lives = if run.quick() {
        vec![Life { commands: 1400, bad_every: 0, every_kind: false }, Life { commands: 1100, bad_every: 1, every_kind: true }]
    } else {
        vec![Life { commands: 1400, bad_every: 0, every_kind: false }, Life { commands: 3000, bad_every: 2, every_kind: false }, Life { commands: 5000, bad_every: 1, every_kind: true }, Life { commands: 70_000, bad_every: 0, every_kind: false }]
    };
    run.each("long life", lives, life);
    let mut load = vec![
        Busy { clients: 0, silent: false, after_ms: 50, held: false },
        Busy { clients: 0, silent: false, after_ms: 50, held: true },
        Busy { clients: 1, silent: true, after_ms: 0, held: false },
        Busy { clients: 4, silent: false, after_ms: 150, held: false },
        Busy { clients: 3, silent: true, after_ms: 30, held: false },
        Busy { clients: 2, silent: false, after_ms: 70, held: true },
    ];
    if !run.quick() {
        for k in 0..60u16 {
            load.push(Busy { clients: (k % 7) as u8, silent: k % 2 == 0, after_ms: k * 7, held: k % 5 == 0 });
        }
    }
    run.each_threads("interrupted while busy", 3, load, busy);
    run.sub("histories", cases(90).thorough(1500).shrink(40), || common::proptest::collection::vec(step(), 1..9), history);
}
