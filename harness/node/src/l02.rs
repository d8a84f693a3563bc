//! L02: the node tells its operator about every failure, once.
//!
//! Connect commands go to addresses of which the check knows, by trying the same, whether and how
//! the system refuses them at once.  A last command that is carried out shows that all before it
//! were dealt with; then the node is interrupted and what it wrote is counted.

use crate::exec::Scratch;
use crate::l01::{connect, garbage, put, World, LONG};
use common::prelude::*;
use common::{cases, check, gen, Hex, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::time::Duration;
use vru_session::Command;

const REFUSED: [&str; 8] = [
    "255.255.255.255:9",
    "224.0.0.1:9",
    "239.1.2.3:65535",
    "[ff02::1]:9",
    "[ff0e::1]:9",
    "[fe80::1]:9",
    "[::ffff:255.255.255.255]:9",
    "[::ffff:224.0.0.1]:9",
];

/// What a connection attempt without waiting fails with, if it fails at once.
fn refusal(a: &SocketAddr) -> Option<i32> {
    use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
    unsafe {
        let family = if a.is_ipv4() { libc::AF_INET } else { libc::AF_INET6 };
        let fd = libc::socket(family, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return std::io::Error::last_os_error().raw_os_error();
        }
        let fd = OwnedFd::from_raw_fd(fd);
        let r = match a {
            SocketAddr::V4(a) => {
                let mut s: libc::sockaddr_in = std::mem::zeroed();
                s.sin_family = family as _;
                s.sin_port = a.port().to_be();
                s.sin_addr.s_addr = u32::from_ne_bytes(a.ip().octets());
                libc::connect(fd.as_raw_fd(), (&raw const s).cast(), std::mem::size_of_val(&s) as _)
            }
            SocketAddr::V6(a) => {
                let mut s: libc::sockaddr_in6 = std::mem::zeroed();
                s.sin6_family = family as _;
                s.sin6_port = a.port().to_be();
                s.sin6_addr.s6_addr = a.ip().octets();
                libc::connect(fd.as_raw_fd(), (&raw const s).cast(), std::mem::size_of_val(&s) as _)
            }
        };
        let e = std::io::Error::last_os_error().raw_os_error();
        if r == 0 || e == Some(libc::EINPROGRESS) {
            None
        } else {
            e
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// commands to connect where somebody listens
    Good { n: u8 },
    /// commands to connect to an address the system refuses
    Refused { which: u8, n: u16 },
    Local { len: u32 },
    /// a command in pieces, with pauses shorter than the node waits
    Slow { pieces: u8, ms: u8, local: bool },
    Garbage { head: u8, body: Hex },
    Truncated { keep: u8 },
    Empty,
    /// says nothing for longer than the node waits, then hangs up with the check's end
    Silent { keep: u8 },
}

/// The lines that say something went wrong: system error codes, and how many lines are warnings or worse.
fn told(text: &str) -> (BTreeMap<i32, usize>, usize) {
    let mut codes = BTreeMap::new();
    let mut warnings = 0;
    for l in text.lines() {
        if l.contains("WARN") || l.contains("ERROR") {
            warnings += 1;
            continue;
        }
        let code = ["code: ", "os error "].iter().find_map(|m| {
            let (_, rest) = l.split_once(m)?;
            rest.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
        });
        if let Some(c) = code {
            *codes.entry(c).or_default() += 1;
        }
    }
    (codes, warnings)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    steps: Vec<Step>,
    /// refused connects while the operator is not reading, up to the interrupt and this many milliseconds more
    deaf: Option<(u8, u16, u16)>,
}

fn l02_report(h: &History) -> Verdict {
    let steps = &h.steps;
    let s = Scratch::new();
    let mut w = World::new(&s)?;
    // the connection that showed the socket to be usable said nothing
    let mut bad = 1;
    let mut due: BTreeMap<i32, usize> = BTreeMap::new();
    let mut most = 0;
    for (k, step) in steps.iter().enumerate() {
        let when = format!("step {k}");
        w.alive(&when)?;
        match step {
            Step::Good { n } => {
                for _ in 0..*n {
                    let i = w.number();
                    let c = w.command(i, 7);
                    put(&mut connect(&w.dir, LONG)?, &c);
                }
            }
            Step::Refused { which, n } => {
                let address: SocketAddr = REFUSED[usize::from(*which) % REFUSED.len()].parse().unwrap();
                let Some(code) = refusal(&address) else { continue };
                let c = bincode::serialize(&Command::Connect { peer_pi: crate::identity(5), address }).unwrap();
                for _ in 0..*n {
                    put(&mut connect(&w.dir, LONG)?, &c);
                }
                *due.entry(code).or_default() += usize::from(*n);
                most = most.max(*n);
            }
            Step::Local { len } => {
                let c: Command<SocketAddr> = Command::Local { destination: crate::identity(5), command: gen::expand(9, *len as usize) };
                put(&mut connect(&w.dir, LONG)?, &bincode::serialize(&c).unwrap());
            }
            Step::Slow { pieces, ms, local } => {
                let c = if *local {
                    let c: Command<SocketAddr> = Command::Local { destination: crate::identity(6), command: gen::expand(10, 3000) };
                    bincode::serialize(&c).unwrap()
                } else {
                    let i = w.number();
                    w.command(i, 8)
                };
                let mut to = connect(&w.dir, LONG)?;
                for p in c.chunks(c.len().div_ceil(usize::from(*pieces).max(1))) {
                    put(&mut to, p);
                    std::thread::sleep(Duration::from_millis((*ms).into()));
                }
            }
            Step::Garbage { head, body } => {
                bad += 1;
                put(&mut connect(&w.dir, LONG)?, &garbage(*head, body));
            }
            Step::Truncated { keep } => {
                bad += 1;
                let c = w.command(0xff_ffff, 4);
                let n = usize::from(*keep) % c.len();
                put(&mut connect(&w.dir, LONG)?, &c[..n]);
            }
            Step::Empty => {
                bad += 1;
                drop(connect(&w.dir, LONG)?);
            }
            Step::Silent { keep } => {
                bad += 1;
                let c = w.command(0xff_fffe, 4);
                let mut s = connect(&w.dir, LONG)?;
                put(&mut s, &c[..usize::from(*keep) % c.len()]);
                w.held.push(s);
            }
        }
    }
    if let Some((which, n, _)) = h.deaf {
        // all warnings there are to come have come: they would have to wait for the reader
        let fence = w.number();
        let c = w.command(fence, 1);
        put(&mut connect(&w.dir, LONG)?, &c);
        w.done(fence, "the command before the pause")?;
        w.node.as_ref().unwrap().deaf(true);
        let address: SocketAddr = REFUSED[usize::from(which) % REFUSED.len()].parse().unwrap();
        if let Some(code) = refusal(&address) {
            let c = bincode::serialize(&Command::Connect { peer_pi: crate::identity(5), address }).unwrap();
            for _ in 0..n {
                // a node may wait for its reader; then it is told nothing more until it is heard
                let mut to = match connect(&w.dir, Duration::from_secs(3)) {
                    Ok(to) => to,
                    Err(_) => {
                        w.node.as_ref().unwrap().deaf(false);
                        connect(&w.dir, LONG)?
                    }
                };
                put(&mut to, &c);
            }
            *due.entry(code).or_default() += usize::from(n);
        }
    }
    let last = w.number();
    let c = w.command(last, 1);
    if h.deaf.is_some() {
        let sent = connect(&w.dir, Duration::from_secs(3)).map(|mut to| put(&mut to, &c));
        if sent.is_err() || !common::procs::wait_for(Duration::from_secs(3), || w.target.count(last) > 0) {
            w.node.as_ref().unwrap().deaf(false);
        }
        if sent.is_err() {
            put(&mut connect(&w.dir, LONG)?, &c);
        }
    } else {
        put(&mut connect(&w.dir, LONG)?, &c);
    }
    w.done(1, "the last command")?;
    if let Some((_, _, ms)) = h.deaf {
        w.alive("the interrupt")?;
        w.node.as_ref().unwrap().signal(libc::SIGINT);
        std::thread::sleep(Duration::from_millis(ms.into()));
        w.node.as_ref().unwrap().deaf(false);
        w.ended("the end")?;
    } else {
        w.interrupt("the end")?;
    }
    let (codes, warnings) = told(&w.node.as_ref().unwrap().text());
    let tail = w.node.as_ref().unwrap().tail();
    check!(codes == due, "failures-told", "connects that failed at once, by system error: {due:?}; the node told of {codes:?} ({tail})");
    check!(warnings == bad, "bad-connections-told", "{bad} connections without a command, {warnings} warnings ({tail})");
    Ok(Outcome::when(!due.is_empty() || bad > 1)
        .label_if(h.deaf.is_some_and(|d| d.1 > 600), "more than the pipe holds while nobody reads")
        .label_if(!due.is_empty(), "refused connects")
        .label_if(due.len() > 1, "refused for several reasons")
        .label_if(most > 100, "more than 100 in a row")
        .label_if(bad > 1, "bad connections"))
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        3 => (1u8..12).prop_map(|n| Step::Good { n }),
        6 => (any::<u8>(), prop_oneof![4 => 1u16..6, 1 => 6u16..60, 1 => 60u16..400]).prop_map(|(which, n)| Step::Refused { which, n }),
        1 => prop_oneof![2 => 0..5000u32, 2 => 5000..70_000u32, 1 => 70_000..1_500_000u32].prop_map(|len| Step::Local { len }),
        1 => (2u8..6, 0u8..60, any::<bool>()).prop_map(|(pieces, ms, local)| Step::Slow { pieces, ms, local }),
        2 => (any::<u8>(), prop_oneof![3 => 0usize..60, 1 => 0usize..5000].prop_flat_map(gen::bytes)).prop_map(|(head, body)| Step::Garbage { head, body }),
        2 => any::<u8>().prop_map(|keep| Step::Truncated { keep }),
        1 => Just(Step::Empty),
    ]
}

fn steps() -> impl Strategy<Value = History> {
    let v = common::proptest::collection::vec(step(), 1..9);
    let deaf = common::proptest::option::weighted(0.25, (any::<u8>(), prop_oneof![1 => 0u16..300, 2 => 600u16..1500], 0u16..400));
    (v, common::proptest::option::weighted(0.15, (any::<u8>(), any::<u8>())), deaf).prop_map(|(mut v, silent, deaf)| {
        if let Some((at, keep)) = silent {
            let at = usize::from(at) % (v.len() + 1);
            v.insert(at, Step::Silent { keep });
        }
        History { steps: v, deaf }
    })
}

pub fn l02(run: &mut Run) {
    run.set_budget(200, 3600);
    run.rule("histories of command connections: connects that succeed, connects the system refuses at once (up to 400 in a row), local commands of up to 1.5 MB, commands in pieces, garbage, truncated, empty and silent connections; at the end, in a quarter of them, up to 1500 refused connects while nobody reads the output, until after the interrupt; non-trivial with a refused connect or a bad connection");
    run.assume("what the system answers to a connection attempt is found out by the check by making the same attempt; failures are recognised in the output by the system's error code, or by the level of the line");
    run.sub("reports", cases(400).thorough(6000).shrink(60), steps, l02_report);
}
