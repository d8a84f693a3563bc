//! D03: an identity belongs to its data directory, however it is reached and wherever it is taken.

use crate::exec::{bins, Node, Scratch};
use crate::l01::{connect, put, Target, LONG};
use common::prelude::*;
use common::procs::wait_for;
use common::{cases, check, Failure, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::Command as Process;
use vru_session::handshake::Identity;
use vru_session::Command;

/// How the directory is named on the command line.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Via {
    Absolute,
    Slash,
    /// from the directory above
    Name,
    DotName,
    /// from within
    Dot,
    /// with a detour
    Detour,
    DoubleSlash,
    Link,
    LinkToLink,
    /// from within, with an empty path
    Empty,
    /// `--path=...`
    Equals,
    /// the port first
    PortFirst,
}

const VIA: [Via; 12] = [
    Via::Empty,
    Via::Absolute,
    Via::Slash,
    Via::Name,
    Via::DotName,
    Via::Dot,
    Via::Detour,
    Via::DoubleSlash,
    Via::Link,
    Via::LinkToLink,
    Via::Equals,
    Via::PortFirst,
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    Interrupt,
    Kill,
    /// killed when the announcement is seen
    KillAtOnce,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Start { dir: u8, via: u8, port: bool, end: End },
    /// commands to a running node by another name of the directory
    Serve { dir: u8, node: u8, client: u8, end: End },
    /// a new directory that does not exist yet
    New { name: u8, via: u8 },
    Copy { dir: u8, name: u8 },
    Move { dir: u8, name: u8 },
    /// the store is lost: from here on it is another node
    Wipe { dir: u8 },
    /// something else appears in the directory
    Litter { dir: u8, what: u8 },
}

const NAMES: [&[u8]; 24] = [b"data", b"a b", b"\xd0\xb4\xd0\xb0\xd0\xbd\xd1\x96", b"\xff\xfe", b"-d", b"new\nline", b".hidden", b"db", b"ctrl.sock", b"%s$HOME'\"",
    b"~", b"~root", b"x ", b" x", b"x\t\n", b"Data", b"a=b", b"a,b:c", b"..x", b"x.", b"#x&;|", b"%20", b"$HOME", b"*"];

struct Place {
    dir: PathBuf,
    known: Option<Identity>,
}

struct World {
    root: Scratch,
    places: Vec<Place>,
    links: u32,
    target: Target,
    commands: u32,
    again: u32,
    /// identities whose store was lost
    past: Vec<Identity>,
}

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("copy");
    for e in std::fs::read_dir(from).expect("copy").flatten() {
        let t = e.file_type().expect("copy");
        let into = to.join(e.file_name());
        if t.is_dir() {
            copy(&e.path(), &into);
        } else if t.is_file() {
            std::fs::copy(e.path(), into).expect("copy");
        }
    }
}

impl World {
    fn fresh(&self, name: u8) -> PathBuf {
        // a short directory of its own, as socket paths are limited
        let above = self.root.dir(&format!("{}", self.places.len()));
        above.join(std::ffi::OsStr::from_bytes(NAMES[usize::from(name) % NAMES.len()]))
    }

    /// A working directory, and the arguments that name the directory in it.
    fn named(&mut self, d: usize, via: u8) -> (PathBuf, Vec<OsString>, bool) {
        let dir = self.places[d].dir.clone();
        let above = dir.parent().unwrap().to_path_buf();
        let name = dir.file_name().unwrap().to_os_string();
        let root = PathBuf::from("/");
        let prefixed = |p: &str, s: &OsString| {
            let mut v = p.as_bytes().to_vec();
            v.extend_from_slice(s.as_bytes());
            OsString::from_vec(v)
        };
        let via = VIA[usize::from(via) % VIA.len()];
        let (cwd, path) = match via {
            Via::Absolute | Via::PortFirst => (root, dir.clone().into_os_string()),
            Via::Equals => return (root, vec![prefixed("--path=", &dir.clone().into_os_string())], false),
            Via::Slash => {
                let mut v = dir.as_os_str().as_bytes().to_vec();
                v.push(b'/');
                (root, OsString::from_vec(v))
            }
            // a name that starts with a dash would be an option
            Via::Name if name.as_bytes()[0] == b'-' => (above, prefixed("./", &name)),
            Via::Name => (above, name),
            Via::DotName => (above, prefixed("./", &name)),
            Via::Dot if dir.is_dir() => (dir.clone(), ".".into()),
            Via::Empty if dir.is_dir() => (dir.clone(), "".into()),
            Via::Dot | Via::Empty => (root, dir.clone().into_os_string()),
            Via::Detour => {
                let other = above.join("x");
                std::fs::create_dir_all(&other).unwrap();
                (other, prefixed("../x/../", &name))
            }
            Via::DoubleSlash => (root, prefixed("/", &dir.clone().into_os_string())),
            Via::Link | Via::LinkToLink if dir.is_dir() => {
                self.links += 1;
                let l = self.root.0.join(format!("l{}", self.links));
                std::os::unix::fs::symlink(&dir, &l).unwrap();
                if via == Via::Link {
                    (root, l.into_os_string())
                } else {
                    let m = self.root.0.join(format!("m{}", self.links));
                    std::os::unix::fs::symlink(format!("l{}", self.links), &m).unwrap();
                    (self.root.0.clone(), m.file_name().unwrap().to_os_string())
                }
            }
            Via::Link | Via::LinkToLink => (root, dir.clone().into_os_string()),
        };
        (cwd, vec!["--path".into(), path], via == Via::PortFirst)
    }

    fn agree(&mut self, d: usize, n: &Node, when: &str) -> Result<(), Failure> {
        for i in n.announced() {
            if let Some(k) = &self.places[d].known {
                check!(*k == i, "identity-changed", "{when}: directory {d} announced {k} before, and {i} now");
                self.again += 1;
            } else {
                for (e, p) in self.places.iter().enumerate() {
                    check!(p.known.as_ref() != Some(&i), "same-identity", "{when}: a new node in directory {d} has the identity of directory {e}");
                }
                check!(!self.past.contains(&i), "same-identity", "{when}: a new node in directory {d} has an identity whose store was lost");
                self.places[d].known = Some(i);
            }
        }
        Ok(())
    }

    fn start(&mut self, d: usize, via: u8, port: u16, when: &str) -> Result<Node, Failure> {
        let (cwd, args, port_first) = self.named(d, via);
        let mut c = Process::new(bins().join("debug/vru-node"));
        let port = ["--port".to_string(), port.to_string()];
        if port_first {
            c.args(&port).args(args);
        } else {
            c.args(args).args(&port);
        }
        let mut n = Node::spawn(c, &cwd, None);
        check!(n.first(LONG).is_some(), "no-start", "{when}: a node on directory {d} announces nothing ({}): {}", n.status(), n.tail());
        self.agree(d, &n, when)?;
        Ok(n)
    }

    fn end(&mut self, d: usize, mut n: Node, end: End, when: &str) -> Result<(), Failure> {
        match end {
            End::KillAtOnce => n.kill(),
            End::Kill => {
                connect(&self.places[d].dir, LONG)?;
                n.kill();
            }
            End::Interrupt => {
                connect(&self.places[d].dir, LONG)?;
                n.signal(libc::SIGINT);
                check!(n.wait(LONG), "interrupt-ignored", "{when}: SIGINT does not end the node: {}", n.tail());
            }
        }
        check!(n.panicked().is_none(), "panic", "{when}: {}", n.panicked().unwrap_or_default());
        self.agree(d, &n, when)
    }
}

fn litter(d: &Path, what: u8) {
    let _ = match what % 6 {
        0 => std::fs::write(d.join("db.bak"), b"junk"),
        1 => std::fs::write(d.join("key"), [7; 96]),
        2 => std::fs::create_dir_all(d.join("tmp/deep")),
        3 => std::fs::remove_file(d.join("ctrl.sock")),
        4 => std::fs::write(d.join("ctrl.sock.1"), b""),
        _ => std::fs::write(d.join("identity"), b"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"),
    };
}

fn d03_history(steps: &Vec<Step>) -> Verdict {
    let root = Scratch::new();
    let mut w = World { root, places: Vec::new(), links: 0, target: Target::new(), commands: 0, again: 0, past: Vec::new() };
    let dir = w.fresh(0);
    std::fs::create_dir_all(&dir).unwrap();
    w.places.push(Place { dir, known: None });
    let (mut moved, mut odd, mut wiped) = (false, false, false);
    for (k, step) in steps.iter().enumerate() {
        let when = format!("step {k} ({step:?})");
        let at = |d: &u8| usize::from(*d) % w.places.len();
        match step {
            Step::Start { dir, via, port, end } => {
                let d = at(dir);
                odd |= VIA[usize::from(*via) % VIA.len()] != Via::Absolute;
                let p = if *port { common::procs::free_port(|p| std::net::TcpListener::bind(("0.0.0.0", p)).is_ok()).unwrap_or(0) } else { 0 };
                let n = w.start(d, *via, p, &when)?;
                w.end(d, n, *end, &when)?;
            }
            Step::Serve { dir, node, client, end } => {
                let d = at(dir);
                let n = w.start(d, *node, 0, &when)?;
                connect(&w.places[d].dir.clone(), LONG)?;
                w.commands += 1;
                let i = w.commands;
                let (cwd, mut args, _) = w.named(d, *client);
                args.extend(["connect".into(), crate::identity(3).to_string().into(), w.target.address(i).to_string().into()]);
                let mut c = Process::new(bins().join("debug/vru-udp"));
                c.args(&args);
                let f = crate::exec::run_in(c, &cwd, LONG);
                check!(f.ok, "client", "{when}: the client in {cwd:?} with {args:?} {}: {}", f.status, f.text);
                check!(wait_for(LONG, || w.target.count(i) > 0), "not-served", "{when}: a command sent through {args:?} is not carried out: {}", n.tail());
                // and past the client
                w.commands += 1;
                let i = w.commands;
                let c = Command::Connect { peer_pi: crate::identity(1), address: w.target.address(i) };
                put(&mut connect(&w.places[d].dir.clone(), LONG)?, &bincode::serialize(&c).unwrap());
                check!(wait_for(LONG, || w.target.count(i) > 0), "not-served", "{when}: a command is not carried out: {}", n.tail());
                w.end(d, n, *end, &when)?;
            }
            Step::New { name, via } => {
                let dir = w.fresh(*name);
                let d = w.places.len();
                w.places.push(Place { dir, known: None });
                let n = w.start(d, *via, 0, &when)?;
                w.end(d, n, End::KillAtOnce, &when)?;
            }
            Step::Copy { dir, name } => {
                let d = at(dir);
                moved |= w.places[d].known.is_some();
                let to = w.fresh(*name);
                copy(&w.places[d].dir, &to);
                let known = w.places[d].known.clone();
                w.places.push(Place { dir: to, known });
            }
            Step::Move { dir, name } => {
                let d = at(dir);
                moved |= w.places[d].known.is_some();
                let to = w.fresh(*name);
                std::fs::rename(&w.places[d].dir, &to).expect("rename");
                // the old place is used anew
                std::fs::create_dir_all(&w.places[d].dir).unwrap();
                let known = w.places[d].known.take();
                w.places.push(Place { dir: to, known });
            }
            Step::Wipe { dir } => {
                let d = at(dir);
                wiped = true;
                let _ = std::fs::remove_dir_all(w.places[d].dir.join("db"));
                let known = w.places[d].known.take();
                w.past.extend(known);
            }
            Step::Litter { dir, what } => litter(&w.places[at(dir)].dir, *what),
        }
    }
    for d in 0..w.places.len() {
        let n = w.start(d, d as u8, 0, "the last start")?;
        w.end(d, n, End::KillAtOnce, "the last start")?;
    }
    Ok(Outcome::when(w.again > 0 && (moved || odd))
        .label_if(moved, "taken elsewhere")
        .label_if(odd, "reached by another name")
        .label_if(wiped, "store lost")
        .label_if(w.places.len() > 3, "more than three directories"))
}

/// One directory, a node on it for each of these ports.
fn ports(ports: &Vec<u16>) -> Verdict {
    let root = Scratch::new();
    let mut w = World { root, places: Vec::new(), links: 0, target: Target::new(), commands: 0, again: 0, past: Vec::new() };
    let dir = w.fresh(0);
    std::fs::create_dir_all(&dir).unwrap();
    w.places.push(Place { dir, known: None });
    let mut free = 0;
    for (k, p) in [0].iter().chain(ports).enumerate() {
        let when = format!("start {k}, port {p}");
        // if somebody else has the port, and if only for a moment, the node need not start
        match w.start(0, (k % 2) as u8, *p, &when).and_then(|n| w.end(0, n, End::KillAtOnce, &when)) {
            Err(f) if *p != 0 && f.sig == "no-start" => (),
            r => {
                r?;
                free += 1;
            }
        }
    }
    Ok(Outcome::when(free > ports.len() / 2))
}

fn step() -> impl Strategy<Value = Step> {
    let end = || prop_oneof![2 => Just(End::Interrupt), 1 => Just(End::Kill), 2 => Just(End::KillAtOnce)];
    let b = any::<u8>;
    prop_oneof![
        6 => (b(), b(), any::<bool>(), end()).prop_map(|(dir, via, port, end)| Step::Start { dir, via, port, end }),
        3 => (b(), b(), b(), end()).prop_map(|(dir, node, client, end)| Step::Serve { dir, node, client, end }),
        2 => (b(), b()).prop_map(|(name, via)| Step::New { name, via }),
        2 => (b(), b()).prop_map(|(dir, name)| Step::Copy { dir, name }),
        2 => (b(), b()).prop_map(|(dir, name)| Step::Move { dir, name }),
        1 => b().prop_map(|dir| Step::Wipe { dir }),
        2 => (b(), b()).prop_map(|(dir, what)| Step::Litter { dir, what }),
    ]
}

pub fn d03(run: &mut Run) {
    run.set_budget(200, 3600);
    run.rule("histories of starts by twelve ways to name a directory, of copying, moving, littering and losing stores, and of commands sent by yet another name; non-trivial: an identity was announced again after its directory was moved, copied or reached by another name");
    run.assume("directories are copied and moved only while no node runs on them; a random identity never comes twice");
    let each = (0..VIA.len() as u8)
        .flat_map(|via| (0..NAMES.len() as u8).map(move |name| (via, name)))
        .filter(|(via, name)| *name < 10 || !run.quick() || matches!(VIA[usize::from(*via)], Via::Name | Via::Absolute | Via::Equals))
        .map(|(via, name)| {
            vec![
                Step::New { name, via },
                Step::Serve { dir: 1, node: via, client: via.wrapping_add(name), end: End::Interrupt },
                Step::Move { dir: 1, name: name + 1 },
                Step::Start { dir: 2, via, port: true, end: End::Kill },
            ]
        })
        .collect::<Vec<_>>();
    run.each("every name", each, d03_history);
    // the ends of the ranges, the ports people choose, and some at random; all of them in the thorough run
    let list = if run.quick() {
        let usual = [1u16, 7, 22, 25, 53, 80, 81, 123, 443, 853, 1023, 1024, 1080, 1194, 1234, 1337, 2000, 2222, 3000, 3128, 4000, 4224, 4242, 4444, 5000, 5432, 6000, 6666, 6667, 6881, 7000, 7777, 8000, 8008, 8080, 8081, 8443, 8888, 8989, 9000, 9001, 9050, 9090, 9732, 9735, 9999, 10000, 12345, 15000, 18080, 20000, 22222, 30000, 30303, 31337, 32767, 32768, 33333, 40000, 44444, 49151, 49152, 50000, 51820, 55555, 60000, 61000, 65000, 65534, 65535];
        let more = common::gen::expand(run.seed, 600);
        usual.into_iter().chain(more.chunks(2).map(|b| u16::from_be_bytes([b[0], b[1]]).max(1))).collect::<Vec<_>>()
    } else {
        (1..=65535).collect()
    };
    run.each("ports", list.chunks(if run.quick() { 16 } else { 64 }).map(|c| c.to_vec()).collect(), ports);
    run.sub("histories", cases(120).thorough(3000).shrink(60), || common::proptest::collection::vec(step(), 2..10), d03_history);
}
