//! D02: a start that cannot succeed ends by itself, says so, and does no harm.

use crate::exec::{Finished, Node, Scratch};
use crate::l01::{connect, put, Target, LONG};
use common::prelude::*;
use common::procs::wait_for;
use common::{cases, check, Failure, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::net::TcpListener;
use std::path::{Path, PathBuf};
use std::process::Command as Process;
use vru_session::handshake::Identity;
use vru_session::Command;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Step {
    /// the data path is a file, or leads through one
    DataIsFile { under: bool },
    /// there is a file where the store should be
    StoreIsFile,
    /// somebody listens on the port
    PortTaken { dir: u8 },
    /// another node runs there
    Rival,
    /// there is a directory where the command socket should be, empty or not
    SocketIsDirectory { dir: u8, full: bool },
    /// the path of the command socket is longer than such paths can be
    LongPath,
    /// arguments that make no sense
    Arguments { which: u8 },
    /// nothing wrong, stopped or killed afterwards
    Fine { dir: u8, kill: bool },
    /// nothing wrong; it goes on running in the first directory
    Stay,
}

const ARGUMENTS: [&[&str]; 9] = [
    &[],
    &["--path", "P"],
    &["--port", "0"],
    &["--path", "P", "--port", "65536"],
    &["--path", "P", "--port", "-1"],
    &["--path", "P", "--port", "x"],
    &["--path", "P", "--port", ""],
    &["--path", "P", "--port", "0", "more"],
    &["--path", "P", "--port", "0", "--unknown"],
];

struct World {
    scratch: Scratch,
    dirs: Vec<PathBuf>,
    known: Vec<Option<Identity>>,
    running: Option<Node>,
    target: Target,
    commands: u32,
}

impl World {
    fn agree(&mut self, d: usize, n: &Node, when: &str) -> Result<(), Failure> {
        for i in n.announced() {
            let k = self.known[d].get_or_insert_with(|| i.clone());
            check!(*k == i, "identity-changed", "{when}: directory {d} announced {k} before, and {i} now");
        }
        Ok(())
    }

    /// It ends, in an orderly way, and says something.
    fn fails(&mut self, n: &mut Node, when: &str) -> Result<(), Failure> {
        if !n.wait(LONG) {
            let tail = n.tail();
            return Err(Failure::new("does-not-end", format!("{when}: the node neither works nor ends: {tail}")));
        }
        let (status, tail, text) = (n.status(), n.tail(), n.text());
        check!(n.panicked().is_none(), "panic", "{when}: {}", n.panicked().unwrap_or_default());
        check!(n.done.map_or(false, |s| s.code().is_some()), "crash", "{when}: the node {status}: {tail}");
        check!(text.contains("ERROR"), "silent", "{when}: the node ended ({status}) without an error message: {tail}");
        Ok(())
    }

    fn works(&mut self, dir: &Path, n: &mut Node, when: &str) -> Result<(), Failure> {
        self.commands += 1;
        let i = self.commands;
        let c = Command::Connect { peer_pi: crate::identity(1), address: self.target.address(i) };
        put(&mut connect(dir, LONG)?, &bincode::serialize(&c).unwrap());
        let mut ended = false;
        wait_for(LONG, || {
            ended = n.ended();
            self.target.count(i) > 0 || ended
        });
        check!(self.target.count(i) == 1, "not-working", "{when}: the node does not carry out a command ({}): {}", n.status(), n.tail());
        Ok(())
    }

    /// A start nothing stands in the way of.
    fn fine(&mut self, d: usize, when: &str) -> Result<Node, Failure> {
        let dir = self.dirs[d].clone();
        let mut n = Node::start(&dir, 0, None);
        let first = n.first(LONG);
        check!(first.is_some(), "no-start", "{when}: a node does not start on directory {d} ({}): {}", n.status(), n.tail());
        self.agree(d, &n, when)?;
        self.works(&dir, &mut n, when)?;
        Ok(n)
    }

    fn end(&mut self, d: usize, mut n: Node, kill: bool, when: &str) -> Result<(), Failure> {
        if kill {
            n.kill();
        } else {
            n.signal(libc::SIGINT);
            check!(n.wait(LONG), "interrupt-ignored", "{when}: SIGINT does not end the node: {}", n.tail());
        }
        self.agree(d, &n, when)
    }

    /// the second and third directory are never left running
    fn idle(dir: u8) -> usize {
        1 + usize::from(dir) % 2
    }
}

fn d02_history(steps: &Vec<Step>) -> Verdict {
    let scratch = Scratch::new();
    let dirs = (0..3).map(|i| scratch.dir(&format!("d{i}"))).collect();
    let mut w = World { scratch, dirs, known: vec![None; 3], running: None, target: Target::new(), commands: 0 };
    let (mut failed, mut rivals) = (0, 0);
    for (k, step) in steps.iter().enumerate() {
        let when = format!("step {k} ({step:?})");
        failed += 1;
        match *step {
            Step::DataIsFile { under } => {
                let f = w.scratch.0.join("file");
                std::fs::write(&f, b"kept").unwrap();
                let mut n = Node::start(&if under { f.join("sub") } else { f.clone() }, 0, None);
                w.fails(&mut n, &when)?;
                check!(std::fs::read(&f).ok().as_deref() == Some(b"kept"), "harm", "{when}: the file in the way was changed");
            }
            Step::StoreIsFile => {
                let d = w.scratch.dir(&format!("e{k}"));
                let f = d.join("db");
                std::fs::write(&f, b"kept").unwrap();
                let mut n = Node::start(&d, 0, None);
                w.fails(&mut n, &when)?;
                check!(std::fs::read(&f).ok().as_deref() == Some(b"kept"), "harm", "{when}: the file in the way was changed");
            }
            Step::PortTaken { dir } => {
                let d = World::idle(dir);
                let taken = TcpListener::bind("0.0.0.0:0").expect("bind");
                let mut n = Node::start(&w.dirs[d].clone(), taken.local_addr().unwrap().port(), None);
                w.fails(&mut n, &when)?;
                w.agree(d, &n, &when)?;
            }
            Step::Rival => {
                let Some(mut first) = w.running.take() else {
                    failed -= 1;
                    continue;
                };
                rivals += 1;
                let dir = w.dirs[0].clone();
                let mut n = Node::start(&dir, 0, None);
                w.fails(&mut n, &when)?;
                w.agree(0, &n, &when)?;
                w.works(&dir, &mut first, &when)?;
                w.running = Some(first);
            }
            Step::SocketIsDirectory { dir, full } => {
                let d = World::idle(dir);
                let sock = w.dirs[d].join("ctrl.sock");
                let _ = std::fs::remove_file(&sock);
                std::fs::create_dir(&sock).expect("directory");
                if full {
                    std::fs::write(sock.join("file"), b"kept").unwrap();
                }
                let mut n = Node::start(&w.dirs[d].clone(), 0, None);
                w.fails(&mut n, &when)?;
                w.agree(d, &n, &when)?;
                check!(!full || std::fs::read(sock.join("file")).ok().as_deref() == Some(b"kept"), "harm", "{when}: a file in the way was changed");
                let _ = std::fs::remove_file(sock.join("file"));
                let _ = std::fs::remove_dir(&sock);
            }
            Step::LongPath => {
                let d = w.scratch.dir(&"long".repeat(30));
                let mut n = Node::start(&d, 0, None);
                w.fails(&mut n, &when)?;
            }
            Step::Arguments { which } => {
                let d = w.dirs[1].clone();
                let before = listing(&d);
                let mut c = Process::new(crate::exec::bins().join("debug/vru-node"));
                for a in ARGUMENTS[usize::from(which) % ARGUMENTS.len()] {
                    if *a == "P" {
                        c.arg(&d);
                    } else {
                        c.arg(a);
                    }
                }
                let f: Finished = crate::exec::run(c, LONG);
                check!(!f.ok && f.status.starts_with("exit status"), "arguments", "{when}: bad arguments end with {}: {}", f.status, f.text);
                check!(!f.text.contains("panicked at"), "panic", "{when}: {}", f.text);
                check!(!f.text.trim().is_empty(), "silent", "{when}: no message");
                check!(listing(&d) == before, "harm", "{when}: bad arguments changed the data directory");
            }
            Step::Fine { dir, kill } => {
                failed -= 1;
                let d = World::idle(dir);
                let n = w.fine(d, &when)?;
                w.end(d, n, kill, &when)?;
            }
            Step::Stay => {
                failed -= 1;
                if w.running.is_none() {
                    let n = w.fine(0, &when)?;
                    w.running = Some(n);
                }
            }
        }
    }
    if let Some(mut n) = w.running.take() {
        let dir = w.dirs[0].clone();
        w.works(&dir, &mut n, "the node that stayed")?;
        w.end(0, n, false, "the node that stayed")?;
    }
    for d in 0..3 {
        let n = w.fine(d, "the last start")?;
        w.end(d, n, d != 1, "the last start")?;
    }
    let known: Vec<_> = w.known.iter().flatten().collect();
    for (i, a) in known.iter().enumerate() {
        check!(!known[..i].contains(a), "same-identity", "two directories have the same identity");
    }
    Ok(Outcome::when(failed > 0).label_if(failed > 2, "three failed starts and more").label_if(rivals > 0, "rivals of a running node"))
}

fn listing(d: &Path) -> Vec<std::ffi::OsString> {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().flatten().map(|e| e.file_name()).collect();
    v.sort();
    v
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        1 => any::<bool>().prop_map(|under| Step::DataIsFile { under }),
        1 => Just(Step::StoreIsFile),
        3 => any::<u8>().prop_map(|dir| Step::PortTaken { dir }),
        3 => Just(Step::Rival),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(dir, full)| Step::SocketIsDirectory { dir, full }),
        1 => Just(Step::LongPath),
        2 => any::<u8>().prop_map(|which| Step::Arguments { which }),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(dir, kill)| Step::Fine { dir, kill }),
        2 => Just(Step::Stay),
    ]
}

pub fn d02(run: &mut Run) {
    run.set_budget(200, 3600);
    run.rule("histories of starts on three directories with something in the way (a file for the data directory or the store, a port in use, a running node, a directory for the socket, a path too long for a socket, unusable arguments) mixed with good starts; non-trivial: at least one start had to fail");
    run.assume("obstacles are real files, sockets and processes in a scratch directory; a start neither works nor ends when that takes over 60 s");
    let each = [
        Step::DataIsFile { under: false },
        Step::DataIsFile { under: true },
        Step::StoreIsFile,
        Step::PortTaken { dir: 0 },
        Step::SocketIsDirectory { dir: 0, full: false },
        Step::SocketIsDirectory { dir: 0, full: true },
        Step::LongPath,
    ];
    let mut list: Vec<Vec<Step>> = each.iter().flat_map(|s| [vec![*s], vec![Step::Fine { dir: 0, kill: true }, *s, *s]]).collect();
    list.extend((0..ARGUMENTS.len() as u8).map(|which| vec![Step::Arguments { which }]));
    list.push(vec![Step::Stay, Step::Rival, Step::Rival, Step::Rival]);
    run.each("obstacles", list, d02_history);
    run.sub("histories", cases(250).thorough(5000).shrink(60), || common::proptest::collection::vec(step(), 1..9), d02_history);
}
