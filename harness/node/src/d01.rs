//! D01: a node's identity is permanent once announced.

use crate::exec::{Crash, Node, Scratch};
use common::prelude::*;
use common::{cases, check, Failure, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::time::Duration;
use vru_session::handshake::Identity;

const LONG: Duration = Duration::from_secs(60);
const DIRS: usize = 3;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    /// SIGKILL as soon as the announcement is seen
    Kill,
    /// SIGKILL some time after the announcement
    KillAfter(u16),
    /// SIGKILL some time after the start, announcement or not
    KillBlind(u16),
    Interrupt,
    /// it stays; later steps on the directory meet it
    Leave,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Start { dir: u8, end: End },
    /// several starts at the same moment
    Rivals { dir: u8, n: u8, kill: bool },
    /// the node cannot listen on its port
    PortTaken { dir: u8 },
    /// the node cannot create its command socket
    SocketTaken { dir: u8 },
    /// the process is killed at its n-th change to a file
    Crash { dir: u8, at: u8, after: bool },
    /// the process is killed at its n-th line of output
    CrashSaying { dir: u8, at: u8 },
    /// what `Leave` left is killed
    KillLeft { dir: u8 },
}

impl Op {
    fn dir(&self) -> usize {
        let (Op::Start { dir, .. }
        | Op::Rivals { dir, .. }
        | Op::PortTaken { dir }
        | Op::SocketTaken { dir }
        | Op::Crash { dir, .. }
        | Op::CrashSaying { dir, .. }
        | Op::KillLeft { dir }) = self;
        usize::from(*dir) % DIRS
    }
}

struct World {
    dirs: Vec<PathBuf>,
    known: Vec<Option<Identity>>,
    left: Vec<Option<Node>>,
    starts: Vec<u32>,
    later: u32,
}

impl World {
    fn new(s: &Scratch) -> World {
        World {
            dirs: (0..DIRS).map(|i| s.dir(&format!("d{i}"))).collect(),
            known: vec![None; DIRS],
            left: (0..DIRS).map(|_| None).collect(),
            starts: vec![0; DIRS],
            later: 0,
        }
    }

    /// Everything a process has said so far about its identity agrees with what is known.
    fn agree(&mut self, d: usize, n: &Node, when: &str) -> Result<bool, Failure> {
        let said = n.announced();
        for i in &said {
            match &self.known[d] {
                None => {
                    for (e, k) in self.known.iter().enumerate() {
                        check!(k.as_ref() != Some(i), "same-identity", "{when}: directories {d} and {e} both have identity {i}");
                    }
                    self.known[d] = Some(i.clone());
                }
                Some(k) => {
                    check!(k == i, "identity-changed", "{when}: directory {d} announced {k} before, and {i} now");
                    self.later += 1;
                }
            }
        }
        Ok(!said.is_empty())
    }

    fn start(&mut self, d: usize, port: u16, crash: Option<Crash>) -> Node {
        self.starts[d] += 1;
        Node::start(&self.dirs[d], port, crash)
    }

    /// A start that nothing stands in the way of announces the identity that is known.  (`None`:
    /// no identity is known because an earlier first start was cut short; then it may fail.)
    fn sure(&mut self, d: usize, when: &str) -> Result<Option<Node>, Failure> {
        let fresh = self.starts[d] == 0;
        let mut last = String::new();
        for _ in 0..2 {
            let mut n = self.start(d, 0, None);
            let first = n.first(LONG);
            self.agree(d, &n, when)?;
            if first.is_some() {
                return Ok(Some(n));
            }
            last = format!("{}: {}", n.status(), n.tail());
            n.kill();
        }
        if self.known[d].is_none() && !fresh {
            return Ok(None);
        }
        Err(Failure::new("no-announcement", format!("{when}: a start on directory {d} announces no identity ({last})")))
    }

    fn sure_and_kill(&mut self, d: usize, when: &str) -> Result<(), Failure> {
        if let Some(mut n) = self.sure(d, when)? {
            n.kill();
            self.agree(d, &n, when)?;
        }
        Ok(())
    }

    fn stop(&mut self, d: usize, mut n: Node, when: &str) -> Result<(), Failure> {
        n.signal(libc::SIGINT);
        check!(n.wait(LONG), "interrupt-ignored", "{when}: SIGINT does not end the node on directory {d}: {}", n.tail());
        self.agree(d, &n, when)?;
        Ok(())
    }
}

fn history(ops: &Vec<Op>) -> Verdict {
    let s = Scratch::new();
    let mut w = World::new(&s);
    let (mut crashed, mut rivals) = (false, false);
    for (k, op) in ops.iter().enumerate() {
        let d = op.dir();
        let when = format!("step {k} ({op:?})");
        let alone = w.left[d].as_mut().map_or(true, |n| n.ended());
        if alone {
            w.left[d] = None;
        }
        match *op {
            Op::Start { end, .. } => {
                let mut n = match (alone, end) {
                    (true, End::KillBlind(_)) | (false, _) => w.start(d, 0, None),
                    (true, _) => match w.sure(d, &when)? {
                        Some(n) => n,
                        None => continue,
                    },
                };
                if !alone {
                    // it may refuse to run, but not announce anything else
                    rivals = true;
                    if end != End::Leave {
                        n.first(Duration::from_secs(5));
                    }
                    w.agree(d, &n, &when)?;
                }
                match end {
                    End::Kill => n.kill(),
                    End::KillAfter(ms) | End::KillBlind(ms) => {
                        std::thread::sleep(Duration::from_millis(ms.into()));
                        n.kill();
                    }
                    End::Interrupt => {
                        w.stop(d, n, &when)?;
                        continue;
                    }
                    End::Leave if alone => {
                        w.left[d] = Some(n);
                        continue;
                    }
                    End::Leave => n.kill(),
                }
                w.agree(d, &n, &when)?;
            }
            Op::Rivals { n, kill, .. } => {
                rivals = true;
                let mut all: Vec<_> = (0..n.max(2)).map(|_| w.start(d, 0, None)).collect();
                for p in all.iter_mut() {
                    p.first(Duration::from_secs(5));
                    w.agree(d, p, &when)?;
                    if kill {
                        p.kill();
                        w.agree(d, p, &when)?;
                    }
                }
                for mut p in all {
                    p.kill();
                    w.agree(d, &p, &when)?;
                }
            }
            Op::PortTaken { .. } => {
                let taken = std::net::TcpListener::bind("0.0.0.0:0").expect("bind");
                let mut n = w.start(d, taken.local_addr().unwrap().port(), None);
                n.first(LONG);
                n.wait(Duration::from_secs(10));
                w.agree(d, &n, &when)?;
                n.kill();
            }
            Op::SocketTaken { .. } if alone => {
                let sock = w.dirs[d].join("ctrl.sock");
                let _ = std::fs::remove_file(&sock);
                std::fs::create_dir(&sock).expect("directory in place of the socket");
                let mut n = w.start(d, 0, None);
                n.first(LONG);
                n.wait(Duration::from_millis(200));
                n.kill();
                w.agree(d, &n, &when)?;
                std::fs::remove_dir(&sock).expect("directory in place of the socket");
            }
            Op::SocketTaken { .. } => (),
            Op::Crash { at, after, .. } => {
                let mut n = w.start(d, 0, Some(Crash { at: at.into(), after, say: false }));
                crashed = true;
                n.first(Duration::from_secs(5));
                n.wait(Duration::from_millis(30));
                n.kill();
                w.agree(d, &n, &when)?;
            }
            Op::CrashSaying { at, .. } => {
                let mut n = w.start(d, 0, Some(Crash { at: at.into(), after: true, say: true }));
                crashed = true;
                n.first(Duration::from_secs(5));
                n.wait(Duration::from_millis(30));
                n.kill();
                w.agree(d, &n, &when)?;
            }
            Op::KillLeft { .. } => {
                if let Some(mut n) = w.left[d].take() {
                    n.kill();
                    w.agree(d, &n, &when)?;
                }
            }
        }
    }
    // whatever is left running is killed, and every directory that was used is started once more
    for d in 0..DIRS {
        if let Some(mut n) = w.left[d].take() {
            n.kill();
            w.agree(d, &n, "killing what was left")?;
        }
    }
    let known = w.known.iter().filter(|k| k.is_some()).count();
    for d in 0..DIRS {
        if w.starts[d] > 0 {
            w.sure_and_kill(d, "the last start")?;
        }
    }
    Ok(Outcome::when(w.later > 0)
        .label_if(crashed, "killed at a file change or a line of output")
        .label_if(rivals, "rival starts")
        .label_if(known > 1, "several directories")
        .label_if(w.later >= 5, "announced five times or more"))
}

fn end() -> impl Strategy<Value = End> {
    prop_oneof![
        4 => Just(End::Kill),
        2 => (0u16..700).prop_map(End::KillAfter),
        2 => (0u16..60).prop_map(End::KillBlind),
        1 => Just(End::Interrupt),
        2 => Just(End::Leave),
    ]
}

fn op() -> impl Strategy<Value = Op> {
    let dir = || prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)];
    prop_oneof![
        8 => (dir(), end()).prop_map(|(dir, end)| Op::Start { dir, end }),
        2 => (dir(), 2u8..5, any::<bool>()).prop_map(|(dir, n, kill)| Op::Rivals { dir, n, kill }),
        1 => dir().prop_map(|dir| Op::PortTaken { dir }),
        1 => dir().prop_map(|dir| Op::SocketTaken { dir }),
        2 => (dir(), 1u8..60, any::<bool>()).prop_map(|(dir, at, after)| Op::Crash { dir, at, after }),
        1 => (dir(), 1u8..4).prop_map(|(dir, at)| Op::CrashSaying { dir, at }),
        1 => dir().prop_map(|dir| Op::KillLeft { dir }),
    ]
}

/// A kill at one particular change to a file, during the first start or a later one.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Point {
    earlier: Earlier,
    at: u32,
    after: bool,
    say: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Earlier {
    None,
    Killed,
    Stopped,
    /// killed at this change to a file, so perhaps before an identity was announced
    Cut { at: u32, after: bool },
}

fn point(p: &Point) -> Verdict {
    let s = Scratch::new();
    let mut w = World::new(&s);
    match p.earlier {
        Earlier::None => (),
        Earlier::Killed => w.sure_and_kill(0, "the earlier start")?,
        Earlier::Cut { at, after } => {
            let mut n = w.start(0, 0, Some(Crash { at, after, say: false }));
            n.first(Duration::from_secs(10));
            n.wait(Duration::from_millis(60));
            n.kill();
            if w.agree(0, &n, "the first start")? {
                return Ok(Outcome::trivial().label("the first start came too far"));
            }
        }
        Earlier::Stopped => {
            if let Some(n) = w.sure(0, "the earlier start")? {
                w.stop(0, n, "the earlier start")?;
            }
        }
    }
    let mut n = w.start(0, 0, Some(Crash { at: p.at, after: p.after, say: p.say }));
    n.first(Duration::from_secs(10));
    // it dies at the point, or does not come so far
    n.wait(Duration::from_millis(if p.say { 300 } else { 60 }));
    let reached = n.ended();
    n.kill();
    let said = w.agree(0, &n, "the start that is killed")?;
    w.sure_and_kill(0, "the start after it")?;
    w.sure_and_kill(0, "the start after that")?;
    Ok(Outcome::when(reached)
        .label_if(!reached, "the point was not reached")
        .label_if(reached && said, "killed after the announcement")
        .label_if(reached && !said, "killed before the announcement"))
}

pub fn d01(run: &mut Run) {
    run.level("fault_enumeration");
    run.set_budget(200, 3600);
    run.rule("histories: non-trivial when an identity is announced again on a directory that had announced one; points: non-trivial when the process really was killed at the chosen call");
    run.assume("a kill ends the process (SIGKILL) and leaves the operating system's file cache intact; power failures are not covered");
    let mut points = Vec::new();
    for say in 1..=4 {
        for earlier in [Earlier::None, Earlier::Killed, Earlier::Stopped] {
            for after in [false, true] {
                points.push(Point { earlier, at: say, after, say: true });
            }
        }
    }
    run.each("killed at a line of output", points, point);
    // the first start is cut short, the second as soon as it announces
    let mut points = Vec::new();
    for at in 1..=if run.quick() { 24 } else { 80 } {
        for (after, say) in [(false, 2), (true, 2), (true, 3)] {
            points.push(Point { earlier: Earlier::Cut { at, after }, at: say, after: true, say: true });
        }
    }
    run.each("killed before and after the announcement", points, point);
    let mut points = Vec::new();
    for at in 1..=if run.quick() { 24 } else { 80 } {
        for earlier in [Earlier::None, Earlier::Killed, Earlier::Stopped] {
            for after in [false, true] {
                if earlier == Earlier::Stopped && run.quick() && (at % 3 != 0 || after) {
                    continue;
                }
                points.push(Point { earlier, at, after, say: false });
            }
        }
    }
    run.each("killed at a change to a file", points, point);
    // many lives of one directory
    let lives: Vec<Vec<Op>> = [End::Kill, End::KillAfter(40), End::Interrupt, End::KillBlind(30)]
        .iter()
        .flat_map(|end| {
            let n = if run.quick() { 24 } else { 150 };
            let mixed = [*end, End::Kill, End::Interrupt, End::KillAfter(600)];
            let one = (0..n).map(|_| Op::Start { dir: 0, end: *end }).collect();
            let all = (0..n / 2).map(|k| Op::Start { dir: (k % 7 == 6) as u8, end: mixed[k % 4] }).collect();
            [one, all]
        })
        .collect();
    run.each("many lives", lives, history);
    // an identity is random: what befalls only some of them needs many
    run.each("many identities", (0..if run.quick() { 800 } else { 8000 }).collect(), |k: &u32| {
        history(&vec![Op::Start { dir: 0, end: if k % 4 == 0 { End::Interrupt } else { End::Kill } }])?;
        Ok(Outcome::ok())
    });
    run.sub("histories", cases(48).thorough(1500).shrink(60), || proptest_vec(op(), 2..10), history);
}

fn proptest_vec<S: Strategy>(s: S, n: std::ops::Range<usize>) -> impl Strategy<Value = Vec<S::Value>> {
    common::proptest::collection::vec(s, n)
}
