//! Running the real node and client programs in scratch directories.

use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vru_session::handshake::Identity;

pub fn bins() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("target/node-bins")
}

/// A directory of its own, removed in the end.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = PathBuf::from(format!("/tmp/vru-chk.{}.{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn dir(&self, name: &str) -> PathBuf {
        let d = self.0.join(name);
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn plain(mut c: Command) -> Command {
    for (k, _) in std::env::vars() {
        if k.starts_with("RUST") || k.starts_with("VERIF") || k.starts_with("CARGO") {
            c.env_remove(k);
        }
    }
    c.current_dir("/");
    // a home of its own
    let home = bins().join("home");
    let _ = std::fs::create_dir_all(&home);
    c.env("HOME", home);
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // the usual limit on open files
            let l = libc::rlimit { rlim_cur: 1024, rlim_max: 1024 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            Ok(())
        });
    }
    c
}

/// Where to kill a node from within.
#[derive(Clone, Copy, Debug)]
pub struct Crash {
    pub at: u32,
    pub after: bool,
    /// count only the writes to stdout
    pub say: bool,
}

struct Output {
    text: Mutex<String>,
    open: AtomicU64,
    /// nobody reads what is written from now on
    deaf: std::sync::atomic::AtomicBool,
}

pub struct Node {
    child: Child,
    output: Arc<Output>,
    pub done: Option<ExitStatus>,
    readers: Vec<std::thread::JoinHandle<()>>,
}

fn reader(out: Arc<Output>, from: impl Read + Send + 'static) -> std::thread::JoinHandle<()> {
    out.open.fetch_add(1, Ordering::SeqCst);
    std::thread::Builder::new()
        .name("chk-read".into())
        .spawn(move || {
            let mut from = BufReader::new(from);
            let mut line = Vec::new();
            loop {
                line.clear();
                while out.deaf.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(2));
                }
                match from.read_until(b'\n', &mut line) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        let mut t = out.text.lock().unwrap();
                        if t.len() < 4_000_000 {
                            t.push_str(&String::from_utf8_lossy(&line));
                        }
                    }
                }
            }
            out.open.fetch_sub(1, Ordering::SeqCst);
        })
        .unwrap()
}

/// The identities that appear in a text (colours removed).
pub fn identities(text: &str) -> Vec<Identity> {
    let mut plain = String::new();
    let mut it = text.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
            plain.push(' ');
        } else {
            plain.push(c);
        }
    }
    plain
        .split(|c: char| !(c.is_ascii_alphanumeric() || "+/=".contains(c)))
        .filter(|w| w.len() == 44)
        .filter_map(|w| w.parse().ok())
        .collect()
}

impl Node {
    pub fn start(dir: &Path, port: u16, crash: Option<Crash>) -> Node {
        let mut c = Command::new(bins().join("debug/vru-node"));
        c.arg("--path").arg(dir).arg("--port").arg(port.to_string());
        Node::spawn(c, Path::new("/"), crash)
    }

    /// Start a node with any arguments in any directory.
    pub fn spawn(mut c: Command, cwd: &Path, crash: Option<Crash>) -> Node {
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut c = plain(c);
        c.current_dir(cwd);
        if let Some(k) = crash {
            c.env("LD_PRELOAD", bins().join("crash.so")).env("VCRASH_AT", k.at.to_string());
            if k.after {
                c.env("VCRASH_AFTER", "1");
            }
            if k.say {
                c.env("VCRASH_SAY", "1");
            }
        }
        let mut child = c.spawn().expect("start vru-node");
        let output = Arc::new(Output { text: Mutex::new(String::new()), open: AtomicU64::new(0), deaf: Default::default() });
        let readers = vec![
            reader(output.clone(), child.stdout.take().unwrap()),
            reader(output.clone(), child.stderr.take().unwrap()),
        ];
        Node { child, output, done: None, readers }
    }

    /// Stop reading its output, or go on.
    pub fn deaf(&self, deaf: bool) {
        self.output.deaf.store(deaf, Ordering::SeqCst);
    }

    pub fn text(&self) -> String {
        self.output.text.lock().unwrap().clone()
    }

    /// What it has announced so far.
    pub fn announced(&self) -> Vec<Identity> {
        identities(&self.text())
    }

    pub fn ended(&mut self) -> bool {
        if self.done.is_none() {
            self.done = self.child.try_wait().expect("wait for vru-node");
        }
        self.done.is_some()
    }

    /// Wait until it has ended and all it wrote has been read.
    pub fn wait(&mut self, limit: Duration) -> bool {
        if !common::procs::wait_for(limit, || self.ended()) {
            return false;
        }
        for r in self.readers.drain(..) {
            let _ = r.join();
        }
        true
    }

    /// Wait for an announcement, or the end of the process.
    pub fn first(&mut self, limit: Duration) -> Option<Identity> {
        let until = Instant::now() + limit;
        loop {
            if let Some(i) = self.announced().pop() {
                return Some(i);
            }
            if self.ended() {
                self.wait(limit);
                return self.announced().pop();
            }
            if Instant::now() > until {
                return None;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }

    pub fn signal(&self, s: i32) {
        if self.done.is_none() {
            unsafe { libc::kill(self.child.id() as i32, s) };
        }
    }

    /// What the system says it does: R running, S sleeping, T stopped.
    pub fn state(&self) -> char {
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        stat.rsplit(')').next().and_then(|r| r.trim().chars().next()).unwrap_or('?')
    }

    pub fn kill(&mut self) {
        self.signal(libc::SIGKILL);
        assert!(self.wait(Duration::from_secs(60)), "SIGKILL does not end vru-node");
    }

    pub fn status(&self) -> String {
        match &self.done {
            None => "still running".into(),
            Some(s) => match s.signal() {
                Some(n) => format!("ended by signal {n}"),
                None => format!("exit code {:?}", s.code()),
            },
        }
    }

    pub fn panicked(&self) -> Option<String> {
        let t = self.text();
        t.lines().find(|l| l.contains("panicked at")).map(|l| {
            let rest = t.split(l).nth(1).unwrap_or("").lines().nth(1).unwrap_or("");
            format!("{l} {rest}")
        })
    }

    /// The last lines it wrote, for a report.
    pub fn tail(&self) -> String {
        let t = self.text();
        let lines: Vec<_> = t.lines().collect();
        lines[lines.len().saturating_sub(6)..].join(" / ")
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.deaf(false);
        if !self.ended() {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
}

pub struct Finished {
    pub ok: bool,
    pub status: String,
    pub text: String,
}

/// Run the client to its end.
pub fn client(dir: &Path, args: &[std::ffi::OsString], limit: Duration) -> Finished {
    let mut c = Command::new(bins().join("debug/vru-udp"));
    c.arg("--path").arg(dir).args(args);
    run(c, limit)
}

pub fn run(c: Command, limit: Duration) -> Finished {
    run_in(c, Path::new("/"), limit)
}

pub fn run_in(mut c: Command, cwd: &Path, limit: Duration) -> Finished {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = plain(c).current_dir(cwd).spawn().expect("start vru-udp");
    let output = Arc::new(Output { text: Mutex::new(String::new()), open: AtomicU64::new(0), deaf: Default::default() });
    let readers = [reader(output.clone(), child.stdout.take().unwrap()), reader(output.clone(), child.stderr.take().unwrap())];
    let mut done = None;
    common::procs::wait_for(limit, || {
        done = child.try_wait().expect("wait for vru-udp");
        done.is_some()
    });
    if done.is_none() {
        let _ = child.kill();
        let _ = child.wait();
    }
    for r in readers {
        let _ = r.join();
    }
    let text = output.text.lock().unwrap().clone();
    match done {
        None => Finished { ok: false, status: format!("not ended after {} s", limit.as_secs()), text },
        Some(s) => Finished { ok: s.success(), status: s.to_string(), text },
    }
}

/// A flag that a scope sets when it is left.
pub struct Flag(pub Arc<AtomicBool>);

impl Drop for Flag {
    fn drop(&mut self) {
        self.0.store(true, Ordering::SeqCst);
    }
}
