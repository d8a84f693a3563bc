//! What a case can do besides returning: never return, or take the process down.
//!
//! The check runs in a child of the process that was started.  The child notes the case each of
//! its threads is at.  A case that does not come to an end within `PATIENCE` is a violation, and
//! so is one that kills the process (abort, stack overflow, failed allocation): the parent judges
//! the cases that were under way once more, each in a process of its own, to tell which it was.

use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const CHILD: &str = "CHK_CHILD";
/// The sub-check of a replay file that stands for everything a run with some seed does.
pub(crate) const WHOLE: &str = "whole run";
const PATIENCE: Duration = Duration::from_secs(200);

#[derive(Serialize, Deserialize, Clone)]
pub(crate) struct ReplayFile {
    pub property: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
    pub case: serde_json::Value,
}

impl ReplayFile {
    /// Writes it and prints the verdict.
    pub fn announce(&self, verif: &Path, seed: u64) {
        println!("sub-check {}: [{}] {}", self.sub, self.sig, self.what);
        let dir = verif.join("replays");
        std::fs::create_dir_all(&dir).expect("replay dir");
        let name: String = self.sub.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
        let path = dir.join(format!("{}-{}-{}.json", self.property, name, seed));
        std::fs::write(&path, serde_json::to_string_pretty(self).unwrap() + "\n").expect("write replay");
        println!("VIOLATION property={} replay={}", self.property, path.display());
    }
}

/// Evidence of a run that was cut short.
fn short_evidence(verif: &Path, r: &ReplayFile, seed: u64, quick: bool, wall: f64) {
    let e = serde_json::json!({
        "property": r.property,
        "tier": if quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": 1,
            "distinct_nontrivial": 1,
            "rule": "the run ended at a case that did not return; only this case is counted",
            "samples": [{"sub": r.sub, "case": super::shorten(r.case.clone())}],
        },
        "assumptions": [],
        "wall_s": wall,
        "violations": 1,
    });
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", r.property)), serde_json::to_string_pretty(&e).unwrap() + "\n");
}

// ---------------------------------------------------------------- in the child

struct Slot {
    since: Instant,
    sub: String,
    text: String,
}

static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(Vec::new());

thread_local! {
    static MINE: RefCell<Option<(usize, Option<File>)>> = const { RefCell::new(None) };
}

pub(crate) struct Under(usize);

/// This thread is at this case from now on, until the result is dropped.
pub(crate) fn under(sub: &str, text: String) -> Under {
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_none() {
            let mut s = SLOTS.lock().unwrap();
            s.push(None);
            let i = s.len() - 1;
            let f = std::env::var_os(CHILD).and_then(|d| File::create(Path::new(&d).join(i.to_string())).ok());
            *m = Some((i, f));
        }
        let (i, f) = m.as_ref().unwrap();
        if let Some(f) = f {
            // sub-check, case, and where it ends
            let mut b = (sub.len() as u32).to_le_bytes().to_vec();
            b.extend((text.len() as u32).to_le_bytes());
            b.extend(sub.bytes());
            b.extend(text.bytes());
            let _ = f.write_all_at(&b, 0);
        }
        SLOTS.lock().unwrap()[*i] = Some(Slot { since: Instant::now(), sub: sub.into(), text });
        Under(*i)
    })
}

impl Drop for Under {
    fn drop(&mut self) {
        SLOTS.lock().unwrap()[self.0] = None;
        MINE.with(|m| {
            if let Some((_, Some(f))) = &*m.borrow() {
                let _ = f.write_all_at(&[0; 8], 0);
            }
        });
    }
}

pub(crate) fn watch(id: String, verif: PathBuf, seed: u64, quick: bool, evidence: bool) {
    let start = Instant::now();
    std::thread::Builder::new()
        .name("chk-watch".into())
        .spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            let found = {
                let s = SLOTS.lock().unwrap();
                s.iter().flatten().find(|s| s.since.elapsed() > PATIENCE).map(|s| (s.sub.clone(), s.text.clone()))
            };
            if let Some((sub, text)) = found {
                let r = ReplayFile {
                    property: id.clone(),
                    sub,
                    sig: "no-end".into(),
                    what: format!("a case does not come to an end within {} s", PATIENCE.as_secs()),
                    case: serde_json::from_str(&text).unwrap(),
                };
                if evidence {
                    short_evidence(&verif, &r, seed, quick, start.elapsed().as_secs_f64());
                }
                r.announce(&verif, seed);
                std::process::exit(1);
            }
        })
        .expect("spawn");
}

// ---------------------------------------------------------------- in the parent

fn child(dir: &Path, args: &[std::ffi::OsString]) -> ExitStatus {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args).env(CHILD, dir);
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.status().expect("start the child")
}

fn fatal(s: ExitStatus) -> Option<i32> {
    s.signal().filter(|s| [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP, libc::SIGSYS].contains(s))
}

/// Returns in the child only.
pub(crate) fn divide(id: &str, verif: &Path, seed: u64, quick: bool, plain: bool, whole: bool) {
    if std::env::var_os(CHILD).is_some() {
        return;
    }
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("chk-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let args: Vec<_> = std::env::args_os().skip(1).collect();
    let status = child(&dir, &args);
    let code = match (fatal(status), status.code()) {
        (Some(signal), _) => {
            println!("{id}: the process was killed by signal {signal}");
            let mut culprit = None;
            for (k, e) in std::fs::read_dir(&dir).into_iter().flatten().flatten().enumerate() {
                let Some((sub, case)) = noted(&e.path()) else { continue };
                let mut r = ReplayFile { property: id.into(), sub, sig: "killed".into(), what: String::new(), case };
                let file = dir.join(format!("replay-{k}"));
                std::fs::write(&file, serde_json::to_string(&r).unwrap()).expect("write");
                let again = child(&dir.join("none"), &[id.into(), "--replay".into(), file.into()]);
                if let Some(s) = fatal(again) {
                    r.what = format!("the process was killed by signal {s}");
                    culprit = Some(r);
                    break;
                }
                if again.code() == Some(1) {
                    r.what = format!("the process was killed by signal {signal} at or near this case, which fails by itself");
                    culprit = Some(r);
                }
            }
            match culprit {
                Some(r) => {
                    if plain {
                        short_evidence(verif, &r, seed, quick, start.elapsed().as_secs_f64());
                    }
                    r.announce(verif, seed);
                    1
                }
                // no case does that by itself: what led to it is the run as a whole, if it does it again
                None if whole || fatal(child(&dir.join("none"), &args)).is_some() => {
                    let r = ReplayFile {
                        property: id.into(),
                        sub: WHOLE.into(),
                        sig: "killed".into(),
                        what: format!("the process was killed by signal {signal}, by the cases together"),
                        case: serde_json::json!({"seed": seed, "quick": quick}),
                    };
                    if plain {
                        short_evidence(verif, &r, seed, quick, start.elapsed().as_secs_f64());
                    }
                    r.announce(verif, seed);
                    1
                }
                None => {
                    eprintln!("no case does that by itself, and the run does not do it again");
                    4
                }
            }
        }
        (None, Some(code)) => code,
        (None, None) => 5,
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}

fn noted(p: &Path) -> Option<(String, serde_json::Value)> {
    let b = std::fs::read(p).ok()?;
    let n = |i: usize| Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?) as usize);
    let (s, t) = (n(0)?, n(4)?);
    if t == 0 {
        return None;
    }
    let sub = String::from_utf8(b.get(8..8 + s)?.to_vec()).ok()?;
    Some((sub, serde_json::from_slice(b.get(8 + s..8 + s + t)?).ok()?))
}
