//! C01: the command-line client sends exactly the command the user typed.

use crate::exec::{run as run_program, Finished, Scratch};
use common::prelude::*;
use common::{cases, check, gen, Outcome, Run, Verdict};
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::io::Read;
use std::net::{IpAddr, SocketAddr};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::net::UnixListener;
use std::path::Path;
use std::time::{Duration, Instant};
use vru_session::Command;

const LONG: Duration = Duration::from_secs(60);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Connect { ip: IpAddr, port: u16 },
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typed {
    peer: [u8; 32],
    what: What,
    /// `--path DIR`, `--path=DIR`
    equals: bool,
    /// `--` before the last arguments
    dashes: bool,
}

/// Run the client with these arguments against a socket of the check's own; the bytes of each
/// connection it made.
fn sent(dir: &Path, args: &[OsString]) -> (Finished, Vec<Vec<u8>>) {
    let sock = dir.join("ctrl.sock");
    let listener = UnixListener::bind(&sock).expect("listen");
    listener.set_nonblocking(true).unwrap();
    let done = std::sync::atomic::AtomicBool::new(false);
    let (f, got) = std::thread::scope(|sc| {
        let taker = std::thread::Builder::new()
            .name("chk-take".into())
            .spawn_scoped(sc, || {
                let mut got = Vec::new();
                loop {
                    let last = done.load(std::sync::atomic::Ordering::SeqCst);
                    match listener.accept() {
                        Ok((mut s, _)) => {
                            s.set_nonblocking(false).unwrap();
                            s.set_read_timeout(Some(LONG)).unwrap();
                            let mut v = Vec::new();
                            let _ = s.read_to_end(&mut v);
                            got.push(v);
                        }
                        Err(_) if last => return got,
                        Err(_) => std::thread::sleep(Duration::from_micros(200)),
                    }
                }
            })
            .unwrap();
        let mut c = std::process::Command::new(crate::exec::bins().join("debug/vru-udp"));
        c.args(args);
        let f = run_program(c, LONG);
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        (f, taker.join().unwrap())
    });
    (f, got)
}

fn with_path(dir: &Path, equals: bool) -> Vec<OsString> {
    if equals {
        let mut a = OsString::from("--path=");
        a.push(dir);
        vec![a]
    } else {
        vec!["--path".into(), dir.into()]
    }
}

fn typed(t: &Typed) -> Verdict {
    let s = Scratch::new();
    let dir = s.dir("c");
    let peer = crate::from_bytes(t.peer);
    let mut args = with_path(&dir, t.equals);
    let dashes = t.dashes || matches!(&t.what, What::Text(x) if x.starts_with('-'));
    let last = match &t.what {
        What::Connect { ip, port } => {
            args.push("connect".into());
            SocketAddr::new(*ip, *port).to_string()
        }
        What::Text(x) => {
            args.push("send-text".into());
            x.clone()
        }
    };
    if dashes {
        args.push("--".into());
    }
    args.push(peer.to_string().into());
    args.push(last.into());
    let (f, got) = sent(&dir, &args);
    check!(f.ok, "refused", "the client ended with {}: {}", f.status, f.text);
    check!(got.len() == 1, "connections", "the client made {} connections", got.len());
    let bytes = &got[0];
    let mut rest = &bytes[..];
    let c: Command<SocketAddr> = match bincode::deserialize_from(&mut rest) {
        Ok(c) => c,
        Err(e) => common::fail!("undecodable", "what the client sent is no command: {e}: {}", hex::encode(&bytes[..bytes.len().min(100)])),
    };
    check!(rest.is_empty(), "trailing", "{} bytes follow the command", rest.len());
    match (&c, &t.what) {
        (Command::Connect { peer_pi, address }, What::Connect { ip, port }) => {
            check!(peer_pi.as_ref() == t.peer, "identity", "identity {} became {}", peer, peer_pi);
            check!(address.ip() == *ip && address.port() == *port, "address", "address {}:{} became {}", ip, port, address);
            Ok(Outcome::ok().label_if(ip.is_ipv6(), "ipv6"))
        }
        (Command::Local { destination, command }, What::Text(x)) => {
            check!(destination.as_ref() == t.peer, "identity", "identity {} became {}", peer, destination);
            check!(command == x.as_bytes(), "text", "text of {} bytes became {} bytes: {}", x.len(), command.len(), common::diff(command, x.as_bytes()));
            Ok(Outcome::ok()
                .label_if(!x.is_ascii(), "non-ascii text")
                .label_if(x.len() > 4096, "long text")
                .label_if(x.is_empty(), "empty text"))
        }
        _ => common::fail!("kind", "another command was sent: {c:?}"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unusable {
    peer: [u8; 32],
    how: How,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    /// one character of the identity changed
    Character { at: u8, to: char, text: bool },
    /// the identity shortened or lengthened
    Length { keep: u8, text: bool },
    /// a zero byte is not in front
    First { byte: u8, text: bool },
    /// the identity with something before or behind it
    Around { front: bool, with: String, text: bool },
    /// the identity in the other base64 alphabet, or in hexadecimal
    Alphabet { hex: bool, text: bool },
    Address(String),
    Missing { drop: u8, text: bool },
    Extra { text: bool },
    Subcommand(String),
    NoPath,
    NotUtf8 { text: Vec<u8> },
    NoListener,
    NoDirectory,
}

fn unusable(u: &Unusable) -> Verdict {
    let s = Scratch::new();
    let dir = s.dir("c");
    let peer = crate::from_bytes(u.peer).to_string();
    let address = "127.0.0.1:4000";
    let full = |text: bool, peer: &str| -> Vec<OsString> {
        let mut a = with_path(&dir, false);
        if text {
            a.extend(["send-text".into(), "--".into(), peer.into(), "hello".into()]);
        } else {
            a.extend(["connect".into(), "--".into(), peer.into(), address.into()]);
        }
        a
    };
    let args = match &u.how {
        How::Character { at, to, text } => {
            let mut c: Vec<char> = peer.chars().collect();
            let at = usize::from(*at) % c.len();
            // 44 characters: 33 bytes exactly, so every character counts; the first and a part of the
            // second are the zero byte
            if to.is_ascii_alphanumeric() || *to == '+' || *to == '/' {
                if at > 0 || *to == 'A' {
                    return Ok(Outcome::trivial());
                }
            }
            c[at] = *to;
            full(*text, &c.into_iter().collect::<String>())
        }
        How::Length { keep, text } => {
            let mut p = peer.repeat(2);
            p.truncate(usize::from(*keep) % p.len());
            if p.len() == peer.len() {
                return Ok(Outcome::trivial());
            }
            full(*text, &p)
        }
        How::First { byte, text } => {
            let mut b = vec![*byte];
            b.extend(u.peer);
            if *byte == 0 {
                return Ok(Outcome::trivial());
            }
            full(*text, &crate::base64(&b))
        }
        How::Around { front, with, text } => {
            if with.is_empty() {
                return Ok(Outcome::trivial());
            }
            full(*text, &if *front { format!("{with}{peer}") } else { format!("{peer}{with}") })
        }
        How::Alphabet { hex: true, text } => full(*text, &u.peer.iter().map(|b| format!("{b:02x}")).collect::<String>()),
        How::Alphabet { hex: false, text } => {
            let p = peer.replace('+', "-").replace('/', "_");
            if p == peer {
                return Ok(Outcome::trivial());
            }
            full(*text, &p)
        }
        How::Address(a) => {
            if a.parse::<SocketAddr>().is_ok() {
                return Ok(Outcome::trivial());
            }
            let mut v = full(false, &peer);
            *v.last_mut().unwrap() = a.into();
            v
        }
        How::Missing { drop, text } => {
            let mut v = full(*text, &peer);
            let n = v.len();
            v.remove([n - 1, n - 2, n - 4][usize::from(*drop) % 3]);
            v
        }
        How::Extra { text } => {
            let mut v = full(*text, &peer);
            v.push("more".into());
            v
        }
        How::Subcommand(c) => {
            if ["connect", "send-text", "help"].contains(&c.as_str()) {
                return Ok(Outcome::trivial());
            }
            let mut v = full(true, &peer);
            v[2] = c.into();
            v
        }
        How::NoPath => full(true, &peer)[2..].to_vec(),
        How::NotUtf8 { text } => {
            if std::str::from_utf8(text).is_ok() || text.contains(&0) {
                return Ok(Outcome::trivial());
            }
            let mut v = full(true, &peer);
            *v.last_mut().unwrap() = OsString::from_vec(text.clone());
            v
        }
        How::NoListener | How::NoDirectory => {
            let d = if matches!(u.how, How::NoDirectory) { s.0.join("none") } else { dir.clone() };
            let mut v = full(true, &peer);
            v[1] = d.into();
            let t = Instant::now();
            let mut c = std::process::Command::new(crate::exec::bins().join("debug/vru-udp"));
            c.args(&v);
            let f = run_program(c, LONG);
            check!(!f.ok, "silent", "with nobody to talk to the client ends with success");
            check!(t.elapsed() < LONG, "hangs", "with nobody to talk to the client does not end");
            return Ok(Outcome::ok().label("nobody listens"));
        }
    };
    let (f, got) = sent(&dir, &args);
    check!(!f.ok, "accepted", "the client accepts {:?} and sends {} commands", args, got.len());
    check!(got.iter().all(|g| g.is_empty()), "sent", "the client refuses {:?} but sends {} bytes", args, got.iter().map(|g| g.len()).sum::<usize>());
    check!(!f.status.starts_with("not ended"), "hangs", "the client does not end: {}", f.status);
    Ok(Outcome::ok())
}

fn peer() -> impl Strategy<Value = [u8; 32]> {
    gen::bytes(32).prop_map(|h| h.0.try_into().unwrap())
}

/// What some programs take for something else than a text.
/// Texts that mean something to other programs.
fn specials() -> Vec<String> {
    let words = ["/etc/passwd", "HOME", "PATH", "41", "n", "n4", "stdin", "0", ""];
    let marks = [
        ("@", ""), ("$", ""), ("${", "}"), ("~", ""), ("~/", ""), ("$(", ")"), ("`", "`"), ("%", ""), ("%", "%"), ("&#", ";"), ("&", ";"), ("\\x", ""), ("\\u{", "}"), ("\\", ""),
        ("<", ""), ("<", ">"), ("/", ""), ("file://", ""), ("=", ""), ("+", ""), ("\"", "\""), ("'", "'"), ("0x", ""), ("0b", ""), ("base64:", ""), ("hex:", ""), ("\u{1b}[", "m"),
        ("{", "}"), ("{{", "}}"), ("[", "]"), (":", ""), (":", ":"), ("#", ""), ("!", ""), ("|", ""), (">", ""), (" ", ""), ("", " "), ("\t", "\t"), ("\n", "\n"), ("\r", "\r"), ("-", ""), ("--", ""),
        ("\u{feff}", ""), ("", "\u{0301}"), ("\u{202e}", "\u{202c}"), ("", "\u{8}"), ("", "\u{4}"), ("", "\u{1a}"), ("b'", "'"), ("\u{200b}", "\u{200b}"), ("\u{a0}", "\u{a0}"),
    ];
    marks
        .iter()
        .flat_map(|(a, b)| words.iter().flat_map(move |w| ["", " and more"].map(|more| format!("{a}{w}{b}{more}"))))
        .chain(["connect", "send-text", "help", "exit", "/quit", "\u{1f468}\u{200d}\u{1f469}", "\u{fb01}", "\u{212b}", "I\u{307}", "\u{df}", "A", "ÄÖ", "e\u{301}", "\u{e9}", "\u{1}\u{2}\u{7f}", "\u{fffd}", "\u{10ffff}"].map(String::from))
        .collect()
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "\\PC{0,60}",
        2 => "[ -~\\n\\t]{0,40}",
        2 => any::<String>(),
        1 => Just(String::new()),
        1 => prop_oneof![Just("-"), Just("--"), Just("--help"), Just("-h"), Just("--path"), Just("connect"), Just("\u{feff}x"), Just(" a b "), Just("a\r\n"), Just("\u{0301}e"), Just("\\n"), Just("\"q\"")].prop_map(|s| s.to_string()),
        1 => common::proptest::sample::select(specials()),
        1 => (1usize..100_000, any::<u64>()).prop_map(|(n, x)| {
            let alphabet: Vec<char> = "abc é☃𝕏 -\n'\"".chars().collect();
            gen::expand(x, n / 2).iter().map(|b| alphabet[usize::from(*b) % alphabet.len()]).collect()
        }),
    ]
    // no argument can hold a zero byte
    .prop_map(|s| s.replace('\0', "0"))
}

fn ip() -> impl Strategy<Value = IpAddr> {
    prop_oneof![
        2 => any::<[u8; 4]>().prop_map(IpAddr::from),
        2 => any::<[u8; 16]>().prop_map(IpAddr::from),
        1 => prop_oneof![Just([0u8; 16]), Just([0xff; 16])].prop_map(IpAddr::from),
        1 => any::<[u8; 4]>().prop_map(|b| IpAddr::V6(std::net::Ipv4Addr::from(b).to_ipv6_mapped())),
        1 => (any::<u16>(), 0usize..8).prop_map(|(x, k)| {
            let mut s = [0u16; 8];
            s[k] = x;
            IpAddr::from(s)
        }),
        1 => prop_oneof![Just([0u8; 4]), Just([255; 4]), Just([127, 0, 0, 1])].prop_map(IpAddr::from),
    ]
}

fn address_like() -> impl Strategy<Value = String> {
    prop_oneof![
        "[0-9]{1,3}(\\.[0-9]{1,3}){2,4}:[0-9]{1,6}",
        "\\[[0-9a-f:]{2,20}\\]:[0-9]{1,6}",
        "[a-z]{1,8}(\\.[a-z]{2,3})?:[0-9]{1,5}",
        "127\\.0\\.0\\.1(:|:-1|:65536|:99999|: 80|:80 |:0x50)?",
        "[ -~]{0,20}",
        Just("localhost:80".to_string()),
    ]
}

const AROUND: &[&str] = &[" ", "=", "==", "\n", "\r\n", "\t", ".", ",", ":", "/", "@", "A", "AAAA", "'", "\"", "\\", "#", "?", "\u{feff}", "\u{a0}", "0x", "vru:", "<", ">", "\u{200b}"];

fn around() -> impl Strategy<Value = String> {
    prop_oneof![2 => (0..AROUND.len()).prop_map(|i| AROUND[i].to_string()), 1 => "[ -~]{1,5}"]
}

pub fn c01(run: &mut Run) {
    run.set_budget(150, 3600);
    run.rule("typed: every command the client must send; unusable: every argument list that really is unusable");
    run.assume("a text that starts with '-' is typed after '--', as the argument parser asks for; texts hold no zero byte and are valid UTF-8");
    run.assume("an IPv6 scope id is not part of an address here: the command format has no place for it");
    run.sub(
        "typed",
        cases(1500).thorough(60_000),
        || {
            let what = prop_oneof![
                2 => (ip(), prop_oneof![any::<u16>(), Just(0), Just(65535)]).prop_map(|(ip, port)| What::Connect { ip, port }),
                3 => text().prop_map(What::Text),
            ];
            (peer(), what, any::<bool>(), any::<bool>()).prop_map(|(peer, what, equals, dashes)| Typed { peer, what, equals, dashes })
        },
        typed,
    );
    let listed = specials()
        .into_iter()
        .map(|text| Typed { peer: [7; 32], equals: text.len() % 2 == 0, dashes: text.len() % 3 == 0, what: What::Text(text) })
        .collect();
    run.each("texts with a meaning elsewhere", listed, typed);
    let listed = (1..=255)
        .map(|byte| Unusable { peer: [byte; 32], how: How::First { byte, text: byte % 2 == 0 } })
        .chain((0..AROUND.len() * 4).map(|i| Unusable { peer: [i as u8; 32], how: How::Around { front: i & 1 == 0, with: AROUND[i / 4].into(), text: i & 2 == 0 } }))
        .chain((0..8).map(|i| Unusable { peer: [[0xfb, 0xff, 0x3e, 0x7e][i / 2]; 32], how: How::Alphabet { hex: false, text: i % 2 == 0 } }))
        .collect();
    run.each("nearly an identity", listed, unusable);
    run.sub(
        "unusable",
        cases(800).thorough(30_000),
        || {
            let how = prop_oneof![
                2 => (any::<u8>(), prop_oneof![any::<char>(), prop::char::range('!', '~')], any::<bool>())
                    .prop_filter("zero", |(_, c, _)| *c != '\0')
                    .prop_map(|(at, to, text)| How::Character { at, to, text }),
                2 => (any::<u8>(), any::<bool>()).prop_map(|(keep, text)| How::Length { keep, text }),
                1 => (any::<u8>(), any::<bool>()).prop_map(|(byte, text)| How::First { byte, text }),
                1 => (any::<bool>(), around(), any::<bool>()).prop_map(|(front, with, text)| How::Around { front, with, text }),
                1 => (prop::bool::weighted(0.2), any::<bool>()).prop_map(|(hex, text)| How::Alphabet { hex, text }),
                3 => address_like().prop_map(How::Address),
                1 => (any::<u8>(), any::<bool>()).prop_map(|(drop, text)| How::Missing { drop, text }),
                1 => any::<bool>().prop_map(|text| How::Extra { text }),
                1 => "[a-z-]{1,12}".prop_map(How::Subcommand),
                1 => Just(How::NoPath),
                1 => common::proptest::collection::vec(any::<u8>(), 1..20).prop_map(|text| How::NotUtf8 { text }),
                1 => Just(How::NoListener),
                1 => Just(How::NoDirectory),
            ];
            (peer(), how).prop_map(|(peer, how)| Unusable { peer, how })
        },
        unusable,
    );
}
