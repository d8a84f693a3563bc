//! D01: the identity of a node; D02: starts that cannot succeed; L01: its command socket;
//! L02: what it tells its operator; L03: suspended nodes; C01: the command-line client.

mod c01;
mod d01;
mod d02;
mod d03;
mod exec;
mod l01;
mod l02;
mod l03;

use common::Run;
use rac::Array;

/// A name of some peer.
pub fn identity(seed: u64) -> vru_session::handshake::Identity {
    let bytes: [u8; 32] = common::gen::expand(seed, 32).try_into().unwrap();
    from_bytes(bytes)
}

/// The identity with this hash, by way of its text form (standard base64 after a zero byte).
pub fn from_bytes(bytes: [u8; 32]) -> vru_session::handshake::Identity {
    let mut all = vec![0];
    all.extend(bytes);
    base64(&all).parse().expect("the text form of an identity")
}

pub fn base64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    assert!(data.len() % 3 == 0);
    data.chunks(3)
        .flat_map(|c| {
            let x = u32::from(c[0]) << 16 | u32::from(c[1]) << 8 | u32::from(c[2]);
            [18, 12, 6, 0].map(|s| T[(x >> s & 63) as usize] as char)
        })
        .collect()
}

fn main() {
    let _ = Array::<rac::generic_array::typenum::U1>::default();
    let mut run = Run::from_env();
    match run.id.clone().as_str() {
        "D01" => d01::d01(&mut run),
        "L01" => l01::l01(&mut run),
        "D03" => d03::d03(&mut run),
        "D02" => d02::d02(&mut run),
        "L03" => l03::l03(&mut run),
        "L02" => l02::l02(&mut run),
        "C01" => c01::c01(&mut run),
        id => panic!("unknown property {id}"),
    }
    run.finish()
}
