//! Inputs: key universes, values, buffer parameters.
use crate::maps::Kt;
use crate::util::*;
use siamesedb::filedb::{FileBufSizeParam as B, FileDbParams};
use siamesedb::HashValue;
use std::collections::HashSet;

/// payload classes of pieces: every boundary of the stored size
const CLASSES: [usize; 16] =
    [16, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Uni {
    Seq,
    Rand,
    Prefix,
    Alphabet,
    Lengths,
    Long,
    Collide,
    Extreme,
    Mixed,
}
pub const UNIS: [Uni; 9] = [
    Uni::Seq,
    Uni::Rand,
    Uni::Prefix,
    Uni::Alphabet,
    Uni::Lengths,
    Uni::Long,
    Uni::Collide,
    Uni::Extreme,
    Uni::Mixed,
];

const UNICODE: [&str; 12] =
    ["a", "Z", "0", "é", "ß", "Ω", "я", "あ", "漢", "🦀", "\u{10FFFF}", "\u{0}"];

fn rand_str(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(rng.pick(&UNICODE));
    }
    s.into_bytes()
}

fn ascii(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| b'a' + rng.below(26) as u8).collect()
}

pub fn hash_of(kt: Kt, k: &[u8]) -> u64 {
    match kt {
        Kt::Str => siamesedb::DbString::from(k).hash_value(),
        Kt::Int => siamesedb::DbInt::from(k).hash_value(),
        Kt::Bytes => siamesedb::DbBytes::from(k).hash_value(),
    }
}

const HT: u64 = 16 * 1024 * 1024;

/// the step of the hash function of the hash file, and back
fn step(a: u64) -> u64 {
    let mut x = a;
    x ^= x >> 12;
    x ^= x << 25;
    x ^= x >> 27;
    x
}
fn unstep(a: u64) -> u64 {
    let r = |mut x: u64, n: u32, left: bool| {
        let y = x;
        for _ in 0..64 / n + 1 {
            x = y ^ if left { x << n } else { x >> n };
        }
        x
    };
    r(r(r(a, 27, false), 25, true), 12, false)
}
fn hash_steps(st: u64, b: &[u8]) -> u64 {
    b.chunks(8).fold(st, |st, c| {
        let a = match <[u8; 8]>::try_from(c) {
            Ok(c) => u64::from_le_bytes(c),
            _ => c.iter().fold(0, |a, b| a << 8 | *b as u64),
        };
        step(st.wrapping_add(a))
    })
}

/// A key which falls into the slot of `k`: `head` and eight more bytes; `full` for the whole hash value.
/// The hash function is public (it is part of the file format), so one can be computed.
fn make_collide(kt: Kt, k: &[u8], head: &[u8], full: bool, rng: &mut Rng) -> Option<Vec<u8>> {
    let want = hash_of(kt, k);
    let st = hash_steps(step(head.len() as u64 + 8), head);
    for _ in 0..4000 {
        let f = if full { want } else { rng.next() & !(HT - 1) | want & (HT - 1) };
        let mut c = head.to_vec();
        c.extend_from_slice(&unstep(f).wrapping_sub(st).to_le_bytes());
        let text = kt != Kt::Str || std::str::from_utf8(&c).is_ok();
        if text && c != k && hash_of(kt, &c) % HT == want % HT {
            return Some(c);
        }
        if full {
            return None;
        }
    }
    None
}

/// Colliding keys which are also alike: one the beginning of the other, equal at the beginning, at the end,
/// of one length, with the same whole hash value.
pub fn colliding_alike(kt: Kt, rng: &mut Rng, want: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    if kt == Kt::Int {
        // the same upper or the same lower half
        for half in 0..2 {
            let fix = rng.next() as u32 as u64;
            let mut v: Vec<(u64, Vec<u8>)> = (0..30_000)
                .map(|_| {
                    let r = rng.next() >> 32;
                    let n = if half == 0 { fix << 32 | r } else { r << 32 | fix };
                    let k = n.to_be_bytes().to_vec();
                    (hash_of(kt, &k) % HT, k)
                })
                .collect();
            v.sort();
            v.dedup();
            for w in v.windows(2) {
                if w[0].0 == w[1].0 && out.len() < want {
                    out.push(w[0].1.clone());
                    out.push(w[1].1.clone());
                }
            }
        }
        return out;
    }
    let word = |rng: &mut Rng, n: usize| if kt == Kt::Str { ascii(rng, n) } else { rng.bytes(n) };
    for _ in 0..want {
        if out.len() >= want {
            break;
        }
        let l = *rng.pick(&[0usize, 8, 8, 16, 24, 32, 64, 200, 1000]);
        let head = word(rng, l);
        let t = rng.below(25);
        let k = match rng.below(5) {
            // the beginning of the other
            0 | 1 => head.clone(),
            // equal but for the last eight bytes
            2 => [head.clone(), word(rng, 8)].concat(),
            // of another length, the same beginning
            3 => [head.clone(), word(rng, t)].concat(),
            // anything
            _ => word(rng, t),
        };
        let full = rng.chance(30);
        if let Some(c) = make_collide(kt, &k, &head, full, rng) {
            if rng.chance(25) && l == 0 && c.len() == 8 && k.len() == 8 {
                // the same end: what follows keeps the hash values equal (where they are wholly equal)
                let n = rng.below(40);
                let e = word(rng, n);
                let (a, b) = ([k.clone(), e.clone()].concat(), [c.clone(), e].concat());
                if hash_of(kt, &a) % HT == hash_of(kt, &b) % HT {
                    out.push(a);
                    out.push(b);
                }
            }
            // three and more keys in one slot
            for _ in 0..rng.below(4).saturating_sub(1) {
                let l = rng.below(30);
                let head = word(rng, l / 8 * 8);
                out.extend(make_collide(kt, &k, &head, false, rng));
            }
            out.push(k);
            out.push(c);
        }
    }
    out
}

/// groups of keys which fall into the same slot of the hash table
pub fn colliding(kt: Kt, rng: &mut Rng, want: usize) -> Vec<Vec<u8>> {
    let base = rng.next() >> 20;
    let mut v: Vec<(u64, Vec<u8>)> = Vec::new();
    let n = 60_000 + want * 40;
    for i in 0..n as u64 {
        let k = match kt {
            Kt::Int => (base.wrapping_mul(i | 1).wrapping_add(i << 17)).to_be_bytes().to_vec(),
            Kt::Str => format!("c{:x}", base + i).into_bytes(),
            Kt::Bytes => {
                let mut k = (base + i * 7).to_le_bytes().to_vec();
                k.truncate(3 + (i % 6) as usize);
                k.push((i & 255) as u8);
                k.push((i >> 8) as u8);
                k.push((i >> 16) as u8);
                k
            }
        };
        v.push((hash_of(kt, &k) % HT, k));
    }
    v.sort();
    v.dedup_by(|a, b| a.1 == b.1);
    let mut out = Vec::new();
    let mut i = 0;
    while i + 1 < v.len() && out.len() < want {
        if v[i].0 == v[i + 1].0 {
            let s = v[i].0;
            while i < v.len() && v[i].0 == s {
                out.push(v[i].1.clone());
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out
}

/// `n` distinct keys (fewer where the kind has not that many)
pub fn universe(kt: Kt, kind: Uni, n: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut push = |k: Vec<u8>, out: &mut Vec<Vec<u8>>| {
        if seen.insert(k.clone()) {
            out.push(k);
        }
    };
    let salt = rng.next();
    let mut tries = 0usize;
    if kind == Uni::Collide {
        if rng.chance(60) {
            for k in colliding_alike(kt, rng, n / 2) {
                push(k, &mut out);
            }
        }
        for k in colliding(kt, rng, n.min(1500)) {
            push(k, &mut out);
        }
        out.truncate(n);
    }
    while out.len() < n && tries < n * 20 + 100 {
        let i = tries;
        tries += 1;
        let kind = if kind == Uni::Mixed { *rng.pick(&UNIS[..8]) } else { kind };
        let k: Vec<u8> = match kt {
            Kt::Int => match kind {
                Uni::Seq => ((salt >> 40) + i as u64).to_be_bytes().to_vec(),
                Uni::Prefix => ((i as u64) << 8).to_be_bytes().to_vec(),
                Uni::Alphabet => {
                    let a = [0u8, 1, 0x7f, 0x80, 0xff, b'a'];
                    (0..8).map(|_| *rng.pick(&a)).collect()
                }
                Uni::Lengths | Uni::Extreme => {
                    let b = rng.below(64) as u32;
                    let d = rng.below(7) as u64;
                    let x = match rng.below(4) {
                        0 => d,
                        1 => (1u64 << b).wrapping_add(d),
                        2 => (1u64 << b).wrapping_sub(d),
                        _ => u64::MAX - d * (b as u64 + 1),
                    };
                    x.to_be_bytes().to_vec()
                }
                Uni::Long => ((i as u64) << 32 | (salt & 0xffff)).to_be_bytes().to_vec(),
                _ => rng.next().to_be_bytes().to_vec(),
            },
            Kt::Str => match kind {
                Uni::Seq => format!("key{:07}", i).into_bytes(),
                Uni::Prefix => {
                    let m = i % 300;
                    let c = b'a' + ((i / 300) % 26) as u8;
                    vec![c; m]
                }
                Uni::Alphabet => {
                    let n = rng.below(7);
                    rand_str(rng, n)
                }
                Uni::Lengths => {
                    let c = CLASSES[rng.below(16)].saturating_sub(16);
                    let l = (c + rng.below(5)).saturating_sub(2);
                    ascii(rng, l)
                }
                Uni::Long => {
                    let l = 200 + rng.below(3000);
                    ascii(rng, l)
                }
                Uni::Extreme => match i {
                    0 => vec![],
                    1 => vec![0],
                    2 => "\u{10FFFF}".repeat(40).into_bytes(),
                    3 => vec![b'x'; 70_000],
                    4 => vec![b'x'; 70_001],
                    5 => vec![b'y'; 140_000],
                    _ => {
                        let n = 1 + rng.below(12);
                        rand_str(rng, n)
                    }
                },
                _ => format!("{:x}", rng.next() >> (rng.below(7) * 8)).into_bytes(),
            },
            Kt::Bytes => match kind {
                Uni::Seq => (i as u64).to_be_bytes().to_vec(),
                Uni::Prefix => {
                    let m = i % 300;
                    let c = [0u8, 0xff, b'a', 0x80][(i / 300) % 4];
                    let mut v = vec![c; m];
                    if i >= 1200 {
                        v.extend_from_slice(&(i as u32).to_le_bytes());
                    }
                    v
                }
                Uni::Alphabet => {
                    let a = [0u8, 1, 0x7f, 0x80, 0xff];
                    let n = rng.below(7);
                    (0..n).map(|_| *rng.pick(&a)).collect()
                }
                Uni::Lengths => {
                    let c = CLASSES[rng.below(16)].saturating_sub(16);
                    let l = (c + rng.below(5)).saturating_sub(2);
                    rng.bytes(l)
                }
                Uni::Long => {
                    let l = 200 + rng.below(3000);
                    rng.bytes(l)
                }
                Uni::Extreme => match i {
                    0 => vec![],
                    1 => vec![0],
                    2 => vec![0, 0],
                    3 => vec![255; 300],
                    4 => rng.bytes(131_072),
                    5 => rng.bytes(131_073 + 40),
                    6 => rng.bytes(4096 - 16),
                    7 => rng.bytes(16384),
                    _ => {
                        let l = rng.below(80);
                        rng.bytes(l)
                    }
                },
                _ => {
                    let l = 1 + rng.below(24);
                    rng.bytes(l)
                }
            },
        };
        push(k, &mut out);
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    Small,
    Class,
    Mixed,
    Large,
    Huge,
    /// up to 9 MB
    Giant,
    Empty,
    Text,
    Fixed(usize),
    /// almost the same each time: of about one length, with one differing byte
    Near,
}
pub const VALS: [Val; 7] =
    [Val::Small, Val::Class, Val::Mixed, Val::Large, Val::Text, Val::Fixed(24), Val::Near];

/// Lengths of all magnitudes up to 9 MB, often close to a power of two.
pub fn giant_len(rng: &mut Rng) -> usize {
    let b = rng.range(8, 23);
    let l = 1usize << b;
    if rng.chance(50) {
        l + rng.below(l / 8)
    } else {
        (l + rng.below(300)).saturating_sub(170)
    }
}

/// A value; `tag` makes it different from every other value (as far as its length allows).
pub fn value(p: Val, tag: u64, rng: &mut Rng) -> Vec<u8> {
    let len = match p {
        Val::Small => rng.below(60),
        Val::Class => {
            let c = CLASSES[rng.below(16)] - 8;
            (c + rng.below(5)).saturating_sub(2)
        }
        Val::Mixed => match rng.below(10) {
            0 => 0,
            1..=5 => rng.below(100),
            6..=7 => rng.below(1100),
            8 => 800 + rng.below(1500),
            _ => rng.below(9000),
        },
        Val::Large => 890 + rng.below(20_000),
        Val::Huge => {
            let c = *rng.pick(&[4096usize, 8192, 16384, 65536, 131_072, 262_144]);
            (c + rng.below(300)).saturating_sub(200)
        }
        Val::Giant => giant_len(rng),
        Val::Empty => 0,
        Val::Text => {
            let n = rng.below(40);
            let mut t = format!("v{tag:x}-").into_bytes();
            t.extend(rand_str(rng, n));
            return t;
        }
        Val::Fixed(n) => n,
        Val::Near => {
            // the upper bits of the tag are those of the script
            let l = [3usize, 8, 24, 100, 300, 1100][(tag >> 20) as usize % 6];
            let l = match rng.below(8) {
                0 => l + 1,
                1 => l - 1,
                _ => l,
            };
            let mut v = vec![b'n'; l];
            if rng.chance(85) {
                let at = match rng.below(4) {
                    0 => 0,
                    1 => l - 1,
                    _ => rng.below(l),
                };
                v[at] = if rng.chance(50) { b'n' ^ 1 << rng.below(7) } else { rng.below(128) as u8 };
            }
            return v;
        }
    };
    let mut v = Vec::with_capacity(len + 8);
    let t = mix(tag, 0x5a5a).to_le_bytes();
    v.extend_from_slice(&t);
    if len > 8 {
        if rng.chance(30) {
            v.resize(len, (tag & 0xff) as u8);
        } else {
            let b = rng.bytes(len - 8);
            v.extend_from_slice(&b);
        }
    }
    v.truncate(len);
    v
}

pub fn buf_size(rng: &mut Rng) -> B {
    match rng.below(20) {
        14 => B::Size(*rng.pick(&[2, 63, 100, 2047, 4095, 4097, 5000, 6000, 8191, 8193])),
        15 => B::Size(*rng.pick(&[10_000, 20_000, 40_000, 65_535, 65_536, 65_537, 100_000, 131_073, 196_608, 200_000, 300_000])),
        16 => B::Size(rng.range(1, 70_000) as u32),
        17 => B::Size(rng.range(60_000, 2_000_000) as u32),
        18 => B::PerMille(rng.range(2, 998) as u16),
        19 => B::PerMille(*rng.pick(&[2, 5, 50, 100, 333, 501, 750])),
        0 => B::Size(0),
        1 => B::Size(1),
        2 => B::Size(4096),
        3 => B::Size(131_072),
        4 => B::Size(131_071),
        5 => B::Size(262_144),
        6 => B::Size(1 << 20),
        7 => B::PerMille(0),
        8 => B::PerMille(1),
        9 => B::PerMille(20),
        10 => B::PerMille(500),
        11 => B::PerMille(999),
        12 => B::PerMille(1000),
        _ => B::Auto,
    }
}

pub fn params(rng: &mut Rng) -> FileDbParams {
    FileDbParams {
        val_buf_size: buf_size(rng),
        key_buf_size: buf_size(rng),
        idx_buf_size: buf_size(rng),
        // a small buffer of a 128 MiB hash file only costs time; keep most of them full
        htx_buf_size: if rng.chance(60) { B::PerMille(1000) } else { buf_size(rng) },
    }
}
/// mostly the default
pub fn maybe_params(rng: &mut Rng, per_cent: usize) -> Option<FileDbParams> {
    if rng.chance(per_cent) {
        Some(params(rng))
    } else {
        None
    }
}
