//! Small shared pieces: random numbers, failures, counters, file helpers.
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};

/// The property was seen broken. Everything else that goes wrong in the harness panics.
#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::util::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::util::Fail(format!($($a)*))); } };
}

/// An error returned by the code under test where none is due.
pub fn io<T>(what: &str, r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| Fail(format!("{what} returned an error without any fault: {e}")))
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, per_cent: usize) -> bool {
        self.below(100) < per_cent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut a = [0u8; 8];
        a[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(a));
    }
    h
}

/// What the monitors observed.
#[derive(Default, Clone)]
pub struct Stats {
    pub sum: BTreeMap<String, u64>,
    pub max: BTreeMap<String, u64>,
    pub shapes: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        match self.sum.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.sum.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        match self.max.get_mut(k) {
            Some(v) => *v = (*v).max(n),
            None => {
                self.max.insert(k.to_string(), n);
            }
        }
    }
}

/// One case of one property's check.
pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub idx: u64,
    pub rng: Rng,
    pub dir: PathBuf,
    pub st: Stats,
    /// what the case is, for people
    pub desc: String,
    /// digest of the inputs of the case
    pub digest: u64,
    /// the case exercised something (rule of the property)
    pub nontrivial: bool,
}

impl Cx {
    pub fn note(&mut self, s: &str) {
        self.digest = mix(self.digest, hash_bytes(s.as_bytes()));
        if self.desc.len() < 900 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(s);
        }
    }
    pub fn sub(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    let n = b.len().min(40);
    for &c in &b[..n] {
        if (0x20..0x7f).contains(&c) && c != b'\\' && c != b'"' {
            s.push(c as char);
        } else {
            s.push_str(&format!("\\x{c:02x}"));
        }
    }
    if b.len() > n {
        s.push_str(&format!("..({} bytes, digest {:x})", b.len(), hash_bytes(b)));
    }
    s
}
pub fn esc_opt(b: &Option<Vec<u8>>) -> String {
    match b {
        None => "None".into(),
        Some(v) => format!("Some(\"{}\")", esc(v)),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}
pub const SEEK_DATA: i32 = 3;
pub const SEEK_HOLE: i32 = 4;

/// The parts of a file that hold data: (offset, bytes). Holes read as zero.
pub fn data_extents(path: &Path) -> (u64, Vec<(u64, Vec<u8>)>) {
    use std::os::unix::fs::FileExt;
    use std::os::unix::io::AsRawFd;
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("harness: open {path:?}: {e}"));
    let len = f.metadata().expect("harness: metadata").len();
    let mut v = Vec::new();
    let mut pos = 0i64;
    while (pos as u64) < len {
        let d = unsafe { lseek(f.as_raw_fd(), pos, SEEK_DATA) };
        if d < 0 {
            break;
        }
        let h = unsafe { lseek(f.as_raw_fd(), d, SEEK_HOLE) };
        let h = if h < 0 { len as i64 } else { h };
        let n = (h - d) as usize;
        let mut buf = vec![0u8; n];
        f.read_exact_at(&mut buf, d as u64).expect("harness: read");
        v.push((d as u64, buf));
        pos = h;
    }
    (len, v)
}

/// A digest of the content of a file: holes and stored zero blocks are the same.
pub fn file_digest(path: &Path) -> u64 {
    let (len, ext) = data_extents(path);
    let mut h = mix(1, len);
    let mut cur: Option<(u64, u64)> = None; // (4 KiB block, digest)
    let fold = |h: u64, c: Option<(u64, u64)>| match c {
        Some((b, d)) => mix(mix(h, b), d),
        None => h,
    };
    for (off, data) in ext {
        for (i, c) in data.chunks(8).enumerate() {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            let w = u64::from_le_bytes(a);
            if w != 0 {
                let pos = off + 8 * i as u64;
                let b = pos / 4096;
                match cur {
                    Some((cb, d)) if cb == b => cur = Some((cb, mix(mix(d, pos), w))),
                    _ => {
                        h = fold(h, cur);
                        cur = Some((b, mix(mix(7, pos), w)));
                    }
                }
            }
        }
    }
    fold(h, cur)
}

pub fn list_files(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .unwrap_or_else(|e| panic!("harness: read_dir {dir:?}: {e}"))
        .map(|e| e.expect("harness: dir entry").file_name().to_string_lossy().to_string())
        .collect();
    v.sort();
    v
}

/// Digest of every file of a directory.
pub fn dir_digest(dir: &Path) -> BTreeMap<String, u64> {
    list_files(dir).into_iter().map(|n| { let d = file_digest(&dir.join(&n)); (n, d) }).collect()
}

pub fn write_extents(path: &Path, len: u64, ext: &[(u64, Vec<u8>)]) {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::create(path).unwrap_or_else(|e| panic!("harness: create {path:?}: {e}"));
    f.set_len(len).expect("harness: set_len");
    for (off, d) in ext {
        f.write_all_at(d, *off).expect("harness: write");
    }
}

pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("harness: mkdir");
    for n in list_files(from) {
        let (len, ext) = data_extents(&from.join(&n));
        write_extents(&to.join(&n), len, &ext);
    }
}

pub fn rm_dir(d: &Path) {
    let _ = std::fs::remove_dir_all(d);
}

/// Runs `f`; a panic becomes an Err with its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    crate::QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    crate::QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| crate::LAST_PANIC.with(|p| p.borrow().clone()))
}
