//! An independent reader of the documented file format. It shares no code
//! with the library: bounds-checked, and safe against cycles.
use crate::util::*;
use crate::{ensure, fail};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub const CLASSES: [u32; 16] =
    [16, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024];
pub const SMALL: bool = cfg!(feature = "cfg_smallnode");
pub const NODE_CLASSES: [u32; 8] = if SMALL {
    [16, 32, 64, 96, 128, 160, 192, 224]
} else {
    [256, 512, 1024, 2048, 4096, 4352, 4608, 4864]
};
pub const DAT_HEADER: u64 = 192;
pub const IDX_HEADER: u64 = 128;
pub const SLOTS_MAX: usize = if SMALL { 6 } else { 64 };

#[derive(Debug, Clone)]
pub struct Piece {
    pub off: u64,
    pub size: u32,
    pub len: u32,
}

#[derive(Debug, Clone)]
pub struct Node {
    pub off: u64,
    pub size: u32,
    pub keys: usize,
    pub leaf: bool,
    pub depth: usize,
}

#[derive(Debug, Default)]
pub struct Db {
    pub sig: [u8; 8],
    pub top: u64,
    pub nodes: Vec<Node>,
    /// in tree order
    pub entries: Vec<(Vec<u8>, Vec<u8>)>,
    /// where in the index file each entry's key stands
    pub key_slots: Vec<u64>,
    pub key_pieces: Vec<Piece>,
    pub val_pieces: Vec<Piece>,
    /// (list number, piece)
    pub free_key: Vec<(usize, Piece)>,
    pub free_val: Vec<(usize, Piece)>,
    pub free_node: Vec<(usize, Piece)>,
    pub key_len: u64,
    pub val_len: u64,
    pub idx_len: u64,
    pub ht_size: u64,
    /// (slot, key piece)
    pub slots: Vec<(u64, u64)>,
    pub has_htx: bool,
    holes: Holes,
}

/// What the harness itself has put into the files: nothing, from an old end of
/// the file up to a far new one. No record may lie there.
pub type Holes = Vec<(&'static str, u64, u64)>;

struct F<'a> {
    name: &'a str,
    b: Vec<u8>,
    /// from and to, left out of `b`
    hole: (u64, u64),
}
impl F<'_> {
    fn get(&self, off: u64, n: usize, what: &str) -> R<&[u8]> {
        let (h0, h1) = self.hole;
        if h0 < h1 && off < h1 && off.saturating_add(n as u64) > h0 {
            fail!("{} file: {what} at offset {off} (+{n}) lies where nothing was ever stored ({h0}..{h1})", self.name);
        }
        let o = if off < h1 { off } else { off - (h1 - h0) } as usize;
        if off > (1 << 40) || o.checked_add(n).map_or(true, |e| e > self.b.len()) {
            fail!(
                "{} file: {what} at offset {off} (+{n}) lies outside the file of {} bytes",
                self.name,
                self.b.len()
            );
        }
        Ok(&self.b[o..o + n])
    }
    fn u16(&self, off: u64, what: &str) -> R<u16> {
        Ok(u16::from_le_bytes(self.get(off, 2, what)?.try_into().unwrap()))
    }
    fn u32(&self, off: u64, what: &str) -> R<u32> {
        Ok(u32::from_le_bytes(self.get(off, 4, what)?.try_into().unwrap()))
    }
    fn u64(&self, off: u64, what: &str) -> R<u64> {
        Ok(u64::from_le_bytes(self.get(off, 8, what)?.try_into().unwrap()))
    }
}

fn load<'a>(dir: &Path, map: &str, ext: &'a str, holes: &Holes) -> R<F<'a>> {
    use std::os::unix::fs::FileExt;
    let p = dir.join(format!("{map}.{ext}"));
    let hole = holes.iter().find(|h| h.0 == ext).map_or((0, 0), |h| (h.1, h.2));
    let r = if hole.0 < hole.1 {
        std::fs::File::open(&p).and_then(|f| {
            let len = f.metadata()?.len();
            ensure_io(len >= hole.1)?;
            let mut b = vec![0; (len - (hole.1 - hole.0)) as usize];
            let (x, y) = b.split_at_mut(hole.0 as usize);
            f.read_exact_at(x, 0)?;
            f.read_exact_at(y, hole.1)?;
            Ok(b)
        })
    } else {
        std::fs::read(&p)
    };
    match r {
        Ok(b) => Ok(F { name: ext, b, hole }),
        Err(e) => Err(Fail(format!("the {ext} file of the map cannot be read: {e}"))),
    }
}

fn ensure_io(ok: bool) -> std::io::Result<()> {
    if ok {
        Ok(())
    } else {
        Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "it has become shorter"))
    }
}

fn free_lists(f: &F, first: u64, lists: usize) -> R<Vec<(usize, Piece)>> {
    let mut out = Vec::new();
    let mut seen = BTreeSet::new();
    for l in 0..lists {
        let mut off = f.u64(first + 8 * l as u64, "the head of a free list")?;
        while off != 0 {
            ensure!(seen.insert(off), "{} file: the piece at {off} is twice in the free lists (list {l})", f.name);
            let size = f.u32(off, "a free piece")?;
            let len = f.u32(off + 4, "a free piece")?;
            let next = f.u64(off + 8, "a free piece")?;
            ensure!(size >= 16, "{} file: the free piece at {off} has the size {size}", f.name);
            f.get(off, size as usize, "a free piece")?;
            out.push((l, Piece { off, size, len }));
            off = next;
        }
    }
    Ok(out)
}

/// Reads the files of one map. Fails where the format itself is violated.
pub fn read(dir: &Path, map: &str) -> R<Db> {
    read_opt(dir, map, true)
}
pub fn read_opt(dir: &Path, map: &str, with_htx: bool) -> R<Db> {
    read_holes(dir, map, with_htx, &Vec::new())
}
pub fn read_holes(dir: &Path, map: &str, with_htx: bool, holes: &Holes) -> R<Db> {
    let key = load(dir, map, "key", holes)?;
    let val = load(dir, map, "val", holes)?;
    let idx = load(dir, map, "idx", holes)?;
    let end = |f: &F| f.b.len() as u64 + (f.hole.1 - f.hole.0);
    let mut db = Db {
        key_len: end(&key),
        val_len: end(&val),
        idx_len: end(&idx),
        holes: holes.clone(),
        ..Default::default()
    };
    let sig = |f: &F, want: &[u8; 8]| -> R<[u8; 8]> {
        let s = f.get(0, 8, "signature 1")?;
        ensure!(s == want, "{} file: signature 1 is {:?}", f.name, esc(s));
        Ok(f.get(8, 8, "signature 2")?.try_into().unwrap())
    };
    db.sig = sig(&key, b"siamdbK\0")?;
    ensure!(sig(&val, b"siamdbV\0")? == db.sig, "val file: signature 2 differs from the key file");
    ensure!(sig(&idx, b"siamdbT\0")? == db.sig, "idx file: signature 2 differs from the key file");
    ensure!(key.b.len() as u64 >= DAT_HEADER, "key file: shorter than its header");
    ensure!(val.b.len() as u64 >= DAT_HEADER, "val file: shorter than its header");
    ensure!(idx.b.len() as u64 >= IDX_HEADER, "idx file: shorter than its header");
    db.top = idx.u64(16, "the top node")?;

    // the tree, in order
    let mut seen_node = BTreeSet::new();
    let mut seen_key = BTreeSet::new();
    let mut seen_val = BTreeSet::new();
    struct Frame {
        off: u64,
        keys: Vec<u64>,
        downs: Vec<u64>,
        at: usize,
        depth: usize,
    }
    let mut stack: Vec<Frame> = Vec::new();
    let mut open_node = |off: u64, depth: usize, db: &mut Db| -> R<Frame> {
        ensure!(seen_node.insert(off), "idx file: the node at {off} is reached twice");
        ensure!(off >= IDX_HEADER, "idx file: a node at {off}");
        let size = idx.u16(off, "a node")? as u32;
        let leaf = idx.u16(off + 2, "a node")?;
        let n = idx.u16(off + 4, "a node")? as usize;
        ensure!(leaf <= 1, "idx file: the node at {off} has the leaf mark {leaf}");
        ensure!(n < SLOTS_MAX, "idx file: the node at {off} has {n} keys");
        let need = 6 + 8 * n + if leaf == 0 { 8 * (n + 1) } else { 0 };
        ensure!(need <= size as usize, "idx file: the node at {off} of the size {size} needs {need} bytes");
        idx.get(off, size as usize, "a node")?;
        ensure!(depth <= 64, "idx file: the tree is deeper than 64");
        let mut keys = Vec::new();
        for i in 0..n {
            keys.push(idx.u64(off + 6 + 8 * i as u64, "a node")?);
        }
        let mut downs = Vec::new();
        if leaf == 0 {
            for i in 0..=n {
                downs.push(idx.u64(off + 6 + 8 * (n + i) as u64, "a node")?);
            }
        }
        db.nodes.push(Node { off, size, keys: n, leaf: leaf == 1, depth });
        Ok(Frame { off, keys, downs, at: 0, depth })
    };
    let f = open_node(db.top, 1, &mut db)?;
    stack.push(f);
    let mut fresh = true;
    while let Some(fr) = stack.last_mut() {
        if fresh && !fr.downs.is_empty() {
            // enter child `at`
            let d = fr.downs[fr.at];
            let depth = fr.depth + 1;
            if d != 0 {
                let f = open_node(d, depth, &mut db)?;
                stack.push(f);
                continue;
            }
            fail!("idx file: a node which is no leaf has an empty child");
        }
        // child `at` is done
        if fr.at < fr.keys.len() {
            let ko = fr.keys[fr.at];
            db.key_slots.push(fr.off + 6 + 8 * fr.at as u64);
            fr.at += 1;
            ensure!(seen_key.insert(ko), "key file: the piece at {ko} is used twice");
            ensure!(ko >= DAT_HEADER, "key file: a piece at {ko}");
            let size = key.u32(ko, "a key piece")?;
            let len = key.u32(ko + 4, "a key piece")?;
            ensure!(16 + len as u64 <= size as u64, "key file: the piece at {ko} of the size {size} holds a key of {len} bytes");
            key.get(ko, size as usize, "a key piece")?;
            let k = key.get(ko + 8, len as usize, "a key")?.to_vec();
            let vo = key.u64(ko + 8 + len as u64, "a value offset")?;
            db.key_pieces.push(Piece { off: ko, size, len });
            ensure!(seen_val.insert(vo), "val file: the piece at {vo} is used twice");
            ensure!(vo >= DAT_HEADER, "val file: a piece at {vo}");
            let size = val.u32(vo, "a value piece")?;
            let len = val.u32(vo + 4, "a value piece")?;
            ensure!(8 + len as u64 <= size as u64, "val file: the piece at {vo} of the size {size} holds a value of {len} bytes");
            val.get(vo, size as usize, "a value piece")?;
            let v = val.get(vo + 8, len as usize, "a value")?.to_vec();
            db.val_pieces.push(Piece { off: vo, size, len });
            db.entries.push((k, v));
            fresh = true;
        } else {
            stack.pop();
            fresh = false;
        }
    }
    db.free_key = free_lists(&key, 32, 16)?;
    db.free_val = free_lists(&val, 32, 16)?;
    db.free_node = free_lists(&idx, 24, 8)?;

    // hash file (may be missing in a build without it)
    let hp = dir.join(format!("{map}.htx"));
    if with_htx && hp.exists() {
        let (len, ext) = data_extents(&hp);
        db.has_htx = true;
        let mut head = vec![0u8; 32];
        for (off, d) in &ext {
            if *off == 0 {
                let n = d.len().min(32);
                head[..n].copy_from_slice(&d[..n]);
            }
        }
        ensure!(&head[..8] == b"siamdbH\0", "htx file: signature 1 is {:?}", esc(&head[..8]));
        ensure!(head[8..16] == db.sig, "htx file: signature 2 differs from the key file");
        db.ht_size = u64::from_le_bytes(head[16..24].try_into().unwrap());
        ensure!(db.ht_size > 0 && 128 + 8 * db.ht_size == len, "htx file: {} slots in {} bytes", db.ht_size, len);
        for (off, d) in &ext {
            for (i, c) in d.chunks_exact(8).enumerate() {
                let pos = off + 8 * i as u64;
                let v = u64::from_le_bytes(c.try_into().unwrap());
                if pos >= 128 && v != 0 {
                    db.slots.push(((pos - 128) / 8, v));
                }
            }
        }
    }
    Ok(db)
}

impl Db {
    /// Every byte of the key, value and index files which belongs to no live
    /// pair and to no link is zero. Returns the number of bytes looked at.
    pub fn scrubbed(&self, dir: &Path, map: &str) -> R<u64> {
        let mut n = 0u64;
        let mut zero = |f: &F, a: u64, b: u64, what: &str| -> R {
            if a < b {
                let s = f.get(a, (b - a) as usize, what)?;
                n += s.len() as u64;
                if let Some(i) = s.iter().position(|x| *x != 0) {
                    let e = s[i..].iter().position(|x| *x == 0).unwrap_or(s.len() - i).min(40);
                    fail!(
                        "{} file: {what} at {a} to {b} is not empty: at {} it holds \"{}\"",
                        f.name,
                        a + i as u64,
                        esc(&s[i..i + e])
                    );
                }
            }
            Ok(())
        };
        let key = load(dir, map, "key", &self.holes)?;
        let val = load(dir, map, "val", &self.holes)?;
        let idx = load(dir, map, "idx", &self.holes)?;
        for p in &self.key_pieces {
            zero(&key, p.off + 16 + p.len as u64, p.off + p.size as u64, "the rest of a live key's record")?;
        }
        for p in &self.val_pieces {
            zero(&val, p.off + 8 + p.len as u64, p.off + p.size as u64, "the rest of a live value's record")?;
        }
        for p in &self.nodes {
            let used = 6 + 8 * p.keys + if p.leaf { 0 } else { 8 * (p.keys + 1) };
            zero(&idx, p.off + used as u64, p.off + p.size as u64, "the rest of a live node")?;
        }
        for (f, l) in [(&key, &self.free_key), (&val, &self.free_val), (&idx, &self.free_node)] {
            for (_, p) in l {
                zero(f, p.off + 16, p.off + p.size as u64, "a free record")?;
            }
        }
        zero(&key, 24, 32, "the header")?;
        zero(&val, 24, 32, "the header")?;
        zero(&key, 160, DAT_HEADER, "the header")?;
        zero(&val, 160, DAT_HEADER, "the header")?;
        zero(&idx, 88, IDX_HEADER, "the header")?;
        Ok(n)
    }
    /// the content equals the model
    pub fn same_as(&self, model: &BTreeMap<Vec<u8>, Vec<u8>>, what: &str) -> R {
        let mut n = 0;
        let mut it = self.entries.iter();
        for (k, v) in model {
            match it.next() {
                None => fail!("{what}: the stored tree has {n} keys instead of {}", model.len()),
                Some((gk, gv)) => {
                    ensure!(gk == k, "{what}: stored key {n} is \"{}\" instead of \"{}\"", esc(gk), esc(k));
                    ensure!(
                        gv == v,
                        "{what}: the stored value of \"{}\" is \"{}\" instead of \"{}\"",
                        esc(k),
                        esc(gv),
                        esc(v)
                    );
                }
            }
            n += 1;
        }
        if let Some((k, _)) = it.next() {
            fail!("{what}: the stored tree has the extra key \"{}\"", esc(k));
        }
        Ok(())
    }

    /// strict key order, all leaves at one depth, nodes at least half full
    pub fn tree(&self) -> R {
        for w in self.entries.windows(2) {
            ensure!(w[0].0 < w[1].0, "the keys \"{}\" and \"{}\" are not in order in the tree", esc(&w[0].0), esc(&w[1].0));
        }
        let mut depth = 0;
        for n in &self.nodes {
            if n.leaf {
                ensure!(depth == 0 || depth == n.depth, "leaves at the depths {depth} and {}", n.depth);
                depth = n.depth;
            }
            if n.off != self.top {
                ensure!(
                    n.keys + 1 >= SLOTS_MAX / 2,
                    "the node at {} of depth {} has only {} keys",
                    n.off,
                    n.depth,
                    n.keys
                );
            } else {
                ensure!(n.leaf || n.keys >= 1, "the top node has no key but a child");
            }
        }
        // 2 * half^(d-1) - 1 keys at least in a tree of depth d
        let keys = self.entries.len() as u128;
        if depth > 1 {
            let least = 2u128 * (SLOTS_MAX as u128 / 2).pow(depth as u32 - 1) - 1;
            ensure!(keys >= least, "the tree of {keys} keys has the depth {depth}");
        }
        Ok(())
    }
    pub fn depth(&self) -> usize {
        self.nodes.iter().map(|n| n.depth).max().unwrap_or(0)
    }

    /// live and free pieces cover each file exactly once
    pub fn accounting(&self) -> R {
        fn tile(name: &str, holes: &Holes, header: u64, len: u64, live: &[Piece], free: &[(usize, Piece)], classes: &[u32]) -> R {
            let hole = holes.iter().find(|h| h.0 == name).map_or((0, 0), |h| (h.1, h.2));
            let mut all: Vec<(u64, u32, &str)> = Vec::new();
            for p in live {
                all.push((p.off, p.size, "live"));
            }
            for (l, p) in free {
                let last = classes.len() - 1;
                let ok = if *l < last { p.size == classes[*l] } else { p.size >= classes[last] };
                ensure!(ok, "{name} file: the free piece at {} of the size {} is in the list {l}", p.off, p.size);
                all.push((p.off, p.size, "free"));
            }
            all.sort();
            let mut at = header;
            for (off, size, what) in all {
                if at == hole.0 && hole.0 < hole.1 {
                    at = hole.1;
                }
                ensure!(off >= at, "{name} file: the {what} piece at {off} overlaps the one before it, which ends at {at}");
                ensure!(off == at, "{name} file: the bytes {at}..{off} belong to no piece, neither live nor free");
                let known = classes.contains(&size) || (name != "idx" && size > 896 && size % 128 == 0);
                ensure!(known, "{name} file: the {what} piece at {off} has the size {size}");
                at = off + size as u64;
            }
            if at == hole.0 && hole.0 < hole.1 {
                at = hole.1;
            }
            ensure!(at == len, "{name} file: {} bytes at its end (from {at}) belong to no piece, neither live nor free", len as i64 - at as i64);
            Ok(())
        }
        tile("key", &self.holes, DAT_HEADER, self.key_len, &self.key_pieces, &self.free_key, &CLASSES)?;
        tile("val", &self.holes, DAT_HEADER, self.val_len, &self.val_pieces, &self.free_val, &CLASSES)?;
        let nodes: Vec<Piece> =
            self.nodes.iter().map(|n| Piece { off: n.off, size: n.size, len: 0 }).collect();
        tile("idx", &self.holes, IDX_HEADER, self.idx_len, &nodes, &self.free_node, &NODE_CLASSES)
    }

    /// every used slot of the hash table leads to a live key which hashes to it
    pub fn hash_table(&self, hash: impl Fn(&[u8]) -> u64) -> R {
        let mut at: BTreeMap<u64, usize> = BTreeMap::new();
        for (i, p) in self.key_pieces.iter().enumerate() {
            at.insert(p.off, i);
        }
        for (slot, off) in &self.slots {
            match at.get(off) {
                None => fail!("htx file: slot {slot} leads to {off}, where no live key is"),
                Some(&i) => {
                    let h = hash(&self.entries[i].0) % self.ht_size;
                    ensure!(h == *slot, "htx file: slot {slot} leads to the key \"{}\", which belongs to slot {h}", esc(&self.entries[i].0));
                }
            }
        }
        Ok(())
    }
}
