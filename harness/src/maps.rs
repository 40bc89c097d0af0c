//! One object-safe face over all maps of the library, so that the same
//! workload and the same oracle run over each of them.
use siamesedb::filedb::{
    CheckFileDbMap, FileDb, FileDbMapDbBytes, FileDbMapDbInt, FileDbMapDbString, FileDbParams,
};
use siamesedb::memdb::{MemoryDbMapDbBytes, MemoryDbMapDbInt, MemoryDbMapDbString};
use siamesedb::{DbBytes, DbInt, DbMap, DbMapKeyType, DbString, DbXxx, DbXxxBase, DbXxxObjectSafe};
use std::io::Result;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kt {
    Str,
    Int,
    Bytes,
}
pub const KTS: [Kt; 3] = [Kt::Str, Kt::Int, Kt::Bytes];

pub type Kv = (Vec<u8>, Vec<u8>);

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Snap {
    #[allow(dead_code)]
    pub balanced: bool,
    pub mst: bool,
    pub dense: bool,
    pub depth: u64,
    pub free_node: Vec<(u32, u64)>,
    pub free_key: Vec<(u32, u64)>,
    pub free_val: Vec<(u32, u64)>,
    pub used_key: Vec<(u32, u64)>,
    pub used_val: Vec<(u32, u64)>,
    pub used_node: Vec<(u32, u64)>,
    pub key_piece: String,
    pub val_piece: String,
    pub keys_count: String,
    pub key_len: String,
    pub val_len: String,
}

/// What a caller does with one iterator: steps, then the way it ends.
#[derive(Clone, Copy, Debug)]
pub enum Step {
    Next(usize),
    Nth(usize),
    Take(usize),
    Hint,
    Find(u8),
    Any(u8),
    Peek,
}
#[derive(Clone, Copy, Debug)]
pub enum End {
    Drop,
    Count,
    Last,
    Collect,
    Fold,
    Skip(usize),
    StepBy(usize),
    SkipWhile(u8),
    Max,
    Min,
    ForEach,
    Partition(u8),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    Item(Option<Kv>),
    Items(Vec<Kv>),
    Number(usize),
    Flag(bool),
    Hint(usize, Option<usize>),
}

/// The same walk over an iterator of the library and over one of the model.
pub fn walk<I: Iterator>(mut it: I, conv: impl Fn(I::Item) -> Kv, steps: &[Step], end: End) -> Vec<Seen> {
    let mut o = Vec::new();
    let last = |v: &Kv| v.0.last().copied().unwrap_or(0);
    for st in steps {
        match *st {
            Step::Next(n) => {
                for _ in 0..n {
                    o.push(Seen::Item(it.next().map(&conv)));
                }
            }
            Step::Nth(n) => o.push(Seen::Item(it.nth(n).map(&conv))),
            Step::Take(n) => o.push(Seen::Items(it.by_ref().take(n).map(&conv).collect())),
            Step::Hint => {
                let (a, b) = it.size_hint();
                o.push(Seen::Hint(a, b))
            }
            Step::Find(b) => {
                let r = it.by_ref().map(&conv).find(|v| last(v) & 7 == b);
                o.push(Seen::Item(r))
            }
            Step::Any(b) => {
                let r = it.any(|v| last(&conv(v)) & 15 == b);
                o.push(Seen::Flag(r))
            }
            Step::Peek => {
                let mut pk = it.by_ref().peekable();
                let a = pk.peek().is_some();
                let r = pk.next().map(&conv);
                o.push(Seen::Flag(a));
                o.push(Seen::Item(r));
            }
        }
    }
    match end {
        End::Drop => drop(it),
        End::Count => o.push(Seen::Number(it.count())),
        End::Last => o.push(Seen::Item(it.last().map(&conv))),
        End::Collect => o.push(Seen::Items(it.collect::<Vec<_>>().into_iter().map(&conv).collect())),
        End::Fold => {
            let r = it.fold(Vec::new(), |mut a, v| {
                a.push(conv(v));
                a
            });
            o.push(Seen::Items(r))
        }
        End::Skip(n) => o.push(Seen::Items(it.skip(n).map(&conv).collect())),
        End::StepBy(n) => o.push(Seen::Items(it.step_by(n).map(&conv).collect())),
        End::SkipWhile(b) => {
            o.push(Seen::Items(it.map(&conv).skip_while(|v| last(v) & 7 != b).collect()))
        }
        End::Max => {
            o.push(Seen::Item(it.map(&conv).max()))
        }
        End::Min => o.push(Seen::Item(it.map(&conv).min())),
        End::ForEach => {
            let mut r = Vec::new();
            it.for_each(|v| r.push(conv(v)));
            o.push(Seen::Items(r))
        }
        End::Partition(b) => {
            let (x, y): (Vec<Kv>, Vec<Kv>) = it.map(&conv).partition(|v| last(v) & 7 == b);
            o.push(Seen::Items(x));
            o.push(Seen::Items(y));
        }
    }
    o
}

pub trait Map {
    fn kt(&self) -> Kt;
    fn get(&mut self, k: &[u8], route: usize) -> Result<Option<Vec<u8>>>;
    fn put(&mut self, k: &[u8], v: &[u8], route: usize) -> Result<()>;
    fn del(&mut self, k: &[u8], route: usize) -> Result<Option<Vec<u8>>>;
    fn get_s(&mut self, k: &[u8]) -> Result<Option<String>>;
    fn put_s(&mut self, k: &[u8], v: &str) -> Result<()>;
    fn del_s(&mut self, k: &[u8]) -> Result<Option<String>>;
    fn bulk_get(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>>;
    fn bulk_put(&mut self, kvs: &[Kv]) -> Result<()>;
    fn bulk_del(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>>;
    fn bulk_get_s(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<String>>>;
    fn bulk_put_s(&mut self, kvs: &[(Vec<u8>, String)]) -> Result<()>;
    fn bulk_del_s(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<String>>>;
    fn flush(&mut self) -> Result<()>;
    fn sync_all(&mut self) -> Result<()>;
    fn sync_data(&mut self) -> Result<()>;
    fn read_fill(&mut self) -> Result<()>;
    fn dup<'a>(&self) -> Box<dyn Map + 'a>
    where
        Self: 'a;
    /// file maps only
    fn iter(&mut self, _mode: usize) -> Box<dyn Iterator<Item = Kv>> {
        unreachable!("harness: iter on a memory map")
    }
    /// file maps only: the walk on the iterator of the library itself
    fn walk(&mut self, _mode: usize, _steps: &[Step], _end: End) -> Vec<Seen> {
        unreachable!("harness: walk on a memory map")
    }
    fn is_file(&self) -> bool {
        false
    }
    fn is_dirty(&self) -> bool {
        unreachable!("harness: is_dirty on a memory map")
    }
    fn snap(&self) -> Result<Snap> {
        unreachable!("harness: snap on a memory map")
    }
    /// is_balanced, is_mst_valid, is_dense
    fn checks(&self) -> Result<(bool, bool, bool)> {
        unreachable!("harness: checks on a memory map")
    }
    fn graph(&self, _with_keys: bool) -> Result<String> {
        unreachable!("harness: graph on a memory map")
    }
    #[cfg(feature = "htx")]
    fn htx(&self) -> Result<((u64, u64), (u64, u32))> {
        unreachable!("harness: htx on a memory map")
    }
}

fn s(k: &[u8]) -> &str {
    std::str::from_utf8(k).expect("harness: key of a string map is not utf-8")
}
pub fn int(k: &[u8]) -> u64 {
    u64::from_be_bytes(k.try_into().expect("harness: key of an int map is not 8 bytes"))
}

/// calls `$m.$f(key as Q $(, args)*)` with one of the documented key arguments
macro_rules! route {
    (Str, $m:expr, $f:ident, $fk:ident, $k:expr, $route:expr $(, $a:expr)*) => {
        match $route % 3 + if std::str::from_utf8($k).is_ok() { 0 } else { 3 } {
            3 => $m.$f($k $(, $a)*),
            4 => $m.$f(&DbString::from($k) $(, $a)*),
            5 => $m.$fk(&DbString::from($k.to_vec()) $(, $a)*),
            0 => $m.$f(s($k) $(, $a)*),
            1 => $m.$f(&s($k).to_string() $(, $a)*),
            _ => $m.$fk(&DbString::from(s($k)) $(, $a)*),
        }
    };
    (Int, $m:expr, $f:ident, $fk:ident, $k:expr, $route:expr $(, $a:expr)*) => {
        match $route % 3 + if $k.len() == 8 { 0 } else { 3 } {
            3 => $m.$f($k $(, $a)*),
            4 => $m.$f(&DbInt::from($k) $(, $a)*),
            5 => $m.$fk(&DbInt::from($k.to_vec()) $(, $a)*),
            0 => $m.$f(&int($k) $(, $a)*),
            1 => $m.$f(&DbInt::from(int($k)) $(, $a)*),
            _ => $m.$fk(&DbInt::from(int($k)) $(, $a)*),
        }
    };
    (Bytes, $m:expr, $f:ident, $fk:ident, $k:expr, $route:expr $(, $a:expr)*) => {
        match $route % 3 {
            0 => $m.$f($k $(, $a)*),
            1 => $m.$f(&DbBytes::from($k) $(, $a)*),
            _ => $m.$fk(&DbBytes::from($k.to_vec()) $(, $a)*),
        }
    };
}

/// `$body` with `$ka` bound to the keys as what they are given as
macro_rules! with_keys {
    (Str, $ks:expr, $ka:ident, $body:expr) => {{
        if $ks.iter().all(|k| std::str::from_utf8(k).is_ok()) {
            let $ka: Vec<&str> = $ks.iter().map(|k| s(k)).collect();
            $body
        } else {
            let $ka: Vec<&[u8]> = $ks.iter().map(|k| &k[..]).collect();
            $body
        }
    }};
    (Int, $ks:expr, $ka:ident, $body:expr) => {{
        if $ks.iter().all(|k| k.len() == 8) {
            let ns: Vec<u64> = $ks.iter().map(|k| int(k)).collect();
            let $ka: Vec<&u64> = ns.iter().collect();
            $body
        } else {
            let $ka: Vec<&[u8]> = $ks.iter().map(|k| &k[..]).collect();
            $body
        }
    }};
    (Bytes, $ks:expr, $ka:ident, $body:expr) => {{
        let $ka: Vec<&[u8]> = $ks.iter().map(|k| &k[..]).collect();
        $body
    }};
}

macro_rules! common {
    ($kt:ident, $key:ident) => {
        fn kt(&self) -> Kt {
            Kt::$kt
        }
        fn get(&mut self, k: &[u8], route: usize) -> Result<Option<Vec<u8>>> {
            route!($kt, self.0, get, get_kt, k, route)
        }
        fn put(&mut self, k: &[u8], v: &[u8], route: usize) -> Result<()> {
            route!($kt, self.0, put, put_kt, k, route, v)
        }
        fn del(&mut self, k: &[u8], route: usize) -> Result<Option<Vec<u8>>> {
            route!($kt, self.0, delete, del_kt, k, route)
        }
        fn get_s(&mut self, k: &[u8]) -> Result<Option<String>> {
            self.0.get_string(&$key::from(k))
        }
        fn put_s(&mut self, k: &[u8], v: &str) -> Result<()> {
            self.0.put_string(&$key::from(k), v)
        }
        fn del_s(&mut self, k: &[u8]) -> Result<Option<String>> {
            self.0.delete_string(&$key::from(k))
        }
        fn flush(&mut self) -> Result<()> {
            self.0.flush()
        }
        fn sync_all(&mut self) -> Result<()> {
            self.0.sync_all()
        }
        fn sync_data(&mut self) -> Result<()> {
            self.0.sync_data()
        }
        fn read_fill(&mut self) -> Result<()> {
            self.0.read_fill_buffer()
        }
    };
}

macro_rules! bulk {
    ($kt:ident) => {
        fn bulk_get(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>> {
            with_keys!($kt, ks, ka, self.0.bulk_get(&ka))
        }
        fn bulk_del(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<Vec<u8>>>> {
            with_keys!($kt, ks, ka, self.0.bulk_delete(&ka))
        }
        fn bulk_get_s(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<String>>> {
            with_keys!($kt, ks, ka, self.0.bulk_get_string(&ka))
        }
        fn bulk_del_s(&mut self, ks: &[Vec<u8>]) -> Result<Vec<Option<String>>> {
            with_keys!($kt, ks, ka, self.0.bulk_delete_string(&ka))
        }
        fn bulk_put(&mut self, kvs: &[Kv]) -> Result<()> {
            let ks: Vec<Vec<u8>> = kvs.iter().map(|a| a.0.clone()).collect();
            with_keys!($kt, ks, ka, {
                let v: Vec<_> = ka.iter().zip(kvs).map(|(&k, kv)| (k, &kv.1[..])).collect();
                self.0.bulk_put(&v)
            })
        }
        fn bulk_put_s(&mut self, kvs: &[(Vec<u8>, String)]) -> Result<()> {
            let ks: Vec<Vec<u8>> = kvs.iter().map(|a| a.0.clone()).collect();
            with_keys!($kt, ks, ka, {
                let v: Vec<_> = ka.iter().zip(kvs).map(|(&k, kv)| (k, kv.1.clone())).collect();
                self.0.bulk_put_string(&v)
            })
        }
    };
}

macro_rules! file_part {
    ($name:ident) => {
        fn dup<'a>(&self) -> Box<dyn Map + 'a>
        where
            Self: 'a,
        {
            Box::new($name(self.0.clone()))
        }
        fn iter(&mut self, mode: usize) -> Box<dyn Iterator<Item = Kv>> {
            match mode % 5 {
                0 => Box::new(self.0.iter().map(|(k, v)| (k.as_bytes().to_vec(), v))),
                1 => Box::new(self.0.iter_mut().map(|(k, v)| (k.as_bytes().to_vec(), v))),
                2 => Box::new(self.0.clone().into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v))),
                3 => Box::new((&self.0).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v))),
                _ => Box::new((&mut self.0).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v))),
            }
        }
        fn walk(&mut self, mode: usize, steps: &[Step], end: End) -> Vec<Seen> {
            let c = |(k, v): (_, Vec<u8>)| (DbMapKeyType::as_bytes(&k).to_vec(), v);
            match mode % 5 {
                0 => walk(self.0.iter(), c, steps, end),
                1 => walk(self.0.iter_mut(), c, steps, end),
                2 => walk(self.0.clone().into_iter(), c, steps, end),
                3 => walk((&self.0).into_iter(), c, steps, end),
                _ => walk((&mut self.0).into_iter(), c, steps, end),
            }
        }
        fn is_file(&self) -> bool {
            true
        }
        fn is_dirty(&self) -> bool {
            self.0.is_dirty()
        }
        fn snap(&self) -> Result<Snap> {
            let m = &self.0;
            let (used_key, used_val, used_node) = m.count_of_used_node()?;
            Ok(Snap {
                balanced: m.is_balanced()?,
                mst: m.is_mst_valid()?,
                dense: m.is_dense()?,
                depth: m.depth_of_node_tree()?,
                free_node: m.count_of_free_node()?,
                free_key: m.count_of_free_key_piece()?,
                free_val: m.count_of_free_value_piece()?,
                used_key,
                used_val,
                used_node,
                key_piece: m.key_piece_size_stats()?.to_string(),
                val_piece: m.value_piece_size_stats()?.to_string(),
                keys_count: m.keys_count_stats()?.to_string(),
                key_len: m.key_length_stats()?.to_string(),
                val_len: m.value_length_stats()?.to_string(),
            })
        }
        fn checks(&self) -> Result<(bool, bool, bool)> {
            Ok((self.0.is_balanced()?, self.0.is_mst_valid()?, self.0.is_dense()?))
        }
        fn graph(&self, with_keys: bool) -> Result<String> {
            if with_keys {
                self.0.graph_string_with_key_string()
            } else {
                self.0.graph_string()
            }
        }
        #[cfg(feature = "htx")]
        fn htx(&self) -> Result<((u64, u64), (u64, u32))> {
            Ok((self.0.ht_size_and_count()?, self.0.htx_filling_rate_per_mill()?))
        }
    };
}
macro_rules! mem_part {
    ($name:ident) => {
        fn dup<'b>(&self) -> Box<dyn Map + 'b>
        where
            Self: 'b,
        {
            Box::new($name(self.0.clone()))
        }
    };
}

pub struct FStr(pub FileDbMapDbString);
pub struct FInt(pub FileDbMapDbInt);
pub struct FBytes(pub FileDbMapDbBytes);
pub struct MStr<'a>(pub MemoryDbMapDbString<'a>);
pub struct MInt<'a>(pub MemoryDbMapDbInt<'a>);
pub struct MBytes<'a>(pub MemoryDbMapDbBytes<'a>);

impl Map for FStr {
    common!(Str, DbString);
    bulk!(Str);
    file_part!(FStr);
}
impl Map for FInt {
    common!(Int, DbInt);
    bulk!(Int);
    file_part!(FInt);
}
impl Map for FBytes {
    common!(Bytes, DbBytes);
    bulk!(Bytes);
    file_part!(FBytes);
}
impl Map for MStr<'_> {
    common!(Str, DbString);
    bulk!(Str);
    mem_part!(MStr);
}
impl Map for MInt<'_> {
    common!(Int, DbInt);
    bulk!(Int);
    mem_part!(MInt);
}
impl Map for MBytes<'_> {
    common!(Bytes, DbBytes);
    bulk!(Bytes);
    mem_part!(MBytes);
}

/// Opens (or gets) a map of a file database.
pub fn open_map(db: &FileDb, kt: Kt, name: &str, p: Option<FileDbParams>) -> Result<Box<dyn Map>> {
    Ok(match (kt, p) {
        (Kt::Str, None) => Box::new(FStr(db.db_map_string(name)?)),
        (Kt::Str, Some(p)) => Box::new(FStr(db.db_map_string_with_params(name, p)?)),
        (Kt::Int, None) => Box::new(FInt(db.db_map_int(name)?)),
        (Kt::Int, Some(p)) => Box::new(FInt(db.db_map_int_with_params(name, p)?)),
        (Kt::Bytes, None) => Box::new(FBytes(db.db_map_bytes(name)?)),
        (Kt::Bytes, Some(p)) => Box::new(FBytes(db.db_map_bytes_with_params(name, p)?)),
    })
}
pub fn open_mem<'a>(
    db: &'a siamesedb::memdb::MemoryDb<'a>,
    kt: Kt,
    name: &str,
) -> Box<dyn Map + 'a> {
    match kt {
        Kt::Str => Box::new(MStr(db.db_map_string(name))),
        Kt::Int => Box::new(MInt(db.db_map_dbint(name))),
        Kt::Bytes => Box::new(MBytes(db.db_map_bytes(name))),
    }
}
