//! Operation scripts, the reference model, and the player that compares both.
use crate::gen::{self, Uni, Val};
use crate::maps::*;
use crate::util::*;
use crate::{ensure, fail};
use std::collections::BTreeMap;

pub type Model = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub p: Val,
    pub tag: u64,
    pub seed: u64,
}
impl V {
    pub fn make(&self) -> Vec<u8> {
        gen::value(self.p, self.tag, &mut Rng::new(self.seed))
    }
    pub fn text(&self) -> String {
        String::from_utf8(gen::value(Val::Text, self.tag, &mut Rng::new(self.seed)))
            .expect("harness: text value")
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Get(usize),
    Put(usize, V),
    Del(usize),
    PutS(usize, V),
    GetS(usize),
    DelS(usize),
    BulkGet(Vec<usize>, bool),
    BulkPut(Vec<(usize, V)>, bool),
    BulkDel(Vec<usize>, bool),
    Flush,
    SyncAll,
    SyncData,
    ReadFill,
}

#[derive(Clone, Copy, Debug)]
pub enum Order {
    Asc,
    Desc,
    Rand,
    Inside,
}

#[derive(Clone, Copy, Debug)]
pub enum Ph {
    /// put this share (per cent) of the universe
    Fill(Order, usize),
    /// delete this share of the universe
    Drain(Order, usize),
    Churn(usize),
    Overwrite(usize),
    Reads(usize),
    Bulk(usize),
}

#[derive(Clone)]
pub struct Script {
    pub kt: Kt,
    pub uni: Vec<Vec<u8>>,
    pub ops: Vec<Op>,
    pub name: String,
    /// where the phases end
    pub marks: Vec<usize>,
    pub deep: bool,
}
impl Script {
    /// where to cut next: anywhere, at times at the end of a phase; a deep tree is seen at its deepest
    pub fn cut(&self, at: usize, rng: &mut Rng) -> usize {
        if self.deep && at < self.marks[0] {
            return self.marks[0];
        }
        if rng.chance(if self.deep { 50 } else { 15 }) {
            if let Some(m) = self.marks.iter().find(|m| **m > at) {
                return *m;
            }
        }
        at + rng.below(self.ops.len() - at + 1)
    }
}

pub struct Opts {
    /// share of reads mixed into writing phases
    pub reads: usize,
    /// share of reads which ask for a key that may be absent
    pub misses: bool,
    pub syncs: bool,
    pub strings: bool,
    pub bulk: bool,
}

fn order(uni: &[Vec<u8>], o: Order, share: usize, rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..uni.len()).collect();
    match o {
        Order::Rand => rng.shuffle(&mut v),
        _ => v.sort_by(|&a, &b| uni[a].cmp(&uni[b])),
    }
    if let Order::Desc = o {
        v.reverse()
    }
    if let Order::Inside = o {
        let mid = v.len() / 2;
        let (a, b) = v.split_at(mid);
        let (a, b) = (a.to_vec(), b.to_vec());
        let mut w = Vec::new();
        for i in 0..b.len() {
            w.push(b[i]);
            if i < a.len() {
                w.push(a[a.len() - 1 - i]);
            }
        }
        v = w;
    }
    let n = (v.len() * share + 99) / 100;
    if share < 100 && rng.chance(50) {
        // a run in the middle instead of the beginning
        let st = rng.below(v.len().saturating_sub(n) + 1);
        v = v[st..].to_vec();
    }
    v.truncate(n);
    v
}

pub fn script(kt: Kt, uni: Vec<Vec<u8>>, val: Val, phases: &[Ph], o: &Opts, rng: &mut Rng) -> Script {
    let mut ops = Vec::new();
    let mut tag = rng.next() >> 24;
    let n = uni.len();
    let mut mkv = |rng: &mut Rng| {
        tag += 1;
        V { p: val, tag, seed: rng.next() }
    };
    let read = |ops: &mut Vec<Op>, rng: &mut Rng, recent: usize| {
        let i = if o.misses { rng.below(n) } else { recent };
        if o.strings && rng.chance(20) {
            ops.push(Op::GetS(i))
        } else {
            ops.push(Op::Get(i))
        }
    };
    let mut marks = Vec::new();
    for ph in phases {
        match *ph {
            Ph::Fill(or, share) => {
                for i in order(&uni, or, share, rng) {
                    let v = mkv(rng);
                    if o.strings && rng.chance(10) {
                        ops.push(Op::PutS(i, v));
                    } else {
                        ops.push(Op::Put(i, v));
                    }
                    if rng.chance(o.reads) {
                        read(&mut ops, rng, i);
                    }
                }
            }
            Ph::Drain(or, share) => {
                for i in order(&uni, or, share, rng) {
                    if o.strings && rng.chance(10) {
                        ops.push(Op::DelS(i));
                    } else {
                        ops.push(Op::Del(i));
                    }
                    if rng.chance(o.reads) {
                        read(&mut ops, rng, i);
                    }
                }
            }
            Ph::Churn(m) => {
                for _ in 0..m {
                    let i = rng.below(n);
                    match rng.below(100) {
                        0..=44 => ops.push(Op::Put(i, mkv(rng))),
                        45..=84 => ops.push(Op::Del(i)),
                        85..=97 => read(&mut ops, rng, i),
                        _ if o.syncs => ops.push(match rng.below(4) {
                            0 => Op::Flush,
                            1 => Op::SyncAll,
                            2 => Op::SyncData,
                            _ => Op::ReadFill,
                        }),
                        _ => read(&mut ops, rng, i),
                    }
                }
            }
            Ph::Overwrite(m) => {
                // a few keys, again and again, with sizes that change
                let few = 1 + rng.below(12.min(n.max(1)));
                let st = rng.below(n);
                for _ in 0..m {
                    let i = if rng.chance(70) { (st + rng.below(few)) % n } else { rng.below(n) };
                    ops.push(Op::Put(i, mkv(rng)));
                    if rng.chance(o.reads) {
                        read(&mut ops, rng, i);
                    }
                }
            }
            Ph::Reads(m) => {
                for _ in 0..m {
                    let i = rng.below(n);
                    ops.push(if o.strings && rng.chance(20) { Op::GetS(i) } else { Op::Get(i) });
                }
            }
            Ph::Bulk(m) => {
                for _ in 0..m {
                    if !o.bulk {
                        break;
                    }
                    let few = rng.chance(50);
                    let len = match rng.below(6) {
                        0 => rng.below(2),
                        1..=3 => rng.below(20),
                        _ => rng.below(200),
                    };
                    let st = rng.below(n);
                    let pick = |rng: &mut Rng| {
                        if few {
                            (st + rng.below(6)) % n
                        } else {
                            rng.below(n)
                        }
                    };
                    let s = rng.chance(30);
                    match rng.below(3) {
                        0 => ops.push(Op::BulkGet((0..len).map(|_| pick(rng)).collect(), s)),
                        1 => {
                            let mut kv = Vec::new();
                            for _ in 0..len {
                                let i = pick(rng);
                                kv.push((i, mkv(rng)));
                            }
                            ops.push(Op::BulkPut(kv, s))
                        }
                        _ => ops.push(Op::BulkDel((0..len).map(|_| pick(rng)).collect(), s)),
                    }
                }
            }
        }
        marks.push(ops.len());
    }
    let name = format!(
        "{:?} keys={} values={:?} phases={:?} ops={}",
        kt,
        n,
        val,
        phases,
        ops.len()
    );
    Script { kt, uni, ops, name, marks, deep: false }
}

/// Script sizes: the tree has up to 63 keys in a node, 32..64 children.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Size {
    Tiny,
    Node,
    Two,
    Mid,
    Big,
}

pub fn pick_order(rng: &mut Rng) -> Order {
    *rng.pick(&[Order::Asc, Order::Desc, Order::Rand, Order::Rand, Order::Inside])
}

/// A random script of a size class.
/// `raw`: keys of any bytes, also those which are no text or no number (a key may be given as its bytes)
pub fn random_script(kt: Kt, size: Size, raw: bool, rng: &mut Rng) -> Script {
    let mut ukind = *rng.pick(&gen::UNIS);
    if size == Size::Big && matches!(ukind, Uni::Long | Uni::Extreme | Uni::Mixed | Uni::Alphabet) {
        ukind = Uni::Rand;
    }
    let mut val = *rng.pick(&gen::VALS);
    let n = match size {
        Size::Tiny => rng.range(1, 12),
        Size::Node => rng.range(50, 150),
        Size::Two => rng.range(400, 1600),
        Size::Mid => rng.range(2500, 6000),
        Size::Big => rng.range(60_000, 75_000),
    };
    match size {
        Size::Tiny | Size::Node if rng.chance(8) => val = Val::Huge,
        Size::Big => val = *rng.pick(&[Val::Small, Val::Fixed(8), Val::Fixed(0)]),
        Size::Mid if val == Val::Large => val = Val::Mixed,
        _ => {}
    }
    let uni = gen::universe(if raw { Kt::Bytes } else { kt }, ukind, n, rng);
    let n = uni.len();
    let mut ph = Vec::new();
    let m = match size {
        Size::Tiny => 400,
        Size::Node => 700,
        Size::Two => 2500,
        Size::Mid => 5000,
        Size::Big => 20_000,
    };
    let m = if matches!(val, Val::Huge | Val::Large) { m / 8 } else { m };
    let rounds = match size {
        Size::Tiny | Size::Node => 3 + rng.below(5),
        Size::Two => 2 + rng.below(4),
        Size::Mid => 2 + rng.below(2),
        Size::Big => 1,
    };
    let share = rng.range(60, 100);
    ph.push(Ph::Fill(pick_order(rng), share));
    for _ in 0..rounds {
        let x = rng.range(1, 100);
        ph.push(match rng.below(9) {
            0 | 1 => Ph::Churn(m),
            2 => Ph::Overwrite(m / 2),
            3 => Ph::Drain(pick_order(rng), x),
            4 => Ph::Drain(pick_order(rng), 100),
            5 => Ph::Fill(pick_order(rng), x),
            6 => Ph::Fill(pick_order(rng), 100),
            7 => Ph::Reads(m / 4),
            _ => Ph::Drain(pick_order(rng), 90),
        });
    }
    if size == Size::Big {
        ph.push(Ph::Drain(pick_order(rng), rng.range(30, 95)));
        ph.push(Ph::Churn(m));
    }
    let o = Opts {
        reads: *rng.pick(&[0, 0, 5, 40]),
        misses: rng.chance(70),
        syncs: rng.chance(50),
        strings: rng.chance(30),
        bulk: false,
    };
    let mut s = script(kt, uni, val, &ph, &o, rng);
    s.name = format!("{:?} {}{} keys={} values={:?} {:?}", ukind, kt_name(kt), if raw { " (raw)" } else { "" }, n, val, ph);
    s
}

/// A tree of four levels with nodes of the ordinary size: ascending insertion leaves half-full nodes.
pub fn deep_script(kt: Kt, rng: &mut Rng) -> Script {
    let n = rng.range(68_000, 80_000);
    let uni = gen::universe(kt, Uni::Seq, n, rng);
    let val = *rng.pick(&[Val::Fixed(8), Val::Fixed(0), Val::Fixed(15)]);
    let mut ph = vec![Ph::Fill(Order::Asc, 100), Ph::Churn(2000)];
    match rng.below(4) {
        0 => ph.push(Ph::Drain(Order::Asc, rng.range(5, 60))),
        1 => ph.push(Ph::Drain(Order::Desc, rng.range(5, 60))),
        2 => ph.push(Ph::Drain(pick_order(rng), rng.range(60, 100))),
        _ => {}
    }
    ph.push(Ph::Churn(4000));
    let o = Opts { reads: 2, misses: true, syncs: false, strings: false, bulk: false };
    let mut s = script(kt, uni, val, &ph, &o, rng);
    s.deep = true;
    s.name = format!("deep {} keys={} values={:?} {:?}", kt_name(kt), n, val, ph);
    s
}

/// A tree of many nodes, filled in any order, then small changes all over it.
/// The second value is the number of operations which fill it.
pub fn wide_script(kt: Kt, rng: &mut Rng) -> (Script, usize) {
    let n = rng.range(4000, 12_000);
    let uni = gen::universe(kt, Uni::Seq, n, rng);
    let val = *rng.pick(&[Val::Fixed(8), Val::Fixed(0), Val::Fixed(20)]);
    let order = pick_order(rng);
    let o = Opts { reads: 0, misses: false, syncs: false, strings: false, bulk: false };
    let mut s = script(kt, uni.clone(), val, &[Ph::Fill(order, 100)], &o, rng);
    let filled = s.ops.len();
    let o = Opts { reads: 10, misses: true, ..o };
    let c = script(kt, uni, val, &[Ph::Drain(Order::Rand, 3), Ph::Churn(500)], &o, rng);
    s.ops.extend(c.ops);
    s.name = format!("wide {} keys={n} values={val:?} {order:?}", kt_name(kt));
    (s, filled)
}

/// Few keys, some of them very long, with values of up to 9 MB.
pub fn giant_script(kt: Kt, rng: &mut Rng) -> Script {
    let n = rng.range(3, 14);
    let mut uni = gen::universe(kt, Uni::Seq, n, rng);
    if !matches!(kt, Kt::Int) {
        for k in uni.iter_mut() {
            if rng.chance(30) {
                let l = gen::giant_len(rng) / 4;
                let c = b'a' + rng.below(3) as u8;
                k.splice(0..0, std::iter::repeat(c).take(l));
            }
        }
    }
    let mut ph = vec![Ph::Fill(pick_order(rng), 100)];
    for _ in 0..rng.range(1, 4) {
        ph.push(match rng.below(4) {
            0 => Ph::Drain(pick_order(rng), rng.range(30, 100)),
            1 => Ph::Overwrite(n),
            2 => Ph::Fill(pick_order(rng), 100),
            _ => Ph::Churn(n * 2),
        });
    }
    let o = Opts { reads: 50, misses: true, syncs: false, strings: false, bulk: false };
    let mut s = script(kt, uni, Val::Giant, &ph, &o, rng);
    s.name = format!("giant {} keys={n} {ph:?}", kt_name(kt));
    s
}

/// So many free records and nodes that 16 bits do not count them.
pub fn crowd_script(kt: Kt, rng: &mut Rng) -> Script {
    let n = rng.range(67_000, 80_000);
    let uni = gen::universe(kt, Uni::Seq, n, rng);
    let val = *rng.pick(&[Val::Fixed(8), Val::Fixed(4), Val::Fixed(20)]);
    let ph = vec![
        Ph::Fill(Order::Asc, 100),
        Ph::Drain(pick_order(rng), 100),
        Ph::Fill(pick_order(rng), rng.range(1, 20)),
        Ph::Churn(1000),
    ];
    let o = Opts { reads: 1, misses: true, syncs: false, strings: false, bulk: false };
    let mut s = script(kt, uni, val, &ph, &o, rng);
    s.deep = true;
    s.name = format!("crowd {} keys={n} values={val:?} {ph:?}", kt_name(kt));
    s
}

pub fn kt_name(kt: Kt) -> &'static str {
    match kt {
        Kt::Str => "string",
        Kt::Int => "int",
        Kt::Bytes => "bytes",
    }
}

fn lossy(v: Option<&Vec<u8>>) -> Option<String> {
    v.map(|v| String::from_utf8_lossy(v).to_string())
}

/// Performs one operation on the map and on the model and compares what they return.
pub fn apply(cx: &mut Cx, map: &mut dyn Map, model: &mut Model, s: &Script, at: usize) -> R {
    let route = at;
    let k = |i: usize| -> &[u8] { &s.uni[i] };
    match &s.ops[at] {
        Op::Get(i) => {
            let got = io("get", map.get(k(*i), route))?;
            let want = model.get(k(*i));
            cx.st.add(if want.is_some() { "get_hit" } else { "get_miss" }, 1);
            ensure!(
                got.as_ref() == want,
                "get(\"{}\") at operation {at} returned {} instead of {}",
                esc(k(*i)),
                esc_opt(&got),
                esc_opt(&want.cloned())
            );
        }
        Op::Put(i, v) => {
            let v = v.make();
            io("put", map.put(k(*i), &v, route))?;
            let old = model.insert(k(*i).to_vec(), v);
            cx.st.add(if old.is_some() { "put_overwrite" } else { "put_new" }, 1);
        }
        Op::Del(i) => {
            let got = io("delete", map.del(k(*i), route))?;
            let want = model.remove(k(*i));
            cx.st.add(if want.is_some() { "delete_hit" } else { "delete_miss" }, 1);
            ensure!(
                got == want,
                "delete(\"{}\") at operation {at} returned {} instead of {}",
                esc(k(*i)),
                esc_opt(&got),
                esc_opt(&want)
            );
        }
        Op::PutS(i, v) => {
            let v = v.text();
            io("put_string", map.put_s(k(*i), &v))?;
            let old = model.insert(k(*i).to_vec(), v.into_bytes());
            cx.st.add(if old.is_some() { "put_overwrite" } else { "put_new" }, 1);
        }
        Op::GetS(i) => {
            let got = io("get_string", map.get_s(k(*i)))?;
            let want = lossy(model.get(k(*i)));
            cx.st.add(if want.is_some() { "get_hit" } else { "get_miss" }, 1);
            ensure!(
                got == want,
                "get_string(\"{}\") at operation {at} returned {got:?} instead of {want:?}",
                esc(k(*i))
            );
        }
        Op::DelS(i) => {
            let got = io("delete_string", map.del_s(k(*i)))?;
            let want = lossy(model.remove(k(*i)).as_ref());
            cx.st.add(if want.is_some() { "delete_hit" } else { "delete_miss" }, 1);
            ensure!(
                got == want,
                "delete_string(\"{}\") at operation {at} returned {got:?} instead of {want:?}",
                esc(k(*i))
            );
        }
        Op::BulkGet(is, st) => {
            let ks: Vec<Vec<u8>> = is.iter().map(|&i| k(i).to_vec()).collect();
            cx.st.add("bulk_get_keys", ks.len() as u64);
            if *st {
                let got = io("bulk_get_string", map.bulk_get_s(&ks))?;
                let want: Vec<_> = ks.iter().map(|k| lossy(model.get(k))).collect();
                ensure!(got == want, "bulk_get_string of {} keys at operation {at}: {}", ks.len(), first_diff(&got, &want));
            } else {
                let got = io("bulk_get", map.bulk_get(&ks))?;
                let want: Vec<_> = ks.iter().map(|k| model.get(k).cloned()).collect();
                ensure!(got == want, "bulk_get of {} keys at operation {at}: {}", ks.len(), first_diff(&got, &want));
            }
        }
        Op::BulkPut(kvs, st) => {
            cx.st.add("bulk_put_keys", kvs.len() as u64);
            if *st {
                let kv: Vec<(Vec<u8>, String)> =
                    kvs.iter().map(|(i, v)| (k(*i).to_vec(), v.text())).collect();
                io("bulk_put_string", map.bulk_put_s(&kv))?;
                for (k, v) in kv {
                    model.insert(k, v.into_bytes());
                }
            } else {
                let kv: Vec<Kv> = kvs.iter().map(|(i, v)| (k(*i).to_vec(), v.make())).collect();
                io("bulk_put", map.bulk_put(&kv))?;
                for (k, v) in kv {
                    model.insert(k, v);
                }
            }
        }
        Op::BulkDel(is, st) => {
            let ks: Vec<Vec<u8>> = is.iter().map(|&i| k(i).to_vec()).collect();
            cx.st.add("bulk_delete_keys", ks.len() as u64);
            if *st {
                let got = io("bulk_delete_string", map.bulk_del_s(&ks))?;
                let want: Vec<_> = ks.iter().map(|k| lossy(model.remove(k).as_ref())).collect();
                ensure!(got == want, "bulk_delete_string of {} keys at operation {at}: {}", ks.len(), first_diff(&got, &want));
            } else {
                let got = io("bulk_delete", map.bulk_del(&ks))?;
                let want: Vec<_> = ks.iter().map(|k| model.remove(k)).collect();
                ensure!(got == want, "bulk_delete of {} keys at operation {at}: {}", ks.len(), first_diff(&got, &want));
            }
        }
        Op::Flush => io("flush", map.flush())?,
        Op::SyncAll => io("sync_all", map.sync_all())?,
        Op::SyncData => io("sync_data", map.sync_data())?,
        Op::ReadFill => io("read_fill_buffer", map.read_fill())?,
    }
    cx.st.add("operations", 1);
    Ok(())
}

fn first_diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> String {
    if got.len() != want.len() {
        return format!("{} results instead of {}", got.len(), want.len());
    }
    for i in 0..got.len() {
        if got[i] != want[i] {
            let g: String = format!("{:?}", got[i]).chars().take(80).collect();
            let w: String = format!("{:?}", want[i]).chars().take(80).collect();
            return format!("result {i} is {g} instead of {w}");
        }
    }
    "equal".into()
}

pub fn play(cx: &mut Cx, map: &mut dyn Map, model: &mut Model, s: &Script) -> R {
    play_range(cx, map, model, s, 0, s.ops.len())
}
pub fn play_range(cx: &mut Cx, map: &mut dyn Map, model: &mut Model, s: &Script, a: usize, b: usize) -> R {
    for at in a..b {
        apply(cx, map, model, s, at)?;
    }
    cx.st.max("live_keys_max", model.len() as u64);
    Ok(())
}

/// Every key of the universe answers as in the model (a sample of big universes).
pub fn verify_gets(cx: &mut Cx, map: &mut dyn Map, model: &Model, uni: &[Vec<u8>], rng: &mut Rng, what: &str) -> R {
    let n = uni.len();
    let cap = 8000;
    let mut idx: Vec<usize> = (0..n).collect();
    if rng.chance(50) || n > cap {
        rng.shuffle(&mut idx);
        idx.truncate(cap);
    }
    for i in idx {
        let got = io("get", map.get(&uni[i], i))?;
        ensure!(
            got.as_ref() == model.get(&uni[i]),
            "{what}: get(\"{}\") returned {} instead of {}",
            esc(&uni[i]),
            esc_opt(&got),
            esc_opt(&model.get(&uni[i]).cloned())
        );
        cx.st.add("verified_gets", 1);
    }
    Ok(())
}

/// The iteration yields exactly the model, in its order, and then nothing.
pub fn verify_iter(cx: &mut Cx, map: &mut dyn Map, model: &Model, mode: usize, what: &str) -> R {
    let mut it = map.iter(mode);
    let mut n = 0usize;
    for (k, v) in model.iter() {
        match it.next() {
            None => fail!("{what}: the iteration ended after {n} of {} pairs", model.len()),
            Some((gk, gv)) => {
                ensure!(
                    &gk == k,
                    "{what}: pair {n} of the iteration has the key \"{}\" instead of \"{}\"",
                    esc(&gk),
                    esc(k)
                );
                ensure!(
                    &gv == v,
                    "{what}: the iteration gives the key \"{}\" the value \"{}\" instead of \"{}\"",
                    esc(k),
                    esc(&gv),
                    esc(v)
                );
            }
        }
        n += 1;
    }
    for _ in 0..3 {
        if let Some((k, _)) = it.next() {
            fail!("{what}: after all {} pairs the iteration yields the key \"{}\"", n, esc(&k));
        }
    }
    cx.st.add("iterated_pairs", n as u64);
    cx.st.add("iterations", 1);
    Ok(())
}

/// A walk with the methods of `Iterator`, broken off or not, has to give what
/// the same walk over the model gives.
pub fn verify_walk(cx: &mut Cx, map: &mut dyn Map, model: &Model, mode: usize, what: &str) -> R {
    let n = model.len();
    let pick = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1 => n,
        2 => n + 1 + r.below(3),
        3 => n.saturating_sub(1 + r.below(2)),
        _ => {
            let m = 1 << r.below(13);
            r.below((n + 2).min(1 + m))
        }
    };
    let rng = &mut cx.rng;
    let steps: Vec<Step> = (0..rng.below(6))
        .map(|_| match rng.below(9) {
            0 | 1 => Step::Next(rng.below(5)),
            2 | 3 => Step::Nth(pick(rng)),
            4 => Step::Take(pick(rng)),
            5 => Step::Find(rng.below(8) as u8),
            6 => Step::Any(rng.below(16) as u8),
            7 => Step::Peek,
            _ => Step::Hint,
        })
        .collect();
    let end = match rng.below(12) {
        0 => End::Drop,
        1 | 2 => End::Count,
        3 => End::Last,
        4 => End::Collect,
        5 => End::Fold,
        6 => End::Skip(pick(rng)),
        7 => End::StepBy(1 + pick(rng)),
        8 => End::SkipWhile(rng.below(8) as u8),
        9 => [End::Max, End::Min][rng.below(2)],
        10 => End::ForEach,
        _ => End::Partition(rng.below(8) as u8),
    };
    let got = map.walk(mode, &steps, end);
    let want = walk(model.iter(), |(k, v)| (k.clone(), v.clone()), &steps, end);
    ensure!(got.len() == want.len(), "harness: walks of different lengths");
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let ok = match (g, w) {
            // the model knows how many are left
            (Seen::Hint(lo, hi), Seen::Hint(n, _)) => *lo <= *n && hi.map_or(true, |h| *n <= h),
            _ => g == w,
        };
        if !ok {
            let show = |s: &Seen| match s {
                Seen::Items(v) => format!("{} pairs", v.len()),
                Seen::Item(Some(v)) => format!("the key \"{}\"", esc(&v.0)),
                x => format!("{x:?}"),
            };
            fail!(
                "{what}: {steps:?} then {end:?} on the iterator of {n} pairs: answer {i} is {} instead of {}",
                show(g),
                show(w)
            );
        }
    }
    cx.st.add("iterator_walks", 1);
    cx.st.add("iterator_walk_answers", got.len() as u64);
    Ok(())
}

pub fn verify_all(cx: &mut Cx, map: &mut dyn Map, model: &Model, uni: &[Vec<u8>], what: &str) -> R {
    let mut rng = Rng::new(mix(cx.digest, uni.len() as u64));
    let first = rng.chance(50);
    let mode = rng.below(5);
    if first && map.is_file() {
        verify_iter(cx, map, model, mode, what)?;
    }
    verify_gets(cx, map, model, uni, &mut rng, what)?;
    if !first && map.is_file() {
        verify_iter(cx, map, model, mode, what)?;
    }
    Ok(())
}
