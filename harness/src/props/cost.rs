//! C24: the work of a call and the memory of an open map, counted on a small
//! map and on one a hundred times as large.
use super::*;
use crate::iomon::{self, Call};
use crate::{ensure, gen, heap_live};
use siamesedb::filedb::{FileBufSizeParam as B, FileDbParams};
use std::collections::BTreeMap;

/// CPU time of this thread
fn cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        ns: i64,
    }
    extern "C" {
        fn clock_gettime(clk: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

/// A map which answers a fixed set of small calls.
struct Sub {
    map: Box<dyn Map>,
    uni: Vec<Vec<u8>>,
    live: Vec<usize>,
    dead: Vec<usize>,
    rng: Rng,
    tag: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum What {
    Hit,
    Miss,
    Overwrite,
    Resize,
    New,
    Delete,
    DeleteMiss,
    PutMiss,
    IterFirst,
    IterStep,
    FlushOne,
    FlushClean,
    IsDirty,
}
use What::*;
const WHATS: [What; 13] = [
    Hit, Miss, Overwrite, Resize, New, Delete, DeleteMiss, PutMiss, IterFirst, IterStep, FlushOne, FlushClean, IsDirty,
];

const SIZES: [usize; 6] = [4, 20, 40, 90, 180, 400];

impl Sub {
    fn val(&mut self, i: usize, resize: bool) -> Vec<u8> {
        self.tag = self.tag.wrapping_add(1);
        let n = if resize { SIZES[self.rng.below(6)] } else { 20 + i % 4 };
        vec![self.tag; n]
    }
    fn pick_live(&mut self) -> usize {
        self.live[self.rng.below(self.live.len())]
    }
    fn pick_dead(&mut self) -> usize {
        self.dead[self.rng.below(self.dead.len())]
    }
    fn one(&mut self, w: What, n: usize) -> R {
        match w {
            Hit => {
                for i in 0..n {
                    let k = self.pick_live();
                    ensure!(io("get", self.map.get(&self.uni[k], i))?.is_some(), "a live key is not found");
                }
            }
            Miss => {
                for i in 0..n {
                    let k = self.pick_dead();
                    ensure!(io("get", self.map.get(&self.uni[k], i))?.is_none(), "an absent key is found");
                }
            }
            Overwrite | Resize => {
                for i in 0..n {
                    let k = self.pick_live();
                    let v = self.val(k, w == Resize);
                    io("put", self.map.put(&self.uni[k], &v, i))?;
                }
            }
            New => {
                for i in 0..n {
                    let d = self.rng.below(self.dead.len());
                    let k = self.dead.swap_remove(d);
                    let v = self.val(k, false);
                    io("put", self.map.put(&self.uni[k], &v, i))?;
                    self.live.push(k);
                }
            }
            Delete => {
                for i in 0..n {
                    let d = self.rng.below(self.live.len());
                    let k = self.live.swap_remove(d);
                    ensure!(io("delete", self.map.del(&self.uni[k], i))?.is_some(), "a live key is not found");
                    self.dead.push(k);
                }
            }
            DeleteMiss => {
                for i in 0..n {
                    let k = self.pick_dead();
                    ensure!(io("delete", self.map.del(&self.uni[k], i))?.is_none(), "an absent key is found");
                }
            }
            PutMiss => {
                for i in 0..n {
                    self.one(Overwrite, 1)?;
                    let k = self.pick_dead();
                    ensure!(io("get", self.map.get(&self.uni[k], i))?.is_none(), "an absent key is found");
                }
            }
            IterFirst => {
                for i in 0..n {
                    let r = self.map.walk(i, &[Step::Next(1)], End::Drop);
                    ensure!(r != [Seen::Item(None)], "the iteration ends at once");
                }
            }
            IterStep => {
                let mut it = self.map.iter(0);
                for _ in 0..n {
                    if it.next().is_none() {
                        break;
                    }
                }
            }
            FlushOne => {
                for _ in 0..n {
                    self.one(Overwrite, 1)?;
                    io("flush", self.map.flush())?;
                }
            }
            FlushClean => {
                for _ in 0..n {
                    io("flush", self.map.flush())?;
                }
            }
            IsDirty => {
                for _ in 0..n {
                    ensure!(!self.map.is_dirty(), "a saved map is dirty");
                }
            }
        }
        Ok(())
    }
}

fn counts() -> (u64, u64, u64) {
    iomon::with(|m| {
        let g = |c| m.calls.get(&c).copied().unwrap_or(0);
        (g(Call::Read), g(Call::Write), m.files.values().map(|f| f.bytes).sum())
    })
}

pub fn c24(cx: &mut Cx) -> R {
    let kt = KTS[(cx.idx % 3) as usize];
    let mut rng = cx.rng.clone();
    cx.rng.next();
    let kinds = [gen::Uni::Rand, gen::Uni::Seq, gen::Uni::Prefix, gen::Uni::Mixed];
    let kind = kinds[(cx.idx as usize / 3) % 4];
    let small = 800 + rng.below(500);
    let large = if cx.thorough { 100_000 + rng.below(150_000) } else { 70_000 + rng.below(50_000) };
    cx.note(&format!("{} maps of {small} and {large} keys ({kind:?})", kt_name(kt)));
    let extra = 2500;
    let mut subs: Vec<Sub> = Vec::new();
    let base = cx.dir.clone();
    let mut dbs = Vec::new();
    for (i, want) in [small, large].into_iter().enumerate() {
        let dir = base.join(format!("d{i}"));
        // a free record above the largest size class is searched for in one list
        let mut uni = gen::universe(kt, kind, (want + extra) * 2, &mut rng);
        uni.retain(|k| k.len() < 800);
        uni.truncate(want + extra);
        if uni.len() < want + extra {
            uni = gen::universe(kt, gen::Uni::Rand, want + extra, &mut rng);
        }
        let n = uni.len() - extra;
        rng.shuffle(&mut uni);
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", None)?;
        let mut ord: Vec<usize> = (0..n).collect();
        if rng.chance(30) {
            ord.sort_by(|a, b| uni[*a].cmp(&uni[*b]));
        }
        for &k in &ord {
            io("put", map.put(&uni[k], &vec![k as u8; 20 + k % 4], 0))?;
        }
        // some free records of all sizes
        for &k in ord.iter().take(n / 10) {
            io("put", map.put(&uni[k], &vec![k as u8; SIZES[k % 6]], 0))?;
        }
        io("flush", map.flush())?;
        cx.digest = mix(cx.digest, hash_bytes(&uni[0]));
        let r = Rng::new(rng.next());
        // room for all, so that the memory of these lists does not change in between
        let (mut live, mut dead): (Vec<usize>, Vec<usize>) = ((0..n).collect(), (n..uni.len()).collect());
        live.reserve_exact(uni.len());
        dead.reserve_exact(uni.len());
        subs.push(Sub { map, live, dead, uni, rng: r, tag: 0 });
        dbs.push(db);
    }
    for s in subs.iter_mut() {
        io("read_fill_buffer", s.map.read_fill())?;
    }
    let fresh = grows(cx, &mut subs, "", "on a map of a hundred times as many pairs")?;
    // 2. after many calls
    let mut old: Vec<u64> = Vec::new();
    for s in subs.iter_mut() {
        let h = heap_live();
        for w in [Overwrite, Resize, Hit, Miss, DeleteMiss, PutMiss, IterFirst, Resize] {
            s.one(w, if w == IterFirst { 300 } else { 1500 })?;
        }
        for _ in 0..15 {
            s.one(New, 100)?;
            s.one(Delete, 100)?;
        }
        io("flush", s.map.flush())?;
        old.push(heap_live().saturating_sub(h));
    }
    let mut worn = timed(cx, &mut subs, "worn")?;
    for (k, v) in &fresh {
        let f = (*v).max(FLOOR);
        for _ in 0..3 {
            if worn[k] > 8 * f {
                worn = timed(cx, &mut subs, "worn")?;
            }
        }
        ensure!(
            worn[k] <= 8 * f,
            "{:?} takes {} ns per call after some ten thousand calls, it took {} before",
            k.0,
            worn[k],
            v
        );
    }
    // 3. with many free records of the small sizes
    if rng.chance(60) {
        for s in subs.iter_mut() {
            let n = (s.live.len() * 3 / 4).min(s.live.len() - 600);
            s.one(Delete, n)?;
            io("flush", s.map.flush())?;
        }
        grows(cx, &mut subs, "thinned", "with a hundred times as many free records")?;
        cx.st.add("thinned_maps", 1);
    }
    // 4. opened as by default, one small change, closed
    for s in subs.iter_mut() {
        io("flush", s.map.flush())?;
    }
    let subs: Vec<Sub> = {
        let mut v = Vec::new();
        for s in subs {
            let Sub { map, uni, live, dead, rng, tag } = s;
            drop(map);
            v.push((uni, live, dead, rng, tag));
        }
        dbs.clear();
        let mut subs = Vec::new();
        for (i, (uni, live, dead, r, tag)) in v.into_iter().enumerate() {
            let dir = base.join(format!("d{i}"));
            let what = format!("on a map of {} pairs", live.len());
            let (mut live, mut dead, mut r, mut tag) = (live, dead, r, tag);
            for round in 0..3 {
                let p = match round {
                    0 => None,
                    1 => Some(gen::params(&mut rng)),
                    _ => Some(FileDbParams { key_buf_size: B::Auto, val_buf_size: B::Auto, idx_buf_size: B::Auto, htx_buf_size: B::Auto }),
                };
                iomon::start(&base);
                let h0 = heap_live();
                let c = counts();
                let db = open_db(&dir)?;
                let map = open(&db, kt, "m", p.clone())?;
                let d = counts();
                let h1 = heap_live();
                ensure!(
                    d.0 - c.0 <= 24 && d.1 == c.1,
                    "opening {what} with {p:?} makes {} reads and {} writes",
                    d.0 - c.0,
                    d.1 - c.1
                );
                cx.st.max("heap_of_opening_max", h1.saturating_sub(h0));
                ensure!(h1 <= h0 + (2 << 20), "opening {what} with {p:?} takes {} bytes of memory", h1 - h0);
                let lg = (live.len() as f64).log2() as u64;
                let mut s = Sub { map, uni: uni.clone(), live, dead, rng: r, tag };
                let c = counts();
                s.one([Hit, Miss, Overwrite, Resize, New, Delete, IterFirst][rng.below(7)], 1)?;
                let d = counts();
                let lim = 6 * (6 + 2 * lg);
                ensure!(
                    d.0 - c.0 + d.1 - c.1 <= lim,
                    "the first call {what} with {p:?} makes {} reads and {} writes",
                    d.0 - c.0,
                    d.1 - c.1
                );
                let Sub { map, live: l, dead: de, rng: rr, tag: tt, .. } = s;
                let c = counts();
                drop(map);
                drop(db);
                let d = counts();
                ensure!(
                    d.0 - c.0 + d.1 - c.1 <= 24 + lim,
                    "closing {what} with {p:?} after one call makes {} reads and {} writes",
                    d.0 - c.0,
                    d.1 - c.1
                );
                let _ = iomon::stop();
                cx.st.add("opened_maps", 1);
                (live, dead, r, tag) = (l, de, rr, tt);
            }
            let db = open_db(&dir)?;
            let map = open(&db, kt, "m", None)?;
            dbs.push(db);
            subs.push(Sub { map, uni, live, dead, rng: r, tag });
        }
        subs
    };
    // 5. the smallest buffers: the chunks read and written, and the memory held
    let p = || FileDbParams {
        key_buf_size: B::Size(0),
        val_buf_size: B::Size(0),
        idx_buf_size: B::Size(0),
        htx_buf_size: B::Size(0),
    };
    for (i, s) in subs.into_iter().enumerate() {
        let Sub { map, uni, live, dead, rng, tag } = s;
        let what = format!("on a map of {} pairs with the smallest buffers", live.len());
        iomon::start(&base);
        let c = counts();
        drop(map);
        dbs.remove(0);
        let d = counts();
        ensure!(d.1 - c.1 <= 24, "closing a saved map makes {} writes", d.1 - c.1);
        let db = open_db(&base.join(format!("d{i}")))?;
        let h0 = heap_live();
        let c = counts();
        let map = open(&db, kt, "m", Some(p()))?;
        let d = counts();
        ensure!(
            d.0 - c.0 <= 24 && d.1 == c.1,
            "opening {what} makes {} reads and {} writes",
            d.0 - c.0,
            d.1 - c.1
        );
        let mut s = Sub { map, uni, live, dead, rng, tag };
        let lg = (s.live.len() as f64).log2() as u64;
        for w in WHATS {
            let n = per(w) * 2;
            if matches!(w, FlushClean | IsDirty) {
                io("flush", s.map.flush())?;
            }
            let mut mx = 0;
            let c = counts();
            // the longest single call and the sum
            if matches!(w, IterStep) {
                s.one(w, n)?;
            } else {
                let mut l = c;
                for _ in 0..n {
                    s.one(w, 1)?;
                    let d = counts();
                    mx = mx.max(d.0 - l.0 + d.1 - l.1);
                    l = d;
                }
            }
            let d = counts();
            let (r, wr) = (d.0 - c.0, d.1 - c.1);
            if std::env::var("VH_SHOW").is_ok() {
                eprintln!("{w:?} {what}: {:.1} reads {:.1} writes, max {mx}", r as f64 / n as f64, wr as f64 / n as f64);
            }
            cx.st.add("counted_calls", n as u64);
            cx.st.add("chunks_read", r);
            cx.st.add("chunks_written", wr);
            cx.st.max("chunks_of_one_call_max", mx);
            // these two consist of two calls
            let lim = (6 + 2 * lg) * if matches!(w, PutMiss | FlushOne) { 2 } else { 1 };
            ensure!(
                r + wr <= lim * n as u64 && mx <= 6 * lim,
                "{w:?} {what}: {n} calls make {r} reads and {wr} writes, one of them {mx}"
            );
            if matches!(w, FlushClean | IsDirty) {
                ensure!(r + wr == 0, "{w:?} {what}: {r} reads and {wr} writes");
            }
        }
        // one change after another, each one saved
        let h1 = heap_live();
        s.one(Resize, 600)?;
        s.one(Miss, 600)?;
        s.one(Hit, 600)?;
        s.one(IterStep, 6000)?;
        s.one(Delete, 200)?;
        s.one(New, 300)?;
        io("flush", s.map.flush())?;
        let h2 = heap_live();
        if std::env::var("VH_SHOW").is_ok() {
            eprintln!("{what}: heap {} then {}", h1 as i64 - h0 as i64, h2 as i64 - h0 as i64);
        }
        cx.st.max("heap_of_an_open_map_max", h2.saturating_sub(h0));
        ensure!(
            h2 <= h0 + (2 << 20),
            "{what} and a chunk or two for each file the library holds {} bytes",
            h2 - h0
        );
        ensure!(
            h2 <= h1 + (256 << 10),
            "{what} the memory grows from {} to {} bytes in some thousand calls",
            h1 - h0,
            h2 - h0
        );
        let _ = iomon::stop();
        cx.st.add("opened_maps", 1);
        drop(s);
        drop(db);
    }
    steady(cx, kt, &mut rng)?;
    for o in old {
        cx.st.max("heap_growth_of_calls_max", o);
    }
    Ok(())
}

/// 6. a small map that splits and unites its nodes again and again, with
/// nothing but puts and deletes: neither memory nor time may creep up.
fn steady(cx: &mut Cx, kt: Kt, rng: &mut Rng) -> R {
    let n = 60 + rng.below(500);
    let keep = rng.below(20);
    let dir = cx.dir.join("steady");
    let db = open_db(&dir)?;
    let mut uni = gen::universe(kt, gen::Uni::Rand, n, rng);
    rng.shuffle(&mut uni);
    let mut map = open(&db, kt, "m", None)?;
    let rounds = 400_000 / n;
    let part = rounds / 10;
    // (least time of a round, memory) of each tenth
    let mut tenth: Vec<(u64, u64)> = Vec::new();
    let order = rng.below(3);
    for _ in 0..10 {
        let mut best = u64::MAX;
        for _ in 0..part {
            let t = cpu_ns();
            for (i, k) in uni.iter().enumerate() {
                io("put", map.put(k, b"steady", i))?;
            }
            let m = uni.len() - keep.min(uni.len());
            for i in 0..m {
                let k = match order {
                    0 => &uni[i],
                    1 => &uni[m - 1 - i],
                    _ => &uni[(i * 7919) % m],
                };
                io("delete", map.del(k, i))?;
            }
            best = best.min(cpu_ns() - t);
        }
        tenth.push((best, heap_live() as u64));
    }
    cx.st.add("steady_rounds", rounds as u64);
    let (a, b) = (tenth[1], tenth[9]);
    if std::env::var("VH_SHOW").is_ok() {
        eprintln!("steady {n} keys, {keep} kept, order {order}: {tenth:?}");
    }
    cx.st.max("steady_heap_growth_max", b.1.saturating_sub(a.1));
    ensure!(
        b.1 <= a.1 + (64 << 10),
        "{} rounds of putting and deleting the same {n} keys take the memory from {} to {} bytes",
        rounds,
        a.1,
        b.1
    );
    ensure!(
        b.0 <= 8 * a.0,
        "putting and deleting the same {n} keys takes {} us in the first rounds and {} us after {rounds}",
        a.0 / 1000,
        b.0 / 1000
    );
    Ok(())
}

/// Times below this are not told apart.
const FLOOR: u64 = 600;

fn per(w: What) -> usize {
    match w {
        FlushOne => 8,
        IterFirst => 40,
        _ => 100,
    }
}

/// The shortest time of a call, in ns, for each kind of call and each map.
fn timed(cx: &mut Cx, subs: &mut [Sub], note: &str) -> R<BTreeMap<(What, usize), u64>> {
    let mut best: BTreeMap<(What, usize), u64> = BTreeMap::new();
    for _ in 0..5 {
        for w in WHATS {
            for (i, s) in subs.iter_mut().enumerate() {
                if matches!(w, FlushClean | IsDirty) {
                    io("flush", s.map.flush())?;
                }
                let t = cpu_ns();
                s.one(w, per(w))?;
                let t = (cpu_ns() - t) / per(w) as u64;
                let e = best.entry((w, i)).or_insert(u64::MAX);
                *e = t.min(*e);
                cx.st.add("timed_calls", per(w) as u64);
            }
        }
    }
    if std::env::var("VH_SHOW").is_ok() {
        for w in WHATS {
            let (a, b) = (best[&(w, 0)], best[&(w, 1)]);
            eprintln!("{note} {w:?}: {a} ns {b} ns per call, {:.1}", b as f64 / a as f64);
        }
    }
    Ok(best)
}

/// Times both maps: the second is much larger than the first. A long time has
/// to show every time it is measured.
fn grows(cx: &mut Cx, subs: &mut [Sub], note: &str, what: &str) -> R<BTreeMap<(What, usize), u64>> {
    let ratio = |t: &BTreeMap<(What, usize), u64>, w: What| t[&(w, 1)] * 10 / t[&(w, 0)].max(FLOOR);
    let mut best = timed(cx, subs, note)?;
    for _ in 0..3 {
        if WHATS.iter().any(|w| ratio(&best, *w) > 160) {
            cx.st.add("measured_again", 1);
            for (k, v) in timed(cx, subs, note)? {
                let e = best.get_mut(&k).expect("harness: no such measurement");
                if k.1 == 1 {
                    *e = v.min(*e);
                }
            }
        }
    }
    for w in WHATS {
        let f = ratio(&best, w);
        cx.st.max("time_ratio_in_tenths_max", f);
        ensure!(f <= 160, "{w:?} takes {} ns instead of {} ns {what}", best[&(w, 1)], best[&(w, 0)]);
    }
    Ok(best)
}
