//! Properties which are decided by reading the files behind the map.
use super::*;
use crate::fsck;
use crate::gen;
use crate::ensure;
use std::collections::BTreeMap;

/// Flushes and reads the files of the map.
pub fn flushed(map: &mut dyn Map, dir: &Path, name: &str, htx: bool) -> R<fsck::Db> {
    io("flush", map.flush())?;
    fsck::read_opt(dir, name, htx)
}

fn shape(cx: &mut Cx, d: &fsck::Db) {
    let mut h = 17u64;
    for n in &d.nodes {
        h = mix(h, (n.keys as u64) << 8 | n.depth as u64);
    }
    cx.st.shapes.insert(h);
    cx.st.max("tree_depth_max", d.depth() as u64);
    cx.st.max("nodes_max", d.nodes.len() as u64);
    cx.st.add("trees_read", 1);
    cx.st.add(&format!("trees_of_depth_{}", d.depth()), 1);
    cx.st.add("nodes_checked", d.nodes.len() as u64);
}

fn tree_check(cx: &mut Cx, map: &mut dyn Map, dir: &Path, model: &Model, api: bool, what: &str) -> R {
    let d = flushed(map, dir, "m", false)?;
    d.same_as(model, what)?;
    d.tree().map_err(|Fail(m)| Fail(format!("{what}: {m}")))?;
    shape(cx, &d);
    if api {
        let s = io("the tree checks", map.snap())?;
        ensure!(s.balanced, "{what}: is_balanced() is false");
        ensure!(s.mst, "{what}: is_mst_valid() is false");
        ensure!(s.dense, "{what}: is_dense() is false");
        ensure!(s.depth == d.depth() as u64, "{what}: depth_of_node_tree() is {} instead of {}", s.depth, d.depth());
        cx.st.add("library_checks", 1);
    }
    Ok(())
}

/// A script in which the tree is at the edge of splitting and merging all the time.
fn edge_script(cx: &mut Cx) -> Script {
    let kt = KTS[(cx.idx % 3) as usize];
    let mut rng = cx.rng.clone();
    let n = *rng.pick(&[64usize, 96, 130, 200, 2200]);
    let uk = *rng.pick(&[gen::Uni::Seq, gen::Uni::Rand, gen::Uni::Collide, gen::Uni::Prefix]);
    let uni = gen::universe(kt, uk, n, &mut rng);
    let val = *rng.pick(&[gen::Val::Small, gen::Val::Class, gen::Val::Fixed(8)]);
    let mut ph = vec![Ph::Fill(pick_order(&mut rng), 100)];
    for _ in 0..2 + rng.below(4) {
        let x = rng.range(10, 70);
        ph.push(Ph::Drain(pick_order(&mut rng), x));
        ph.push(Ph::Churn(60));
        let x = rng.range(5, 60);
        ph.push(Ph::Fill(pick_order(&mut rng), x));
    }
    if rng.chance(40) {
        ph.push(Ph::Drain(pick_order(&mut rng), 100));
        ph.push(Ph::Fill(pick_order(&mut rng), 30));
    }
    let o = Opts { reads: *rng.pick(&[0, 10]), misses: rng.chance(50), syncs: false, strings: false, bulk: false };
    let s = script(kt, uni, val, &ph, &o, &mut rng);
    cx.digest = mix(cx.digest, rng.next());
    cx.rng.next();
    cx.note(&format!("edge {uk:?} {}", s.name));
    s
}

/// The tree is ordered, balanced, half full; its depth is logarithmic.
pub fn c08(cx: &mut Cx) -> R {
    let edge = cx.idx % 2 == 0; // 7 is odd
    let s = if cx.idx % 256 == 7 {
        cx.st.add("deep_cases", 1);
        let mut rng = cx.rng.clone();
        let s = deep_script(KTS[(cx.idx % 3) as usize], &mut rng);
        cx.rng.next();
        cx.note(&s.name);
        s
    } else if edge {
        edge_script(cx)
    } else {
        case_script(cx, [10, 30, 32, 24, 4])
    };
    let mut rng = cx.rng.clone();
    let dir = cx.dir.clone();
    let db = open_db(&dir)?;
    let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 15))?;
    let mut model = Model::new();
    tree_check(cx, &mut *map, &dir, &model, true, "a new map")?;
    let cuts = if edge { s.ops.len() / (1 + s.uni.len() / 60).max(2) } else { 3 + rng.below(6) }.min(140);
    let mut at = 0;
    for c in 0..cuts {
        let to = if c + 1 == cuts {
            s.ops.len()
        } else if edge {
            (at + 1 + rng.below(2 * s.ops.len() / cuts)).min(s.ops.len())
        } else {
            s.cut(at, &mut rng)
        };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        let api = model.len() < 8000 || c == 0 || c + 1 == cuts;
        tree_check(cx, &mut *map, &dir, &model, api, &format!("after {at} operations"))?;
        if c % 16 == 9 && rng.chance(30) {
            drop(map);
            map = open(&db, s.kt, "m", None)?;
        }
    }
    if !s.deep && model.len() < 4000 {
        drop(map);
        drop(db);
        for _ in 0..3 {
            damaged(cx, s.kt, &dir, &mut rng)?;
        }
    }
    Ok(())
}

/// The index file is damaged in a way that breaks one rule: the check of the rule says so. Then it is restored.
fn damaged(cx: &mut Cx, kt: Kt, dir: &Path, rng: &mut Rng) -> R {
    let d = fsck::read_opt(dir, "m", false)?;
    let p = dir.join("m.idx");
    let whole = std::fs::read(&p).expect("harness: read the index file");
    let mut b = whole.clone();
    let u = |b: &[u8], at: usize| u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
    let half = fsck::SLOTS_MAX / 2;
    let how = rng.below(4);
    let what = match how {
        // two keys change places, neighbours or any
        0 | 1 if d.key_slots.len() > 1 => {
            let i = rng.below(d.key_slots.len() - 1);
            let j = if how == 0 { i + 1 } else { i + 1 + rng.below(d.key_slots.len() - i - 1) };
            let (x, y) = (d.key_slots[i] as usize, d.key_slots[j] as usize);
            let (kx, ky) = (u(&b, x), u(&b, y));
            b[x..x + 8].copy_from_slice(&ky.to_le_bytes());
            b[y..y + 8].copy_from_slice(&kx.to_le_bytes());
            "two keys in the wrong order"
        }
        // a node loses keys until it is less than half full
        2 => {
            let nodes: Vec<&fsck::Node> = d.nodes.iter().filter(|n| n.off != d.top).collect();
            if nodes.is_empty() {
                return Ok(());
            }
            let n = *rng.pick(&nodes);
            let o = n.off as usize;
            let left = rng.below(half - 1);
            b[o + 4..o + 6].copy_from_slice(&(left as u16).to_le_bytes());
            if !n.leaf {
                let (from, to) = (o + 6 + 8 * n.keys, o + 6 + 8 * left);
                let downs = b[from..from + 8 * (left + 1)].to_vec();
                b[to..to + downs.len()].copy_from_slice(&downs);
            }
            "a node less than half full"
        }
        // a child is replaced by one of its own
        3 => {
            let inner: Vec<&fsck::Node> = d.nodes.iter().filter(|n| !n.leaf && n.depth + 2 <= d.depth()).collect();
            if inner.is_empty() {
                return Ok(());
            }
            let n = *rng.pick(&inner);
            let at = n.off as usize + 6 + 8 * (n.keys + rng.below(n.keys + 1));
            let child = u(&b, at) as usize;
            let keys = u16::from_le_bytes(b[child + 4..child + 6].try_into().unwrap()) as usize;
            let own = u(&b, child + 6 + 8 * (keys + rng.below(keys + 1)));
            b[at..at + 8].copy_from_slice(&own.to_le_bytes());
            "leaves at different depths"
        }
        _ => return Ok(()),
    };
    std::fs::write(&p, &b).expect("harness: write the index file");
    let sn = {
        let db = open_db(dir)?;
        let map = open(&db, kt, "m", None)?;
        io("the tree checks", map.checks())?
    };
    let (balanced, mst, dense) = sn;
    match how {
        0 | 1 => {
            ensure!(!mst, "is_mst_valid() is true for {what}");
            ensure!(balanced && dense, "is_balanced() or is_dense() is false for {what}");
        }
        2 => {
            ensure!(!dense, "is_dense() is true for {what}");
            ensure!(balanced && mst, "is_balanced() or is_mst_valid() is false for {what}");
        }
        _ => ensure!(!balanced, "is_balanced() is true for {what}"),
    }
    std::fs::write(&p, &whole).expect("harness: write the index file");
    cx.st.add(&format!("damaged_trees_told_{}", ["order", "order", "density", "balance"][how]), 1);
    Ok(())
}

/// Live and free pieces tile the three files exactly.
pub fn c09(cx: &mut Cx) -> R {
    if cx.idx % 16 == 11 && !cfg!(any(miri, vh_asan)) {
        return super::other::c21_far(cx);
    }
    let edge = cx.idx % 3 == 0;
    let s = if edge { edge_script(cx) } else { case_script(cx, [28, 36, 22, 13, 1]) };
    let mut rng = cx.rng.clone();
    let dir = cx.dir.clone();
    let mut db = open_db(&dir)?;
    let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 15))?;
    let mut model = Model::new();
    let cuts = if s.ops.len() < 500 { s.ops.len().max(1) } else if s.uni.len() < 300 { 60 } else { 5 };
    let mut at = 0;
    for c in 0..=cuts {
        let d = flushed(&mut *map, &dir, "m", false)?;
        let what = format!("after {at} operations");
        d.same_as(&model, &what)?;
        d.accounting().map_err(|Fail(m)| Fail(format!("{what}: {m}")))?;
        cx.st.add("files_accounted", 3);
        cx.st.add("pieces_checked", (d.nodes.len() + d.free_key.len() + d.free_val.len() + d.free_node.len() + 2 * d.entries.len()) as u64);
        cx.st.max("free_value_pieces_max", d.free_val.len() as u64);
        cx.st.max("free_node_pieces_max", d.free_node.len() as u64);
        let mut h = 3u64;
        for (l, p) in d.free_val.iter().chain(d.free_key.iter()).chain(d.free_node.iter()) {
            h = mix(h, (*l as u64) << 32 | p.size as u64);
        }
        cx.st.shapes.insert(h);
        if c == cuts {
            break;
        }
        let to = if c + 1 == cuts { s.ops.len() } else if s.deep { s.cut(at, &mut rng) } else { (at + (s.ops.len() / cuts).max(1)).min(s.ops.len()) };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        if rng.chance(8) {
            drop(map);
            drop(db);
            db = open_db(&dir)?;
            map = open(&db, s.kt, "m", None)?;
        }
    }
    drop(map);
    drop(db);
    let d = fsck::read(&dir, "m")?;
    d.same_as(&model, "after the close")?;
    d.accounting().map_err(|Fail(m)| Fail(format!("after the close: {m}")))
}

/// No byte of what was deleted or replaced stays in the saved files.
pub fn c25(cx: &mut Cx) -> R {
    let s = if cx.idx % 3 == 0 { edge_script(cx) } else { case_script(cx, [28, 36, 24, 11, 1]) };
    let mut rng = cx.rng.clone();
    let dir = cx.dir.clone();
    let mut db = open_db(&dir)?;
    let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 30))?;
    let mut model = Model::new();
    let cuts = 1 + if s.ops.len() < 3000 { rng.below(40) } else { rng.below(5) };
    let mut at = 0;
    for c in 0..=cuts {
        let what = format!("after {at} operations");
        let d = if c % 4 == 3 {
            drop(map);
            drop(db);
            let d = fsck::read(&dir, "m")?;
            db = open_db(&dir)?;
            map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 30))?;
            cx.st.add("looked_after_a_close", 1);
            d
        } else {
            flushed(&mut *map, &dir, "m", false)?
        };
        // the records tile the files, so that nothing lies outside of them
        d.same_as(&model, &what)?;
        d.accounting().map_err(|Fail(m)| Fail(format!("{what}: {m}")))?;
        let n = d.scrubbed(&dir, "m").map_err(|Fail(m)| Fail(format!("{what}: {m}")))?;
        cx.st.add("unused_bytes_seen_empty", n);
        cx.st.add("free_records_seen_empty", (d.free_key.len() + d.free_val.len() + d.free_node.len()) as u64);
        cx.st.add("live_records_seen", (d.nodes.len() + 2 * d.entries.len()) as u64);
        if c == cuts {
            break;
        }
        let to = if c + 1 == cuts { s.ops.len() } else { s.cut(at, &mut rng) };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
    }
    // delete the rest
    if rng.chance(50) && model.len() < 4000 {
        let mut keys: Vec<_> = model.keys().cloned().collect();
        rng.shuffle(&mut keys);
        for (i, k) in keys.iter().enumerate() {
            io("delete", map.del(k, i))?;
        }
        let d = flushed(&mut *map, &dir, "m", false)?;
        ensure!(d.entries.is_empty(), "an emptied map has {} pairs in its files", d.entries.len());
        d.accounting()?;
        let n = d.scrubbed(&dir, "m").map_err(|Fail(m)| Fail(format!("after deleting everything: {m}")))?;
        cx.st.add("unused_bytes_seen_empty", n);
        cx.st.add("emptied_maps", 1);
    }
    Ok(())
}

fn piece_size(payload: u64) -> u64 {
    for c in fsck::CLASSES {
        if payload <= c as u64 && c <= 896 {
            return c as u64;
        }
    }
    (payload + 128) / 128 * 128
}

/// A few sizes, large ones among them, in rounds: put all, delete all, in changing orders.
/// A record is appended only when no free one of its size (large: or larger) is there, so that of each size
/// there are at most as many records as were ever live at once.
fn c10_cycles(cx: &mut Cx) -> R {
    let kt = KTS[(cx.idx % 3) as usize];
    let mut rng = cx.rng.clone();
    let small = *rng.pick(&[900usize, 1100, 2000, 2000, 5000]);
    let mega = rng.chance(15);
    let big = *rng.pick(if mega { &[600_000usize, 1_100_000, 1_500_000, 2_200_000] } else { &[20_000usize, 50_000, 100_000, 200_000] });
    // what is stored is first stored small, and replaced
    let over = rng.chance(30);
    let nbig = 1 + rng.below(3);
    let nsmall = *rng.pick(&[3usize, 10, 18, 20, 33, 40, 70, 150, 300, 300, 700]);
    // many small ones: the large ones are deleted first, so that they come last on the list
    let order = if nsmall >= 300 { *rng.pick(&[0usize, 0, 1, 3, 4]) } else { rng.below(5) };
    // keys may have the lengths instead of the values
    let in_keys = kt != Kt::Int && rng.chance(35);
    let rounds = if mega || nsmall >= 300 { 30 } else { 90 };
    let n = nbig + nsmall;
    let len = |i: usize| if i < nbig { big } else { small };
    let uni: Vec<Vec<u8>> = (0..n)
        .map(|i| match kt {
            Kt::Int => (rng.next() << 8 | i as u64).to_be_bytes().to_vec(),
            _ => {
                let mut k = format!("{i:05}").into_bytes();
                if in_keys {
                    k.resize(len(i), b'k');
                }
                k
            }
        })
        .collect();
    cx.note(&format!("cycles {} {nbig} x {big} + {nsmall} x {small} in the keys: {in_keys} order {order} over: {over}", kt_name(kt)));
    cx.digest = mix(cx.digest, rng.next());
    let dir = cx.dir.clone();
    let db = open_db(&dir)?;
    let mut map = open(&db, kt, "m", gen::maybe_params(&mut rng, 10))?;
    let mut model = Model::new();
    let vlen = |i: usize| if in_keys { 5 } else { len(i) };
    let bound = |l: &dyn Fn(usize) -> u64| {
        let mut sizes: std::collections::BTreeSet<u64> = (0..n).map(l).collect();
        if over {
            sizes.insert(piece_size(3 + 8));
        }
        if matches!(order, 0 | 1 | 3) {
            // the large ones are put while every record is free: none of their records is taken by a small one
            // before, so that there are only as many of each size as are live at once.
            let (b, s) = (l(0), l(n - 1));
            if over {
                192 + b * (nbig as u64 + 1) + s * (nsmall as u64 + 1) + piece_size(3 + 8) * (n as u64 + 1)
            } else {
                192 + b * (nbig as u64 + 1) + s * (nsmall as u64 + 1)
            }
        } else {
            192 + sizes.iter().sum::<u64>() * (n as u64 + 1)
        }
    };
    if nsmall >= 300 {
        cx.st.add("cycle_crowds", 1);
    }
    let kb = bound(&|i| piece_size(uni[i].len() as u64 + 16));
    let vb = bound(&|i| piece_size(vlen(i) as u64 + 8));
    for r in 0..rounds {
        let mut ins: Vec<usize> = (0..n).collect();
        let mut del: Vec<usize> = (0..n).collect();
        match order {
            0 => {}
            1 => del.reverse(),
            2 => ins.reverse(),
            3 => rng.shuffle(&mut del),
            _ => {
                rng.shuffle(&mut ins);
                rng.shuffle(&mut del);
            }
        }
        for (w, list) in [(true, &ins), (false, &del)] {
            for &i in list {
                if w {
                    if over {
                        io("put", map.put(&uni[i], b"abc", i))?;
                        if i < nbig {
                            cx.st.add("replaced_by_a_large_one", 1);
                        }
                    }
                    let v = gen::value(gen::Val::Fixed(vlen(i)), (r * n + i) as u64, &mut rng);
                    io("put", map.put(&uni[i], &v, i))?;
                    model.insert(uni[i].clone(), v);
                } else {
                    let got = io("delete", map.del(&uni[i], i))?;
                    ensure!(got == model.remove(&uni[i]), "delete(\"{}\") in round {r} returned {}", esc(&uni[i]), esc_opt(&got));
                }
                cx.st.add("operations", 1);
            }
            if w && r % 10 == 3 {
                verify_all(cx, &mut *map, &model, &uni, &format!("in round {r}"))?;
            }
        }
        if r % 10 == 9 {
            io("flush", map.flush())?;
            let l = |e: &str| std::fs::metadata(dir.join(format!("m.{e}"))).map(|m| m.len()).unwrap_or(0);
            let (k, v) = (l("key"), l("val"));
            ensure!(k <= kb, "after {} rounds of the same {n} records the key file has {k} bytes (bound {kb})", r + 1);
            ensure!(v <= vb, "after {} rounds of the same {n} records the value file has {v} bytes (bound {vb})", r + 1);
            cx.st.add("bounds_checked", 2);
            cx.st.add("cycle_bounds_checked", 2);
        }
    }
    Ok(())
}

/// The files of a map whose live content is bounded do not grow without bound.
pub fn c10(cx: &mut Cx) -> R {
    if cx.idx % 8 == 5 {
        return c10_cycles(cx);
    }
    let kt = KTS[(cx.idx % 3) as usize];
    let mut rng = cx.rng.clone();
    let uniform = rng.chance(50);
    let n = *rng.pick(&[1usize, 2, 5, 12, 40, 64, 130, 300]);
    let class = |rng: &mut Rng, head: usize| *rng.pick(&fsck::CLASSES) as usize - head + rng.below(3);
    let klen = match rng.below(3) {
        0 => class(&mut rng, 16).saturating_sub(1).max(5),
        1 => rng.range(5, 1300),
        _ => *rng.pick(&[5usize, 8, 40, 120, 200, 1000]),
    };
    let uni: Vec<Vec<u8>> = if uniform {
        (0..n)
            .map(|i| match kt {
                Kt::Int => rng.next().to_be_bytes().to_vec(),
                _ => {
                    let mut k = format!("{i:05}").into_bytes();
                    k.resize(klen, b'k');
                    k
                }
            })
            .collect()
    } else {
        gen::universe(kt, *rng.pick(&[gen::Uni::Lengths, gen::Uni::Mixed, gen::Uni::Seq]), n, &mut rng)
    };
    let fixed = *rng.pick(&[0usize, 1, 8, 9, 24, 100, 120, 250, 500, 887, 888, 889, 900, 1016, 1017, 3000, 10_000]);
    let fixed = match rng.below(3) {
        0 => class(&mut rng, 8).saturating_sub(1),
        1 => rng.below(1400),
        _ => fixed,
    };
    let val = if uniform { gen::Val::Fixed(fixed) } else { *rng.pick(&[gen::Val::Class, gen::Val::Mixed, gen::Val::Small]) };
    let rounds = match n {
        0..=5 => 2500,
        6..=40 => 5000,
        _ => 12_000,
    } / if fixed > 800 && uniform || val == gen::Val::Mixed { 3 } else { 1 };
    cx.note(&format!("{} keys={n} uniform={uniform} key_len={klen} values={val:?} rounds={rounds}", kt_name(kt)));
    cx.digest = mix(cx.digest, rng.next());
    let dir = cx.dir.clone();
    let mut db = open_db(&dir)?;
    let mut map = open(&db, kt, "m", gen::maybe_params(&mut rng, 15))?;
    let mut model = Model::new();
    let mut peak = 0u64;
    let (mut max_key, mut max_val) = (0u64, 0u64);
    // the record sizes which were asked for
    let mut asked: [std::collections::BTreeSet<u64>; 2] = Default::default();
    let mode = rng.below(5);
    let check = |cx: &mut Cx, peak: u64, max_key: u64, max_val: u64, at: usize, st: &[u64; 3], asked: &[std::collections::BTreeSet<u64>; 2]| -> R {
        let bound = |max_piece: u64, f: usize| {
            if uniform {
                192 + peak * max_piece
            } else {
                // a piece is appended only when no free piece is as large: of each size at most one per live key
                192 + asked[f].iter().sum::<u64>() * (peak + 1)
            }
        };
        let kb = bound(piece_size(max_key + 16), 0);
        let vb = bound(piece_size(max_val + 8), 1);
        let per = fsck::SLOTS_MAX as u64 / 2 - 1;
        let all: u64 = fsck::NODE_CLASSES.iter().map(|c| *c as u64).sum();
        let ib = 128 + all * (peak / per + 3);
        ensure!(st[0] <= kb, "after {at} operations on at most {peak} live keys the key file has {} bytes (bound {kb})", st[0]);
        ensure!(st[1] <= vb, "after {at} operations on at most {peak} live keys the value file has {} bytes (bound {vb})", st[1]);
        ensure!(st[2] <= ib, "after {at} operations on at most {peak} live keys the index file has {} bytes (bound {ib})", st[2]);
        cx.st.add("bounds_checked", 3);
        Ok(())
    };
    let sizes = |dir: &Path| -> [u64; 3] {
        let l = |e: &str| std::fs::metadata(dir.join(format!("m.{e}"))).map(|m| m.len()).unwrap_or(0);
        [l("key"), l("val"), l("idx")]
    };
    for at in 0..rounds {
        let i = match mode {
            0 => at % n,
            1 => (at / 2) % n,
            _ => rng.below(n),
        };
        let del = match mode {
            0 => (at / n) % 2 == 1,
            1 => at % 2 == 1,
            2 => rng.chance(50),
            3 => rng.chance(5),
            _ => rng.chance(if (at / 300) % 2 == 0 { 25 } else { 75 }),
        };
        if del {
            let got = io("delete", map.del(&uni[i], at))?;
            ensure!(got == model.remove(&uni[i]), "delete(\"{}\") at operation {at} returned {}", esc(&uni[i]), esc_opt(&got));
        } else {
            let v = gen::value(val, at as u64, &mut rng);
            max_key = max_key.max(uni[i].len() as u64);
            max_val = max_val.max(v.len() as u64);
            asked[0].insert(piece_size(uni[i].len() as u64 + 16));
            asked[1].insert(piece_size(v.len() as u64 + 8));
            io("put", map.put(&uni[i], &v, at))?;
            model.insert(uni[i].clone(), v);
        }
        peak = peak.max(model.len() as u64);
        cx.st.add("operations", 1);
        if at % 250 == 249 || at + 1 == rounds {
            io("flush", map.flush())?;
            check(cx, peak, max_key, max_val, at + 1, &sizes(&dir), &asked)?;
        }
        if rng.below(1200) == 0 {
            drop(map);
            drop(db);
            db = open_db(&dir)?;
            map = open(&db, kt, "m", None)?;
        }
    }
    verify_all(cx, &mut *map, &model, &uni, "after the churn")
}

#[cfg(feature = "htx")]
pub fn hash_check(kt: Kt, d: &fsck::Db, what: &str) -> R {
    d.hash_table(|k| gen::hash_of(kt, k)).map_err(|Fail(m)| Fail(format!("{what}: {m}")))
}
#[cfg(not(feature = "htx"))]
pub fn hash_check(_: Kt, _: &fsck::Db, _: &str) -> R {
    Ok(())
}

/// The hash file only speeds things up.
pub fn c11(cx: &mut Cx) -> R {
    if cx.idx % 35 == 9 && !cfg!(any(miri, vh_asan)) {
        // the slots keep positions beyond 4 GiB
        return super::other::c21_far(cx);
    }
    let kt = KTS[(cx.idx % 3) as usize];
    let mut rng = cx.rng.clone();
    let n = *rng.pick(&[30usize, 120, 400, 1000]);
    let uk = *rng.pick(&[gen::Uni::Collide, gen::Uni::Collide, gen::Uni::Collide, gen::Uni::Rand, gen::Uni::Seq]);
    let uni = gen::universe(kt, uk, n, &mut rng);
    let val = *rng.pick(&[gen::Val::Small, gen::Val::Class, gen::Val::Mixed]);
    let mut ph = vec![Ph::Fill(pick_order(&mut rng), rng.clone().range(30, 100))];
    for _ in 0..3 + rng.below(3) {
        let x = rng.range(10, 100);
        ph.push(match rng.below(5) {
            0 => Ph::Drain(pick_order(&mut rng), x),
            1 => Ph::Fill(pick_order(&mut rng), x),
            2 => Ph::Overwrite(300),
            _ => Ph::Churn(700),
        });
    }
    let o = Opts { reads: 25, misses: true, syncs: true, strings: false, bulk: false };
    let s = script(kt, uni, val, &ph, &o, &mut rng);
    cx.note(&format!("{uk:?} {}", s.name));
    cx.digest = mix(cx.digest, rng.next());
    let dir = cx.dir.clone();
    let mut model = Model::new();
    let sessions = 2 + rng.below(5);
    let mut at = 0;
    for c in 0..sessions {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", gen::maybe_params(&mut rng, 10))?;
        let to = if c + 1 == sessions { s.ops.len() } else { at + rng.below(s.ops.len() - at + 1) };
        if rng.chance(50) {
            verify_gets(cx, &mut *map, &model, &s.uni, &mut rng, "after a change of the hash file")?;
        }
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        if rng.chance(50) {
            let d = flushed(&mut *map, &dir, "m", true)?;
            hash_check(kt, &d, &format!("after {at} operations"))?;
        }
        verify_all(cx, &mut *map, &model, &s.uni, &format!("after {at} operations"))?;
        drop(map);
        drop(db);
        let d = fsck::read(&dir, "m")?;
        d.same_as(&model, "after the close")?;
        ensure!(d.has_htx, "the hash file is missing");
        hash_check(kt, &d, "after the close")?;
        cx.st.add("hash_slots_checked", d.slots.len() as u64);
        let mut per: BTreeMap<u64, u64> = BTreeMap::new();
        for (k, _) in &d.entries {
            *per.entry(gen::hash_of(kt, k) % d.ht_size).or_insert(0) += 1;
        }
        cx.st.add("keys_in_shared_slots", per.values().filter(|v| **v > 1).sum());
        let p = dir.join("m.htx");
        match rng.below(4) {
            0 => {
                std::fs::remove_file(&p).expect("harness: remove the hash file");
                cx.st.add("hash_files_removed", 1);
            }
            1 | 2 => {
                // forget some slots
                use std::os::unix::fs::FileExt;
                let f = std::fs::OpenOptions::new().write(true).open(&p).expect("harness: open the hash file");
                let share = rng.range(1, 100);
                for (slot, _) in &d.slots {
                    if rng.chance(share) {
                        f.write_all_at(&[0u8; 8], 128 + 8 * slot).expect("harness: write");
                        cx.st.add("hash_slots_cleared", 1);
                    }
                }
            }
            _ => {}
        }
    }
    let db = open_db(&dir)?;
    let mut map = open(&db, kt, "m", None)?;
    verify_all(cx, &mut *map, &model, &s.uni, "after the last change of the hash file")
}

/// Buffer parameters change the speed and nothing else.
pub fn c12(cx: &mut Cx) -> R {
    let s = case_script(cx, [30, 45, 20, 5, 0]);
    let mut rng = cx.rng.clone();
    let runs = 2 + rng.below(2);
    let mut first: Option<(Model, [u64; 4])> = None;
    for r in 0..=runs {
        let dir = cx.dir.join(format!("r{r}"));
        let mut model = Model::new();
        let sessions = 1 + rng.below(3);
        let mut at = 0;
        for c in 0..sessions {
            let p = if r == 0 { None } else { Some(gen::params(&mut rng)) };
            if let Some(p) = &p {
                cx.note(&format!("{:?}/{:?}/{:?}/{:?}", p.val_buf_size, p.key_buf_size, p.idx_buf_size, p.htx_buf_size));
            }
            let db = open_db(&dir)?;
            let mut map = open(&db, s.kt, "m", p.clone())?;
            let to = if c + 1 == sessions { s.ops.len() } else { at + rng.below(s.ops.len() - at + 1) };
            let ctx = |Fail(m): Fail| Fail(format!("with {p:?}: {m}"));
            if rng.chance(30) {
                io("read_fill_buffer", map.read_fill()).map_err(ctx)?;
            }
            play_range(cx, &mut *map, &mut model, &s, at, to).map_err(ctx)?;
            at = to;
            verify_all(cx, &mut *map, &model, &s.uni, "at the end of a session").map_err(ctx)?;
            cx.st.add("parameter_sets", 1);
        }
        let d = fsck::read(&dir, "m")?;
        let what = format!("stored by run {r}");
        let ctx = |Fail(m): Fail| Fail(format!("{what}: {m}"));
        d.same_as(&model, &what)?;
        d.tree().map_err(ctx)?;
        d.accounting().map_err(ctx)?;
        d.hash_table(|k| gen::hash_of(s.kt, k)).map_err(ctx)?;
        // whatever the buffers: the same keys in the same places of the tree and the hash table
        let mut h = [0u64; 4];
        for (i, f) in ["key", "val", "idx"].into_iter().enumerate() {
            h[i] = hash_bytes(&std::fs::read(dir.join(format!("m.{f}"))).map_err(|e| Fail(format!("harness: {e}")))?);
        }
        for (slot, off) in &d.slots {
            h[3] = mix(h[3], mix(*slot, *off));
        }
        match &first {
            None => first = Some((model.clone(), h)),
            Some((m, f)) => {
                ensure!(*m == model, "harness: models differ");
                for i in 0..4 {
                    ensure!(f[i] == h[i], "the {} file of run {r} differs from the one written with the default buffers", ["key", "value", "index", "hash"][i]);
                }
                cx.st.add("files_compared", 4);
            }
        }
        if rng.chance(30) {
            // what one set of parameters wrote another one reads
            let db = open_db(&dir)?;
            let mut map = open(&db, s.kt, "m", Some(gen::params(&mut rng)))?;
            verify_all(cx, &mut *map, &model, &s.uni, "reopened with other parameters")?;
        }
        rm_dir(&dir);
    }
    Ok(())
}

fn reads(cx: &mut Cx, map: &mut dyn Map, model: &Model, uni: &[Vec<u8>], rng: &mut Rng) -> R {
    for _ in 0..6 {
        let what = rng.below(12);
        cx.st.add(&format!("read_kind_{what}"), 1);
        match what {
            0 | 1 => verify_gets(cx, map, model, uni, rng, "a read")?,
            2 => {
                let m = rng.below(5);
                verify_iter(cx, map, model, m, "a read")?
            }
            3 => {
                let ks: Vec<Vec<u8>> = (0..rng.below(60)).map(|_| rng.pick(uni).clone()).collect();
                let got = io("bulk_get", map.bulk_get(&ks))?;
                for (k, g) in ks.iter().zip(&got) {
                    ensure!(g.as_ref() == model.get(k), "bulk_get of \"{}\" returned {}", esc(k), esc_opt(g));
                }
            }
            4 => {
                let ks: Vec<Vec<u8>> = (0..rng.below(60)).map(|_| rng.pick(uni).clone()).collect();
                io("bulk_get_string", map.bulk_get_s(&ks))?;
            }
            5 => {
                io("the statistics", map.snap())?;
            }
            6 => {
                io("graph_string", map.graph(false))?;
                io("graph_string_with_key_string", map.graph(true))?;
            }
            7 => io("read_fill_buffer", map.read_fill())?,
            8 => {
                // deletes of absent keys
                for _ in 0..30 {
                    let k = rng.pick(uni);
                    if !model.contains_key(k) {
                        let r = rng.below(3);
                        let got = io("delete", map.del(k, r))?;
                        ensure!(got.is_none(), "delete of the absent key \"{}\" returned {}", esc(k), esc_opt(&got));
                        cx.st.add("deletes_of_absent_keys", 1);
                    }
                }
            }
            9 => {
                let mut it = map.iter(rng.below(5));
                for _ in 0..rng.below(70) {
                    it.next();
                }
            }
            10 => io("flush", map.flush())?,
            _ => match rng.below(2) {
                0 => io("sync_all", map.sync_all())?,
                _ => io("sync_data", map.sync_data())?,
            },
        }
        // a delete that finds nothing may rewrite nodes as they were
        ensure!(what == 8 || !map.is_dirty(), "is_dirty() became true by reading (kind {what})");
        if map.is_dirty() {
            io("flush", map.flush())?;
        }
    }
    Ok(())
}

/// Reading never changes what is stored.
pub fn c16(cx: &mut Cx) -> R {
    #[cfg(not(any(miri, vh_asan)))]
    if cx.idx % 320 == 200 {
        return super::many::reads(cx);
    }
    let s = case_script(cx, [25, 40, 28, 7, 0]);
    let mut rng = cx.rng.clone();
    let dir = cx.dir.clone();
    let mut model = Model::new();
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 15))?;
        let to = rng.below(s.ops.len() + 1);
        play_range(cx, &mut *map, &mut model, &s, 0, to)?;
        let _ = open(&db, KTS[rng.below(3)], "empty", None)?;
        if rng.chance(60) {
            // in the session that wrote
            io("sync_all", map.sync_all())?;
            let before = dir_digest(&dir);
            reads(cx, &mut *map, &model, &s.uni, &mut rng)?;
            io("flush", map.flush())?;
            let after = dir_digest(&dir);
            ensure!(before == after, "reading in the session that wrote changed {}", differing(&before, &after));
            cx.st.add("digests_compared", before.len() as u64);
        }
    }
    let before = dir_digest(&dir);
    for round in 0..1 + rng.below(3) {
        let db = open_db(&dir)?;
        let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 40))?;
        ensure!(!map.is_dirty(), "is_dirty() is true after an open");
        reads(cx, &mut *map, &model, &s.uni, &mut rng)?;
        #[cfg(feature = "htx")]
        if round == 0 && cx.idx % 16 == 5 {
            io("the statistics of the hash file", map.htx())?;
            cx.st.add("hash_statistics", 1);
        }
        let _ = round;
        if rng.chance(30) {
            io("sync_all of the database", db.sync_all())?;
        }
        drop(map);
        drop(db);
        let after = dir_digest(&dir);
        ensure!(before == after, "a session that only reads changed {}", differing(&before, &after));
        cx.st.add("digests_compared", before.len() as u64);
    }
    Ok(())
}

fn differing(a: &BTreeMap<String, u64>, b: &BTreeMap<String, u64>) -> String {
    let mut v = Vec::new();
    for (k, d) in a {
        if b.get(k) != Some(d) {
            v.push(k.clone());
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("{k} (new)"));
        }
    }
    v.join(", ")
}

fn stats_string(mut it: Vec<u64>) -> String {
    it.sort();
    let mut v: Vec<(u64, u64)> = Vec::new();
    for x in it {
        match v.last_mut() {
            Some(l) if l.0 == x => l.1 += 1,
            _ => v.push((x, 1)),
        }
    }
    format!("[{}]", v.iter().map(|(a, b)| format!("({a}, {b})")).collect::<Vec<_>>().join(", "))
}

fn per_class(classes: &[u32], it: impl Iterator<Item = u32>) -> Vec<(u32, u64)> {
    let mut v: Vec<(u32, u64)> = classes.iter().map(|c| (*c, 0)).collect();
    let last = v.len() - 1;
    for s in it {
        let i = classes.iter().position(|c| *c == s).unwrap_or(last);
        v[i].1 += 1;
    }
    v
}
fn per_list(classes: &[u32], f: &[(usize, fsck::Piece)]) -> Vec<(u32, u64)> {
    let mut v: Vec<(u32, u64)> = classes.iter().map(|c| (*c, 0)).collect();
    for (l, _) in f {
        v[*l].1 += 1;
    }
    v
}

/// The diagnostics tell what is really there.
pub fn c18(cx: &mut Cx) -> R {
    let s = case_script(cx, [25, 40, 25, 10, 0]);
    let mut rng = cx.rng.clone();
    let dir = cx.dir.clone();
    let db = open_db(&dir)?;
    let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 15))?;
    let mut model = Model::new();
    let cuts = 4 + rng.below(5);
    let mut at = 0;
    for c in 0..=cuts {
        let what = format!("after {at} operations");
        // before or after the content is in the files, the answer is the same
        let early = if rng.chance(50) { Some(io("the statistics", map.snap())?) } else { None };
        let d = flushed(&mut *map, &dir, "m", true)?;
        d.same_as(&model, &what)?;
        let sn = io("the statistics", map.snap())?;
        if let Some(e) = early {
            ensure!(e == sn, "{what}: the statistics before and after a flush differ: {e:?} {sn:?}");
        }
        macro_rules! eq {
            ($name:literal, $got:expr, $want:expr) => {{
                let (g, w) = ($got, $want);
                ensure!(g == w, "{what}: {} is {:?} instead of {:?}", $name, g, w);
                cx.st.add("statistics_compared", 1);
            }};
        }
        eq!("is_balanced", sn.balanced, true);
        eq!("is_mst_valid", sn.mst, true);
        eq!("is_dense", sn.dense, true);
        eq!("depth_of_node_tree", sn.depth, d.depth() as u64);
        eq!("count_of_free_node", sn.free_node, per_list(&fsck::NODE_CLASSES, &d.free_node));
        eq!("count_of_free_key_piece", sn.free_key, per_list(&fsck::CLASSES, &d.free_key));
        eq!("count_of_free_value_piece", sn.free_val, per_list(&fsck::CLASSES, &d.free_val));
        eq!("count_of_used_node (nodes)", sn.used_node, per_class(&fsck::NODE_CLASSES, d.nodes.iter().map(|n| n.size)));
        eq!("count_of_used_node (keys)", sn.used_key, per_class(&fsck::CLASSES, d.key_pieces.iter().map(|n| n.size)));
        eq!("count_of_used_node (values)", sn.used_val, per_class(&fsck::CLASSES, d.val_pieces.iter().map(|n| n.size)));
        eq!("key_piece_size_stats", sn.key_piece, stats_string(d.key_pieces.iter().map(|p| p.size as u64).collect()));
        eq!("value_piece_size_stats", sn.val_piece, stats_string(d.val_pieces.iter().map(|p| p.size as u64).collect()));
        eq!("key_length_stats", sn.key_len, stats_string(model.keys().map(|p| p.len() as u64).collect()));
        eq!("value_length_stats", sn.val_len, stats_string(model.values().map(|p| p.len() as u64).collect()));
        eq!("keys_count_stats", sn.keys_count, stats_string(d.nodes.iter().map(|p| p.keys as u64).collect()));
        if d.entries.len() < 400 {
            let g = io("graph_string_with_key_string", map.graph(true))?;
            for k in model.keys().take(30) {
                let t = String::from_utf8_lossy(k);
                if !k.contains(&b'\n') {
                    ensure!(g.contains(&format!("'{t}'")), "{what}: the graph lacks the key \"{}\"", esc(k));
                    cx.st.add("graph_keys", 1);
                }
            }
            let g = io("graph_string", map.graph(false))?;
            for p in &d.key_pieces {
                ensure!(g.contains(&format!("{:04x}", p.off)), "{what}: the graph lacks the key piece {:04x}", p.off);
            }
        }
        #[cfg(feature = "htx")]
        if c == cuts && cx.idx % 16 == 1 {
            let ((size, items), (count, rate)) = io("the statistics of the hash file", map.htx())?;
            eq!("ht_size_and_count (size)", size, d.ht_size);
            eq!("ht_size_and_count (count)", items, d.slots.len() as u64);
            eq!("htx_filling_rate_per_mill (count)", count, d.slots.len() as u64);
            eq!("htx_filling_rate_per_mill (rate)", rate as u64, d.slots.len() as u64 * 1000 / d.ht_size);
        }
        if c == cuts {
            break;
        }
        let to = if c + 1 == cuts { s.ops.len() } else { s.cut(at, &mut rng) };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        if rng.chance(20) {
            drop(map);
            map = open(&db, s.kt, "m", None)?;
        }
    }
    Ok(())
}

/// Databases of the released format are read, and written ones keep to it.
pub fn c19(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let g = super::golden::all();
    let dir = cx.dir.clone();
    let gi = (cx.idx as usize) % (g.len() + 1);
    if gi == g.len() {
        // a new database
        let s = case_script(cx, [30, 40, 25, 5, 0]);
        let mut model = Model::new();
        {
            let db = open_db(&dir)?;
            let mut map = open(&db, s.kt, "m", None)?;
            play(cx, &mut *map, &mut model, &s)?;
        }
        let d = fsck::read(&dir, "m")?;
        d.same_as(&model, "a new database")?;
        d.tree()?;
        d.accounting()?;
        hash_check(s.kt, &d, "a new database")?;
        let want: &[u8; 8] = match s.kt {
            Kt::Str => b"string\0\0",
            Kt::Int => b"uint64\0\0",
            Kt::Bytes => b"bytes\0\0\0",
        };
        ensure!(&d.sig == want, "signature 2 is \"{}\"", esc(&d.sig));
        ensure!(d.ht_size == 16 * 1024 * 1024, "a new hash file has {} slots", d.ht_size);
        cx.st.add("new_databases", 1);
        return Ok(());
    }
    let g = &g[gi];
    cx.note(&format!("golden {} keys={}", g.name, g.model.len()));
    g.restore(&dir, "m", rng.chance(80));
    let before = fsck::read(&dir, "m")?;
    before.same_as(&g.model, "harness: the stored golden database")?;
    hash_check(g.kt, &before, "a database of the released version")?;
    let mut model = g.model.clone();
    let mut uni: Vec<Vec<u8>> = model.keys().cloned().collect();
    let uk = *rng.pick(&[gen::Uni::Seq, gen::Uni::Rand, gen::Uni::Collide, gen::Uni::Lengths]);
    uni.extend(gen::universe(g.kt, uk, 200, &mut rng).into_iter().filter(|k| !g.model.contains_key(k)));
    let val = *rng.pick(&gen::VALS);
    let m = 100 + rng.below(1500);
    let share = rng.range(1, 100);
    let ph = match rng.below(4) {
        0 => vec![Ph::Churn(m)],
        1 => vec![Ph::Drain(pick_order(&mut rng), share), Ph::Churn(m)],
        2 => vec![Ph::Overwrite(m), Ph::Drain(pick_order(&mut rng), 100)],
        _ => vec![Ph::Fill(pick_order(&mut rng), share), Ph::Churn(m)],
    };
    let o = Opts { reads: 10, misses: true, syncs: true, strings: false, bulk: false };
    let s = script(g.kt, uni, val, &ph, &o, &mut rng);
    cx.note(&s.name);
    cx.digest = mix(cx.digest, rng.next());
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, g.kt, "m", gen::maybe_params(&mut rng, 20))?;
        verify_all(cx, &mut *map, &model, &s.uni, "a database of the released version")?;
        play(cx, &mut *map, &mut model, &s)?;
        verify_all(cx, &mut *map, &model, &s.uni, "a database of the released version after the script")?;
    }
    let d = fsck::read(&dir, "m")?;
    d.same_as(&model, "written into a database of the released version")?;
    d.tree()?;
    hash_check(g.kt, &d, "written into a database of the released version")?;
    cx.st.add("golden_databases", 1);
    Ok(())
}
