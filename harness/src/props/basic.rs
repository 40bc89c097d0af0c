use super::*;
use crate::gen;
use crate::{ensure, fail};
use std::collections::BTreeMap;

const MIXED: [usize; 5] = [25, 35, 22, 16, 2];

/// Every operation answers as a dictionary does.
pub fn c01(cx: &mut Cx) -> R {
    let s = case_script(cx, MIXED);
    let p = gen::maybe_params(&mut cx.rng, 20);
    if let Some(p) = &p {
        cx.note(&format!("{p:?}"));
    }
    let db = open_db(&cx.dir)?;
    let mut map = open(&db, s.kt, "m", p)?;
    let mut model = Model::new();
    // a script in a few parts, each through a handle of its own kind
    let parts = 1 + cx.rng.below(4);
    let mut at = 0;
    for p in 0..parts {
        let to = if p + 1 == parts { s.ops.len() } else if s.deep { s.cut(at, &mut cx.rng) } else { at + (s.ops.len() - at) / 2 };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        match cx.rng.below(5) {
            0 => map = map.dup(),
            1 => map = open(&db, s.kt, "m", None)?,
            2 => verify_all(cx, &mut *map, &model, &s.uni, "between two parts of the script")?,
            _ => {}
        }
    }
    verify_all(cx, &mut *map, &model, &s.uni, "after the script")?;
    cx.nontrivial = s.ops.len() > 10;
    Ok(())
}

/// Iteration is complete, exact, ordered, repeatable.
pub fn c02(cx: &mut Cx) -> R {
    #[cfg(not(any(miri, vh_asan)))]
    if cx.prop == "C02" && cx.idx % 520 == 200 {
        return super::many::walks(cx);
    }
    let s = case_script(cx, [30, 35, 20, 13, 2]);
    let dir = cx.dir.clone();
    let mut db = open_db(&dir)?;
    let p = gen::maybe_params(&mut cx.rng, 15);
    let mut map = open(&db, s.kt, "m", p)?;
    let mut model = Model::new();
    let mut rng = cx.rng.clone();
    // the empty map
    for mode in 0..5 {
        verify_iter(cx, &mut *map, &model, mode, "the iteration of a new map")?;
        verify_walk(cx, &mut *map, &model, mode, "a new map")?;
    }
    let cuts = 2 + rng.below(5);
    let mut at = 0;
    for c in 0..cuts {
        let to = if c + 1 == cuts { s.ops.len() } else { s.cut(at, &mut rng) };
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        if rng.chance(15) {
            drop(map);
            if rng.chance(50) {
                drop(db);
                db = open_db(&dir)?;
            }
            map = open(&db, s.kt, "m", None)?;
        }
        if s.deep {
            let sn = io("the statistics", map.snap())?;
            cx.st.max("iterated_depth_max", sn.depth);
            if sn.depth >= 4 {
                cx.st.add("iterated_at_depth_4", 1);
            }
        }
        let modes = if model.len() > 3000 { 1 } else { 5 };
        let m0 = rng.below(5);
        for m in 0..modes {
            verify_iter(cx, &mut *map, &model, m0 + m, "after a part of the script")?;
            for _ in 0..2 {
                verify_walk(cx, &mut *map, &model, m0 + m, "after a part of the script")?;
            }
        }
        interleaved(cx, &mut *map, &model, &s, &mut rng)?;
        if s.kt == Kt::Int && s.uni.iter().all(|k| k.len() == 8) {
            let mut last: Option<u64> = None;
            for (k, _) in map.iter(0).take(2000) {
                ensure!(k.len() == 8, "an iterated int key has {} bytes", k.len());
                let n = int(&k);
                ensure!(last.map_or(true, |l| l < n), "int keys not in numeric order: {last:?} then {n}");
                last = Some(n);
            }
        }
    }
    // down to nothing
    if rng.chance(60) && model.len() < 7000 {
        let keys: Vec<_> = model.keys().cloned().collect();
        for k in keys {
            io("delete", map.del(&k, 0))?;
            model.remove(&k);
        }
        for mode in 0..5 {
            verify_iter(cx, &mut *map, &model, mode, "the iteration of an emptied map")?;
            verify_walk(cx, &mut *map, &model, mode, "an emptied map")?;
        }
        for i in 0..3.min(s.uni.len()) {
            io("put", map.put(&s.uni[i], b"again", i))?;
            model.insert(s.uni[i].clone(), b"again".to_vec());
        }
        verify_iter(cx, &mut *map, &model, rng.below(5), "the iteration of a refilled map")?;
    }
    Ok(())
}

/// several iterators at once, with reads and flushes in between
fn interleaved(cx: &mut Cx, map: &mut dyn Map, model: &Model, s: &Script, rng: &mut Rng) -> R {
    let want: Vec<(&Vec<u8>, &Vec<u8>)> = model.iter().collect();
    let mut its: Vec<(Box<dyn Iterator<Item = Kv>>, usize)> = Vec::new();
    let steps = 200.min(3 * want.len() + 6);
    for _ in 0..steps {
        match rng.below(12) {
            0 | 1 if its.len() < 4 => its.push((map.iter(rng.below(5)), 0)),
            2 if !its.is_empty() && rng.chance(20) => {
                let i = rng.below(its.len());
                its.remove(i); // half-way
            }
            3 => {
                let k = &s.uni[rng.below(s.uni.len())];
                let got = io("get", map.get(k, rng.below(3)))?;
                ensure!(got.as_ref() == model.get(k), "get(\"{}\") during an iteration returned {}", esc(k), esc_opt(&got));
            }
            4 if rng.chance(30) => io("flush", map.flush())?,
            5 if rng.chance(20) => io("sync_data", map.sync_data())?,
            _ if !its.is_empty() => {
                let i = rng.below(its.len());
                let (it, n) = &mut its[i];
                let runs = 1 + rng.below(70);
                for _ in 0..runs {
                    match (it.next(), want.get(*n)) {
                        (None, None) => break,
                        (Some((k, v)), Some((wk, wv))) => {
                            ensure!(&&k == wk && &&v == wv, "pair {n} of one of {} iterations at once is \"{}\" instead of \"{}\"", i + 1, esc(&k), esc(wk));
                            *n += 1;
                            cx.st.add("interleaved_pairs", 1);
                        }
                        (Some((k, _)), None) => fail!("an iteration yields \"{}\" after its last pair", esc(&k)),
                        (None, Some(_)) => fail!("one of several iterations at once ended after {n} of {} pairs", want.len()),
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// the same directory, named otherwise
fn relative(dir: &Path, how: usize) -> std::path::PathBuf {
    let up = std::env::current_dir().expect("harness: current directory").components().count() - 1;
    match how {
        0 => Path::new(&"../".repeat(up)).join(dir.strip_prefix("/").unwrap_or(dir)),
        // (the standard library cannot create a directory under this name)
        1 if dir.exists() => dir.join("./."),
        _ => std::path::PathBuf::from(format!("{}//", dir.display())),
    }
}

/// What is in the map when everything is dropped is there after the next open.
pub fn c03(cx: &mut Cx) -> R {
    #[cfg(not(any(miri, vh_asan)))]
    if cx.idx % 390 == 200 {
        return super::many::sessions(cx);
    }
    let s = case_script(cx, [28, 38, 20, 12, 2]);
    let dir = if cx.rng.chance(30) { cx.dir.join("sub/dir.with.dots") } else { cx.dir.join("db") };
    let name = (*cx.rng.pick(&["m", "some_map1", "a.b", "naïve 漢", "x"])).to_string();
    let mut model = Model::new();
    let mut rng = cx.rng.clone();
    // a second map of another type lives in the same database
    let kt2 = KTS[rng.below(3)];
    let uni2 = gen::universe(kt2, gen::Uni::Seq, 90, &mut rng);
    let mut model2 = Model::new();
    let sessions = if s.ops.len() > 20_000 { 2 } else { 2 + rng.below(6) };
    let mut at = 0;
    for c in 0..sessions {
        let to = if c + 1 == sessions { s.ops.len() } else if s.deep { s.cut(at, &mut rng) } else { (at + rng.below((s.ops.len() - at) / 2 + 40)).min(s.ops.len()) };
        let p = gen::maybe_params(&mut rng, 30);
        let db = if rng.chance(25) {
            cx.st.add("relative_paths", 1);
            open_db(&relative(&dir, rng.below(3)))?
        } else {
            open_db(&dir)?
        };
        let mut map = open(&db, s.kt, &name, p)?;
        let mut map2 = if rng.chance(50) { Some(open(&db, kt2, "second", None)?) } else { None };
        if c > 0 {
            match rng.below(4) {
                0 => {}
                1 => io("read_fill_buffer", map.read_fill())?,
                2 => {
                    let m = rng.below(5);
                    verify_iter(cx, &mut *map, &model, m, "after a reopen")?
                }
                _ => verify_all(cx, &mut *map, &model, &s.uni, "after a reopen")?,
            }
            cx.st.add("reopens", 1);
        }
        play_range(cx, &mut *map, &mut model, &s, at, to)?;
        at = to;
        if let Some(m2) = map2.as_mut() {
            verify_all(cx, &mut **m2, &model2, &uni2, "the second map after a reopen")?;
            for _ in 0..rng.below(60) {
                let k = rng.pick(&uni2).clone();
                if rng.chance(70) {
                    let v = gen::value(gen::Val::Class, rng.next(), &mut rng);
                    io("put", m2.put(&k, &v, 0))?;
                    model2.insert(k, v);
                } else {
                    let got = io("delete", m2.del(&k, 0))?;
                    ensure!(got == model2.remove(&k), "delete in the second map");
                }
            }
        }
        // the ways to end a session
        let how = rng.below(9);
        cx.st.add(&format!("close_{how}"), 1);
        match how {
            0 => {
                drop(map);
                drop(map2);
                drop(db);
            }
            1 => {
                drop(db);
                drop(map2);
                drop(map);
            }
            2 => {
                let d = map.dup();
                drop(map);
                drop(db);
                drop(map2);
                drop(d);
            }
            3 => {
                let mut it = map.iter(rng.below(5));
                let _ = it.next();
                drop(db);
                drop(map);
                drop(it);
            }
            4 => {
                io("flush", map.flush())?;
                drop(map);
            }
            5 => io("sync_all", map.sync_all())?,
            6 => io("sync_data of the database", db.sync_data())?,
            7 => {
                let db2 = db.clone();
                drop(db);
                drop(map);
                drop(map2);
                drop(db2);
            }
            _ => {
                // reads last
                for _ in 0..20 {
                    let k = rng.pick(&s.uni);
                    let got = io("get", map.get(k, 0))?;
                    ensure!(got.as_ref() == model.get(k), "get(\"{}\") returned {}", esc(k), esc_opt(&got));
                }
            }
        }
    }
    let db = open_db(&dir)?;
    let mut map = open(&db, s.kt, &name, None)?;
    verify_all(cx, &mut *map, &model, &s.uni, "after the last reopen")?;
    let mut map2 = open(&db, kt2, "second", None)?;
    verify_all(cx, &mut *map2, &model2, &uni2, "the second map after the last reopen")?;
    Ok(())
}

/// Bulk operations do what the single operations do, one after the other.
pub fn c06(cx: &mut Cx) -> R {
    let kt = KTS[(cx.idx % 3) as usize];
    let mut rng = cx.rng.clone();
    let n = *rng.pick(&[1usize, 3, 8, 40, 150, 700, 2500]);
    let ukind = *rng.pick(&gen::UNIS);
    let uni = gen::universe(kt, ukind, n, &mut rng);
    let val = *rng.pick(&gen::VALS);
    let val = if val == gen::Val::Large { gen::Val::Class } else { val };
    let bulks = 10 + rng.below(25);
    let (sh1, sh2) = (rng.below(100), rng.below(100));
    let ph = [Ph::Bulk(bulks), Ph::Fill(pick_order(&mut rng), sh1), Ph::Bulk(bulks), Ph::Drain(pick_order(&mut rng), sh2), Ph::Bulk(bulks)];
    let o = Opts { reads: 0, misses: true, syncs: true, strings: true, bulk: true };
    let s = script(kt, uni, val, &ph, &o, &mut rng);
    cx.note(&format!("{ukind:?} {}", s.name));
    cx.digest = mix(cx.digest, rng.next());
    if cx.idx % 300 == 11 {
        return long_lists(cx, kt, &s.uni, &mut rng);
    }
    if cx.idx % 4 == 3 {
        cx.st.add("memory_cases", 1);
        let db = siamesedb::open_memory();
        let db = Box::leak(Box::new(db));
        let mut map = open_mem(db, kt, "m");
        let mut model = Model::new();
        play(cx, &mut *map, &mut model, &s)?;
        verify_gets(cx, &mut *map, &model, &s.uni, &mut rng, "memory map after the script")?;
        return Ok(());
    }
    let db = open_db(&cx.dir)?;
    let mut map = open(&db, kt, "m", gen::maybe_params(&mut rng, 15))?;
    let mut model = Model::new();
    play(cx, &mut *map, &mut model, &s)?;
    verify_all(cx, &mut *map, &model, &s.uni, "after the script")?;
    if rng.chance(40) {
        drop(map);
        drop(db);
        let db = open_db(&cx.dir)?;
        let mut map = open(&db, kt, "m", None)?;
        verify_all(cx, &mut *map, &model, &s.uni, "after the script and a reopen")?;
    }
    Ok(())
}

/// Lists of more than 65 536 entries (with many repetitions), on a file or a memory map.
fn long_lists(cx: &mut Cx, kt: Kt, uni: &[Vec<u8>], rng: &mut Rng) -> R {
    let memory = cx.idx % 600 == 11;
    let len = 65_536 + rng.range(1, 9000);
    cx.note(&format!("lists of {len}, memory map: {memory}"));
    let few = if uni.len() > 400 { &uni[..400] } else { uni };
    let mut ops = Vec::new();
    let mut tag = 0u64;
    for what in [1, 0, 2, 0, 1, 2] {
        tag += 1_000_000;
        let ix: Vec<usize> = (0..len).map(|_| rng.below(few.len())).collect();
        ops.push(match what {
            0 => Op::BulkGet(ix, rng.chance(30)),
            1 => Op::BulkPut(ix.into_iter().enumerate().map(|(n, i)| (i, V { p: gen::Val::Fixed(9), tag: tag + n as u64, seed: n as u64 })).collect(), rng.chance(30)),
            _ => Op::BulkDel(ix, rng.chance(30)),
        });
    }
    let mut s = script(kt, few.to_vec(), gen::Val::Fixed(9), &[], &Opts { reads: 0, misses: true, syncs: false, strings: false, bulk: false }, rng);
    s.ops = ops;
    let mut model = Model::new();
    if memory {
        let db = Box::leak(Box::new(siamesedb::open_memory()));
        let mut map = open_mem(db, kt, "m");
        play(cx, &mut *map, &mut model, &s)?;
        verify_gets(cx, &mut *map, &model, &s.uni, rng, "memory map after long lists")?;
    } else {
        let db = open_db(&cx.dir)?;
        let mut map = open(&db, kt, "m", None)?;
        play(cx, &mut *map, &mut model, &s)?;
        verify_all(cx, &mut *map, &model, &s.uni, "after long lists")?;
    }
    cx.st.add("long_lists", s.ops.len() as u64);
    Ok(())
}

/// Maps and databases do not influence each other; handles of one map do.
pub fn c07(cx: &mut Cx) -> R {
    #[cfg(not(any(miri, vh_asan)))]
    if cx.idx % 270 == 200 {
        return super::many::maps(cx);
    }
    let mut rng = cx.rng.clone();
    let dirs = [cx.dir.join("a"), cx.dir.join("b"), cx.dir.join("a/nested")];
    let ndb = 1 + rng.below(3);
    // names that are alike; the longest file name is of 255 bytes
    let long = |n: usize, t: &str| format!("{}{t}", "n".repeat(n));
    let mut names: Vec<String> = match rng.below(7) {
        0 | 1 => ["m", "m1", "m.key", "M", "mm", "key", "a b", "é"].iter().map(|s| s.to_string()).collect(),
        2 => ["x", "x.1", "x.2", ".x", "x.", "x.key", " x", "x ", "X", "x.idx"].iter().map(|s| s.to_string()).collect(),
        4 | 5 => {
            // one name and what a careless comparison takes for it
            let b = *rng.pick(&["n", "Map", "a b", "1", "é", "straße", "data.v1"]);
            let mut v = vec![b.to_string()];
            for f in [" {}", "{} ", "{}\t", "{}\n", ".{}", "{}.", "{}_", "_{}", "{}0", "0{}", "{}-", "{}~", "{}.tmp", "{}%20", "+{}", "{}\u{301}", "{}\u{200b}", "{}\u{a0}", "{}  "] {
                v.push(f.replace("{}", b));
            }
            v.extend([b.to_uppercase(), b.to_lowercase(), format!("{b}{b}"), b.replace('.', "_"), b.replace('é', "e\u{301}"), b.replace('ß', "ss")]);
            v
        }
        3 => vec![long(250, "a"), long(250, "b"), long(250, ""), long(200, "a"), long(200, "b"), long(128, "a"), long(128, "b"), long(249, ".1")],
        _ => vec![long(64, "a"), long(64, "b"), long(31, "a"), long(31, "b"), long(15, "a"), long(15, "b"), long(7, "a"), long(7, "b"), long(8, ""), long(7, "")],
    };
    if rng.chance(60) {
        // the first name stays the first
        let first = names.remove(0);
        rng.shuffle(&mut names);
        names.insert(0, first);
    }
    names.dedup();
    let one_kt = if rng.chance(40) { Some(KTS[rng.below(3)]) } else { None };
    // files of somebody else
    std::fs::create_dir_all(&dirs[0]).expect("harness: mkdir");
    std::fs::write(dirs[0].join("foreign.txt"), b"keep me").expect("harness: write");
    std::fs::write(dirs[0].join("m.keyx"), b"keep me too").expect("harness: write");
    struct M {
        db: usize,
        kt: Kt,
        name: String,
        uni: Vec<Vec<u8>>,
        model: Model,
        handles: Vec<Box<dyn Map>>,
        val: gen::Val,
    }
    let mut dbs = Vec::new();
    for d in dirs.iter().take(ndb) {
        dbs.push(open_db(d)?);
    }
    cx.st.add(if names[0].len() > 60 { "long_names" } else { "short_names" }, 1);
    let mut maps: Vec<M> = Vec::new();
    let total = 2 + rng.below(7);
    let same_uni_seed = rng.next();
    for i in 0..total {
        let db = rng.below(ndb);
        let name = names[(i + rng.below(2)) % names.len()].clone();
        if maps.iter().any(|m| m.db == db && m.name == name) {
            continue;
        }
        let kt = one_kt.unwrap_or(KTS[rng.below(3)]);
        let n = *rng.pick(&[5usize, 60, 130, 600]);
        let uk = *rng.pick(&[gen::Uni::Seq, gen::Uni::Seq, gen::Uni::Rand, gen::Uni::Collide, gen::Uni::Alphabet]);
        // the same keys in several maps
        let uni = gen::universe(kt, uk, n, &mut Rng::new(same_uni_seed));
        let h = open(&dbs[db], kt, &name, gen::maybe_params(&mut rng, 20))?;
        cx.note(&format!("{}:{name}:{} keys={n} {uk:?}", db, kt_name(kt)));
        maps.push(M { db, kt, name, uni, model: Model::new(), handles: vec![h], val: *rng.pick(&[gen::Val::Small, gen::Val::Class, gen::Val::Mixed]) });
    }
    cx.digest = mix(cx.digest, rng.next());
    cx.st.max("maps_at_once", maps.len() as u64);
    let ops = 1500;
    for _ in 0..ops {
        let mi = rng.below(maps.len());
        let act = rng.below(100);
        let m = &mut maps[mi];
        let hi = rng.below(m.handles.len());
        let k = m.uni[rng.below(m.uni.len())].clone();
        match act {
            0..=44 => {
                let v = gen::value(m.val, rng.next(), &mut rng);
                io("put", m.handles[hi].put(&k, &v, rng.below(3)))?;
                m.model.insert(k, v);
            }
            45..=64 => {
                let got = io("delete", m.handles[hi].del(&k, rng.below(3)))?;
                let want = m.model.remove(&k);
                ensure!(got == want, "delete(\"{}\") in map {} returned {} instead of {}", esc(&k), m.name, esc_opt(&got), esc_opt(&want));
            }
            65..=84 => {
                let got = io("get", m.handles[hi].get(&k, rng.below(3)))?;
                ensure!(got.as_ref() == m.model.get(&k), "get(\"{}\") in map {} through handle {hi} returned {} instead of {}", esc(&k), m.name, esc_opt(&got), esc_opt(&m.model.get(&k).cloned()));
            }
            85..=87 if m.handles.len() < 5 => {
                let h = if rng.chance(50) { m.handles[hi].dup() } else {
                    let db = dbs[m.db].clone();
                    let p = gen::maybe_params(&mut rng, 30);
                    open(&db, m.kt, &m.name, p)?
                };
                m.handles.push(h);
                cx.st.add("extra_handles", 1);
            }
            88 | 89 if m.handles.len() > 1 => {
                m.handles.remove(hi);
            }
            90 => io("sync_data of the database", dbs[m.db].sync_data())?,
            91 => io("sync_all of the database", dbs[m.db].sync_all())?,
            92 => io("flush", m.handles[hi].flush())?,
            93 => io("sync_all", m.handles[hi].sync_all())?,
            94 => io("read_fill_buffer", m.handles[hi].read_fill())?,
            95 | 96 => {
                let mode = rng.below(5);
                let name = m.name.clone();
                let M { handles, model, .. } = m;
                verify_iter(cx, &mut *handles[hi], model, mode, &format!("map {name}"))?;
            }
            97 => {
                // close a whole database and open it again; the others stay open
                let db = m.db;
                for m in maps.iter_mut().filter(|m| m.db == db) {
                    m.handles.clear();
                }
                let d = dirs[db].clone();
                let old = dbs.remove(db);
                drop(old);
                dbs.insert(db, open_db(&d)?);
                for m in maps.iter_mut().filter(|m| m.db == db) {
                    m.handles.push(open(&dbs[db], m.kt, &m.name, None)?);
                }
                cx.st.add("reopened_databases", 1);
            }
            _ => {}
        }
        cx.st.add("operations", 1);
    }
    for m in maps.iter_mut() {
        let M { handles, model, uni, name, .. } = m;
        for h in handles.iter_mut() {
            verify_all(cx, &mut **h, model, uni, &format!("map {name} at the end"))?;
        }
    }
    for (i, d) in dirs.iter().take(ndb).enumerate() {
        ensure!(dbs[i].path() == *d, "path() is {:?} instead of {:?}", dbs[i].path(), d);
    }
    // only the files of the maps exist, and nothing of anybody else changed
    let per_db: BTreeMap<usize, Vec<String>> = maps.iter().fold(BTreeMap::new(), |mut a, m| {
        a.entry(m.db).or_insert_with(Vec::new).push(m.name.clone());
        a
    });
    let whole: Vec<M> = maps;
    drop(whole);
    drop(dbs);
    for (db, names) in per_db {
        let mut want: Vec<String> = Vec::new();
        for n in names {
            for e in EXTS {
                want.push(format!("{n}.{e}"));
            }
        }
        if db == 0 {
            want.push("foreign.txt".into());
            want.push("m.keyx".into());
        }
        want.sort();
        let got: Vec<String> = list_files(&dirs[db]).into_iter().filter(|n| dirs[db].join(n).is_file()).collect();
        ensure!(got == want, "the database directory holds {got:?} instead of {want:?}");
    }
    ensure!(std::fs::read(dirs[0].join("foreign.txt")).ok().as_deref() == Some(b"keep me"), "a foreign file in the database directory was changed");
    ensure!(std::fs::read(dirs[0].join("m.keyx")).ok().as_deref() == Some(b"keep me too"), "a foreign file in the database directory was changed");
    Ok(())
}

#[cfg(feature = "htx")]
pub const EXTS: [&str; 4] = ["key", "val", "idx", "htx"];
#[cfg(not(feature = "htx"))]
pub const EXTS: [&str; 3] = ["key", "val", "idx"];
