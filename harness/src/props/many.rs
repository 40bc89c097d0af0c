//! The long life of a process: the same step more often than a 16 bit counter
//! can tell. Each step is checked, the files around the powers of two as well.
use super::*;
use crate::ensure;
use crate::fsck;
use crate::iomon;
use std::os::unix::fs::FileExt;

/// steps of a case
fn steps(rng: &mut Rng) -> u64 {
    65_536 + rng.range(70, 3000) as u64
}

/// worth a closer look
fn notable(i: u64) -> bool {
    let near = |p: u64| i + 2 >= p && i <= p + 2;
    i < 4 || (7..17).any(|b| near(1 << b)) || i % 9973 == 0
}

fn keys(kt: Kt, n: u64) -> Vec<Vec<u8>> {
    (0..n).map(|i| if kt == Kt::Int { i.to_be_bytes().to_vec() } else { format!("key{i}").into_bytes() }).collect()
}

fn compare(cx: &mut Cx, dir: &Path, model: &Model, what: &str) -> R {
    let d = fsck::read_opt(dir, "m", false)?;
    d.same_as(model, what)?;
    cx.st.add("images_read", 1);
    Ok(())
}

/// Where the only value of its kind lies in the file.
fn find(dir: &Path, v: &[u8]) -> R<u64> {
    let b = std::fs::read(dir.join("m.val")).map_err(|e| Fail(format!("reading the value file: {e}")))?;
    let at: Vec<usize> = b.windows(v.len()).enumerate().filter(|(_, w)| *w == v).map(|(i, _)| i).collect();
    ensure!(at.len() == 1, "the value \"{}\" is {} times in the saved value file", esc(v), at.len());
    Ok(at[0] as u64)
}

/// A change and a save, again and again.
pub fn saves(cx: &mut Cx, sync: bool) -> R {
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    std::fs::create_dir_all(&dir).expect("harness: mkdir");
    let kt = KTS[rng.below(3)];
    let way = if sync { 1 + rng.below(4) } else { rng.below(5) };
    let n = steps(&mut rng);
    cx.note(&format!("{n} saves, way {way}, {}", kt_name(kt)));
    cx.digest = mix(cx.digest, n);
    if sync {
        iomon::start(&dir);
    }
    let r = (|| {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", None)?;
        let mut model = Model::new();
        let ks = keys(kt, 6);
        for k in &ks[1..] {
            io("put", map.put(k, b"v", 0))?;
            model.insert(k.clone(), b"v".to_vec());
        }
        let mut at = 0;
        for i in 0..n {
            // overwritten at its place
            let v = (i ^ 0xa7a7_5b5b_c3c3_0000).to_le_bytes().to_vec();
            io("put", map.put(&ks[0], &v, 0))?;
            model.insert(ks[0].clone(), v.clone());
            ensure!(map.is_dirty(), "is_dirty() is false after the change number {i}");
            let r = match way {
                0 => map.flush(),
                1 => map.sync_all(),
                2 => map.sync_data(),
                3 => db.sync_all(),
                _ => db.sync_data(),
            };
            io("a save", r)?;
            ensure!(!map.is_dirty(), "is_dirty() is true after the save number {i}");
            if i == 0 {
                at = find(&dir, &v)?;
            }
            let mut b = [0u8; 8];
            let f = std::fs::File::open(dir.join("m.val")).map_err(|e| Fail(format!("opening the value file: {e}")))?;
            f.read_exact_at(&mut b, at).map_err(|e| Fail(format!("reading the value file: {e}")))?;
            if b[..] != v[..] || notable(i) {
                // (or it moved)
                compare(cx, &dir, &model, &format!("after the save number {i}"))?;
                if b[..] != v[..] {
                    at = find(&dir, &v)?;
                }
            }
            if sync {
                super::fault::all_synced(cx, "m", &format!("the sync number {i}"))?;
            }
        }
        cx.st.add("saves_in_a_row", n);
        Ok(())
    })();
    if sync {
        let _ = iomon::stop();
    }
    r
}

/// Many changes before a save: as many as a counter of changes has values.
pub fn unsaved(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    let kt = KTS[rng.below(3)];
    let counts: [u64; 8] = [128, 255, 256, 257, 32_768, 65_535, 65_536, 131_072];
    cx.note(&format!("{counts:?} changes before a save, {}", kt_name(kt)));
    cx.digest = mix(cx.digest, rng.next());
    let db = open_db(&dir)?;
    let mut map = open(&db, kt, "m", None)?;
    let mut model = Model::new();
    let ks = keys(kt, 8);
    // nothing but overwrites, or all kinds of changes
    let mut order = counts.to_vec();
    rng.shuffle(&mut order);
    for (j, n) in order.into_iter().enumerate() {
        let mut done = 0;
        while done < n {
            let k = rng.pick(&ks);
            if j % 2 == 1 && model.contains_key(k) && rng.chance(30) {
                let got = io("delete", map.del(k, 0))?;
                ensure!(got == model.remove(k), "delete(\"{}\") returned {}", esc(k), esc_opt(&got));
            } else {
                let v = (rng.next() | 1).to_le_bytes().to_vec();
                io("put", map.put(k, &v, 0))?;
                model.insert(k.clone(), v);
            }
            done += 1;
            ensure!(map.is_dirty(), "is_dirty() is false after {done} changes since the last save");
        }
        match rng.below(3) {
            0 => io("flush", map.flush())?,
            1 => io("sync_data", map.sync_data())?,
            _ => io("sync_all of the database", db.sync_all())?,
        }
        ensure!(!map.is_dirty(), "is_dirty() is true after a save");
        compare(cx, &dir, &model, &format!("after a save of {n} changes"))?;
        cx.st.add("changes_before_a_save", n);
    }
    Ok(())
}

/// One session after the other.
pub fn sessions(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    let kt = KTS[rng.below(3)];
    let n = steps(&mut rng);
    cx.note(&format!("{n} sessions, {}", kt_name(kt)));
    cx.digest = mix(cx.digest, n);
    let ks = keys(kt, 5);
    let mut model = Model::new();
    for i in 0..n {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", None)?;
        let k = &ks[(i % 5) as usize];
        let got = io("get", map.get(k, 0))?;
        ensure!(got.as_ref() == model.get(k), "get(\"{}\") in the session number {i} returned {} instead of {}", esc(k), esc_opt(&got), esc_opt(&model.get(k).cloned()));
        if notable(i) {
            verify_all(cx, &mut *map, &model, &ks, &format!("in the session number {i}"))?;
        }
        if rng.chance(80) {
            let v = i.to_le_bytes().to_vec();
            io("put", map.put(k, &v, 0))?;
            model.insert(k.clone(), v);
        } else {
            io("delete", map.del(k, 0))?;
            model.remove(k);
        }
        if rng.chance(50) {
            drop(db);
            drop(map);
        } else {
            drop(map);
            drop(db);
        }
    }
    cx.st.add("sessions_in_a_row", n);
    Ok(())
}

/// Iterators and handles come and go.
pub fn walks(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    let kt = KTS[rng.below(3)];
    let n = steps(&mut rng);
    cx.note(&format!("{n} iterators, {}", kt_name(kt)));
    cx.digest = mix(cx.digest, n);
    let ks = keys(kt, *rng.pick(&[3u64, 9, 100]));
    let db = open_db(&dir)?;
    let mut map = open(&db, kt, "m", None)?;
    let mut model = Model::new();
    for k in &ks {
        io("put", map.put(k, &k[1..], 0))?;
        model.insert(k.clone(), k[1..].to_vec());
    }
    for i in 0..n {
        if i % 3 == 0 {
            map = map.dup();
        }
        {
            let mut it = map.iter((i % 5) as usize);
            for (k, v) in model.iter().take(3) {
                match it.next() {
                    Some((gk, gv)) if gk == *k && gv == *v => {}
                    _ => crate::fail!("the iterator number {i} does not yield the pair of \"{}\"", esc(k)),
                }
            }
        }
        if notable(i) {
            verify_iter(cx, &mut *map, &model, (i % 5) as usize, &format!("iterator number {i}"))?;
        }
    }
    verify_all(cx, &mut *map, &model, &ks, "after all of them")?;
    cx.st.add("iterators_in_a_row", n);
    Ok(())
}

/// Reads again and again, and opens, leave the files as they are.
pub fn reads(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    let kt = KTS[rng.below(3)];
    let n = steps(&mut rng);
    cx.note(&format!("{n} reads, {}", kt_name(kt)));
    cx.digest = mix(cx.digest, n);
    let ks = keys(kt, 150);
    let mut model = Model::new();
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", None)?;
        for k in &ks[..100] {
            io("put", map.put(k, k, 0))?;
            model.insert(k.clone(), k.clone());
        }
    }
    let before = dir_digest(&dir);
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", None)?;
        for i in 0..n {
            let k = &ks[(i % 150) as usize];
            if i % 150 >= 100 && i % 4 == 0 {
                let got = io("delete", map.del(k, 0))?;
                ensure!(got.is_none(), "delete of the absent key \"{}\" returned {}", esc(k), esc_opt(&got));
            } else {
                let got = io("get", map.get(k, 0))?;
                ensure!(got.as_ref() == model.get(k), "get number {i} of \"{}\" returned {}", esc(k), esc_opt(&got));
            }
        }
    }
    for _ in 0..600 {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", None)?;
        io("get", map.get(&ks[0], 0))?;
    }
    let after = dir_digest(&dir);
    ensure!(before == after, "{n} reads and 600 sessions which only read changed the files");
    cx.st.add("reads_in_a_row", n);
    Ok(())
}

/// A database of very many maps.
pub fn maps(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let dir = cx.dir.join("db");
    let limit = std::fs::read_to_string("/proc/self/limits")
        .ok()
        .and_then(|s| s.lines().find(|l| l.starts_with("Max open files")).and_then(|l| l.split_whitespace().nth(3).map(|x| x.to_string())))
        .and_then(|x| x.parse::<usize>().ok())
        .unwrap_or(1024);
    let n = 330.min(limit.saturating_sub(200) / 4);
    cx.note(&format!("{n} maps in one database"));
    cx.digest = mix(cx.digest, rng.next());
    let kts: Vec<Kt> = (0..n).map(|_| KTS[rng.below(3)]).collect();
    let name = |i: usize| format!("map{i}");
    let mut models: Vec<Model> = vec![Model::new(); n];
    for session in 0..2 {
        let db = open_db(&dir)?;
        let mut ms = Vec::new();
        for i in 0..n {
            ms.push(open(&db, kts[i], &name(i), None)?);
        }
        for round in 0..3u64 {
            for i in 0..n {
                let ks = keys(kts[i], 4);
                let k = rng.pick(&ks);
                let v = (((session as u64) << 40) | (round << 32) | i as u64).to_le_bytes().to_vec();
                io("put", ms[i].put(k, &v, 0))?;
                models[i].insert(k.clone(), v);
            }
        }
        for i in 0..n {
            let mut again = open(&db, kts[i], &name(i), None)?;
            for k in keys(kts[i], 4) {
                for m in [&mut ms[i], &mut again] {
                    let got = io("get", m.get(&k, 0))?;
                    ensure!(got.as_ref() == models[i].get(&k), "get(\"{}\") in the map number {i} of {n} returned {} instead of {}", esc(&k), esc_opt(&got), esc_opt(&models[i].get(&k).cloned()));
                }
            }
        }
        if session == 0 {
            io("sync_all of the database", db.sync_all())?;
            for i in 0..n {
                ensure!(!ms[i].is_dirty(), "the map number {i} of {n} is dirty after sync_all of the database");
                let d = fsck::read_opt(&dir, &name(i), false)?;
                d.same_as(&models[i], &format!("the map number {i} of {n} after sync_all of the database"))?;
            }
        }
    }
    cx.st.add("maps_in_a_database", n as u64);
    Ok(())
}

/// The memory database of many pairs, handles and names.
pub fn memory(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let kt = KTS[rng.below(3)];
    let n = steps(&mut rng);
    cx.note(&format!("a memory map of {n} pairs, {}", kt_name(kt)));
    cx.digest = mix(cx.digest, n);
    let db = siamesedb::open_memory();
    let ks = keys(kt, n);
    let mut map = open_mem(&db, kt, "m");
    for (i, k) in ks.iter().enumerate() {
        io("put", map.put(k, &(i as u32).to_le_bytes(), 0))?;
        if i % 2 == 0 {
            map = open_mem(&db, kt, "m");
        } else if i % 5 == 0 {
            map = map.dup();
        }
    }
    for (i, k) in ks.iter().enumerate() {
        let got = io("get", map.get(k, 0))?;
        ensure!(got.as_deref() == Some(&(i as u32).to_le_bytes()[..]), "get of the key number {i} of {n} returned {}", esc_opt(&got));
    }
    for (i, k) in ks.iter().enumerate() {
        let got = io("delete", map.del(k, 0))?;
        ensure!(got.as_deref() == Some(&(i as u32).to_le_bytes()[..]), "delete of the key number {i} of {n} returned {}", esc_opt(&got));
        let got = io("get", map.get(k, 0))?;
        ensure!(got.is_none(), "get of a deleted key returned {}", esc_opt(&got));
    }
    cx.st.add("memory_pairs", n);
    Ok(())
}
