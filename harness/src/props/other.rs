use super::*;
use crate::fsck;
use crate::gen;
use crate::ensure;
use siamesedb::{DbBytes, DbInt, DbMapKeyType, DbString, DbXxx, DbXxxObjectSafe, HashValue};
use std::collections::BTreeMap;

/// The memory database answers as a dictionary, and as the file database does.
pub fn c13(cx: &mut Cx) -> R {
    #[cfg(not(any(miri, vh_asan)))]
    if cx.idx % 2000 == 1200 {
        return super::many::memory(cx);
    }
    let mut rng = cx.rng.clone();
    let s = if cx.idx % 2 == 0 {
        case_script(cx, [25, 40, 25, 10, 0])
    } else {
        let kt = KTS[(cx.idx % 3) as usize];
        let n = *rng.pick(&[1usize, 6, 60, 400]);
        let uni = gen::universe(kt, *rng.pick(&gen::UNIS), n, &mut rng);
        let b = 8 + rng.below(20);
        let ph = [Ph::Bulk(b), Ph::Fill(pick_order(&mut rng), 60), Ph::Churn(400), Ph::Bulk(b), Ph::Drain(pick_order(&mut rng), 70), Ph::Bulk(b)];
        let o = Opts { reads: 10, misses: true, syncs: true, strings: true, bulk: true };
        let s = script(kt, uni, *rng.pick(&gen::VALS), &ph, &o, &mut rng);
        cx.note(&s.name);
        cx.digest = mix(cx.digest, rng.next());
        s
    };
    let db = siamesedb::open_memory();
    let db2 = siamesedb::open_memory();
    struct M<'a> {
        map: Box<dyn Map + 'a>,
        model: Model,
        kt: Kt,
        name: &'static str,
    }
    let names: [&'static str; 4] = ["m", "m", "other", ""];
    let mut maps: Vec<M> = Vec::new();
    // the same names and keys in other maps, of this and of another database
    for (i, n) in names.into_iter().enumerate() {
        let kt = if i == 0 { s.kt } else { KTS[rng.below(3)] };
        if i > 0 && kt == s.kt && n == "m" {
            let map = open_mem(&db2, kt, n);
            maps.push(M { map, model: Model::new(), kt, name: n });
        } else {
            let map = open_mem(&db, kt, n);
            maps.push(M { map, model: Model::new(), kt, name: n });
        }
    }
    let cuts = 3 + rng.below(5);
    let mut at = 0;
    for c in 0..cuts {
        let to = if c + 1 == cuts { s.ops.len() } else { at + rng.below(s.ops.len() - at + 1) };
        {
            let m = &mut maps[0];
            play_range(cx, &mut *m.map, &mut m.model, &s, at, to)?;
        }
        at = to;
        // noise in the others, with the same keys where they fit
        for m in maps.iter_mut().skip(1) {
            for _ in 0..20 {
                let k = rng.pick(&s.uni).clone();
                let fits = match m.kt {
                    Kt::Int => k.len() == 8,
                    Kt::Str => std::str::from_utf8(&k).is_ok(),
                    Kt::Bytes => true,
                };
                if !fits {
                    continue;
                }
                match rng.below(3) {
                    0 => {
                        let v = gen::value(gen::Val::Small, rng.next(), &mut rng);
                        io("put", m.map.put(&k, &v, rng.below(3)))?;
                        m.model.insert(k, v);
                    }
                    1 => {
                        let got = io("delete", m.map.del(&k, rng.below(3)))?;
                        let want = m.model.remove(&k);
                        ensure!(got == want, "delete(\"{}\") in the memory map {:?} of {} keys returned {} instead of {}", esc(&k), m.name, kt_name(m.kt), esc_opt(&got), esc_opt(&want));
                    }
                    _ => {
                        let got = io("get", m.map.get(&k, rng.below(3)))?;
                        ensure!(got.as_ref() == m.model.get(&k), "get(\"{}\") in the memory map {:?} of {} keys returned {}", esc(&k), m.name, kt_name(m.kt), esc_opt(&got));
                    }
                }
                cx.st.add("operations", 1);
            }
        }
        let M { map, model, kt, name } = &mut maps[0];
        verify_gets(cx, &mut **map, model, &s.uni, &mut rng, "memory map")?;
        match rng.below(4) {
            0 => {
                let d = map.dup();
                *map = d;
            }
            1 => {
                *map = open_mem(&db, *kt, name);
            }
            2 => {
                io("flush", map.flush())?;
                io("sync_all", map.sync_all())?;
                io("sync_data", map.sync_data())?;
                io("read_fill_buffer", map.read_fill())?;
            }
            _ => {}
        }
    }
    {
        let M { map, model, .. } = &mut maps[0];
        verify_gets(cx, &mut **map, model, &s.uni, &mut rng, "memory map at the end")?;
    }
    if cx.idx % 8 == 3 {
        mem_names(cx, &mut rng)?;
    }
    let M { map, model, .. } = &mut maps[0];
    if cx.idx % 4 == 1 && model.len() < 4000 {
        // the same on files
        let fdb = open_db(&cx.dir)?;
        let mut f = open(&fdb, s.kt, "m", None)?;
        let mut fm = Model::new();
        play(cx, &mut *f, &mut fm, &s)?;
        ensure!(fm == *model, "the memory database and the file database end up with different content");
        cx.st.add("compared_with_files", 1);
    }
    Ok(())
}

/// Every map of a memory database is found by its own name and type.
fn mem_names(cx: &mut Cx, rng: &mut Rng) -> R {
    let stem = *rng.pick(&["x", "name", "Map 1", "\u{e9}t\u{e9}", "a.b", "0"]);
    let mut names: Vec<String> = vec![String::new(), " ".into(), ".".into(), "\0".into(), "\n".into(), "00".into()];
    for (a, b) in [("", ""), ("", " "), (" ", ""), ("", "."), ("", "\0"), ("\0", ""), ("", "\n"), ("", "\t"), ("", "_"), ("_", ""), ("/", ""), ("", "/"), ("", "\u{301}"), ("", "s"), ("", "i"), ("", "b"), ("", "_map"), ("s", ""), ("", ".idx")] {
        names.push(format!("{a}{stem}{b}"));
    }
    names.push(stem.to_uppercase());
    names.push(stem.to_lowercase());
    names.push(stem.repeat(2));
    names.push(stem.repeat(40));
    names.push(format!("{}-", stem.repeat(40)));
    names.sort();
    names.dedup();
    let dbs = [siamesedb::open_memory(), siamesedb::open_memory()];
    let mut all: Vec<(usize, Kt, &String)> = Vec::new();
    for d in 0..dbs.len() {
        for kt in KTS {
            for n in &names {
                if rng.chance(80) {
                    all.push((d, kt, n));
                }
            }
        }
    }
    rng.shuffle(&mut all);
    let keys = |kt: Kt| -> Vec<Vec<u8>> { (0..3u64).map(|i| if kt == Kt::Int { i.to_be_bytes().to_vec() } else { format!("k{i}").into_bytes() }).collect() };
    let mut models: Vec<Model> = Vec::new();
    for (i, (d, kt, n)) in all.iter().enumerate() {
        let mut m = open_mem(&dbs[*d], *kt, n);
        let mut model = Model::new();
        for k in keys(*kt) {
            let got = io("get", m.get(&k, 0))?;
            ensure!(got.is_none(), "the memory map {n:?} of {} keys, never written, has the key \"{}\"", kt_name(*kt), esc(&k));
            if rng.chance(60) {
                let v = i.to_le_bytes().to_vec();
                io("put", m.put(&k, &v, 0))?;
                model.insert(k, v);
            }
        }
        models.push(model);
    }
    for ((d, kt, n), model) in all.iter().zip(&models) {
        let mut m = open_mem(&dbs[*d], *kt, n);
        for k in keys(*kt) {
            let got = io("get", m.get(&k, 0))?;
            ensure!(got.as_ref() == model.get(&k), "get(\"{}\") in the memory map {n:?} of {} keys, opened again, returned {} instead of {}", esc(&k), kt_name(*kt), esc_opt(&got), esc_opt(&model.get(&k).cloned()));
        }
    }
    cx.st.add("memory_map_names", all.len() as u64);
    Ok(())
}

/// A map is only ever opened as what it is.
pub fn c14(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let kt = KTS[(cx.idx % 3) as usize];
    let dir = cx.dir.clone();
    let n = *rng.pick(&[0usize, 1, 40, 150]);
    let uni = gen::universe(kt, gen::Uni::Seq, n.max(3), &mut rng);
    let mut model = Model::new();
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", None)?;
        for k in uni.iter().take(n) {
            let v = gen::value(gen::Val::Class, rng.next(), &mut rng);
            io("put", map.put(k, &v, 0))?;
            model.insert(k.clone(), v);
        }
        if rng.chance(40) {
            // as another type, while it is open
            if rng.chance(50) || !model.is_empty() {
                io("flush", map.flush())?;
            }
            for other in KTS {
                if other != kt && rng.chance(70) {
                    let r = catch(|| open_map(&db, other, "m", None).map(|_| ()));
                    ensure!(!matches!(r, Ok(Ok(()))), "a map of {} keys was opened as one of {} keys in the same process", kt_name(kt), kt_name(other));
                    cx.st.add("refused_while_open", 1);
                }
            }
            verify_all(cx, &mut *map, &model, &uni, "after a refused open")?;
            if let Some(k) = uni.first() {
                io("put", map.put(k, b"after", 0))?;
                model.insert(k.clone(), b"after".to_vec());
            }
        }
    }
    cx.note(&format!("{} keys={}", kt_name(kt), model.len()));
    cx.digest = mix(cx.digest, rng.next());
    let before = dir_digest(&dir);
    let exts = super::basic::EXTS;
    let cases = 12;
    for _ in 0..cases {
        let what;
        let mut as_kt = kt;
        let mut undo: Vec<(std::path::PathBuf, u64, Vec<(u64, Vec<u8>)>)> = Vec::new();
        match rng.below(7) {
            0 | 1 => {
                as_kt = *rng.pick(&KTS);
                if as_kt == kt {
                    continue;
                }
                what = format!("a map of {} keys was opened as one of {} keys", kt_name(kt), kt_name(as_kt));
            }
            2..=5 => {
                // the signature
                use std::os::unix::fs::FileExt;
                let e = *rng.pick(&exts);
                let p = dir.join(format!("m.{e}"));
                let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).expect("harness: open");
                let mut was = [0u8; 16];
                f.read_exact_at(&mut was, 0).expect("harness: read");
                let mut b = was;
                // one of its halves, or all of it
                let (lo, hi) = *rng.pick(&[(0usize, 8usize), (8, 16), (0, 16)]);
                let off = lo + rng.below(hi - lo);
                match rng.below(12) {
                    0..=4 => b[off] ^= 1 + rng.below(255) as u8,
                    5 => b[lo..hi].fill(0),
                    6 => b[lo..hi].fill(0xff),
                    7 => b[lo..hi].fill(b' '),
                    8 => b[lo..hi].reverse(),
                    9 => b[off..hi].fill(0),
                    10 => {
                        // that of another file
                        let o = *rng.pick(&exts);
                        let g = std::fs::File::open(dir.join(format!("m.{o}"))).expect("harness: open");
                        g.read_exact_at(&mut b[lo..hi], lo as u64).expect("harness: read");
                    }
                    _ => {
                        for x in &mut b[lo..hi] {
                            *x = if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() };
                        }
                    }
                }
                if b == was {
                    continue;
                }
                undo.push((p, u64::MAX, vec![(0, was.to_vec())]));
                f.write_all_at(&b, 0).expect("harness: write");
                cx.st.add("damaged_signatures", 1);
                what = format!("a map whose {e} file has the signature {b:?} instead of {was:?} was opened");
            }
            _ => {
                // one file of the map is that of a map of another type
                let other = KTS[(KTS.iter().position(|k| *k == kt).unwrap() + 1 + rng.below(2)) % 3];
                let odir = cx.dir.join("other");
                rm_dir(&odir);
                {
                    let db = open_db(&odir)?;
                    let _ = open(&db, other, "m", None)?;
                }
                let e = *rng.pick(&exts);
                let p = dir.join(format!("m.{e}"));
                let (l, x) = data_extents(&p);
                let (nl, nx) = data_extents(&odir.join(format!("m.{e}")));
                rm_dir(&odir);
                write_extents(&p, nl, &nx);
                undo.push((p, l, x));
                what = format!("a map of {} keys was opened although its {e} file is of a map of {} keys", kt_name(kt), kt_name(other));
            }
        }
        let mid = file_digests(&dir);
        let p = gen::maybe_params(&mut rng, 30);
        let r = catch(|| -> std::io::Result<()> {
            let db = siamesedb::open_file(&dir)?;
            let _m = open_map(&db, as_kt, "m", p.clone())?;
            Ok(())
        });
        ensure!(!matches!(r, Ok(Ok(()))), "{what}");
        ensure!(file_digests(&dir) == mid, "the open was refused, but the files changed ({what})");
        cx.st.add("refused", 1);
        for (p, l, x) in undo {
            if l == u64::MAX {
                use std::os::unix::fs::FileExt;
                let f = std::fs::OpenOptions::new().write(true).open(&p).expect("harness: open");
                f.write_all_at(&x[0].1, x[0].0).expect("harness: write");
            } else {
                write_extents(&p, l, &x);
            }
        }
    }
    ensure!(file_digests(&dir) == before, "harness: not restored");
    // a new map refuses other types even if the process that made it was killed
    {
        let dir2 = cx.dir.join("new");
        let copy = cx.dir.join("newcopy");
        let db = open_db(&dir2)?;
        let _map = open(&db, kt, "n", gen::maybe_params(&mut rng, 30))?;
        copy_dir(&dir2, &copy);
        for other in KTS {
            let r = catch(|| -> std::io::Result<()> {
                let db = siamesedb::open_file(&copy)?;
                let _m = open_map(&db, other, "n", None)?;
                Ok(())
            });
            if other == kt {
                ensure!(matches!(r, Ok(Ok(()))), "a new map cannot be opened after the death of the process: {r:?}");
            } else {
                ensure!(!matches!(r, Ok(Ok(()))), "a new map of {} keys was opened as one of {} keys", kt_name(kt), kt_name(other));
            }
            cx.st.add("new_maps", 1);
        }
        drop(db);
        rm_dir(&copy);
        rm_dir(&dir2);
    }
    // and the right type finds everything
    let db = open_db(&dir)?;
    let mut map = open(&db, kt, "m", None)?;
    verify_all(cx, &mut *map, &model, &uni, "after refused opens")
}

fn file_digests(dir: &Path) -> BTreeMap<String, u64> {
    list_files(dir)
        .into_iter()
        .filter(|n| dir.join(n).is_file())
        .map(|n| {
            let d = file_digest(&dir.join(&n));
            (n, d)
        })
        .collect()
}

/// Small versions of the other scenarios: only what the instrumented code
/// itself complains about counts (panics, aborts, sanitizer reports).
pub fn c15(cx: &mut Cx) -> R {
    let kind = if cfg!(miri) { 0 } else { cx.rng.below(9) };
    cx.note(&format!("kind {kind}"));
    cx.st.add(&format!("kind_{kind}"), 1);
    let r = match kind {
        0 | 1 => small(cx),
        2 => super::basic::c06(cx),
        3 => super::files::c11(cx),
        4 => super::files::c12(cx),
        5 => c21(cx),
        6 => super::files::c18(cx),
        7 => super::basic::c03(cx),
        _ => super::files::c16(cx),
    };
    match r {
        Ok(()) => Ok(()),
        Err(Fail(m)) if m.starts_with("panic") => Err(Fail(m)),
        // wrong answers are judged by the other properties
        Err(Fail(_)) => {
            cx.st.add("wrong_answers_left_to_other_properties", 1);
            Ok(())
        }
    }
}

/// a file map and a memory map, every method once at least
fn small(cx: &mut Cx) -> R {
    let s = if cfg!(miri) { tiny(cx) } else { case_script(cx, [50, 40, 10, 0, 0]) };
    let mut rng = cx.rng.clone();
    let mut model = Model::new();
    let (all, part) = (s.ops.len(), if cfg!(miri) { s.ops.len() / 4 } else { 0 });
    {
        let db = open_db(&cx.dir)?;
        let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 50))?;
        play_range(cx, &mut *map, &mut model, &s, part, all)?;
        for m in 0..5 {
            if !cfg!(miri) || rng.chance(40) {
                verify_iter(cx, &mut *map, &model, m, "small")?;
            }
        }
        if !cfg!(miri) || rng.chance(25) {
            io("snap", map.snap())?;
        }
        if !cfg!(miri) || rng.chance(25) {
            io("graph", map.graph(true))?;
            io("graph", map.graph(false))?;
        }
        let ks: Vec<Vec<u8>> = s.uni.iter().take(if cfg!(miri) { 4 } else { 20 }).cloned().collect();
        let kv: Vec<Kv> = ks.iter().map(|k| (k.clone(), b"bulk".to_vec())).collect();
        io("bulk_put", map.bulk_put(&kv))?;
        io("bulk_get", map.bulk_get(&ks))?;
        io("bulk_delete", map.bulk_del(&ks))?;
        for k in &ks {
            model.remove(k);
        }
        io("flush", map.flush())?;
        if rng.chance(50) {
            io("sync_all", map.sync_all())?;
        } else {
            io("sync_data", map.sync_data())?;
        }
        if !cfg!(miri) {
            // it loads the whole hash file
            io("read_fill_buffer", map.read_fill())?;
        }
    }
    {
        let db = open_db(&cx.dir)?;
        let mut map = open(&db, s.kt, "m", gen::maybe_params(&mut rng, 50))?;
        play_range(cx, &mut *map, &mut model, &s, 0, part)?;
        let m = rng.below(5);
        verify_iter(cx, &mut *map, &model, m, "small")?;
    }
    let mem = siamesedb::open_memory();
    let mut mm = open_mem(&mem, s.kt, "m");
    let mut model = Model::new();
    play_range(cx, &mut *mm, &mut model, &s, 0, all)
}

/// few keys: an interpreter runs it
fn tiny(cx: &mut Cx) -> Script {
    let kt = KTS[(cx.idx % 3) as usize];
    let mut rng = cx.rng.clone();
    let n = rng.range(6, 16);
    let kind = *rng.pick(&[gen::Uni::Seq, gen::Uni::Rand, gen::Uni::Prefix, gen::Uni::Lengths, gen::Uni::Mixed]);
    let mut uni = gen::universe(kt, kind, n, &mut rng);
    uni.iter_mut().for_each(|k| if kt == Kt::Bytes { k.truncate(300) });
    uni.sort();
    uni.dedup();
    let o = Opts { reads: 15, misses: true, syncs: true, strings: true, bulk: false };
    let val = *rng.pick(&[gen::Val::Small, gen::Val::Class, gen::Val::Text]);
    let ord = [Order::Asc, Order::Desc, Order::Rand, Order::Inside];
    let ph = [
        Ph::Fill(*rng.pick(&ord), 100),
        Ph::Drain(*rng.pick(&ord), 70),
        Ph::Churn(10),
        Ph::Fill(*rng.pick(&ord), 50),
    ];
    let mut s = script(kt, uni, val, &ph, &o, &mut rng);
    s.ops.retain(|o| !matches!(o, Op::ReadFill));
    s.ops.truncate(55);
    cx.rng.next();
    cx.digest = mix(cx.digest, rng.next());
    cx.note(&format!("{kind:?} {} keys={} values={val:?} {ph:?}", kt_name(kt), s.uni.len()));
    s
}

macro_rules! key_checks {
    ($cx:expr, $t:ident, $bytes:expr, $bytes2:expr) => {{
        let (a, b): (&[u8], &[u8]) = ($bytes, $bytes2);
        let ka = $t::from(a);
        let kb = $t::from(b.to_vec());
        let name = stringify!($t);
        ensure!(ka.as_bytes() == a, "{name}::from(&[u8]) of \"{}\" holds \"{}\"", esc(a), esc(ka.as_bytes()));
        ensure!(kb.as_bytes() == b, "{name}::from(Vec<u8>) of \"{}\" holds \"{}\"", esc(b), esc(kb.as_bytes()));
        ensure!(<$t as DbMapKeyType>::from_bytes(a).as_bytes() == a, "{name}::from_bytes of \"{}\"", esc(a));
        ensure!(<$t as DbMapKeyType>::from_bytes(a) == ka, "{name}::from_bytes of \"{}\" is not equal to from", esc(a));
        ensure!($t::from(&ka) == ka && $t::from(&ka).as_bytes() == a, "{name}::from(&{name}) of \"{}\"", esc(a));
        ensure!(&ka[..] == a, "{name}: deref of \"{}\"", esc(a));
        ensure!(ka.clone() == ka, "{name}: clone of \"{}\"", esc(a));
        ensure!(ka.cmp(&kb) == a.cmp(b), "{name}: \"{}\" compared with \"{}\" is {:?}", esc(a), esc(b), ka.cmp(&kb));
        ensure!(ka.partial_cmp(&kb) == Some(a.cmp(b)), "{name}: partial_cmp of \"{}\" with \"{}\"", esc(a), esc(b));
        ensure!((ka == kb) == (a == b), "{name}: \"{}\" == \"{}\" is {}", esc(a), esc(b), ka == kb);
        ensure!(ka.cmp_u8(b) == a.cmp(b), "{name}: \"{}\" compared with the stored \"{}\" is {:?}", esc(a), esc(b), ka.cmp_u8(b));
        ensure!(ka.hash_value() == <$t as DbMapKeyType>::from_bytes(a).hash_value(), "{name}: two hash values of \"{}\"", esc(a));
        if let (Ok(s), Ok(_)) = (std::str::from_utf8(a), std::str::from_utf8(b)) {
            ensure!($t::from(s) == ka, "{name}::from(&str) of \"{}\"", esc(a));
            ensure!($t::from(s.to_string()) == ka, "{name}::from(String) of \"{}\"", esc(a));
            ensure!($t::from(&s.to_string()) == ka, "{name}::from(&String) of \"{}\"", esc(a));
        }
        if a.len() == 8 {
            let mut x = [0u8; 8];
            x.copy_from_slice(a);
            ensure!($t::from(&x) == ka, "{name}::from(&[u8; 8]) of \"{}\"", esc(a));
            let n = u64::from_be_bytes(x);
            ensure!($t::from(n) == ka, "{name}::from(u64) of {n} holds \"{}\"", esc($t::from(n).as_bytes()));
            ensure!($t::from(&n) == ka, "{name}::from(&u64) of {n} holds \"{}\"", esc($t::from(&n).as_bytes()));
            if b.len() == 8 {
                let m = u64::from_be_bytes(b.try_into().unwrap());
                ensure!(n.cmp(&m) == $t::from(n).cmp(&$t::from(m)), "{name}: the order of {n} and {m}");
            }
        }
        $cx.st.add("key_pairs", 1);
    }};
}

/// Every way to write a key down means the same key, and keys keep the order.
pub fn c20(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    ensure!(DbString::signature() == *b"string\0\0" && DbInt::signature() == *b"uint64\0\0" && DbBytes::signature() == *b"bytes\0\0\0", "a type signature is not the documented one");
    let mut pool: Vec<Vec<u8>> = Vec::new();
    for kt in KTS {
        for _ in 0..3 {
            let u = *rng.pick(&gen::UNIS);
            let u = if u == gen::Uni::Collide { gen::Uni::Rand } else { u };
            pool.extend(gen::universe(kt, u, 60, &mut rng));
        }
    }
    // text that a helpful conversion might change
    let odd = [
        " ", "  ", "a", " a", "a ", " a ", "a\n", "\na", "a\r\n", "\ta\t", "a\0", "\0", "\0a", "A", "a", "Aa", "aA", "É", "é", "e\u{301}", "ß", "SS", "ſ", "K", "K",
        "İ", "i\u{307}", "\u{feff}a", "a\u{200d}", "\u{a0}", "\u{2003}x", "0", "00", "01", "1", "+1", "-1", "1.0", "1e3", "0x1", "18446744073709551615",
        "18446744073709551616", "\"a\"", "'a'", "a/b", "../a", "a\\b", "%41", "&amp;", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "12345678", "abcdefgh", "1234567\0",
    ];
    pool.extend(odd.iter().map(|s| s.as_bytes().to_vec()));
    for _ in 0..20 {
        // bytes that are not text
        let n = rng.below(12);
        pool.push((0..n).map(|_| *rng.pick(&[0u8, 0x20, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xe3, 0xed, 0xa0, 0xf0, 0xff])).collect());
    }
    let texts: Vec<String> = pool.iter().filter_map(|b| String::from_utf8(b.clone()).ok()).collect();
    for _ in 0..3000 {
        let a = rng.pick(&pool).clone();
        let mut b = rng.pick(&pool).clone();
        match rng.below(6) {
            0 => b = a.clone(),
            1 => {
                b = a.clone();
                b.push(rng.below(256) as u8);
            }
            2 if !a.is_empty() => {
                b = a.clone();
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
            }
            3 if !a.is_empty() => {
                b = a.clone();
                b.pop();
            }
            _ => {}
        }
        key_checks!(cx, DbString, &a, &b);
        key_checks!(cx, DbInt, &a, &b);
        key_checks!(cx, DbBytes, &a, &b);
    }
    cx.note(&format!("{} keys", pool.len()));
    cx.digest = mix(cx.digest, rng.next());
    // in a map: written one way, found the other ways
    let db = open_db(&cx.dir)?;
    let mut ms = io("open", db.db_map_string("s"))?;
    let mut mi = io("open", db.db_map_int("i"))?;
    let mut mb = io("open", db.db_map_bytes("b"))?;
    let mut ints: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let mut strs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut byts: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    for i in 0..120u32 {
        let v = i.to_le_bytes();
        let t = if rng.chance(50) { rng.pick(&texts).clone() } else { format!("k{}", rng.next() >> 40) };
        strs.insert(t.clone(), v.to_vec());
        match i % 4 {
            0 => io("put", ms.put(t.as_str(), &v))?,
            1 => io("put", ms.put(&t, &v))?,
            2 => io("put", ms.put(t.as_bytes(), &v))?,
            _ => io("put", ms.put_kt(&DbString::from(t.clone()), &v))?,
        }
        for (j, r) in [ms.get(t.as_str()), ms.get(&t), ms.get(t.as_bytes()), ms.get(&DbString::from(&t)), ms.get_kt(&DbString::from(t.as_bytes().to_vec()))].into_iter().enumerate() {
            ensure!(io("get", r)?.as_deref() == Some(&v[..]), "the string key {t} written in way {} is not found in way {j}", i % 4);
        }
        let n = match rng.below(4) {
            0 => rng.next(),
            1 => 1u64 << rng.below(64),
            2 => (1u64 << rng.below(64)).wrapping_sub(1),
            _ => rng.next() >> rng.below(64),
        };
        let be = n.to_be_bytes();
        match i % 4 {
            0 => io("put", mi.put(&n, &v))?,
            1 => io("put", mi.put(&be, &v))?,
            2 => io("put", mi.put(&be[..], &v))?,
            _ => io("put", mi.put_kt(&DbInt::from(n), &v))?,
        }
        ints.insert(n, v.to_vec());
        for (j, r) in [mi.get(&n), mi.get(&be), mi.get(&be[..]), mi.get(&DbInt::from(&n)), mi.get_kt(&DbInt::from(be.to_vec()))].into_iter().enumerate() {
            ensure!(io("get", r)?.as_deref() == Some(&v[..]), "the int key {n} written in way {} is not found in way {j}", i % 4);
        }
        let k = rng.pick(&pool).clone();
        byts.insert(k.clone(), v.to_vec());
        match i % 3 {
            0 => io("put", mb.put(&k[..], &v))?,
            1 => io("put", mb.put_kt(&DbBytes::from(k.clone()), &v))?,
            _ => io("put", mb.put(&DbBytes::from(&k[..]), &v))?,
        }
        for (j, r) in [mb.get(&k[..]), mb.get(&DbBytes::from(&k[..])), mb.get_kt(&DbBytes::from_bytes(&k))].into_iter().enumerate() {
            ensure!(io("get", r)?.as_deref() == Some(&v[..]), "the bytes key \"{}\" written in way {} is not found in way {j}", esc(&k), i % 3);
        }
        cx.st.add("keys_through_maps", 3);
    }
    let got: Vec<(u64, Vec<u8>)> = siamesedb::DbMap::iter(&mi).map(|(k, v)| (int(k.as_bytes()), v)).collect();
    let want: Vec<(u64, Vec<u8>)> = ints.into_iter().collect();
    ensure!(got == want, "the int map does not iterate in numeric order");
    // the keys come out again as they went in
    let got: Vec<(Vec<u8>, Vec<u8>)> = siamesedb::DbMap::iter(&ms).map(|(k, v)| (k.as_bytes().to_vec(), v)).collect();
    let want: Vec<(Vec<u8>, Vec<u8>)> = strs.into_iter().map(|(k, v)| (k.into_bytes(), v)).collect();
    ensure!(got == want, "the string map does not hold the keys it was given");
    let got: Vec<(Vec<u8>, Vec<u8>)> = siamesedb::DbMap::iter(&mb).map(|(k, v)| (k.as_bytes().to_vec(), v)).collect();
    let want: Vec<(Vec<u8>, Vec<u8>)> = byts.into_iter().collect();
    ensure!(got == want, "the byte map does not hold the keys it was given");
    Ok(())
}

/// Lengths and offsets of every size are stored exactly.
pub fn c21(cx: &mut Cx) -> R {
    if cx.idx % 12_000 == 21 && !cfg!(any(miri, vh_asan, debug_assertions)) {
        return c21_huge(cx);
    }
    match cx.idx % 8 {
        0 | 1 => c21_sweep(cx),
        2 | 3 | 4 => c21_edges(cx),
        5 | 6 => c21_far(cx),
        _ if cx.idx % 64 == 7 && !cfg!(any(miri, vh_asan)) => c21_reject(cx),
        _ => c21_edges(cx),
    }
}

/// every length in a range
fn c21_sweep(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let kt = if rng.chance(50) { Kt::Bytes } else { Kt::Str };
    let base = *rng.pick(&[0usize, 0, 100, 500, 850, 1000, 2000, 4000, 8100, 16300]);
    let n = 260;
    let on_key = rng.chance(40);
    cx.note(&format!("{} lengths {base}..{} of {}", kt_name(kt), base + n, if on_key { "keys" } else { "values" }));
    cx.digest = mix(cx.digest, rng.next());
    let mut lens: Vec<usize> = (base..base + n).collect();
    rng.shuffle(&mut lens);
    let dir = cx.dir.clone();
    let mut model = Model::new();
    let mut uni = Vec::new();
    let rounds = 1 + rng.below(3);
    for r in 0..rounds {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", gen::maybe_params(&mut rng, 40))?;
        for &l in &lens {
            let (k, v) = if on_key {
                (vec![b'a' + (l % 26) as u8; l], gen::value(gen::Val::Fixed(rng.below(40)), l as u64, &mut rng))
            } else {
                let l2 = lens[(l + r * 7) % n] ;
                (format!("{l:06}").into_bytes(), gen::value(gen::Val::Fixed(l2), l as u64 + r as u64, &mut rng))
            };
            io("put", map.put(&k, &v, l))?;
            let got = io("get", map.get(&k, l + 1))?;
            ensure!(got.as_ref() == Some(&v), "a value of {} bytes under a key of {} bytes comes back as {}", v.len(), k.len(), esc_opt(&got));
            model.insert(k.clone(), v);
            uni.push(k);
            cx.st.add("lengths_stored", 1);
        }
        verify_all(cx, &mut *map, &model, &uni, "lengths")?;
        if r > 0 {
            for k in uni.iter().step_by(3) {
                let got = io("delete", map.del(k, 0))?;
                let want = model.remove(k);
                ensure!(got == want, "delete of a key of {} bytes returned {}", k.len(), esc_opt(&got));
            }
        }
        rng.shuffle(&mut lens);
    }
    let db = open_db(&dir)?;
    let mut map = open(&db, kt, "m", gen::maybe_params(&mut rng, 40))?;
    verify_all(cx, &mut *map, &model, &uni, "lengths after a reopen")
}

/// around the sizes of buffer chunks, up to some MiB
fn c21_edges(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let kt = if rng.chance(60) { Kt::Bytes } else { Kt::Str };
    let dir = cx.dir.clone();
    cx.note(&format!("{} long keys and values", kt_name(kt)));
    cx.digest = mix(cx.digest, rng.next());
    let mut model = Model::new();
    let mut uni: Vec<Vec<u8>> = Vec::new();
    let sessions = 2 + rng.below(2);
    for _ in 0..sessions {
        let db = open_db(&dir)?;
        let mut map = open(&db, kt, "m", gen::maybe_params(&mut rng, 50))?;
        for _ in 0..14 {
            let edge = |rng: &mut Rng| -> usize {
                let e = *rng.pick(&[0usize, 1024, 4096, 16384, 65536, 131_072, 262_144, 393_216, 1 << 20, 3 << 20, 1 << 21]);
                if rng.below(50) == 0 {
                    // the next limits of the encodings
                    let n = *rng.pick(&[1usize << 22, 1 << 23, 1 << 24, 1 << 24, 1 << 25, 3 << 24]);
                    n + rng.below(40) - rng.below(30)
                } else if rng.chance(30) {
                    rng.below(200)
                } else {
                    (e + rng.below(400)).saturating_sub(rng.below(600))
                }
            };
            let k = if !uni.is_empty() && rng.chance(35) {
                rng.pick(&uni).clone()
            } else if rng.chance(35) {
                let n = edge(&mut rng);
                let c = b'a' + rng.below(26) as u8;
                // few of them are very long: every comparison reads a key
                let n = if n < 700_000 || (uni.iter().filter(|k| k.len() > 700_000).count() < 3 && rng.chance(50)) { n } else { 700_000 };
                vec![c; n]
            } else {
                format!("key{}", rng.next() >> 50).into_bytes()
            };
            if rng.chance(20) {
                let got = io("delete", map.del(&k, 0))?;
                let want = model.remove(&k);
                ensure!(got == want, "delete of a key of {} bytes returned {} instead of {}", k.len(), esc_opt(&got), esc_opt(&want));
            } else {
                let l = edge(&mut rng);
                let v = gen::value(gen::Val::Fixed(l), rng.next(), &mut rng);
                io("put", map.put(&k, &v, 0))?;
                let got = io("get", map.get(&k, 1))?;
                ensure!(got.as_ref() == Some(&v), "a value of {} bytes under a key of {} bytes comes back as {}", v.len(), k.len(), esc_opt(&got));
                cx.st.max("value_length_max", v.len() as u64);
                cx.st.max("key_length_max", k.len() as u64);
                model.insert(k.clone(), v);
            }
            if !uni.contains(&k) {
                uni.push(k);
            }
            cx.st.add("lengths_stored", 1);
        }
        verify_all(cx, &mut *map, &model, &uni, "long keys and values")?;
    }
    let d = fsck::read_opt(&dir, "m", false)?;
    d.same_as(&model, "long keys and values")
}

/// offsets beyond 4 GiB: the files are made long (and sparse) first
pub fn c21_far(cx: &mut Cx) -> R {
    let mut s = case_script(cx, [10, 60, 30, 0, 0]);
    // it loads the whole file
    s.ops.retain(|o| !matches!(o, Op::ReadFill));
    let mut rng = cx.rng.clone();
    let dir = cx.dir.clone();
    let mut model = Model::new();
    let half = s.ops.len() / 2;
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, s.kt, "m", None)?;
        play_range(cx, &mut *map, &mut model, &s, 0, half / 4)?;
    }
    let which = 1 + rng.below(7);
    let mut holes: fsck::Holes = Vec::new();
    for (i, e) in ["val", "key", "idx"].iter().enumerate() {
        if which & (1 << i) != 0 {
            let f = std::fs::OpenOptions::new().write(true).open(dir.join(format!("m.{e}"))).expect("harness: open");
            let end = f.metadata().expect("harness: metadata").len();
            // new pieces begin at the end of the file; multiples of 16 keep them where pieces may be
            let mut far = *rng.pick(&[0xFFFF_F000u64, 0x1_0000_0000, 0x1_2345_6780, 0x2_0000_0000 - 4096, 0x8_0000_0000]);
            if rng.chance(60) {
                // the low half of the offsets is that of other records
                far = (far & !0xffff_ffff).max(1 << 32) + (end - 1) / 16 * 16 * rng.below(101) as u64 / 100 / 16 * 16;
            }
            holes.push((e, end, far));
            f.set_len(far).expect("harness: set_len");
            cx.note(&format!("{e} from {far:#x}"));
            cx.st.add("files_extended", 1);
        }
    }
    let p = || siamesedb::filedb::FileDbParams {
        val_buf_size: siamesedb::filedb::FileBufSizeParam::Auto,
        ..Default::default()
    };
    {
        let db = open_db(&dir)?;
        let mut map = open(&db, s.kt, "m", if rng.chance(50) { Some(p()) } else { None })?;
        play_range(cx, &mut *map, &mut model, &s, half / 4, half)?;
        verify_all(cx, &mut *map, &model, &s.uni, "with offsets beyond 4 GiB")?;
    }
    let look = |model: &Model, what: &str, htx: bool| -> R {
        let d = fsck::read_holes(&dir, "m", htx, &holes)?;
        d.same_as(model, what)?;
        d.tree()?;
        d.accounting().map_err(|f| Fail(format!("{what}: {}", f.0)))?;
        #[cfg(feature = "htx")]
        if htx {
            d.hash_table(|k| gen::hash_of(s.kt, k)).map_err(|f| Fail(format!("{what}: {}", f.0)))?;
        }
        Ok(())
    };
    look(&model, "with offsets beyond 4 GiB after a close", true)?;
    let db = open_db(&dir)?;
    let mut map = open(&db, s.kt, "m", None)?;
    verify_all(cx, &mut *map, &model, &s.uni, "with offsets beyond 4 GiB after a reopen")?;
    play_range(cx, &mut *map, &mut model, &s, half, s.ops.len())?;
    verify_all(cx, &mut *map, &model, &s.uni, "with offsets beyond 4 GiB at the end")?;
    io("flush", map.flush())?;
    look(&model, "with offsets beyond 4 GiB at the end", false)?;
    cx.st.add("far_files_read", 2);
    let len = std::fs::metadata(dir.join("m.val")).map(|m| m.len()).unwrap_or(0);
    cx.st.max("value_file_length_max", len);
    Ok(())
}

fn mem_available() -> u64 {
    let s = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let l = s.lines().find(|l| l.starts_with("MemAvailable:")).unwrap_or("");
    l.split_whitespace().nth(1).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0) << 10
}

/// a value and a key of more than 2 GiB, one after the other
fn c21_huge(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let dir = cx.dir.clone();
    let free = mem_available();
    if free < 20 << 30 {
        return c21_edges(cx);
    }
    let len = if free > 40 << 30 && rng.chance(50) { (1usize << 32) - 1025 - rng.below(3000) } else { (1usize << 31) + rng.below(5000) };
    cx.note(&format!("a value and a key of {len} bytes"));
    cx.digest = mix(cx.digest, rng.next());
    let huge = |seed: u64| {
        let mut v = vec![seed as u8; len];
        for i in (0..len).step_by(4096) {
            v[i] = mix(seed, i as u64) as u8;
        }
        v[len - 1] = !(seed as u8);
        v
    };
    let b = huge(rng.next());
    for in_key in [false, true] {
        let name = if in_key { "k" } else { "v" };
        {
            let db = open_db(&dir)?;
            let mut map = open(&db, Kt::Bytes, name, None)?;
            io("put", map.put(b"0", b"one", 0))?;
            io("put", if in_key { map.put(&b, b"big", 0) } else { map.put(b"b", &b, 0) })?;
            io("put", map.put(b"\xff\xff", b"three", 0))?;
            let got = io("get", if in_key { map.get(&b, 0) } else { map.get(b"b", 0) })?;
            ensure!(got.as_deref() == Some(if in_key { &b"big"[..] } else { &b[..] }), "what was put with {len} bytes in the {} is not found", if in_key { "key" } else { "value" });
        }
        {
            let db = open_db(&dir)?;
            let mut map = open(&db, Kt::Bytes, name, None)?;
            ensure!(io("get", map.get(b"0", 0))?.as_deref() == Some(b"one"), "the pair before the huge one is lost");
            ensure!(io("get", map.get(b"\xff\xff", 0))?.as_deref() == Some(b"three"), "the pair behind the huge one is lost");
            let got = io("delete", if in_key { map.del(&b, 0) } else { map.del(b"b", 0) })?;
            ensure!(got.as_deref() == Some(if in_key { &b"big"[..] } else { &b[..] }), "what was put with {len} bytes in the {} is not found after a reopen", if in_key { "key" } else { "value" });
            ensure!(io("get", map.get(b"\xff\xff", 0))?.as_deref() == Some(b"three"), "the pair behind the deleted huge one is lost");
        }
        let p = dir.join(if in_key { "k.key" } else { "v.val" });
        let l = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
        ensure!(l > len as u64 && l < len as u64 + 4096, "the file has {l} bytes for {len} in the record");
        std::fs::remove_file(&p).expect("harness: remove");
        cx.st.add("huge_lengths", 1);
        cx.st.max("length_max", len as u64);
    }
    Ok(())
}

/// what the format cannot hold is refused, and nothing else happens
fn c21_reject(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    cx.note("values and keys of 4 GiB");
    let db = open_db(&cx.dir)?;
    let mut map = open(&db, Kt::Bytes, "m", None)?;
    let mut model = Model::new();
    let uni = gen::universe(Kt::Bytes, gen::Uni::Seq, 90, &mut rng);
    for k in uni.iter().take(80) {
        let v = gen::value(gen::Val::Class, rng.next(), &mut rng);
        io("put", map.put(k, &v, 0))?;
        model.insert(k.clone(), v);
    }
    io("sync_all", map.sync_all())?;
    let before = dir_digest(&cx.dir);
    // never touched, so it takes no memory
    let len = (1usize << 32) + *rng.pick(&[0usize, 1, 5, 1000]);
    let big = vec![0u8; len];
    for k in [&uni[3], &uni[85]] {
        let r = catch(|| map.put(k, &big, 0));
        ensure!(!matches!(r, Ok(Ok(()))), "a value of {len} bytes was accepted");
        ensure!(matches!(r, Ok(Err(_))), "a value of {len} bytes is not refused with an error: {r:?}");
        cx.st.add("values_refused", 1);
    }
    drop(big);
    verify_all(cx, &mut *map, &model, &uni, "after a refused value")?;
    io("sync_all", map.sync_all())?;
    let d = fsck::read(&cx.dir, "m")?;
    d.same_as(&model, "after a refused value")?;
    d.accounting()?;
    let after = dir_digest(&cx.dir);
    ensure!(before == after, "a refused value changed the files");
    Ok(())
}

#[cfg(not(any(miri, vh_asan)))]
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").expect("harness: /proc/self/fd").count()
}

/// Closing gives everything back.
#[cfg(not(any(miri, vh_asan)))]
pub fn c22(cx: &mut Cx) -> R {
    let mut rng = cx.rng.clone();
    let kind = cx.idx % 6;
    let kt = KTS[rng.below(3)];
    let uk = *rng.pick(&[gen::Uni::Seq, gen::Uni::Rand]);
    // enough keys now and then for files of many buffer chunks
    let large = cx.idx % 180 >= 174;
    let n = if large { 36_000 } else { *rng.pick(&[5usize, 100, 300]) };
    if large {
        cx.st.add("large_maps", 1);
    }
    let uni = gen::universe(kt, uk, n, &mut rng);
    let p = gen::maybe_params(&mut rng, 30);
    let ways = rng.next();
    cx.note(&format!("kind {kind} {} keys={n} {p:?}", kt_name(kt)));
    cx.digest = mix(cx.digest, ways);
    let dir = cx.dir.clone();
    let round = |r: u64| -> R {
        let mut rng = Rng::new(ways);
        match kind {
            5 => {
                // a memory database
                let db = siamesedb::open_memory();
                let mut m = open_mem(&db, kt, "m");
                let mut m2 = m.dup();
                for k in &uni {
                    io("put", m.put(k, k, 0))?;
                    io("get", m2.get(k, 0))?;
                }
                return Ok(());
            }
            _ => {}
        }
        let db = open_db(&dir)?;
        let mut m = open(&db, kt, "m", p.clone())?;
        // the same work in each round
        for k in &uni {
            if rng.chance(70) {
                let v = gen::value(gen::Val::Fixed(100), 1, &mut rng);
                io("put", m.put(k, &v, 0))?;
            }
        }
        match kind {
            0 => {
                let mut d = m.dup();
                let it = d.iter(0);
                let mut it2 = m.iter(2);
                let _ = it2.next();
                drop(m);
                drop(db);
                drop(it);
                drop(d);
                let _ = it2.next();
            }
            1 => {
                // an open that fails
                let other = KTS[(KTS.iter().position(|k| *k == kt).unwrap() + 1) % 3];
                io("flush", m.flush())?;
                let one = fds();
                for _ in 0..3 {
                    let r = catch(|| open_map(&db, other, "m", None).map(|_| ()));
                    ensure!(!matches!(r, Ok(Ok(()))), "a map was opened as another type");
                }
                let two = fds();
                ensure!(one == two, "{} files stay open after opens that were refused", two as i64 - one as i64);
                // the same map again and again
                for _ in 0..4 {
                    let mut again = open(&db, kt, "m", p.clone())?;
                    io("get", again.get(&uni[0], 0))?;
                }
                ensure!(fds() == two, "{} more files are open after the same map was opened again", fds() as i64 - two as i64);
            }
            2 => {
                for i in 0..6 {
                    let _ = open(&db, KTS[i % 3], &format!("map{i}"), None)?;
                }
                io("sync_all", db.sync_all())?;
                let db2 = db.clone();
                drop(db);
                drop(db2);
                io("put", m.put(&uni[0], b"still open", 0))?;
            }
            3 => {
                // deletes and overwrites
                for k in &uni {
                    io("delete", m.del(k, 0))?;
                }
                for _ in 0..3 {
                    let mut it = m.iter(1);
                    while it.next().is_some() {}
                }
            }
            _ => {
                for k in uni.iter().take(50) {
                    io("get", m.get(k, 0))?;
                    io("put", m.put(k, b"x", 0))?;
                }
                io("sync_data", m.sync_data())?;
                let _ = io("stats", m.snap())?;
            }
        }
        let _ = r;
        Ok(())
    };
    let mut heaps = Vec::new();
    let mut fdv = Vec::new();
    let rounds = 7;
    heaps.reserve(rounds);
    fdv.reserve(rounds);
    for r in 0..rounds as u64 {
        round(r)?;
        heaps.push(crate::heap_live());
        fdv.push(fds());
    }
    // the first rounds fill what is kept for good
    ensure!(fdv[2..].iter().all(|f| *f == fdv[2]), "file descriptors after each round of opening, using and closing: {fdv:?}");
    let growing = heaps[2..].windows(2).all(|w| w[1] > w[0]);
    ensure!(!growing, "heap bytes in use after each round of opening, using and closing: {heaps:?}");
    // nothing of the database is open any more
    for e in std::fs::read_dir("/proc/self/fd").expect("harness: /proc/self/fd").flatten() {
        if let Ok(t) = std::fs::read_link(e.path()) {
            ensure!(!t.starts_with(&dir), "{t:?} is still open after everything was dropped");
        }
    }
    cx.st.add("rounds", rounds as u64);
    cx.st.add("descriptor_counts", rounds as u64);
    Ok(())
}

/// The answers are the same in every configuration of features.
pub fn c23(cx: &mut Cx) -> R {
    match cx.idx % 4 {
        0 => super::basic::c01(cx),
        1 => super::basic::c03(cx),
        2 => super::basic::c06(cx),
        _ => super::basic::c02(cx),
    }
}
