//! Databases which the pinned commit wrote, before any change to it. They are
//! kept in ../golden and were made by `vh golden` built against that commit.
use super::*;
use crate::gen;

pub struct Golden {
    pub name: String,
    pub kt: Kt,
    pub model: Model,
    /// key, val, idx
    files: Vec<Vec<u8>>,
    htx_len: u64,
    /// (slot, key piece) and the header
    slots: Vec<(u64, u64)>,
    head: Vec<u8>,
}

const BLOBS: [&[u8]; 6] = [
    include_bytes!("../../golden/0.bin"),
    include_bytes!("../../golden/1.bin"),
    include_bytes!("../../golden/2.bin"),
    include_bytes!("../../golden/3.bin"),
    include_bytes!("../../golden/4.bin"),
    include_bytes!("../../golden/5.bin"),
];

struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn n(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.n() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}
fn wb(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u64).to_le_bytes());
    o.extend_from_slice(b);
}

pub fn all() -> Vec<Golden> {
    BLOBS.iter().filter(|b| !b.is_empty()).map(|b| {
        let mut r = Rd(b);
        let name = String::from_utf8(r.b()).expect("harness: golden");
        let kt = KTS[r.n() as usize];
        let files = (0..3).map(|_| r.b()).collect();
        let htx_len = r.n();
        let head = r.b();
        let slots = (0..r.n()).map(|_| (r.n(), r.n())).collect();
        let model = (0..r.n()).map(|_| (r.b(), r.b())).collect();
        Golden { name, kt, model, files, htx_len, slots, head }
    }).collect()
}

impl Golden {
    pub fn restore(&self, dir: &Path, map: &str, htx: bool) {
        for (e, f) in ["key", "val", "idx"].iter().zip(&self.files) {
            std::fs::write(dir.join(format!("{map}.{e}")), f).expect("harness: write");
        }
        if htx {
            let mut ext = vec![(0u64, self.head.clone())];
            ext.extend(self.slots.iter().map(|(s, o)| (128 + 8 * s, o.to_le_bytes().to_vec())));
            write_extents(&dir.join(format!("{map}.htx")), self.htx_len, &ext);
        }
    }
}

/// `vh golden DIR`: makes the blobs with the library this harness is built with.
pub fn make(out: &Path, scratch: &Path) {
    let spec: [(&str, Kt, gen::Uni, usize, gen::Val, &[Ph]); 6] = [
        ("empty", Kt::Str, gen::Uni::Seq, 3, gen::Val::Small, &[Ph::Fill(Order::Asc, 100), Ph::Drain(Order::Rand, 100)]),
        ("strings", Kt::Str, gen::Uni::Lengths, 260, gen::Val::Class, &[Ph::Fill(Order::Rand, 100), Ph::Churn(1500)]),
        ("ints", Kt::Int, gen::Uni::Seq, 2600, gen::Val::Fixed(9), &[Ph::Fill(Order::Asc, 100), Ph::Drain(Order::Rand, 10), Ph::Overwrite(100)]),
        ("bytes", Kt::Bytes, gen::Uni::Mixed, 90, gen::Val::Mixed, &[Ph::Fill(Order::Rand, 100), Ph::Churn(600)]),
        ("collide", Kt::Bytes, gen::Uni::Collide, 500, gen::Val::Small, &[Ph::Fill(Order::Rand, 100), Ph::Churn(900)]),
        ("text", Kt::Str, gen::Uni::Alphabet, 150, gen::Val::Text, &[Ph::Fill(Order::Rand, 100), Ph::Churn(300)]),
    ];
    for (i, (name, kt, uk, n, val, ph)) in spec.iter().enumerate() {
        let mut rng = Rng::new(4711 + i as u64);
        let mut uni = gen::universe(*kt, *uk, *n, &mut rng);
        uni.retain(|k| k.len() < 5000);
        let o = Opts { reads: 5, misses: true, syncs: false, strings: false, bulk: false };
        let s = script(*kt, uni, *val, ph, &o, &mut rng);
        let dir = scratch.join(name);
        rm_dir(&dir);
        let mut cx = crate::case_cx("golden", false, 0, i as u64, scratch);
        let mut model = Model::new();
        {
            let db = open_db(&dir).expect("open");
            let mut map = open(&db, *kt, "m", None).expect("open");
            play(&mut cx, &mut *map, &mut model, &s).expect("play");
            map.put(&s.uni[0], b"last", 0).expect("put");
            let old = model.insert(s.uni[0].clone(), b"last".to_vec());
            if model.len() == 1 && old.is_none() {
                map.del(&s.uni[0], 0).expect("del");
                model.clear();
            }
            map.sync_all().expect("sync");
        }
        let d = crate::fsck::read(&dir, "m").expect("fsck");
        d.same_as(&model, "golden").expect("same");
        let mut b = Vec::new();
        wb(&mut b, name.as_bytes());
        b.extend_from_slice(&(KTS.iter().position(|k| k == kt).unwrap() as u64).to_le_bytes());
        for e in ["key", "val", "idx"] {
            wb(&mut b, &std::fs::read(dir.join(format!("m.{e}"))).unwrap());
        }
        let (len, ext) = data_extents(&dir.join("m.htx"));
        b.extend_from_slice(&len.to_le_bytes());
        wb(&mut b, &ext[0].1[..128]);
        b.extend_from_slice(&(d.slots.len() as u64).to_le_bytes());
        for (s, o) in &d.slots {
            b.extend_from_slice(&s.to_le_bytes());
            b.extend_from_slice(&o.to_le_bytes());
        }
        b.extend_from_slice(&(model.len() as u64).to_le_bytes());
        for (k, v) in &model {
            wb(&mut b, k);
            wb(&mut b, v);
        }
        println!("{name}: {} keys, {} free values, {} bytes", model.len(), d.free_val.len(), b.len());
        std::fs::write(out.join(format!("{i}.bin")), b).unwrap();
        rm_dir(&dir);
    }
}
