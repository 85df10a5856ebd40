//! Runs a case against the library and the model.
use crate::case::*;
use crate::fsck::{self, Dump, Gaps, M_ALL};
use crate::interpose;
use crate::maps::*;
use crate::rng::Rng;
use crate::util::{diff_images, dir_images, Image};
use siamesedb::filedb::FileDb;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub type Model = BTreeMap<Vec<u8>, Vec<u8>>;
pub type Counters = BTreeMap<&'static str, u64>;
pub type R<T> = Result<T, String>;

pub struct Run<'a> {
    case: &'a Case,
    /// the database
    dir: PathBuf,
    /// copies
    root: PathBuf,
    ncopy: u32,
    db: Option<FileDb>,
    mem: Option<&'static siamesedb::memdb::MemoryDb<'static>>,
    hs: Vec<Vec<Box<dyn DynMap>>>,
    /// the maps opened in this session, there may be no handle any more
    seen: Vec<bool>,
    ms: Vec<Vec<Box<dyn DynMap>>>,
    pub model: Vec<Model>,
    bufs: Vec<Option<[Buf; 4]>>,
    gaps: Vec<Gaps>,
    touched: Vec<BTreeSet<Vec<u8>>>,
    /// maps are opened at their first use
    lazy: bool,
    /// a database in another directory, with maps of the same names
    other: Option<(FileDb, Vec<Box<dyn DynMap>>)>,
    other_model: Vec<Model>,
    /// iterators kept over updates: map, iterator, last key, whether it has ended
    kept: Vec<(usize, PairIter, Option<Vec<u8>>, bool)>,
    /// live pieces per (map, file, list), and their peaks
    live: BTreeMap<(usize, u8, u8), i64>,
    peak: BTreeMap<(usize, u8, u8), i64>,
    peak_n: Vec<usize>,
    /// the list of the value piece of every live entry
    held: BTreeMap<(usize, Vec<u8>), u8>,
    pub cnt: Counters,
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}
fn le<T>(r: std::io::Result<T>, what: &str) -> R<T> {
    r.map_err(|e| format!("{} returned an error: {}", what, e))
}
pub fn hx<T>(r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| format!("HARNESS: {}", e))
}

pub fn show(b: &[u8]) -> String {
    let mut s: String = b
        .iter()
        .take(24)
        .flat_map(|&c| std::ascii::escape_default(c))
        .map(|c| c as char)
        .collect();
    if b.len() > 24 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
fn show_opt(b: Option<&[u8]>) -> String {
    match b {
        None => "None".into(),
        Some(b) => format!("'{}'", show(b)),
    }
}
fn lossy(v: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(v).to_string().into_bytes()
}

pub fn cmp_pairs(what: &str, got: &Model, want: &Model) -> R<()> {
    if got == want {
        return Ok(());
    }
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{}: key '{}' is missing", what, show(k))),
            Some(g) if g != v => {
                return Err(format!("{}: key '{}' has {}, expected {}", what, show(k), show_opt(Some(g)), show_opt(Some(v))))
            }
            _ => {}
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("{}: key '{}' should not be there", what, show(k)));
        }
    }
    Ok(())
}

/// several maps of a case may have one name in the memory database, with different types
fn mem_name(n: &str) -> &str {
    n.split('~').next().unwrap_or(n)
}

/// compares an iteration with the model
pub fn cmp_iter(what: &str, it: &mut dyn Iterator<Item = (Vec<u8>, Vec<u8>)>, want: &Model, limit: usize) -> R<()> {
    let mut n = 0;
    let mut w = want.iter();
    loop {
        if limit > 0 && n >= limit {
            return Ok(());
        }
        let g = it.next();
        let e = w.next();
        match (g, e) {
            (None, None) => break,
            (Some((k, v)), Some((ek, ev))) => {
                if &k != ek || &v != ev {
                    return Err(format!(
                        "{}: item {} is '{}' = {}, expected '{}' = {}",
                        what, n, show(&k), show_opt(Some(&v)), show(ek), show_opt(Some(ev))
                    ));
                }
            }
            (None, Some((ek, _))) => {
                return Err(format!("{}: ended after {} of {} items, before '{}'", what, n, want.len(), show(ek)))
            }
            (Some((k, _)), None) => return Err(format!("{}: goes on after {} items with '{}'", what, n, show(&k))),
        }
        n += 1;
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return Err(format!("{}: an item after the end", what));
        }
    }
    Ok(())
}

impl<'a> Run<'a> {
    pub fn new(case: &'a Case, scratch: &Path) -> R<Run<'a>> {
        let n = case.maps.len();
        let dir = scratch.join("db");
        let root = scratch.to_path_buf();
        let mut r = Run {
            case,
            dir,
            root,
            ncopy: 0,
            db: None,
            mem: None,
            hs: vec![],
            seen: vec![],
            ms: vec![],
            model: vec![Model::new(); n],
            bufs: case.maps.iter().map(|m| m.bufs).collect(),
            gaps: vec![Gaps::default(); n],
            touched: vec![BTreeSet::new(); n],
            lazy: false,
            other: None,
            other_model: vec![Model::new(); n],
            kept: vec![],
            live: BTreeMap::new(),
            peak: BTreeMap::new(),
            peak_n: vec![0; n],
            held: BTreeMap::new(),
            cnt: Counters::new(),
        };
        hx(std::fs::create_dir_all(&r.dir))?;
        for m in &case.maps {
            pre_htx(&r.dir, m)?;
        }
        if case.mem {
            let mdb: &'static siamesedb::memdb::MemoryDb<'static> = Box::leak(Box::new(siamesedb::open_memory()));
            r.mem = Some(mdb);
            r.ms = case.maps.iter().map(|m| vec![open_mem_map(mdb, m.kt, mem_name(&m.name))]).collect();
        }
        r.open()?;
        Ok(r)
    }
    fn c(&mut self, k: &'static str) {
        *self.cnt.entry(k).or_insert(0) += 1;
    }
    fn cn(&mut self, k: &'static str, n: u64) {
        *self.cnt.entry(k).or_insert(0) += n;
    }
    fn open(&mut self) -> R<()> {
        let db = le(siamesedb::open_file(&self.dir), "open_file")?;
        self.hs.clear();
        self.seen = vec![!self.lazy; self.case.maps.len()];
        for (i, m) in self.case.maps.iter().enumerate() {
            if self.lazy {
                self.hs.push(vec![]);
                continue;
            }
            let h = le(open_file_map(&db, m.kt, &m.name, self.bufs[i]), "opening a map")?;
            self.hs.push(vec![h]);
        }
        self.db = Some(db);
        Ok(())
    }
    fn ensure(&mut self, m: usize) -> R<()> {
        if m < self.hs.len() && self.hs[m].is_empty() {
            if let Some(db) = &self.db {
                let c = &self.case.maps[m];
                let db = db.clone();
                let h = le(open_file_map(&db, c.kt, &c.name, self.bufs[m]), "opening a map")?;
                self.hs[m].push(h);
                self.seen[m] = true;
                self.c("late-open");
            }
        }
        Ok(())
    }
    /// opens what the operation needs
    fn ensure_for(&mut self, o: &Op) -> R<()> {
        use Kind::*;
        match o.kind {
            DbSyncAll | DbSyncData | Conv | Other => Ok(()),
            Reopen if o.arg(0) & (1 | 2 | 16) == 0 => Ok(()),
            // a map without any handle is synchronized too
            Snap if o.form % 5 >= 3 => (0..self.hs.len()).filter(|&m| !self.seen[m]).collect::<Vec<_>>().into_iter().try_for_each(|m| self.ensure(m)),
            Put | Get | Del | BGet | BPut | BDel | PutR | DelR | GetR | Iter | Iter2 | IterMut | Flush | SyncAll
            | SyncData | Fill | Check | Fsck | Stats | Sweep | Huge | Reuse | CloneH | Again | DropH => self.ensure(o.m as usize),
            _ => (0..self.hs.len()).try_for_each(|m| self.ensure(m)),
        }
    }
    /// a database in another directory is used at the same time
    fn other(&mut self, o: &Op) -> R<()> {
        let dir = self.root.join("otherdb");
        let maps = self.case.maps.clone();
        if self.other.is_none() {
            if !dir.exists() {
                hx(std::fs::create_dir_all(&dir))?;
                for c in &maps {
                    // small tables, there is no need for another size
                    pre_htx(&dir, &MapCfg { ht: 7, ..c.clone() })?;
                }
            }
            let db = le(siamesedb::open_file(&dir), "open_file")?;
            let mut hs = vec![];
            for (i, c) in maps.iter().enumerate() {
                hs.push(le(open_file_map(&db, c.kt, &c.name, self.bufs[i]), "opening a map of another database")?);
            }
            self.other = Some((db, hs));
        }
        let (_, hs) = self.other.as_mut().unwrap();
        for (i, h) in hs.iter_mut().enumerate() {
            cmp_iter("iteration of another database", &mut *h.iter(o.form), &self.other_model[i], 0)?;
        }
        for (k, v) in o.keys.iter().zip(&o.vals) {
            let i = (k.1 ^ v.1) as usize % maps.len();
            let kb = key_bytes(maps[i].kt, *k);
            if v.1 % 4 == 0 {
                let got = le(hs[i].del(o.form, &kb), "delete")?;
                let want = self.other_model[i].remove(&kb);
                Self::expect("delete in another database", &kb, got, want, is_text_form(o.form))?;
            } else {
                let vb = val_bytes(*v);
                le(hs[i].put(o.form, &kb, &vb), "put")?;
                self.other_model[i].insert(kb, vb);
            }
        }
        if o.arg(0) & 1 == 0 {
            self.other = None;
        }
        self.c("other-db");
        Ok(())
    }
    fn close(&mut self, db_first: bool) {
        self.kept.clear();
        if db_first {
            self.db = None;
            self.hs.clear();
        } else {
            for h in self.hs.iter_mut().rev() {
                h.clear();
            }
            self.db = None;
        }
        self.hs.clear();
    }
    fn copy_dir(&mut self) -> PathBuf {
        self.ncopy += 1;
        self.root.join(format!("copy{}", self.ncopy))
    }
    fn kt(&self, m: usize) -> Kt {
        self.case.maps[m].kt
    }
    fn h(&mut self, o: &Op) -> &mut Box<dyn DynMap> {
        let v = &mut self.hs[o.m as usize];
        let i = o.h as usize % v.len();
        &mut v[i]
    }
    fn mh(&mut self, o: &Op) -> &mut Box<dyn DynMap> {
        let v = &mut self.ms[o.m as usize];
        let i = o.h as usize % v.len();
        &mut v[i]
    }
    /// which lists the pieces of live entries belong to: a piece keeps its size when a smaller value is written to it
    fn track_live(&mut self, m: usize, key: &[u8], new: Option<usize>) {
        if self.case.reps == 0 {
            return;
        }
        let kl = fsck::list_of(fsck::class_of(key.len() as u32 + 16)) as u8;
        let mut add = |f: u8, l: u8, d: i64| {
            let e = self.live.entry((m, f, l)).or_insert(0);
            *e += d;
            let p = self.peak.entry((m, f, l)).or_insert(0);
            if *e > *p {
                *p = *e;
            }
        };
        let id = (m, key.to_vec());
        let old = self.held.get(&id).copied();
        match (old, new) {
            (None, Some(n)) => {
                let l = fsck::list_of(fsck::class_of(n as u32 + 8)) as u8;
                add(1, l, 1);
                add(0, kl, 1);
                self.held.insert(id, l);
            }
            (Some(o), Some(n)) => {
                let l = fsck::list_of(fsck::class_of(n as u32 + 8)) as u8;
                if l > o {
                    add(1, l, 1);
                    add(1, o, -1);
                    self.held.insert(id, l);
                }
            }
            (Some(o), None) => {
                add(1, o, -1);
                add(0, kl, -1);
                self.held.remove(&id);
            }
            (None, None) => {}
        }
        let n = self.model[m].len();
        if n > self.peak_n[m] {
            self.peak_n[m] = n;
        }
    }
    fn m_put(&mut self, m: usize, k: &[u8], v: Vec<u8>) {
        let n = v.len();
        let old = self.model[m].insert(k.to_vec(), v).map(|v| v.len());
        if old.is_some() {
            self.c("overwrite");
        } else {
            self.c("insert");
        }
        self.touched[m].insert(k.to_vec());
        self.track_live(m, k, Some(n));
    }
    fn m_del(&mut self, m: usize, k: &[u8]) -> Option<Vec<u8>> {
        let old = self.model[m].remove(k);
        if old.is_some() {
            self.c("delete-hit");
            self.track_live(m, k, None);
            if self.model[m].is_empty() {
                self.c("emptied");
            }
        } else {
            self.c("delete-miss");
        }
        self.touched[m].insert(k.to_vec());
        old
    }

    fn put1(&mut self, o: &Op, k: K, v: V) -> R<()> {
        let m = o.m as usize;
        let kb = key_bytes(self.kt(m), k);
        let vb = val_bytes(v);
        let form = o.form;
        le(self.h(o).put(form, &kb, &vb), "put")?;
        if self.case.mem {
            le(self.mh(o).put(form, &kb, &vb), "memory put")?;
        }
        self.m_put(m, &kb, vb);
        Ok(())
    }
    fn expect(what: &str, k: &[u8], got: Option<Vec<u8>>, want: Option<Vec<u8>>, text: bool) -> R<()> {
        let want = if text { want.map(|v| lossy(&v)) } else { want };
        if got != want {
            return Err(format!(
                "{} of '{}' returned {}, expected {}",
                what, show(k), show_opt(got.as_deref()), show_opt(want.as_deref())
            ));
        }
        Ok(())
    }
    fn get1(&mut self, o: &Op, kb: &[u8]) -> R<()> {
        let m = o.m as usize;
        let form = o.form;
        let want = self.model[m].get(kb).cloned();
        let got = le(self.h(o).get(form, kb), "get")?;
        self.c(if want.is_some() { "get-hit" } else { "get-miss" });
        if self.case.mem {
            let g = le(self.mh(o).get(form, kb), "memory get")?;
            Self::expect("memory get", kb, g, want.clone(), is_text_form(form))?;
        }
        Self::expect("get", kb, got, want, is_text_form(form))
    }
    fn del1(&mut self, o: &Op, k: K) -> R<()> {
        let m = o.m as usize;
        let kb = key_bytes(self.kt(m), k);
        let form = o.form;
        let got = le(self.h(o).del(form, &kb), "delete")?;
        let want = self.m_del(m, &kb);
        if self.case.mem {
            let g = le(self.mh(o).del(form, &kb), "memory delete")?;
            Self::expect("memory delete", &kb, g, want.clone(), is_text_form(form))?;
        }
        Self::expect("delete", &kb, got, want, is_text_form(form))
    }
    /// every key of the model and every key ever touched, by get
    fn sweep(&mut self, m: usize) -> R<()> {
        let keys: Vec<Vec<u8>> = self.touched[m].iter().cloned().collect();
        let o = Op::new(Kind::Get).m(m).f(1);
        for k in keys {
            self.get1(&o, &k)?;
        }
        Ok(())
    }
    fn sync_call(&mut self, o: &Op) -> std::io::Result<()> {
        match o.form % 5 {
            0 => self.h(o).flush(),
            1 => self.h(o).sync_all(),
            2 => self.h(o).sync_data(),
            3 => self.db.as_ref().unwrap().sync_all(),
            _ => self.db.as_ref().unwrap().sync_data(),
        }
    }
    fn fsck(&mut self, m: usize, mask: u32) -> R<Dump> {
        let c = &self.case.maps[m];
        if cfg!(feature = "nofsck") {
            self.c("no-fsck");
            return Ok(Dump::default());
        }
        let d = fsck::read_map(&self.dir, &c.name, c.kt, mask, &self.gaps[m])?;
        cmp_pairs("contents of the files", &d.pairs, &self.model[m])?;
        self.c("fsck");
        if d.depth >= 2 {
            self.c("fsck-depth2");
        }
        if d.depth >= 3 {
            self.c("fsck-depth3");
        }
        if !d.free_keys.is_empty() || !d.free_vals.is_empty() {
            self.c("fsck-free");
        }
        if !d.free_nodes.is_empty() {
            self.c("fsck-free-node");
        }
        if d.ht_filled < d.pairs.len() as u64 {
            self.c("htx-collision");
        }
        Ok(d)
    }
    fn verify_dir(&mut self, dir: &Path, maps: &[usize], what: &str) -> R<()> {
        let db = le(siamesedb::open_file(dir), what)?;
        for &m in maps {
            let c = &self.case.maps[m];
            let mut h = le(open_file_map(&db, c.kt, &c.name, None), what)?;
            cmp_iter(&format!("{}: iteration", what), &mut *h.iter(0), &self.model[m], 0)?;
            for k in &self.touched[m] {
                let g = le(h.get(1, k), what)?;
                let w = self.model[m].get(k).cloned();
                Self::expect(&format!("{}: get", what), k, g, w, false)?;
            }
        }
        Ok(())
    }
    /// after a successful flush or sync: what is in the files / on stable storage
    fn verify_written(&mut self, o: &Op) -> R<()> {
        let f = o.form % 5;
        let maps: Vec<usize> = if f >= 3 {
            (0..self.case.maps.len()).collect()
        } else {
            vec![o.m as usize]
        };
        let dst = self.copy_dir();
        hx(std::fs::create_dir_all(&dst))?;
        let what;
        if f == 0 {
            what = "copy of the flushed files";
            for &m in &maps {
                for e in ["key", "val", "idx", "htx"] {
                    let n = format!("{}.{}", self.case.maps[m].name, e);
                    if self.dir.join(&n).exists() {
                        Image::of(&self.dir.join(&n))?.write(&dst.join(&n))?;
                    }
                }
            }
            self.c("snap-flush");
        } else {
            what = "what was synchronized";
            for &m in &maps {
                for e in ["key", "val", "idx", "htx"] {
                    let n = format!("{}.{}", self.case.maps[m].name, e);
                    let p = self.dir.join(&n).to_string_lossy().to_string();
                    if let Some(i) = interpose::state().images.get(&p) {
                        i.write(&dst.join(&n))?;
                    }
                }
            }
            self.c("snap-sync");
        }
        if let Some(e) = interpose::state().harness_error.take() {
            return Err(e);
        }
        self.verify_dir(&dst, &maps, what)?;
        hx(std::fs::remove_dir_all(&dst))?;
        Ok(())
    }

    pub fn op(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        if m >= self.case.maps.len() {
            return Ok(());
        }
        let kt = self.kt(m);
        self.ensure_for(o)?;
        self.c("ops");
        match o.kind {
            Kind::Put => self.put1(o, o.keys[0], o.vals[0])?,
            Kind::Get => self.get1(o, &key_bytes(kt, o.keys[0]))?,
            Kind::Huge => {
                // the zeros are not touched, they take no memory
                let len = (1usize << 32) - 8 + o.arg(0).min(1 << 20) as usize;
                let kb = key_bytes(kt, o.keys[0]);
                let layout = std::alloc::Layout::array::<u8>(len).unwrap();
                let p = unsafe { std::alloc::alloc_zeroed(layout) };
                if p.is_null() {
                    return Ok(());
                }
                let r = self.h(o).put(1, &kb, unsafe { std::slice::from_raw_parts(p, len) });
                unsafe { std::alloc::dealloc(p, layout) };
                if r.is_ok() {
                    return Err(format!("put of a value of {} bytes, which the files cannot hold, returned Ok", len));
                }
                self.c("huge");
                self.get1(o, &kb)?;
            }
            Kind::Del => self.del1(o, o.keys[0])?,
            Kind::PutR => {
                for (k, v) in range_items(o) {
                    self.put1(o, k, v)?;
                }
            }
            Kind::DelR => {
                for (k, _) in range_items(o) {
                    self.del1(o, k)?;
                }
            }
            Kind::GetR => {
                for (k, _) in range_items(o) {
                    self.get1(o, &key_bytes(kt, k))?;
                }
            }
            Kind::BGet => {
                // not a long value again and again, the result would exhaust the memory
                let mut room = 192usize << 20;
                let model = &self.model[m];
                let keys: Vec<Vec<u8>> = o.keys.iter().map(|&k| key_bytes(kt, k))
                    .filter(|k| {
                        let n = model.get(k).map_or(0, |v| v.len());
                        let fits = n <= room;
                        room -= if fits { n } else { 0 };
                        fits
                    })
                    .collect();
                let form = o.form;
                let got = le(self.h(o).bget(form, &keys), "bulk_get")?;
                self.bulk_expect("bulk_get", o, &keys, got, false)?;
                if self.case.mem {
                    let g = le(self.mh(o).bget(form, &keys), "memory bulk_get")?;
                    self.bulk_expect("memory bulk_get", o, &keys, g, false)?;
                }
                self.bulk_count(&keys);
            }
            Kind::BDel => {
                let keys: Vec<Vec<u8>> = o.keys.iter().map(|&k| key_bytes(kt, k)).collect();
                let form = o.form;
                if self.case.mem {
                    let g = le(self.mh(o).bdel(form, &keys), "memory bulk_delete")?;
                    let saved = self.model[m].clone();
                    self.bulk_expect("memory bulk_delete", o, &keys, g, true)?;
                    self.model[m] = saved;
                }
                let got = le(self.h(o).bdel(form, &keys), "bulk_delete")?;
                self.bulk_expect("bulk_delete", o, &keys, got, true)?;
                self.bulk_count(&keys);
            }
            Kind::BPut => {
                let keys: Vec<Vec<u8>> = o.keys.iter().map(|&k| key_bytes(kt, k)).collect();
                let vals: Vec<Vec<u8>> = (0..keys.len())
                    .map(|i| val_bytes(o.vals.get(i).copied().unwrap_or(V(i as u32, 2 * i as u32))))
                    .collect();
                let form = o.form;
                let vals: Vec<Vec<u8>> = if is_text_bform(form) {
                    // so that the string form is called also with many pairs
                    vals.into_iter().map(text_of).collect()
                } else {
                    vals
                };
                le(self.h(o).bput(form, &keys, &vals), "bulk_put")?;
                if self.case.mem {
                    le(self.mh(o).bput(form, &keys, &vals), "memory bulk_put")?;
                }
                for (k, v) in keys.iter().zip(vals) {
                    self.m_put(m, k, v);
                }
                self.bulk_count(&keys);
                // the state after it, at once
                let g = Op::new(Kind::Get).m(m).h(o.h as usize).f(1);
                for k in &keys {
                    self.get1(&g, k)?;
                }
            }
            Kind::Iter => {
                let form = o.form;
                let mut it = self.h(o).iter(form);
                cmp_iter("iteration", &mut *it, &self.model[m], o.arg(0) as usize)?;
                self.c("iter");
                if self.model[m].is_empty() {
                    self.c("iter-empty");
                }
                if self.model[m].len() >= fsck::SLOTS {
                    self.c("iter-deep");
                }
            }
            Kind::Iter2 => self.iter2(o)?,
            Kind::IterMut => self.iter_mutate(o)?,
            Kind::Flush => {
                le(self.h(o).flush(), "flush")?;
                self.c("flush");
            }
            Kind::SyncAll => {
                le(self.h(o).sync_all(), "sync_all")?;
                self.c("flush");
            }
            Kind::SyncData => {
                le(self.h(o).sync_data(), "sync_data")?;
                self.c("flush");
            }
            Kind::DbSyncAll => le(self.db.as_ref().unwrap().sync_all(), "db sync_all")?,
            Kind::DbSyncData => le(self.db.as_ref().unwrap().sync_data(), "db sync_data")?,
            Kind::Fill => {
                le(self.h(o).fill(), "read_fill_buffer")?;
                if self.case.mem {
                    le(self.mh(o).fill(), "memory read_fill_buffer")?;
                    le(self.mh(o).flush(), "memory flush")?;
                    le(self.mh(o).sync_all(), "memory sync_all")?;
                    le(self.mh(o).sync_data(), "memory sync_data")?;
                }
            }
            Kind::Check => self.check(o)?,
            Kind::Fsck => {
                le(self.sync_call(o), "flush")?;
                let mask = o.arg(0);
                self.fsck(m, if mask == 0 { M_ALL } else { mask })?;
            }
            Kind::Stats => self.stats(o)?,
            Kind::Sweep => self.sweep(m)?,
            Kind::CloneH => {
                if self.hs[m].len() < 6 {
                    let c = self.h(o).boxed_clone();
                    self.hs[m].push(c);
                    if self.case.mem {
                        let c = self.mh(o).boxed_clone();
                        self.ms[m].push(c);
                    }
                    self.c("handle");
                }
            }
            Kind::Again => {
                if self.hs[m].len() < 6 {
                    let c = &self.case.maps[m];
                    let h = le(
                        open_file_map(self.db.as_ref().unwrap(), c.kt, &c.name, self.bufs[m]),
                        "opening a map again",
                    )?;
                    self.hs[m].push(h);
                    if let Some(mdb) = self.mem {
                        self.ms[m].push(open_mem_map(mdb, c.kt, mem_name(&c.name)));
                    }
                    self.c("handle");
                }
            }
            Kind::DropH => {
                if self.hs[m].len() > 1 || o.arg(0) & 1 != 0 {
                    let i = o.h as usize % self.hs[m].len();
                    let h = self.hs[m].remove(i);
                    drop(h);
                    if self.case.mem {
                        let i = o.h as usize % self.ms[m].len();
                        drop(self.ms[m].remove(i));
                        if self.ms[m].is_empty() {
                            // the map is there again by its name
                            let c = &self.case.maps[m];
                            let map = open_mem_map(self.mem.unwrap(), c.kt, mem_name(&c.name));
                            self.ms[m].push(map);
                            self.c("memory-no-handle");
                        }
                    }
                    self.c("handle-drop");
                }
            }
            Kind::Other => self.other(o)?,
            Kind::Reopen => self.reopen(o)?,
            Kind::Htx => self.htx(o)?,
            Kind::Snap => {
                if self.hs.iter().any(|h| h.is_empty()) {
                    self.c("snap-no-handle");
                }
                le(self.sync_call(o), "flush/sync")?;
                self.verify_written(o)?;
            }
            Kind::Fault => self.fault(o)?,
            Kind::FaultAll => self.fault_all(o)?,
            Kind::Obst => self.obstacle(o)?,
            Kind::Pure => self.pure(o)?,
            Kind::Reuse => self.reuse(o)?,
            Kind::Wrong => self.wrong(o)?,
            Kind::Gap => self.gap(o)?,
            Kind::Conv => {
                for &k in &o.keys {
                    crate::conv::check(&key_bytes(kt, k))?;
                    crate::conv::check(&key_bytes(Kt::Int, k))?;
                    self.c("conv");
                }
                for w in o.keys.windows(2) {
                    crate::conv::check_pair(&key_bytes(kt, w[0]), &key_bytes(kt, w[1]))?;
                    self.c("conv-pair");
                }
            }
            Kind::Image => self.image(o)?,
            Kind::Bad => self.bad(o)?,
        }
        Ok(())
    }
    fn bulk_count(&mut self, keys: &[Vec<u8>]) {
        self.c("bulk");
        let s: BTreeSet<&Vec<u8>> = keys.iter().collect();
        if s.len() < keys.len() {
            self.c("bulk-repeat");
        }
        if keys.windows(2).any(|w| w[0] > w[1]) {
            self.c("bulk-unsorted");
        }
        if keys.is_empty() {
            self.c("bulk-empty");
        }
    }
    fn bulk_expect(&mut self, what: &str, o: &Op, keys: &[Vec<u8>], got: Vec<Option<Vec<u8>>>, del: bool) -> R<()> {
        let m = o.m as usize;
        if got.len() != keys.len() {
            return Err(format!("{} of {} keys returned {} results", what, keys.len(), got.len()));
        }
        for (i, (k, g)) in keys.iter().zip(got).enumerate() {
            let want = if del {
                self.m_del(m, k)
            } else {
                self.model[m].get(k).cloned()
            };
            Self::expect(&format!("{} (position {})", what, i), k, g, want, is_text_bform(o.form))?;
        }
        Ok(())
    }

    /// several iterators at once, with reads in between
    fn iter2(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        let mut rng = Rng::new(o.arg(0) as u64);
        let n = 2 + (o.arg(1) % 2) as usize;
        let want: Vec<(Vec<u8>, Vec<u8>)> = self.model[m].iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let mut its: Vec<(PairIter, usize, u32)> = vec![];
        for i in 0..n {
            let f = o.form.wrapping_add(i as u8);
            let it = self.h(o).iter(f);
            its.push((it, 0, 0));
        }
        let budget = want.len() * n + 4 * n;
        for _ in 0..budget * 3 {
            let i = rng.below(n as u64) as usize;
            let steps = 1 + rng.below(4);
            for _ in 0..steps {
                let g = its[i].0.next();
                let pos = its[i].1;
                match (g, want.get(pos)) {
                    (None, None) => its[i].2 += 1,
                    (Some(g), Some(w)) if &g == w => its[i].1 += 1,
                    (g, w) => {
                        return Err(format!(
                            "interleaved iteration {}: item {} is {:?}, expected {:?}",
                            i,
                            pos,
                            g.map(|x| show(&x.0)),
                            w.map(|x| show(&x.0))
                        ))
                    }
                }
            }
            if rng.pct(20) && !o.keys.is_empty() {
                let k = key_bytes(self.kt(m), *rng.pick(&o.keys));
                self.get1(&Op::new(Kind::Get).m(m).f(rng.below(8)), &k)?;
            }
            if its.iter().all(|x| x.2 > 0) {
                break;
            }
        }
        self.c("iter2");
        Ok(())
    }

    /// iterators kept over updates: each goes on with the next greater key of the map as it is now.
    /// args: steps, 1: no new iterator, which of the kept ones step (0: all)
    fn iter_mutate(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        if o.arg(1) & 1 == 0 || self.kept.is_empty() {
            let it = self.h(o).iter(o.form);
            self.kept.push((m, it, None, false));
            if self.kept.len() > 4 {
                drop(self.kept.remove(0));
            }
        }
        self.step_kept(o.arg(0) % 50, o.arg(2))?;
        self.c("iter-mut");
        Ok(())
    }

    fn step_kept(&mut self, n: u32, which: u32) -> R<()> {
        use std::ops::Bound::*;
        let mut ended = vec![];
        let mut followed = 0;
        for (i, (m, it, last, end)) in self.kept.iter_mut().enumerate() {
            if which != 0 && which >> i & 1 == 0 {
                continue;
            }
            if *end {
                // it stays ended, whatever is added
                if let Some(g) = it.next() {
                    return Err(format!("an iterator that has ended gives {:?}", show(&g.0)));
                }
                ended.push(i);
                continue;
            }
            for _ in 0..n {
                let want = match last {
                    Some(k) => self.model[*m].range::<[u8], _>((Excluded(&k[..]), Unbounded)).next(),
                    None => self.model[*m].iter().next(),
                };
                match (it.next(), want) {
                    (None, None) => {
                        *end = true;
                        break;
                    }
                    (Some((gk, gv)), Some((k, v))) if &gk == k && &gv == v => {
                        *last = Some(gk);
                        followed += 1;
                    }
                    (g, w) => {
                        return Err(format!(
                            "an iterator kept over updates: after key {:?} it gives {:?}, expected {:?}",
                            last.as_ref().map(|k| show(k)),
                            g.map(|x| (show(&x.0), show(&x.1))),
                            w.map(|x| (show(x.0), show(x.1)))
                        ))
                    }
                }
            }
        }
        for i in ended.into_iter().rev() {
            drop(self.kept.remove(i));
        }
        if followed > 0 {
            self.c("iter-follow");
        }
        Ok(())
    }

    fn reopen(&mut self, o: &Op) -> R<()> {
        let mode = o.arg(0);
        let nm = self.case.maps.len();
        for m in 0..nm {
            if mode & 1 != 0 {
                le(self.hs[m][0].flush(), "flush")?;
            }
            if mode & 2 != 0 {
                le(self.hs[m][0].sync_all(), "sync_all")?;
            }
        }
        if mode & 16 != 0 {
            // handles and iterators outlive the database object
            self.db = None;
            for (k, v) in o.keys.iter().zip(&o.vals) {
                let m = k.1 as usize % nm;
                self.op(&Op::new(Kind::Put).m(m).f(o.form as u64).k(*k).v(*v))?;
                self.op(&Op::new(Kind::Get).m(m).f(o.form as u64).k(*k))?;
            }
            self.step_kept(7, 0)?;
            self.c("outlived");
        }
        if mode & 64 != 0 {
            // everything is dropped by a panic of the user's code
            let (kept, db, hs) = (std::mem::take(&mut self.kept), self.db.take(), std::mem::take(&mut self.hs));
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _own = (kept, db, hs);
                std::panic::resume_unwind(Box::new("user"));
            }));
            self.c("unwound");
        }
        self.close(mode & 4 != 0);
        if o.args.len() >= 2 + 4 * nm {
            for m in 0..nm {
                let mut b = [Buf::Auto; 4];
                for i in 0..4 {
                    b[i] = Buf::dec(o.arg(2 + 4 * m + i));
                }
                self.bufs[m] = Some(b);
            }
        }
        let mask = o.arg(1);
        if mask != 0 {
            for m in 0..nm {
                self.fsck(m, mask)?;
            }
        }
        self.lazy = mode & 32 != 0 && mode & 8 == 0;
        let r = self.open();
        self.lazy = false;
        r?;
        self.c("reopen");
        if self.model.iter().any(|m| m.is_empty()) {
            self.c("reopen-empty");
        }
        if mode & 3 == 0 {
            self.c("reopen-unflushed");
        }
        if mode & 8 != 0 {
            for m in 0..nm {
                self.sweep(m)?;
                let mut it = self.hs[m][0].iter(0);
                cmp_iter("iteration after reopening", &mut *it, &self.model[m], 0)?;
            }
        }
        Ok(())
    }

    /// change the hash table while the database is closed
    fn htx(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        self.close(false);
        let c = self.case.maps[m].clone();
        let p = self.dir.join(format!("{}.htx", c.name));
        let (ht, slots) = fsck::htx_slots(&p)?;
        let mut rng = Rng::new(o.arg(1) as u64);
        let mode = o.arg(0) % 4;
        let d = fsck::read_map(&self.dir, &c.name, c.kt, 0, &self.gaps[m])?;
        let new_ht = match mode {
            // emptied
            0 | 1 => ht,
            // another size
            _ => 1 + rng.below(40),
        };
        let mut new_slots: BTreeMap<u64, u64> = BTreeMap::new();
        match mode {
            0 => {}
            1 => {
                for (i, off) in slots {
                    if rng.pct(50) {
                        new_slots.insert(i, off);
                    }
                }
            }
            2 => {}
            _ => {
                for (off, k) in &d.key_at {
                    if rng.pct(60) {
                        new_slots.insert(fsck::key_hash(k) % new_ht, *off);
                    }
                }
            }
        }
        write_htx(&p, c.kt, new_ht, &new_slots)?;
        self.c("htx-changed");
        self.open()
    }

    fn check(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        let flush = o.arg(0) & 1 == 0;
        let want_depth = if flush {
            le(self.h(o).flush(), "flush")?;
            let d = self.fsck(m, fsck::M_TREE)?;
            Some(d.depth).filter(|_| !cfg!(feature = "nofsck"))
        } else {
            None
        };
        let h = self.h(o);
        let c = h.check();
        if !le(c.is_balanced(), "is_balanced")? {
            return Err("is_balanced is false".into());
        }
        if !le(c.is_mst_valid(), "is_mst_valid")? {
            return Err("is_mst_valid is false".into());
        }
        if !le(c.is_dense(), "is_dense")? {
            return Err("is_dense is false".into());
        }
        let dep = le(c.depth_of_node_tree(), "depth_of_node_tree")?;
        if let Some(w) = want_depth {
            if w != dep {
                return Err(format!("depth_of_node_tree is {}, by the file {}", dep, w));
            }
        }
        if o.arg(0) & 2 != 0 {
            le(c.graph_string(), "graph_string")?;
            le(c.graph_string_with_key_string(), "graph_string_with_key_string")?;
        }
        // logarithmic depth: at least 2 * (SLOTS/2)^(d-1) - 1 keys in a tree of depth d >= 2
        let n = self.model[m].len() as u64;
        let mut min = 2u64;
        for _ in 1..dep {
            min = min.saturating_mul(fsck::SLOTS as u64 / 2);
        }
        if dep >= 2 && n + 1 < min && !(cfg!(feature = "nofsck") && !cfg!(feature = "small")) {
            return Err(format!("depth {} with {} entries", dep, n));
        }
        self.c("check");
        if dep >= 2 {
            self.c("check-depth2");
        }
        if dep >= 3 {
            self.c("check-depth3");
        }
        if dep >= 4 {
            self.c("check-depth4");
        }
        Ok(())
    }

    /// all statistics as they are reported now
    fn stat_texts(&mut self, o: &Op) -> R<Vec<(&'static str, String)>> {
        let (dflt, few) = (self.case.maps[o.m as usize].ht == 0, self.model[o.m as usize].len() < 3000);
        let h = self.h(o);
        let c = h.check();
        let mut v = vec![];
        macro_rules! t {
            ($($f:ident),*) => { $(v.push((stringify!($f), format!("{:?}", le(c.$f(), stringify!($f))?)));)* };
        }
        t!(is_balanced, is_mst_valid, is_dense, depth_of_node_tree, count_of_free_node, count_of_free_key_piece);
        t!(count_of_free_value_piece, count_of_used_node, key_piece_size_stats, value_piece_size_stats);
        t!(keys_count_stats, key_length_stats, value_length_stats);
        if few {
            t!(graph_string, graph_string_with_key_string);
        }
        #[cfg(not(feature = "nohtx"))]
        if !dflt {
            t!(htx_filling_rate_per_mill);
        }
        let _ = dflt;
        Ok(v)
    }
    fn stats(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        let before = self.stat_texts(o)?;
        let dirty = self.h(o).dirty();
        le(self.h(o).flush(), "flush")?;
        for (a, b) in before.iter().zip(self.stat_texts(o)?) {
            if a.1 != b.1 {
                return Err(format!("{} before the flush is {}, after it is {}", a.0, clip(&a.1), clip(&b.1)));
            }
        }
        if dirty {
            self.c("stats-dirty");
        }
        let d = self.fsck(m, M_ALL)?;
        fn hist<A: std::fmt::Display, B: std::fmt::Display>(m: &BTreeMap<A, B>) -> String {
            let v: Vec<String> = m.iter().map(|(a, b)| format!("({}, {})", a, b)).collect();
            format!("[{}]", v.join(", "))
        }
        let model = &self.model[m];
        let mut kl: BTreeMap<u64, u64> = BTreeMap::new();
        let mut vl: BTreeMap<u64, u64> = BTreeMap::new();
        for (k, v) in model {
            *kl.entry(k.len() as u64).or_insert(0) += 1;
            *vl.entry(v.len() as u64).or_insert(0) += 1;
        }
        let h = &self.hs[m][0];
        let c = h.check();
        let eq = |what: &str, got: String, want: String| -> R<()> {
            if got != want {
                return Err(format!("{} reports {}, expected {}", what, got, want));
            }
            Ok(())
        };
        eq("key_length_stats", le(c.key_length_stats(), "key_length_stats")?.to_string(), hist(&kl))?;
        eq("value_length_stats", le(c.value_length_stats(), "value_length_stats")?.to_string(), hist(&vl))?;
        if cfg!(feature = "config") {
            let (uk, uv, _) = le(c.count_of_used_node(), "count_of_used_node")?;
            for (what, v) in [("key", uk), ("value", uv)] {
                let n: u64 = v.iter().map(|x| x.1).sum();
                if n != model.len() as u64 {
                    return Err(format!("count_of_used_node counts {} {} pieces of {} entries", n, what, model.len()));
                }
            }
            self.c("stats");
            return Ok(());
        }
        eq("key_piece_size_stats", le(c.key_piece_size_stats(), "key_piece_size_stats")?.to_string(), hist(&d.key_sizes))?;
        eq("value_piece_size_stats", le(c.value_piece_size_stats(), "value_piece_size_stats")?.to_string(), hist(&d.val_sizes))?;
        eq("keys_count_stats", le(c.keys_count_stats(), "keys_count_stats")?.to_string(), hist(&d.keys_count))?;
        // counts per size: the list of classes, the last one for all large ones
        let per_class = |v: &[(u32, u64)], got_is: &str, by_size: &BTreeMap<u32, u64>, lists: Option<&[u64; 16]>| -> R<()> {
            let total: u64 = v.iter().map(|x| x.1).sum();
            let want_total: u64 = by_size.values().sum();
            if total != want_total {
                return Err(format!("{} counts {} in total, expected {}: {:?} / {:?}", got_is, total, want_total, v, by_size));
            }
            for (i, &(size, n)) in v.iter().enumerate() {
                let w = if let Some(l) = lists {
                    l[i]
                } else if i + 1 == v.len() && v.len() == 16 {
                    by_size.iter().filter(|(&s, _)| s > 896).map(|(_, &n)| n).sum()
                } else {
                    by_size.get(&size).copied().unwrap_or(0)
                };
                if n != w {
                    return Err(format!("{} counts {} of size {}, expected {}", got_is, n, size, w));
                }
            }
            Ok(())
        };
        per_class(&le(c.count_of_free_key_piece(), "count_of_free_key_piece")?, "count_of_free_key_piece", &d.free_keys, Some(&d.free_key_lists))?;
        per_class(&le(c.count_of_free_value_piece(), "count_of_free_value_piece")?, "count_of_free_value_piece", &d.free_vals, Some(&d.free_val_lists))?;
        per_class(&le(c.count_of_free_node(), "count_of_free_node")?, "count_of_free_node", &d.free_nodes, None)?;
        let (uk, uv, un) = le(c.count_of_used_node(), "count_of_used_node")?;
        per_class(&uk, "count_of_used_node (keys)", &d.key_sizes, None)?;
        per_class(&uv, "count_of_used_node (values)", &d.val_sizes, None)?;
        per_class(&un, "count_of_used_node (nodes)", &d.node_sizes, None)?;
        let dep = le(c.depth_of_node_tree(), "depth_of_node_tree")?;
        if dep != d.depth {
            return Err(format!("depth_of_node_tree is {}, by the file {}", dep, d.depth));
        }
        // the drawn tree shows every node once, and every entry once from the last to the first
        let g = le(c.graph_string(), "graph_string")?;
        let lines: Vec<&str> = g.lines().map(|l| l.trim()).collect();
        let nodes = lines.iter().filter(|l| l.starts_with('^')).count() as u64;
        if nodes != d.node_sizes.values().sum::<u64>() {
            return Err(format!("graph_string shows {} nodes, the file has {:?}", nodes, d.node_sizes));
        }
        let mut by_key: Vec<(&[u8], u64)> = d.key_at.iter().map(|(off, k)| (&k[..], *off)).collect();
        by_key.sort();
        let want = by_key.iter().rev().map(|x| format!("{:04x}", x.1));
        if !lines.iter().filter(|l| !l.is_empty() && !l.starts_with(['^', 'v'])).map(|l| l.to_string()).eq(want) {
            return Err("graph_string does not show the entries from the last to the first".to_string());
        }
        let g = le(c.graph_string_with_key_string(), "graph_string_with_key_string")?;
        for (k, off) in by_key.iter().take(50) {
            let l = format!("{:04x}:", off);
            let plain = self.kt(m) == Kt::Str && k.iter().all(|b| b.is_ascii_alphanumeric());
            if !g.lines().map(|x| x.trim()).any(|x| x.starts_with(&l) && (!plain || x.contains(&*String::from_utf8_lossy(k)))) {
                return Err(format!("graph_string_with_key_string does not show the entry '{}'", show(k)));
            }
        }
        #[cfg(not(feature = "nohtx"))]
        {
            let (ht, _) = le(c.ht_size_and_count(), "ht_size_and_count")?;
            if ht != d.ht_size {
                return Err(format!("ht_size_and_count reports {} slots, expected {}", ht, d.ht_size));
            }
            if ht <= 100_000 {
                let (n, pm) = le(c.htx_filling_rate_per_mill(), "htx_filling_rate_per_mill")?;
                if n != d.ht_filled || pm as u64 != n * 1000 / ht {
                    return Err(format!("htx_filling_rate_per_mill reports ({}, {}), expected {} of {}", n, pm, d.ht_filled, ht));
                }
            }
        }
        self.c("stats");
        if d.depth >= 2 {
            self.c("stats-depth2");
        }
        if !d.free_nodes.is_empty() || !d.free_keys.is_empty() || !d.free_vals.is_empty() {
            self.c("stats-free");
        }
        Ok(())
    }

    fn fault(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        {
            let s = interpose::state();
            s.fault_class = o.arg(0) & 7;
            s.fault_skip = o.arg(1);
            s.fault_times = o.arg(2).max(1);
            let e = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG];
            s.fault_short = o.arg(3) % 5 == 4;
            s.fault_errno = e[o.arg(3) as usize % 4];
            s.fired = 0;
        }
        let short = interpose::state().fault_short;
        let r = self.sync_call(o);
        let fired = interpose::state().fired;
        interpose::disarm();
        if fired > 0 {
            self.c(if short { "fault-short" } else { "fault-fired" });
            if r.is_ok() && !short {
                return Err(format!("a failing system call was not reported by the flush/sync (form {})", o.form % 5));
            }
        } else {
            self.c("fault-idle");
            if let Err(e) = r {
                return Err(format!("flush/sync failed without a fault: {}", e));
            }
        }
        if o.arg(5) & 1 != 0 {
            // contents are all there before the repetition
            self.sweep(m)?;
            let mut it = self.hs[m][0].iter(0);
            cmp_iter("iteration after a failed flush/sync", &mut *it, &self.model[m], 0)?;
        }
        // repetition, maybe by another call
        let mut o2 = o.clone();
        o2.form = (o.arg(4) % 5) as u8;
        le(self.sync_call(&o2), "flush/sync repeated after a fault")?;
        self.verify_written(&o2)?;
        self.sweep(m)
    }

    /// in a copy of this process: nothing of it is seen here but the answer
    fn in_fork(&mut self, f: &mut dyn FnMut(&mut Self) -> R<bool>) -> R<bool> {
        let answer = self.root.join("answer");
        let _ = std::fs::remove_file(&answer);
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            return Err("HARNESS: fork".into());
        }
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
            interpose::disarm();
            let t = match r {
                Ok(Ok(true)) => "fired".to_string(),
                Ok(Ok(false)) => "idle".to_string(),
                Ok(Err(e)) => format!("F{}", e),
                Err(_) => "Fpanic".to_string(),
            };
            let _ = std::fs::write(&answer, t);
            unsafe { libc::_exit(0) }
        }
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        match std::fs::read_to_string(&answer) {
            Ok(t) if t == "fired" => Ok(true),
            Ok(t) if t == "idle" => Ok(false),
            Ok(t) if t.starts_with('F') => Err(t[1..].to_string()),
            _ if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) != libc::SIGKILL => {
                Err(format!("killed by signal {}", libc::WTERMSIG(status)))
            }
            _ => Err(format!("HARNESS: no answer of a forked copy, status {}", status)),
        }
    }
    fn restore_dir(&self, before: &BTreeMap<String, Image>) -> R<()> {
        for n in dir_images(&self.dir)?.keys() {
            if !before.contains_key(n) {
                hx(std::fs::remove_file(self.dir.join(n)))?;
            }
        }
        for (n, i) in before {
            i.write(&self.dir.join(n))?;
        }
        Ok(())
    }
    fn arm(&self, o: &Op, class: u32, skip: u32) {
        let s = interpose::state();
        let e = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EMFILE];
        s.fault_class = class;
        s.fault_skip = skip;
        s.fault_times = o.arg(2).max(1);
        s.fault_short = false;
        s.fault_errno = e[o.arg(3) as usize % 4];
        s.fired = 0;
    }
    fn fault_all(&mut self, o: &Op) -> R<()> {
        let action = o.arg(0) % 6;
        if (2..5).contains(&action) {
            self.close(false);
        }
        let before = dir_images(&self.dir)?;
        let mut k = 0;
        let mut points = 0;
        let end = loop {
            let r = self.in_fork(&mut |me: &mut Self| match action {
                0 => me.fault_sync(o, k),
                1 => me.fault_read(o, k),
                2 => me.fault_open(o, k, false),
                3 => me.fault_open(o, k, true),
                5 => me.fault_put(o, k),
                _ => me.fault_new_db(o, k),
            });
            self.restore_dir(&before)?;
            match r {
                Ok(true) => points += 1,
                Ok(false) => break Ok(()),
                Err(e) if e.starts_with("HARNESS") => break Err(e),
                Err(e) => break Err(format!("with a fault at call {}: {}", k, e)),
            }
            // each one first, then in strides
            k += 1 + k / 24;
            if points > 90 {
                break Ok(());
            }
        };
        end?;
        self.cn("fault-fired", points);
        if points >= 3 {
            self.c("fault-all");
        }
        if (2..5).contains(&action) {
            self.open()?;
        }
        Ok(())
    }
    fn fault_sync(&mut self, o: &Op, k: u32) -> R<bool> {
        self.arm(o, o.arg(1), k);
        let r = self.sync_call(o);
        let fired = interpose::state().fired;
        interpose::disarm();
        if fired == 0 {
            le(r, "flush/sync without a fault")?;
            return Ok(false);
        }
        if r.is_ok() {
            return Err(format!("a failing system call was not reported by the flush/sync (form {})", o.form % 5));
        }
        self.after_fault(o, o.arg(4))?;
        Ok(true)
    }
    /// all is there, and a flush or sync works
    fn after_fault(&mut self, o: &Op, how: u32) -> R<()> {
        if how & 1 != 0 {
            self.all_there("after a fault")?;
        }
        let mut o2 = o.clone();
        o2.form = ((how >> 1) % 5) as u8;
        le(self.sync_call(&o2), "flush/sync after a fault")?;
        if how & 32 != 0 {
            // with a change, so that there is something to write
            self.put1(&Op::new(Kind::Put).m(o.m as usize).f(1), K(1, 3), V(5, 2))?;
            le(self.sync_call(&o2), "flush/sync after a fault")?;
        }
        if how & 32 != 0 || o.kind == Kind::FaultAll && o.arg(0) % 4 == 0 {
            self.verify_written(&o2)?;
        }
        self.all_there("after a fault")
    }
    fn all_there(&mut self, what: &str) -> R<()> {
        for m in 0..self.case.maps.len() {
            self.sweep(m)?;
            let mut it = self.hs[m][0].iter(0);
            cmp_iter(&format!("iteration {}", what), &mut *it, &self.model[m], 0)?;
        }
        Ok(())
    }
    /// reading with faults: a right answer, an error or (iterating) a panic
    fn fault_read(&mut self, o: &Op, k: u32) -> R<bool> {
        let m = o.m as usize;
        self.arm(o, o.arg(1), k);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> R<bool> {
            let f = o.form;
            let kt = self.kt(m);
            let keys: Vec<Vec<u8>> = o.keys.iter().map(|&k| key_bytes(kt, k)).collect();
            match (o.arg(4) >> 8) % 6 {
                0 | 1 => {
                    for kb in &keys {
                        let want = self.model[m].get(kb).cloned();
                        match self.h(o).get(f, kb) {
                            Ok(g) => Self::expect("get", kb, g, want, is_text_form(f))?,
                            Err(_) => return Ok(true),
                        }
                    }
                }
                2 => match self.h(o).bget(f, &keys) {
                    Ok(g) => self.bulk_expect("bulk_get", o, &keys, g, false)?,
                    Err(_) => return Ok(true),
                },
                3 | 4 => {
                    let mut it = self.h(o).iter(f);
                    cmp_iter("iteration", &mut *it, &self.model[m], 0)?;
                }
                _ => {
                    if self.h(o).fill().is_err() {
                        return Ok(true);
                    }
                }
            }
            Ok(false)
        }));
        let fired = interpose::state().fired;
        interpose::disarm();
        match r {
            Ok(Err(e)) => return Err(e),
            Ok(Ok(true)) if fired == 0 => return Err("reading failed without a fault".into()),
            Err(_) if fired == 0 => return Err("reading panicked without a fault".into()),
            _ => {}
        }
        if fired == 0 {
            return Ok(false);
        }
        if let Ok(Ok(false)) = r {
            return Err("a failing system call was not reported by the call that reads".into());
        }
        self.after_fault(o, o.arg(4))?;
        Ok(true)
    }
    /// put or delete with faults of the value, key and hash table files
    fn fault_put(&mut self, o: &Op, k: u32) -> R<bool> {
        let m = o.m as usize;
        let kt = self.kt(m);
        let keys: Vec<Vec<u8>> = o.keys.iter().map(|&k| key_bytes(kt, k)).collect();
        let vals: Vec<Vec<u8>> = (0..keys.len()).map(|i| val_bytes(o.vals[i % o.vals.len()])).collect();
        let olds: Vec<Option<Vec<u8>>> = keys.iter().map(|k| self.model[m].get(k).cloned()).collect();
        let del = o.arg(4) & 2048 != 0;
        let bulk = keys.len() > 1;
        self.arm(o, o.arg(1), k);
        interpose::state().fault_files = o.arg(5);
        let form = o.form;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (del, bulk) {
            (true, true) => self.h(o).bdel(form, &keys).map(|_| ()),
            (true, false) => self.h(o).del(form, &keys[0]).map(|_| ()),
            (false, true) => self.h(o).bput(form, &keys, &vals),
            (false, false) => self.h(o).put(form, &keys[0], &vals[0]),
        }));
        let fired = interpose::state().fired;
        interpose::disarm();
        let what = match (del, bulk) {
            (true, true) => "bulk_delete",
            (true, false) => "delete",
            (false, true) => "bulk_put",
            (false, false) => "put",
        };
        let done = match r {
            Ok(Ok(())) if fired > 0 => return Err(format!("a failing system call was not reported by the {}", what)),
            Ok(Err(e)) if fired == 0 => return Err(format!("{} failed without a fault: {}", what, e)),
            Err(_) => return Err(format!("{} panicked ({} faults)", what, fired)),
            Ok(r) => r.is_ok(),
        };
        if done {
            return Ok(false);
        }
        // an entry that was not there or that is deleted: the old value, a new one, or none
        if o.arg(4) & 1024 == 0 {
            for (kb, old) in keys.iter().zip(&olds) {
                let got = le(self.h(o).get(1, kb), "get after a fault")?;
                let new = |v: &Vec<u8>| keys.iter().zip(&vals).any(|(k2, v2)| k2 == kb && v2 == v);
                let twice = keys.iter().filter(|k2| *k2 == kb).count() > 1;
                if got.is_some() && got != *old && (del || old.is_none() && !twice && !got.as_ref().is_some_and(new)) {
                    return Err(format!("get after a failed {} returned {}", what, show_opt(got.as_deref())));
                }
            }
        }
        // and again
        if del {
            le(self.h(o).bdel(1, &keys), "bulk_delete after a fault")?;
            for kb in &keys {
                self.model[m].remove(kb);
            }
        } else {
            // the order of the elements of one call with equal keys is that of the call
            for (kb, vb) in keys.iter().zip(vals) {
                le(self.h(o).put(1, kb, &vb), "put after a fault")?;
                self.m_put(m, kb, vb);
            }
        }
        self.after_fault(o, o.arg(4))?;
        for i in 0..60u32 {
            self.put1(&Op::new(Kind::Put).m(m).f(1), K(3, 100000 + i), V(if i % 2 == 0 { 3000 } else { 20 } + i * 7, i))?;
        }
        self.close(false);
        for c in self.case.maps.clone() {
            fsck::read_map(&self.dir, &c.name, c.kt, fsck::M_TREE | fsck::M_HTX, &Gaps::default())?;
        }
        self.open()?;
        self.all_there("after a fault and reopening")?;
        Ok(true)
    }
    /// opening with faults, of the map or of a new one
    fn fault_open(&mut self, o: &Op, k: u32, new: bool) -> R<bool> {
        let m = o.m as usize;
        let c = self.case.maps[m].clone();
        let name = if new { format!("{}.new", c.name) } else { c.name.clone() };
        let bufs = self.bufs[m];
        if new && o.arg(4) & 64 == 0 {
            pre_htx(&self.dir, &MapCfg { name: name.clone(), ht: c.ht.max(1), ..c.clone() })?;
        }
        let db = le(siamesedb::open_file(&self.dir), "open_file")?;
        self.arm(o, o.arg(1), k);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| open_file_map(&db, c.kt, &name, bufs)));
        let fired = interpose::state().fired;
        let how = o.arg(4);
        if fired == 0 {
            interpose::disarm();
            return match r {
                Ok(Ok(_)) => Ok(false),
                Ok(Err(e)) => Err(format!("opening failed without a fault: {}", e)),
                Err(_) => Err("opening panicked without a fault".into()),
            };
        }
        interpose::disarm();
        let opened = matches!(r, Ok(Ok(_)));
        if opened && how & 128 != 0 {
            // answers and stays usable
            if let Ok(Ok(mut h)) = r {
                if new {
                    cmp_iter("iteration of a new map", &mut *h.iter(0), &Model::new(), 0)?;
                } else {
                    cmp_iter("iteration after opening", &mut *h.iter(0), &self.model[m], 0)?;
                }
            }
        } else {
            drop(r);
        }
        if how & 256 != 0 {
            // again in the same database
            let h = le(open_file_map(&db, c.kt, &name, bufs), "opening again after a fault")?;
            drop(h);
        }
        drop(db);
        // and everything is there
        self.open()?;
        self.all_there("after a failed opening")?;
        if new {
            let db = self.db.as_ref().unwrap();
            let mut h = le(open_file_map(db, c.kt, &name, bufs), "opening a new map after a failed opening")?;
            cmp_iter("iteration of a new map", &mut *h.iter(0), &Model::new(), 0)?;
            let kb = key_bytes(c.kt, K(0, 1));
            le(h.put(1, &kb, b"x"), "put")?;
            Self::expect("get", &kb, le(h.get(1, &kb), "get")?, Some(b"x".to_vec()), false)?;
            drop(h);
            self.close(false);
            fsck::read_map(&self.dir, &name, c.kt, fsck::M_TILE | fsck::M_TREE, &Gaps::default())?;
        }
        Ok(true)
    }

    /// making a database in directories that are not there yet, with faults
    fn fault_new_db(&mut self, o: &Op, k: u32) -> R<bool> {
        let base = self.copy_dir();
        hx(std::fs::create_dir_all(&base))?;
        let p = base.join("a").join("b.c").join("db");
        self.arm(o, 32, k);
        let r = siamesedb::open_file(&p);
        let fired = interpose::state().fired;
        interpose::disarm();
        if fired > 0 {
            if r.is_ok() && !p.is_dir() {
                return Err("open_file returned Ok, and there is no directory".into());
            }
        } else {
            le(r, "open_file")?;
        }
        self.probe_db(&p, o)?;
        hx(std::fs::remove_dir_all(&base))?;
        Ok(fired > 0)
    }
    /// a database at that path can be made, used and opened again
    fn probe_db(&mut self, p: &Path, o: &Op) -> R<()> {
        let kt = self.kt(o.m as usize);
        let kb = key_bytes(kt, K(0, 7));
        for round in 0..2u8 {
            let db = le(siamesedb::open_file(p), "open_file")?;
            if db.path() != p {
                return Err(format!("path() is {:?}, opened as {:?}", db.path(), p));
            }
            if round == 0 {
                pre_htx(p, &MapCfg { name: "probe".into(), kt, ht: 20, bufs: None })?;
            }
            let mut h = le(open_file_map(&db, kt, "probe", None), "opening a map")?;
            let want = if round == 0 { None } else { Some(b"v".to_vec()) };
            Self::expect("get", &kb, le(h.get(1, &kb), "get")?, want, false)?;
            le(h.put(1, &kb, b"v"), "put")?;
        }
        Ok(())
    }
    /// opening by other paths; something in the place of a file or a directory
    fn obstacle(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        let c = self.case.maps[m].clone();
        let variant = o.arg(0) % 6;
        let ext = ["key", "val", "idx", "htx"][o.arg(1) as usize % 4];
        const NAMES: [&[u8]; 5] = [b"x.y", b"\xff", b"a\xc3", b"\xed\xa0\x80.key", b" *\n"];
        let refused = |r: std::thread::Result<std::io::Result<Box<dyn DynMap>>>| -> bool { !matches!(r, Ok(Ok(_))) };
        let foreign = |d: &Path| -> R<()> {
            for (n, t) in [("README", "x"), (".hidden", ""), ("key", "12"), ("m.key.bak", "siamdbK"), ("val.m", "y"), ("m", "z")] {
                hx(std::fs::write(d.join(n), t))?;
            }
            hx(std::fs::create_dir_all(d.join("sub.key")))
        };
        match variant {
            // a file in the place of the directory, or of its parent
            0 => {
                let base = self.copy_dir();
                hx(std::fs::create_dir_all(&base))?;
                let f = base.join("file");
                hx(std::fs::write(&f, "contents"))?;
                let p = if o.arg(1) & 4 != 0 { f.join("db") } else { f.clone() };
                if siamesedb::open_file(&p).is_ok() {
                    return Err("a database was opened in the place of a file".into());
                }
                if hx(std::fs::read(&f))? != b"contents" {
                    return Err("a refused opening changed a file".into());
                }
                hx(std::fs::remove_file(&f))?;
                self.probe_db(&p, o)?;
                hx(std::fs::remove_dir_all(&base))?;
                self.c("obstacle");
            }
            // a directory in the place of a file, of a new map or of an existing one
            1 | 2 => {
                self.close(false);
                let new = variant == 1;
                let name = if new { format!("{}.new", c.name) } else { c.name.clone() };
                let p = self.dir.join(format!("{}.{}", name, ext));
                if new && ext != "htx" {
                    pre_htx(&self.dir, &MapCfg { name: name.clone(), ht: 30, ..c.clone() })?;
                }
                let aside = self.root.join("aside");
                if !new {
                    hx(std::fs::rename(&p, &aside))?;
                }
                hx(std::fs::create_dir(&p))?;
                let before = dir_images(&self.dir)?;
                {
                    let db = le(siamesedb::open_file(&self.dir), "open_file")?;
                    for _ in 0..1 + (o.arg(2) & 1) {
                        if !refused(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            open_file_map(&db, c.kt, &name, self.bufs[m])
                        }))) {
                            return Err(format!("a map was opened with a directory in the place of its {} file", ext));
                        }
                    }
                    if new {
                        // what may be left are files of the new map
                        let mut now = dir_images(&self.dir)?;
                        now.retain(|n, _| !n.starts_with(&format!("{}.", name)));
                        let mut b = before.clone();
                        b.retain(|n, _| !n.starts_with(&format!("{}.", name)));
                        if let Some(d) = diff_images(&b, &now) {
                            return Err(format!("a failed opening: {}", d));
                        }
                    } else if let Some(d) = diff_images(&before, &dir_images(&self.dir)?) {
                        return Err(format!("a failed opening: {}", d));
                    }
                    hx(std::fs::remove_dir(&p))?;
                    if !new {
                        hx(std::fs::rename(&aside, &p))?;
                    }
                    if o.arg(2) & 2 != 0 {
                        // in the same database
                        let mut h = le(open_file_map(&db, c.kt, &name, self.bufs[m]), "opening after the obstacle is gone")?;
                        let e = Model::new();
                        cmp_iter("iteration", &mut *h.iter(0), if new { &e } else { &self.model[m] }, 0)?;
                    }
                }
                self.open()?;
                if new {
                    let kb = key_bytes(c.kt, K(0, 1));
                    {
                        let db = self.db.as_ref().unwrap();
                        let mut h = le(open_file_map(db, c.kt, &name, self.bufs[m]), "opening after the obstacle is gone")?;
                        cmp_iter("iteration of a new map", &mut *h.iter(0), &Model::new(), 0)?;
                        le(h.put(1, &kb, b"x"), "put")?;
                        Self::expect("get", &kb, le(h.get(1, &kb), "get")?, Some(b"x".to_vec()), false)?;
                    }
                    self.close(false);
                    for e in ["key", "val", "idx", "htx"] {
                        hx(std::fs::remove_file(self.dir.join(format!("{}.{}", name, e))))?;
                    }
                    self.open()?;
                }
                self.c("obstacle");
            }
            // other forms of the path
            3 | 4 => {
                let mode = o.arg(0) & 4;
                let _ = mode;
                self.close(self.case.ops.len() % 2 == 0);
                let dir = self.dir.clone();
                let parent = dir.parent().unwrap().to_path_buf();
                let last = dir.file_name().unwrap().to_os_string();
                let link = parent.join("link");
                let _ = std::fs::remove_file(&link);
                hx(std::os::unix::fs::symlink(&dir, &link))?;
                // a name that is no text
                let odd = PathBuf::from(std::ffi::OsStr::from_bytes(b"\xff\xfe \xe3x"));
                let _ = std::fs::remove_file(parent.join(&odd));
                hx(std::os::unix::fs::symlink(&dir, parent.join(&odd)))?;
                let cwd = hx(std::env::current_dir())?;
                let forms: Vec<PathBuf> = vec![
                    PathBuf::from(&last),
                    Path::new(".").join(&last),
                    parent.join("x").join("..").join(&last),
                    PathBuf::from(format!("{}/", dir.display())),
                    link.clone(),
                    PathBuf::from("link/"),
                    PathBuf::from(format!("{}//{}/.", parent.display(), last.to_string_lossy())),
                    odd.clone(),
                    parent.join(&odd),
                    odd.join("."),
                ];
                hx(std::fs::create_dir_all(parent.join("x")))?;
                hx(std::env::set_current_dir(&parent))?;
                let p = &forms[o.arg(2) as usize % forms.len()];
                let r = (|| -> R<()> {
                    let db = le(siamesedb::open_file(p), "open_file")?;
                    if &db.path() != p {
                        return Err(format!("path() is {:?}, opened as {:?}", db.path(), p));
                    }
                    for (i, mc) in self.case.maps.iter().enumerate() {
                        let mut h = le(open_file_map(&db, mc.kt, &mc.name, self.bufs[i]), "opening a map")?;
                        cmp_iter("iteration, opened by another path", &mut *h.iter(0), &self.model[i], 0)?;
                        for n in 0..1 + o.arg(3) % 5 {
                            let kb = key_bytes(mc.kt, K(0, n));
                            let vb = val_bytes(V(n * 7, o.arg(3)));
                            le(h.put(1, &kb, &vb), "put")?;
                            self.model[i].insert(kb.clone(), vb);
                            self.touched[i].insert(kb);
                        }
                    }
                    Ok(())
                })();
                hx(std::env::set_current_dir(&cwd))?;
                r?;
                self.open()?;
                for i in 0..self.case.maps.len() {
                    self.sweep(i)?;
                }
                self.c("other-path");
            }
            // a directory that is not there yet, several levels of it; foreign files
            _ => {
                let base = self.copy_dir();
                hx(std::fs::create_dir_all(&base))?;
                foreign(&base)?;
                let p = if o.arg(1) & 4 != 0 { base.clone() } else { base.join("new").join("日本").join(std::ffi::OsStr::from_bytes(NAMES[o.arg(2) as usize % 5])) };
                let before = dir_images(&base)?;
                {
                    let db = le(siamesedb::open_file(&p), "open_file")?;
                    if let Some(d) = diff_images(&before, &dir_images(&base)?) {
                        return Err(format!("opening a database: {}", d));
                    }
                    let mut h = le(open_file_map(&db, c.kt, "m", self.bufs[m]), "opening a map")?;
                    le(h.put(1, &key_bytes(c.kt, K(0, 1)), b"x"), "put")?;
                    le(h.sync_all(), "sync_all")?;
                }
                let mut after = dir_images(&base)?;
                if o.arg(1) & 4 != 0 {
                    for e in ["key", "val", "idx", "htx"] {
                        if after.remove(&format!("m.{}", e)).is_none() {
                            return Err(format!("there is no {} file", e));
                        }
                    }
                }
                if let Some(d) = diff_images(&before, &after) {
                    return Err(format!("a database next to other files: {}", d));
                }
                if o.arg(1) & 4 == 0 {
                    self.probe_db(&p, o)?;
                }
                hx(std::fs::remove_dir_all(&base))?;
                self.c("new-dir");
            }
        }
        self.sweep(m)
    }

    /// a file grows for a key or a value only when no free piece is large enough
    fn reuse(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        let name = self.case.maps[m].name.clone();
        let kt = self.kt(m);
        let mut rng = Rng::new(o.arg(0) as u64);
        let len = |me: &Self, e: &str| -> R<u64> { Ok(hx(std::fs::metadata(me.dir.join(format!("{}.{}", name, e))))?.len()) };
        for (i, &k) in o.keys.iter().enumerate() {
            if len(self, "key")? + len(self, "val")? > 4 << 20 {
                // too long to read it often
                let v = o.vals.get(i).copied().unwrap_or(V(0, 0));
                self.put1(o, k, v)?;
                continue;
            }
            le(self.hs[m][0].flush(), "flush")?;
            let d = fsck::read_map(&self.dir, &name, kt, 0, &self.gaps[m])?;
            let before = [len(self, "key")?, len(self, "val")?];
            let sizes: Vec<u32> = d.free_vals.iter().filter(|x| *x.1 > 0).map(|x| *x.0).collect();
            let mut v = o.vals.get(i).copied().unwrap_or(V(0, 0));
            if self.case.reps == 0 && !sizes.is_empty() && rng.pct(75) {
                // one that has need of a certain free piece
                let s = match rng.below(3) {
                    0 => *sizes.last().unwrap(),
                    _ => *rng.pick(&sizes),
                };
                v.0 = s.saturating_sub(9 + rng.below(30) as u32);
            }
            self.put1(o, k, v)?;
            le(self.hs[m][0].flush(), "flush")?;
            let after = [len(self, "key")?, len(self, "val")?];
            for (f, free) in [(0, &d.free_keys), (1, &d.free_vals)] {
                if after[f] < before[f] {
                    continue;
                }
                let g = after[f] - before[f];
                if g == 0 {
                    self.c("reused");
                    continue;
                }
                let large = fsck::list_of(g as u32) == 15;
                if let Some((s, _)) = free.iter().find(|(&s, &n)| n > 0 && if large { fsck::list_of(s) == 15 && s as u64 >= g } else { s as u64 == g }) {
                    return Err(format!(
                        "the {} file grew by {} bytes while a free piece of {} bytes was there",
                        ["key", "value"][f], g, s
                    ));
                }
                self.c("grown");
            }
        }
        Ok(())
    }
    fn pure(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        let nm = self.case.maps.len();
        for i in 0..nm {
            le(self.hs[i][0].flush(), "flush")?;
            if self.hs[i][0].dirty() {
                return Err("is_dirty after flush".into());
            }
        }
        let before = dir_images(&self.dir)?;
        let mode = o.arg(0);
        if mode & 1 != 0 {
            self.close(false);
            if let Some(d) = diff_images(&before, &dir_images(&self.dir)?) {
                return Err(format!("closing a flushed database: {}", d));
            }
            self.open()?;
            if self.hs[m][0].dirty() {
                return Err("is_dirty after opening".into());
            }
        }
        let mut rng = Rng::new(o.arg(1) as u64);
        let n = o.arg(2).max(1);
        for _ in 0..n {
            let f = rng.below(8);
            match rng.below(9) {
                0 | 1 => {
                    if !o.keys.is_empty() {
                        let k = key_bytes(self.kt(m), *rng.pick(&o.keys));
                        self.get1(&Op::new(Kind::Get).m(m).f(f), &k)?;
                    }
                }
                2 => {
                    let mut b = Op::new(Kind::BGet).m(m).f(f);
                    for _ in 0..rng.below(8) {
                        if !o.keys.is_empty() {
                            b.keys.push(*rng.pick(&o.keys));
                        }
                    }
                    self.op(&b)?;
                }
                3 => self.op(&Op::new(Kind::Iter).m(m).f(f).a(rng.below(2) * 5))?,
                4 => self.op(&Op::new(Kind::Iter2).m(m).f(f).a(rng.below(1000)).a(1))?,
                5 => self.op(&Op::new(Kind::Fill).m(m))?,
                6 => self.op(&Op::new(Kind::Check).m(m).a(3))?,
                7 => {
                    let h = &self.hs[m][0];
                    let c = h.check();
                    le(c.count_of_free_node(), "stats")?;
                    le(c.count_of_free_key_piece(), "stats")?;
                    le(c.count_of_free_value_piece(), "stats")?;
                    le(c.count_of_used_node(), "stats")?;
                    le(c.key_piece_size_stats(), "stats")?;
                    le(c.value_piece_size_stats(), "stats")?;
                    le(c.keys_count_stats(), "stats")?;
                    le(c.key_length_stats(), "stats")?;
                    le(c.value_length_stats(), "stats")?;
                    #[cfg(not(feature = "nohtx"))]
                    {
                        let (ht, _) = le(c.ht_size_and_count(), "stats")?;
                        if ht < 100_000 {
                            le(c.htx_filling_rate_per_mill(), "stats")?;
                        }
                    }
                }
                _ => self.sweep(m)?,
            }
            if self.hs[m][0].dirty() {
                return Err("is_dirty after reading".into());
            }
        }
        if mode & 2 != 0 {
            le(self.hs[m][0].flush(), "flush")?;
            le(self.hs[m][0].sync_all(), "sync_all")?;
            le(self.db.as_ref().unwrap().sync_data(), "db sync_data")?;
        }
        if let Some(d) = diff_images(&before, &dir_images(&self.dir)?) {
            return Err(format!("reading: {}", d));
        }
        self.close(mode & 4 != 0);
        if let Some(d) = diff_images(&before, &dir_images(&self.dir)?) {
            return Err(format!("reading and closing: {}", d));
        }
        self.open()?;
        self.c("pure");
        Ok(())
    }

    fn wrong(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        let c = self.case.maps[m].clone();
        let other = KTS[(c.kt.idx() + 1 + (o.arg(1) as usize % 2)) % 3];
        let bufs = if o.arg(2) & 1 != 0 { self.bufs[m] } else { None };
        let refused = |r: std::thread::Result<std::io::Result<Box<dyn DynMap>>>| -> bool { !matches!(r, Ok(Ok(_))) };
        let try_open = |db: &FileDb, kt: Kt| -> bool {
            refused(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                open_file_map(db, kt, &c.name, bufs)
            })))
        };
        match o.arg(0) % 4 {
            // open in the same database
            0 => {
                let before = dir_images(&self.dir)?;
                if !try_open(self.db.as_ref().unwrap(), other) {
                    return Err(format!("a map of {} that is open was opened as {}", c.kt.name(), other.name()));
                }
                if let Some(d) = diff_images(&before, &dir_images(&self.dir)?) {
                    return Err(format!("a refused opening: {}", d));
                }
                self.c("wrong-open");
            }
            // closed
            1 => {
                self.close(false);
                let before = dir_images(&self.dir)?;
                {
                    let db = le(siamesedb::open_file(&self.dir), "open_file")?;
                    if !try_open(&db, other) {
                        return Err(format!("a map of {} was opened as {}", c.kt.name(), other.name()));
                    }
                    if o.arg(2) & 2 != 0 {
                        // and once more, after the refusal
                        if !try_open(&db, other) {
                            return Err(format!("a map of {} was opened as {} at the second try", c.kt.name(), other.name()));
                        }
                    }
                }
                if let Some(d) = diff_images(&before, &dir_images(&self.dir)?) {
                    return Err(format!("a refused opening: {}", d));
                }
                self.open()?;
                self.c("wrong-closed");
            }
            // a foreign file in place of one of the four
            v => {
                self.close(false);
                let e = ["key", "val", "idx", "htx"][o.arg(3) as usize % 4];
                let p = self.dir.join(format!("{}.{}", c.name, e));
                let saved = Image::of(&p)?;
                let mut rng = Rng::new(o.arg(4) as u64);
                if v == 2 {
                    // signature bytes changed
                    let mut img = saved.clone();
                    let pos = rng.below(16) as usize;
                    if img.pages.is_empty() || img.pages[0].0 != 0 {
                        return Err("HARNESS: no first page".into());
                    }
                    let x = 1 + rng.below(255) as u8;
                    if rng.pct(30) {
                        // the signature of another key type, or of another of the files
                        if rng.pct(50) {
                            img.pages[0].1[8..16].copy_from_slice(other.sig());
                        } else {
                            img.pages[0].1[6] = *b"KVTH".iter().find(|&&b| b != saved.pages[0].1[6]).unwrap();
                        }
                    } else {
                        img.pages[0].1[pos] ^= x;
                    }
                    img.write(&p)?;
                } else {
                    // arbitrary contents of any length from 1
                    let len = match rng.below(4) {
                        0 => 1 + rng.below(16),
                        1 => 17 + rng.below(200),
                        2 => 1 + rng.below(5000),
                        _ => 100_000 + rng.below(200_000),
                    } as usize;
                    let mut data: Vec<u8> = (0..len).map(|_| rng.u64() as u8).collect();
                    if rng.pct(20) {
                        data.iter_mut().for_each(|b| *b = 0);
                    }
                    if data.starts_with(b"siamdb") {
                        data[0] = 0;
                    }
                    hx(std::fs::write(&p, &data))?;
                }
                let before = dir_images(&self.dir)?;
                {
                    let db = le(siamesedb::open_file(&self.dir), "open_file")?;
                    if !try_open(&db, c.kt) {
                        return Err(format!("a foreign {} file was opened", e));
                    }
                }
                if let Some(d) = diff_images(&before, &dir_images(&self.dir)?) {
                    return Err(format!("a refused opening of a foreign {} file: {}", e, d));
                }
                saved.write(&p)?;
                self.open()?;
                self.c("wrong-foreign");
            }
        }
        self.sweep(m)
    }

    fn gap(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        self.close(false);
        let name = self.case.maps[m].name.clone();
        for (i, e) in ["key", "val", "idx"].iter().enumerate() {
            if o.arg(0) & (1 << i) == 0 {
                continue;
            }
            let p = self.dir.join(format!("{}.{}", name, e));
            let f = hx(std::fs::OpenOptions::new().write(true).open(&p))?;
            let len = hx(f.metadata())?.len();
            let target = ((o.arg(1) as u64) << 20).wrapping_add(16 * o.arg(2) as u64).wrapping_sub(16 * o.arg(3) as u64);
            if target > len {
                hx(f.set_len(target))?;
                self.gaps[m].r[i].push((len, target));
                self.c("gap");
            }
        }
        self.open()
    }

    fn image(&mut self, o: &Op) -> R<()> {
        let m = o.m as usize;
        self.close(false);
        let c = self.case.maps[m].clone();
        for e in ["key", "val", "idx", "htx"] {
            let _ = std::fs::remove_file(self.dir.join(format!("{}.{}", c.name, e)));
        }
        self.gaps[m] = Gaps::default();
        let model = crate::encode::write_image(&self.dir, &c.name, c.kt, o.arg(0) as u64, o.arg(1), o.arg(2))?;
        for k in model.keys() {
            self.touched[m].insert(k.clone());
        }
        self.model[m] = model;
        // the encoder and the decoder agree
        self.fsck(m, M_ALL).map_err(|e| format!("HARNESS: encoder: {}", e))?;
        self.c("image");
        self.open()
    }

    /// the self-checks on an index that may be malformed in a known way
    fn bad(&mut self, o: &Op) -> R<()> {
        let c = self.case.maps[o.m as usize].clone();
        let dir = self.copy_dir();
        hx(std::fs::create_dir_all(&dir))?;
        crate::encode::write_image(&dir, &c.name, c.kt, o.arg(0) as u64, o.arg(1), o.arg(2))?;
        let d = fsck::read_map(&dir, &c.name, c.kt, fsck::M_DUP, &Gaps::default())
            .map_err(|e| format!("HARNESS: encoder: {}", e))?;
        {
            let db = le(siamesedb::open_file(&dir), "open_file")?;
            let h = le(open_file_map(&db, c.kt, &c.name, None), "opening a map")?;
            let k = h.check();
            for (what, got, want) in [
                ("is_balanced", le(k.is_balanced(), "is_balanced")?, &d.unbalanced),
                ("is_mst_valid", le(k.is_mst_valid(), "is_mst_valid")?, &d.unordered),
                ("is_dense", le(k.is_dense(), "is_dense")?, &d.undense),
            ] {
                if got != want.is_none() {
                    return Err(match want {
                        None => format!("{} is false on a valid index", what),
                        Some(w) => format!("{} is true, but: {}", what, w),
                    });
                }
                if want.is_some() {
                    self.c("bad-tree");
                }
            }
        }
        self.c("bad");
        hx(std::fs::remove_dir_all(&dir))
    }

    pub fn run(&mut self) -> R<()> {
        let case = self.case;
        if case.prop == "C17" {
            return self.run_memory();
        }
        for (i, o) in case.ops.iter().enumerate() {
            self.op(o).map_err(|e| self.at("op", i, o, e))?;
        }
        if case.reps > 0 && !case.cyc.is_empty() {
            self.cycles()?;
        }
        self.close(false);
        Ok(())
    }
    /// only memory errors count: answers, errors and panics are left to the other properties
    fn run_memory(&mut self) -> R<()> {
        use std::panic::{catch_unwind, AssertUnwindSafe};
        let case = self.case;
        for o in case.ops.iter() {
            match catch_unwind(AssertUnwindSafe(|| self.op(o))) {
                Ok(Ok(())) => {}
                Ok(Err(e)) if e.starts_with("HARNESS") => return Err(e),
                Ok(Err(_)) => self.c("ignored-error"),
                Err(_) => self.c("ignored-panic"),
            }
            if self.db.is_none() {
                // a failed reopening
                if catch_unwind(AssertUnwindSafe(|| self.open())).map_or(true, |r| r.is_err()) {
                    break;
                }
            }
        }
        if catch_unwind(AssertUnwindSafe(|| self.close(false))).is_err() {
            self.c("ignored-panic");
        }
        Ok(())
    }
    fn at(&self, what: &str, i: usize, o: &Op, e: String) -> String {
        if e.starts_with("HARNESS") {
            return e;
        }
        format!("{} [{} {} ({})]", e, what, i, o.kind.name())
    }

    /// space stays bounded under repeated updates
    fn cycles(&mut self) -> R<()> {
        let case = self.case;
        let nm = case.maps.len();
        let mut lens: Vec<Vec<[u64; 3]>> = vec![vec![]; nm];
        for rep in 0..case.reps {
            for (i, o) in case.cyc.iter().enumerate() {
                self.op(o).map_err(|e| self.at(&format!("cycle {} op", rep), i, o, e))?;
            }
            for m in 0..nm {
                self.ensure(m)?;
                le(self.hs[m][0].flush(), "flush")?;
                let mut l = [0u64; 3];
                for (i, e) in ["key", "val", "idx"].iter().enumerate() {
                    let p = self.dir.join(format!("{}.{}", case.maps[m].name, e));
                    l[i] = hx(std::fs::metadata(&p))?.len();
                }
                lens[m].push(l);
            }
        }
        // bulk operations work in an order of their own
        let slack = 1 + case.ops.iter().chain(&case.cyc).map(|o| o.keys.len()).max().unwrap_or(0) as u64;
        for m in 0..nm {
            let c = &case.maps[m];
            let d = fsck::read_map(&self.dir, &c.name, c.kt, 0, &self.gaps[m])?;
            cmp_pairs("contents of the files", &d.pairs, &self.model[m])?;
            let name = ["key", "value", "index"];
            let n = lens[m].len();
            for f in 0..3usize {
                let large = f < 2 && self.peak.get(&(m, f as u8, 15)).copied().unwrap_or(0) > 0;
                if f < 2 && !large {
                    // pieces of fixed sizes: the third cycle needs what the second needed
                    for i in 4..n {
                        if lens[m][i][f] != lens[m][3][f] {
                            return Err(format!(
                                "the {} file has {} bytes after cycle 4 and {} bytes after cycle {} that did the same",
                                name[f], lens[m][3][f], lens[m][i][f], i + 1
                            ));
                        }
                    }
                }
                // the tree may take another shape in every cycle, but cannot grow in each
                let w = 12usize;
                if f == 2 && n > w + 4 && (n - w..n).all(|i| lens[m][i][f] > lens[m][i - 1][f]) {
                    return Err(format!(
                        "the {} file grows in every cycle: {} to {} bytes in the last {} of {}",
                        name[f], lens[m][n - w - 1][f], lens[m][n - 1][f], w, n
                    ));
                }
            }
            // per size: never more pieces than were live at once (and those in transit)
            let tot = |live: &BTreeMap<u32, u64>, free: &BTreeMap<u32, u64>| -> BTreeMap<u32, u64> {
                let mut t = live.clone();
                for (k, v) in free {
                    *t.entry(*k).or_insert(0) += v;
                }
                t
            };
            for (f, t) in [(0u8, tot(&d.key_sizes, &d.free_keys)), (1u8, tot(&d.val_sizes, &d.free_vals))] {
                for (&size, &n) in t.iter() {
                    // a piece is added only while no free one of its size (large: or more) is left
                    let peak = self.peak.get(&(m, f, fsck::list_of(size) as u8)).copied().unwrap_or(0) as u64;
                    if n > peak + slack {
                        return Err(format!(
                            "the {} file has {} pieces of {} bytes, at most {} of its list were ever in use at once",
                            name[f as usize], n, size, peak
                        ));
                    }
                }
            }
            // index nodes: any node is in one of the sizes, at most all of them in each size
            let half = fsck::SLOTS / 2;
            let nodes = (self.peak_n[m] / (half - 1).max(1) + 3) as u64;
            let bound: u64 = fsck::IDX_HEADER + fsck::NODE_SIZES.iter().map(|&s| s as u64 * nodes).sum::<u64>();
            if d.file_lens[2] > bound {
                return Err(format!("the index file has {} bytes, at most {} entries were in use at once", d.file_lens[2], self.peak_n[m]));
            }
            if n >= 2 && lens[m][n - 1] == lens[m][n - 2] {
                self.c("settled");
            }
            self.cn("cycles", n as u64);
        }
        Ok(())
    }
}

pub fn write_htx(p: &Path, kt: Kt, ht: u64, slots: &BTreeMap<u64, u64>) -> R<()> {
    let mut head = vec![];
    head.extend_from_slice(b"siamdbH\0");
    head.extend_from_slice(kt.sig());
    head.extend_from_slice(&ht.to_le_bytes());
    head.resize(128, 0);
    let w = || -> std::io::Result<()> {
        let mut f = std::fs::File::create(p)?;
        f.write_all(&head)?;
        f.set_len(128 + 8 * ht)?;
        use std::os::unix::fs::FileExt;
        for (i, o) in slots {
            f.write_all_at(&o.to_le_bytes(), 128 + 8 * i)?;
        }
        Ok(())
    };
    hx(w())
}

/// a hash table of the chosen size, before the map exists
fn pre_htx(dir: &Path, m: &MapCfg) -> R<()> {
    if m.ht > 0 && !cfg!(feature = "nohtx") {
        write_htx(&dir.join(format!("{}.htx", m.name)), m.kt, m.ht, &BTreeMap::new())?;
    }
    Ok(())
}
