//! Independent decoder of the on-disk format, written from the documented layout.
//! (64-bit offsets: `vf_u64u64`, `vf_node_u64`.)  It shares no code with the library.
use crate::case::{Kt, CLASSES};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::FileExt;
use std::path::Path;

pub const KV_HEADER: u64 = 192;
pub const IDX_HEADER: u64 = 128;
pub const HTX_HEADER: u64 = 128;

#[cfg(not(feature = "small"))]
pub const SLOTS: usize = 64;
#[cfg(feature = "small")]
pub const SLOTS: usize = 6;
#[cfg(not(feature = "small"))]
pub const NODE_SIZES: [u32; 8] = [256, 512, 1024, 2048, 4096, 4352, 4608, 4864];
#[cfg(feature = "small")]
pub const NODE_SIZES: [u32; 8] = [16, 32, 64, 96, 128, 160, 192, 224];

/// a file, read in whole when it is small
pub struct View {
    f: Option<std::fs::File>,
    data: Vec<u8>,
    pub len: u64,
}

impl View {
    pub fn open(p: &Path) -> Result<View, String> {
        let f = std::fs::File::open(p).map_err(|e| format!("fsck: cannot open {:?}: {}", p.file_name().unwrap_or_default(), e))?;
        let len = f.metadata().map_err(|e| format!("HARNESS: metadata {}", e))?.len();
        if len <= 48 << 20 {
            let mut data = vec![0u8; len as usize];
            f.read_exact_at(&mut data, 0)
                .map_err(|e| format!("HARNESS: read {}", e))?;
            Ok(View { f: None, data, len })
        } else {
            Ok(View {
                f: Some(f),
                data: vec![],
                len,
            })
        }
    }
    pub fn bytes(&self, off: u64, n: usize) -> Result<Vec<u8>, String> {
        if off.checked_add(n as u64).map_or(true, |e| e > self.len) {
            return Err(format!("read {}+{} beyond the file length {}", off, n, self.len));
        }
        match &self.f {
            None => Ok(self.data[off as usize..off as usize + n].to_vec()),
            Some(f) => {
                let mut v = vec![0u8; n];
                f.read_exact_at(&mut v, off)
                    .map_err(|e| format!("HARNESS: read {}", e))?;
                Ok(v)
            }
        }
    }
    pub fn u64(&self, off: u64) -> Result<u64, String> {
        if self.f.is_none() && off + 8 <= self.len {
            let o = off as usize;
            return Ok(u64::from_le_bytes(self.data[o..o + 8].try_into().unwrap()));
        }
        Ok(u64::from_le_bytes(self.bytes(off, 8)?.try_into().unwrap()))
    }
    pub fn u32(&self, off: u64) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.bytes(off, 4)?.try_into().unwrap()))
    }
    pub fn u16(&self, off: u64) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.bytes(off, 2)?.try_into().unwrap()))
    }
}

pub fn is_class(size: u32) -> bool {
    CLASSES.contains(&size) || (size > 896 && size % 128 == 0)
}
/// the piece size for the needed bytes
pub fn class_of(need: u32) -> u32 {
    for c in CLASSES {
        if need <= c {
            return c;
        }
    }
    (need + 128) / 128 * 128
}
/// index of the free list
pub fn list_of(size: u32) -> usize {
    CLASSES.iter().position(|&c| c == size).unwrap_or(15)
}

#[derive(Default, Debug, Clone)]
pub struct Dump {
    pub pairs: BTreeMap<Vec<u8>, Vec<u8>>,
    /// key piece offset -> key
    pub key_at: BTreeMap<u64, Vec<u8>>,
    pub depth: u64,
    /// keys in node -> nodes
    pub keys_count: BTreeMap<u64, u64>,
    pub key_sizes: BTreeMap<u32, u64>,
    pub val_sizes: BTreeMap<u32, u64>,
    pub key_lens: BTreeMap<u64, u64>,
    pub val_lens: BTreeMap<u64, u64>,
    pub node_sizes: BTreeMap<u32, u64>,
    pub free_keys: BTreeMap<u32, u64>,
    pub free_vals: BTreeMap<u32, u64>,
    pub free_nodes: BTreeMap<u32, u64>,
    /// per list index of the header
    pub free_key_lists: [u64; 16],
    pub free_val_lists: [u64; 16],
    pub file_lens: [u64; 3],
    pub ht_size: u64,
    pub ht_filled: u64,
    /// what is wrong with the tree, if anything
    pub unordered: Option<String>,
    pub undense: Option<String>,
    pub unbalanced: Option<String>,
}

#[derive(Default, Clone)]
pub struct Gaps {
    /// per file (key, val, idx): regions that belong to nobody
    pub r: [Vec<(u64, u64)>; 3],
}

pub const M_TILE: u32 = 1;
pub const M_TREE: u32 = 2;
pub const M_HTX: u32 = 4;
pub const M_ALL: u32 = 7 | M_RESERVED;
/// reserved parts of the headers are zero
pub const M_RESERVED: u32 = 16;
/// a key stored twice is no error
pub const M_DUP: u32 = 8;

struct Rd<'a> {
    key: &'a View,
    val: &'a View,
    idx: &'a View,
    mask: u32,
    d: Dump,
    live: [BTreeMap<u64, u64>; 3],
    leaf_depth: Option<u64>,
    last: Option<Vec<u8>>,
}

fn bump<T: Ord>(m: &mut BTreeMap<T, u64>, k: T) {
    *m.entry(k).or_insert(0) += 1;
}

impl Rd<'_> {
    fn claim(&mut self, file: usize, off: u64, size: u64, what: &str) -> Result<(), String> {
        if size == 0 {
            return Err(format!("{} at {} has size 0", what, off));
        }
        if self.live[file].insert(off, size).is_some() && self.mask & M_DUP == 0 {
            return Err(format!("{} at {} is referred to twice", what, off));
        }
        Ok(())
    }
    fn key_piece(&mut self, off: u64) -> Result<(), String> {
        let size = self.key.u32(off)?;
        let klen = self.key.u32(off + 4)?;
        if !is_class(size) {
            return Err(format!("key piece at {} has the size {}", off, size));
        }
        if klen as u64 + 16 > size as u64 {
            return Err(format!("key piece at {}: length {} in a piece of {}", off, klen, size));
        }
        self.claim(0, off, size as u64, "key piece")?;
        let key = self.key.bytes(off + 8, klen as usize)?;
        let voff = self.key.u64(off + 8 + klen as u64)?;
        let vsize = self.val.u32(voff)?;
        let vlen = self.val.u32(voff + 4)?;
        if voff < KV_HEADER || !is_class(vsize) {
            return Err(format!("value piece at {} has the size {}", voff, vsize));
        }
        if vlen as u64 + 8 > vsize as u64 {
            return Err(format!("value piece at {}: length {} in a piece of {}", voff, vlen, vsize));
        }
        self.claim(1, voff, vsize as u64, "value piece")?;
        let val = self.val.bytes(voff + 8, vlen as usize)?;
        bump(&mut self.d.key_sizes, size);
        bump(&mut self.d.val_sizes, vsize);
        bump(&mut self.d.key_lens, klen as u64);
        bump(&mut self.d.val_lens, vlen as u64);
        if let Some(l) = &self.last {
            if l >= &key {
                self.d.unordered = Some(format!("index not ordered at key piece {}", off));
            }
        }
        self.last = Some(key.clone());
        self.d.key_at.insert(off, key.clone());
        if self.d.pairs.insert(key, val).is_some() && self.mask & M_DUP == 0 {
            return Err(format!("a key is stored twice, key piece {}", off));
        }
        Ok(())
    }
    fn node(&mut self, off: u64, level: u64) -> Result<(), String> {
        if level > 64 {
            return Err("index too deep".into());
        }
        if off % 16 != 0 || off < IDX_HEADER {
            return Err(format!("node offset {}", off));
        }
        let size = self.idx.u16(off)? as u32;
        let leaf = self.idx.u16(off + 2)?;
        let n = self.idx.u16(off + 4)? as u64;
        if leaf > 1 {
            return Err(format!("node at {}: status {}", off, leaf));
        }
        if !NODE_SIZES.contains(&size) {
            return Err(format!("node at {} has the size {}", off, size));
        }
        self.claim(2, off, size as u64, "node")?;
        let need = 6 + 8 * n + if leaf == 0 { 8 * (n + 1) } else { 0 };
        if need > size as u64 {
            return Err(format!("node at {}: {} keys in {} bytes", off, n, size));
        }
        bump(&mut self.d.keys_count, n);
        bump(&mut self.d.node_sizes, size);
        let kids = n as usize + 1;
        if kids > SLOTS {
            self.d.undense = Some(format!("node at {} has {} keys, at most {}", off, n, SLOTS - 1));
        }
        if level > 0 && kids < SLOTS / 2 {
            self.d.undense = Some(format!("node at {} has {} keys, at least {}", off, n, SLOTS / 2 - 1));
        }
        if n == 0 && leaf == 0 {
            self.d.undense = Some(format!("node at {} has no key but a child", off));
        }
        if leaf == 1 {
            match self.leaf_depth {
                None => self.leaf_depth = Some(level),
                Some(l) if l != level => {
                    self.d.unbalanced = Some(format!("leaves at the levels {} and {}", l, level));
                }
                _ => {}
            }
            self.d.depth = self.d.depth.max(level + 1);
        }
        for i in 0..=n {
            if leaf == 0 {
                let down = self.idx.u64(off + 6 + 8 * n + 8 * i)?;
                if down == 0 {
                    return Err(format!("node at {}: child {} is missing", off, i));
                }
                self.node(down, level + 1)?;
            }
            if i < n {
                let k = self.idx.u64(off + 6 + 8 * i)?;
                if k < KV_HEADER {
                    return Err(format!("node at {}: key offset {}", off, k));
                }
                self.key_piece(k)?;
            }
        }
        Ok(())
    }
}

fn free_list(
    v: &View,
    head_off: u64,
    what: &str,
    ok: &dyn Fn(u32) -> bool,
    out: &mut Vec<(u64, u32)>,
    seen: &mut BTreeSet<u64>,
) -> Result<u64, String> {
    let mut p = v.u64(head_off)?;
    let mut cnt = 0;
    while p != 0 {
        let size = v.u32(p)?;
        let z = v.u32(p + 4)?;
        if !ok(size) {
            return Err(format!("free {} at {} of size {} on the list at {}", what, p, size, head_off));
        }
        if z != 0 {
            return Err(format!("free {} at {} has length {}", what, p, z));
        }
        if !seen.insert(p) {
            return Err(format!("free {} at {} is on free lists twice", what, p));
        }
        out.push((p, size));
        cnt += 1;
        p = v.u64(p + 8)?;
    }
    Ok(cnt)
}

fn tile(
    what: &str,
    header: u64,
    len: u64,
    live: &BTreeMap<u64, u64>,
    free: &[(u64, u32)],
    gaps: &[(u64, u64)],
) -> Result<(), String> {
    let mut all: Vec<(u64, u64, &str)> = live.iter().map(|(&o, &s)| (o, s, "live")).collect();
    all.extend(free.iter().map(|&(o, s)| (o, s as u64, "free")));
    all.extend(gaps.iter().map(|&(a, b)| (a, b - a, "gap")));
    all.sort();
    let mut pos = header;
    for (o, s, k) in all {
        if o < pos {
            return Err(format!("{} file: {} piece at {}+{} overlaps what ends at {}", what, k, o, s, pos));
        }
        if o > pos {
            return Err(format!("{} file: bytes {}..{} belong to no piece", what, pos, o));
        }
        pos = o + s;
    }
    if pos != len {
        return Err(format!("{} file: pieces end at {}, the file at {}", what, pos, len));
    }
    Ok(())
}

/// hash of a key, as documented by the default hasher (length, then 8-byte chunks)
pub fn key_hash(key: &[u8]) -> u64 {
    use crate::case::hash_step as xs;
    let mut h = xs(key.len() as u64);
    for c in key.chunks(8) {
        let a = if c.len() == 8 {
            u64::from_le_bytes(c.try_into().unwrap())
        } else {
            c.iter().fold(0u64, |a, &b| (a << 8) | b as u64)
        };
        h = xs(h.wrapping_add(a));
    }
    h
}

pub fn check_header(v: &View, sig1: &[u8; 8], kt: Kt, what: &str, min: u64) -> Result<(), String> {
    if v.len < min {
        return Err(format!("{} file has {} bytes", what, v.len));
    }
    if v.bytes(0, 8)? != sig1 || v.bytes(8, 8)? != kt.sig() {
        return Err(format!("{} file: signatures", what));
    }
    Ok(())
}

/// non-zero slots of the hash table (index, offset), skipping holes of the file
pub fn htx_slots(p: &Path) -> Result<(u64, Vec<(u64, u64)>), String> {
    let f = std::fs::File::open(p).map_err(|e| format!("fsck: cannot open htx: {}", e))?;
    let len = f.metadata().map_err(|e| format!("HARNESS: {}", e))?.len();
    let mut out = vec![];
    let mut ht = 0;
    for (a, data) in crate::util::extents(&f, len)? {
        // extents are page aligned
        for (i, c) in data.chunks_exact(8).enumerate() {
            let off = a + 8 * i as u64;
            let w = u64::from_le_bytes(c.try_into().unwrap());
            if off == 16 {
                ht = w;
            }
            if off >= HTX_HEADER && w != 0 {
                out.push(((off - HTX_HEADER) / 8, w));
            }
        }
    }
    Ok((ht, out))
}

pub fn read_map(dir: &Path, name: &str, kt: Kt, mask: u32, gaps: &Gaps) -> Result<Dump, String> {
    let r = read_map_(dir, name, kt, mask, gaps);
    r.map_err(|e| {
        if e.starts_with("HARNESS") {
            e
        } else {
            format!("fsck of map {}: {}", name, e)
        }
    })
}

fn read_map_(dir: &Path, name: &str, kt: Kt, mask: u32, gaps: &Gaps) -> Result<Dump, String> {
    let p = |e: &str| dir.join(format!("{}.{}", name, e));
    let key = View::open(&p("key"))?;
    let val = View::open(&p("val"))?;
    let idx = View::open(&p("idx"))?;
    check_header(&key, b"siamdbK\0", kt, "key", KV_HEADER)?;
    check_header(&val, b"siamdbV\0", kt, "val", KV_HEADER)?;
    check_header(&idx, b"siamdbT\0", kt, "idx", IDX_HEADER + 16)?;
    if mask & M_RESERVED != 0 {
        for (v, what, a, b) in [(&key, "key", 16, 32), (&key, "key", 160, 192), (&val, "val", 16, 32), (&val, "val", 160, 192), (&idx, "idx", 88, 128)] {
            if v.bytes(a, (b - a) as usize)?.iter().any(|&x| x != 0) {
                return Err(format!("{} file: the reserved bytes {}..{} are not zero", what, a, b));
            }
        }
    }
    let mut rd = Rd {
        key: &key,
        val: &val,
        idx: &idx,
        mask,
        d: Dump::default(),
        live: Default::default(),
        leaf_depth: None,
        last: None,
    };
    let top = idx.u64(16)?;
    rd.node(top, 0)?;
    let live = std::mem::take(&mut rd.live);
    let mut d = rd.d;
    if mask & M_TREE != 0 {
        for x in [&d.unordered, &d.undense, &d.unbalanced].into_iter().flatten() {
            return Err(x.clone());
        }
    }
    d.file_lens = [key.len, val.len, idx.len];
    // free lists
    let mut fk = vec![];
    let mut fv = vec![];
    let mut fi = vec![];
    let (mut sk, mut sv, mut si) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for i in 0..16usize {
        let ok = move |s: u32| -> bool {
            if i < 15 {
                s == CLASSES[i]
            } else {
                s > 896 && s % 128 == 0
            }
        };
        d.free_key_lists[i] = free_list(&key, 32 + 8 * i as u64, "key piece", &ok, &mut fk, &mut sk)?;
        d.free_val_lists[i] = free_list(&val, 32 + 8 * i as u64, "value piece", &ok, &mut fv, &mut sv)?;
    }
    for i in 0..8usize {
        let ok = move |s: u32| s == NODE_SIZES[i];
        free_list(&idx, 24 + 8 * i as u64, "node", &ok, &mut fi, &mut si)?;
    }
    for &(_, s) in &fk {
        bump(&mut d.free_keys, s);
    }
    for &(_, s) in &fv {
        bump(&mut d.free_vals, s);
    }
    for &(_, s) in &fi {
        bump(&mut d.free_nodes, s);
    }
    if mask & M_TILE != 0 {
        tile("key", KV_HEADER, key.len, &live[0], &fk, &gaps.r[0])?;
        tile("val", KV_HEADER, val.len, &live[1], &fv, &gaps.r[1])?;
        tile("idx", IDX_HEADER, idx.len, &live[2], &fi, &gaps.r[2])?;
    }
    if cfg!(feature = "nohtx") {
        return Ok(d);
    }
    // hash table
    let hp = p("htx");
    let (ht, slots) = htx_slots(&hp)?;
    d.ht_size = ht;
    d.ht_filled = slots.len() as u64;
    if mask & M_HTX != 0 {
        let hv = View::open(&hp)?;
        check_header(&hv, b"siamdbH\0", kt, "htx", HTX_HEADER)?;
        if mask & M_RESERVED != 0 && hv.bytes(32, 96)?.iter().any(|&x| x != 0) {
            return Err("htx file: the reserved bytes 32..128 are not zero".into());
        }
        if ht == 0 || HTX_HEADER + 8 * ht != hv.len {
            return Err(format!("htx file: {} slots in {} bytes", ht, hv.len));
        }
        for (i, off) in slots {
            match d.key_at.get(&off) {
                None => {
                    return Err(format!("hash table slot {} refers to {}, which is no live key", i, off));
                }
                Some(k) => {
                    if key_hash(k) % ht != i {
                        return Err(format!("hash table slot {} refers to a key that belongs to slot {}", i, key_hash(k) % ht));
                    }
                }
            }
        }
    }
    Ok(d)
}
