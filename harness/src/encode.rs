//! Independent encoder: well-formed files of a random shape, built from the documented layout alone.
use crate::case::*;
use crate::exec::{hx, write_htx, Model, R};
use crate::fsck::{class_of, key_hash, list_of, IDX_HEADER, KV_HEADER, NODE_SIZES, SLOTS};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::path::Path;

/// bits of `mode`
pub const F_BIG: u32 = 1; // pieces larger than needed
pub const F_FREE: u32 = 2; // free pieces
pub const F_HTX: u32 = 4; // hash table filled in part (else empty)
pub const F_LARGE: u32 = 8; // large keys and values too
pub const F_FULL: u32 = 16; // nodes as full as can be
pub const F_MIN: u32 = 32; // nodes as empty as can be
pub const F_MIX: u32 = 64; // all styles of keys
// defects, for the self-checks
pub const B_UNBAL: u32 = 256;
pub const B_UNDENSE: u32 = 512;
pub const B_SWAP: u32 = 1024;
pub const B_DUP: u32 = 2048;
pub const B_SEP: u32 = 4096; // the entries swapped or repeated are a key of an inner node and a neighbour

struct Node {
    keys: Vec<usize>,
    kids: Vec<Node>,
}

fn min_keys(d: u32) -> u64 {
    let h = (SLOTS / 2) as u64;
    let mut m = 0u64;
    for _ in 0..d {
        m = m.saturating_mul(h).saturating_add(h - 1);
    }
    m
}
fn max_keys(d: u32) -> u64 {
    let s = SLOTS as u64;
    let mut m = 0u64;
    for _ in 0..d {
        m = m.saturating_mul(s).saturating_add(s - 1);
    }
    m
}

/// a tree of depth d over the keys lo..lo+n
fn build(rng: &mut Rng, lo: usize, n: u64, d: u32, root: bool, mode: u32) -> Node {
    if d == 1 {
        return Node {
            keys: (lo..lo + n as usize).collect(),
            kids: vec![],
        };
    }
    let (mn, mx) = (min_keys(d - 1), max_keys(d - 1));
    let low = if root { 2 } else { (SLOTS / 2) as u64 };
    let cs: Vec<u64> = (low..=SLOTS as u64)
        .filter(|&c| c * mn + c - 1 <= n && n <= c.saturating_mul(mx).saturating_add(c - 1))
        .collect();
    let c = if mode & F_FULL != 0 {
        cs[0]
    } else if mode & F_MIN != 0 {
        cs[cs.len() - 1]
    } else {
        *rng.pick(&cs)
    };
    let mut rest = n - (c - 1);
    let mut node = Node {
        keys: vec![],
        kids: vec![],
    };
    let mut pos = lo;
    for i in 0..c {
        let left = c - 1 - i;
        let a = mn.max(rest.saturating_sub(left.saturating_mul(mx)));
        let b = mx.min(rest - left * mn);
        let k = if left == 0 {
            rest
        } else if mode & F_FULL != 0 && rng.pct(80) {
            b
        } else if mode & F_MIN != 0 && rng.pct(80) {
            a
        } else if rng.pct(50) {
            // near the average
            let avg = rest / (left + 1);
            avg.clamp(a, b)
        } else {
            rng.range(a, b)
        };
        node.kids.push(build(rng, pos, k, d - 1, false, mode));
        pos += k as usize;
        rest -= k;
        if left > 0 {
            node.keys.push(pos);
            pos += 1;
        }
    }
    node
}

fn nodes_mut<'a>(n: &'a mut Node, root: bool, out: &mut Vec<(*mut Node, bool)>) {
    out.push((n as *mut Node, root));
    for k in n.kids.iter_mut() {
        nodes_mut(k, false, out);
    }
}

/// pieces laid out in a file at random, with free ones in between
struct Layout {
    size: u64,
    free: Vec<(u64, u32)>,
}
fn layout(rng: &mut Rng, header: u64, sizes: &[u32], free: &[u32]) -> (Vec<u64>, Layout) {
    let mut order: Vec<(usize, u32)> = sizes.iter().copied().enumerate().collect();
    order.extend(free.iter().map(|&s| (usize::MAX, s)));
    for i in (1..order.len()).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    let mut offs = vec![0; sizes.len()];
    let mut l = Layout {
        size: header,
        free: vec![],
    };
    for (i, s) in order {
        if i == usize::MAX {
            l.free.push((l.size, s));
        } else {
            offs[i] = l.size;
        }
        l.size += s as u64;
    }
    // in any order on the lists
    for i in (1..l.free.len()).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        l.free.swap(i, j);
    }
    (offs, l)
}
fn put(buf: &mut [u8], off: u64, b: &[u8]) {
    buf[off as usize..off as usize + b.len()].copy_from_slice(b);
}
fn write_free(buf: &mut [u8], free: &[(u64, u32)], head: &dyn Fn(u32) -> u64) {
    for &(off, size) in free {
        let h = head(size);
        let next: [u8; 8] = buf[h as usize..h as usize + 8].try_into().unwrap();
        put(buf, off, &size.to_le_bytes());
        put(buf, off + 4, &0u32.to_le_bytes());
        put(buf, off + 8, &next);
        put(buf, h, &off.to_le_bytes());
    }
}

fn piece_size(rng: &mut Rng, need: u32, big: bool) -> u32 {
    let c = class_of(need);
    if !big || rng.pct(60) {
        return c;
    }
    if c > 896 {
        return c + 128 * rng.below(12) as u32;
    }
    let i = list_of(c);
    let j = i + rng.below(4) as usize;
    if j < CLASSES.len() {
        CLASSES[j]
    } else {
        1024 + 128 * rng.below(6) as u32
    }
}

fn free_sizes(rng: &mut Rng, n: u64) -> Vec<u32> {
    (0..rng.below(n))
        .map(|_| {
            if rng.pct(75) {
                *rng.pick(&CLASSES)
            } else {
                1024 + 128 * rng.below(30) as u32
            }
        })
        .collect()
}

pub fn write_image(dir: &Path, name: &str, kt: Kt, seed: u64, nkeys: u32, mode: u32) -> R<Model> {
    let mut rng = Rng::new(seed ^ 0xE4C0DE);
    let rng = &mut rng;
    let mut model = Model::new();
    let styles: &[u8] = if mode & F_LARGE != 0 {
        &[0, 1, 2, 3, 4, 5, 6]
    } else if mode & F_MIX != 0 {
        &[0, 1, 2, 3, 4, 6]
    } else {
        &[0, 3]
    };
    let style0 = *rng.pick(styles);
    let mut tries = 0;
    while model.len() < nkeys as usize && tries < 10 * nkeys + 10 {
        tries += 1;
        let st = if mode & F_MIX != 0 { *rng.pick(styles) } else { style0 };
        let k = key_bytes(kt, K(st, rng.below(nkeys as u64 * 3 + 10) as u32));
        let len = match rng.below(10) {
            0 => 0,
            1..=5 => rng.below(40),
            6 | 7 => (*rng.pick(&CLASSES) as u64 + rng.below(3)).saturating_sub(9),
            _ => {
                if mode & F_LARGE != 0 {
                    rng.below(6000)
                } else {
                    rng.below(400)
                }
            }
        };
        model.insert(k, val_bytes(V(len as u32, rng.below(1 << 20) as u32)));
    }
    let mut keys: Vec<Vec<u8>> = model.keys().cloned().collect();
    if mode & B_DUP != 0 && mode & B_SEP == 0 && keys.len() >= 2 {
        let a = rng.below(keys.len() as u64 - 1) as usize;
        keys[a + 1] = keys[a].clone();
    }
    let vals: Vec<Vec<u8>> = model.values().cloned().collect();
    let n = keys.len() as u64;

    // value file
    let big = mode & F_BIG != 0;
    let with_free = mode & F_FREE != 0;
    let vs: Vec<u32> = vals.iter().map(|v| piece_size(rng, v.len() as u32 + 8, big)).collect();
    let vfree = if with_free { free_sizes(rng, 30) } else { vec![] };
    let (voff, vl) = layout(rng, KV_HEADER, &vs, &vfree);
    let mut vb = vec![0u8; vl.size as usize];
    put(&mut vb, 0, b"siamdbV\0");
    put(&mut vb, 8, kt.sig());
    for i in 0..vals.len() {
        put(&mut vb, voff[i], &vs[i].to_le_bytes());
        put(&mut vb, voff[i] + 4, &(vals[i].len() as u32).to_le_bytes());
        put(&mut vb, voff[i] + 8, &vals[i]);
    }
    let kv_head = |s: u32| 32 + 8 * list_of(s) as u64;
    write_free(&mut vb, &vl.free, &kv_head);

    // key file
    let ks: Vec<u32> = keys.iter().map(|k| piece_size(rng, k.len() as u32 + 16, big)).collect();
    let kfree = if with_free { free_sizes(rng, 30) } else { vec![] };
    let (koff, kl) = layout(rng, KV_HEADER, &ks, &kfree);
    let mut kb = vec![0u8; kl.size as usize];
    put(&mut kb, 0, b"siamdbK\0");
    put(&mut kb, 8, kt.sig());
    for i in 0..keys.len() {
        put(&mut kb, koff[i], &ks[i].to_le_bytes());
        put(&mut kb, koff[i] + 4, &(keys[i].len() as u32).to_le_bytes());
        put(&mut kb, koff[i] + 8, &keys[i]);
        put(&mut kb, koff[i] + 8 + keys[i].len() as u64, &voff[i].to_le_bytes());
    }
    write_free(&mut kb, &kl.free, &kv_head);

    // index
    let ds: Vec<u32> = (1..=12u32)
        .filter(|&d| {
            let lo = if d == 1 { 0 } else { 2 * min_keys(d - 1) + 1 };
            lo <= n && n <= max_keys(d)
        })
        .collect();
    let d = *rng.pick(&ds);
    let mut tree = build(rng, 0, n, d, true, mode);
    let mut order: Vec<usize> = (0..keys.len()).collect();
    if mode & B_SEP != 0 {
        let mut all = vec![];
        nodes_mut(&mut tree, true, &mut all);
        let inner: Vec<*mut Node> = all.iter().map(|x| x.0).filter(|p| !unsafe { &**p }.kids.is_empty()).collect();
        if !inner.is_empty() {
            let (x, y) = (rng.below(inner.len() as u64), rng.below(inner.len() as u64));
            let p = unsafe { &*inner[x.min(y) as usize] };
            let a = *rng.pick(&p.keys);
            // an inner key has a neighbour on both sides
            let b = if rng.pct(50) { a + 1 } else { a - 1 };
            if mode & B_DUP == 0 {
                order.swap(a, b);
            } else if rng.pct(50) {
                order[a] = b;
            } else {
                order[b] = a;
            }
        }
    } else if mode & B_SWAP != 0 && n >= 2 {
        let a = rng.below(n) as usize;
        let b = if rng.pct(50) { (a + 1) % n as usize } else { rng.below(n) as usize };
        order.swap(a, b);
    }
    if mode & (B_UNBAL | B_UNDENSE) != 0 {
        let mut all = vec![];
        nodes_mut(&mut tree, true, &mut all);
        if mode & B_UNDENSE != 0 {
            // leaves lose keys to below the minimum; the lost keys are dropped from the tree
            let leaves: Vec<*mut Node> = all
                .iter()
                .filter(|(p, root)| !*root && unsafe { &**p }.kids.is_empty())
                .map(|x| x.0)
                .collect();
            if !leaves.is_empty() {
                let p = unsafe { &mut **rng.pick(&leaves) };
                let keep = 1 + rng.below((SLOTS / 2 - 2) as u64) as usize;
                if rng.pct(50) {
                    p.keys.truncate(keep);
                } else {
                    let m = p.keys.len();
                    p.keys.drain(..m.saturating_sub(keep));
                }
            }
        }
        if mode & B_UNBAL != 0 {
            // a leaf is made one level deeper: as a node with the same middle key and two leaves
            let leaves: Vec<*mut Node> = all
                .iter()
                .filter(|(p, root)| !*root && unsafe { &**p }.kids.is_empty() && unsafe { &**p }.keys.len() >= 3)
                .map(|x| x.0)
                .collect();
            if !leaves.is_empty() {
                let p = unsafe { &mut **rng.pick(&leaves) };
                let m = p.keys.len() / 2;
                let right = p.keys.split_off(m + 1);
                let mid = p.keys.pop().unwrap();
                let left = std::mem::take(&mut p.keys);
                p.keys = vec![mid];
                p.kids = vec![
                    Node { keys: left, kids: vec![] },
                    Node { keys: right, kids: vec![] },
                ];
            }
        }
    }
    let mut flat: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    fn flatten(n: &Node, out: &mut Vec<(Vec<usize>, Vec<usize>)>) -> usize {
        let me = out.len();
        out.push((n.keys.clone(), vec![]));
        let kids: Vec<usize> = n.kids.iter().map(|k| flatten(k, out)).collect();
        out[me].1 = kids;
        me
    }
    flatten(&tree, &mut flat);
    let ns: Vec<u32> = flat
        .iter()
        .map(|(k, c)| {
            let need = 8 + 8 * k.len() as u32 + 8 * c.len() as u32;
            let i = NODE_SIZES.iter().position(|&s| s >= need).unwrap();
            let i = if big && rng.pct(30) {
                (i + rng.below(3) as usize).min(NODE_SIZES.len() - 1)
            } else {
                i
            };
            NODE_SIZES[i]
        })
        .collect();
    let nfree: Vec<u32> = if with_free {
        (0..rng.below(12)).map(|_| *rng.pick(&NODE_SIZES)).collect()
    } else {
        vec![]
    };
    let (noff, nl) = layout(rng, IDX_HEADER, &ns, &nfree);
    let mut ib = vec![0u8; nl.size as usize];
    put(&mut ib, 0, b"siamdbT\0");
    put(&mut ib, 8, kt.sig());
    put(&mut ib, 16, &noff[0].to_le_bytes());
    for (i, (k, c)) in flat.iter().enumerate() {
        let mut o = noff[i];
        put(&mut ib, o, &(ns[i] as u16).to_le_bytes());
        put(&mut ib, o + 2, &(c.is_empty() as u16).to_le_bytes());
        put(&mut ib, o + 4, &(k.len() as u16).to_le_bytes());
        o += 6;
        for &x in k {
            put(&mut ib, o, &koff[order[x]].to_le_bytes());
            o += 8;
        }
        for &x in c {
            put(&mut ib, o, &noff[x].to_le_bytes());
            o += 8;
        }
    }
    let n_head = |s: u32| 24 + 8 * NODE_SIZES.iter().position(|&x| x == s).unwrap() as u64;
    write_free(&mut ib, &nl.free, &n_head);

    // hash table
    let ht = match rng.below(4) {
        0 => 1 + rng.below(8),
        1 => 1 + rng.below(100),
        2 => 1 + rng.below(2000),
        _ => 16,
    };
    let mut slots = BTreeMap::new();
    if mode & F_HTX != 0 {
        let p = *rng.pick(&[30, 60, 100]);
        for i in 0..keys.len() {
            if rng.pct(p) {
                slots.insert(key_hash(&keys[i]) % ht, koff[i]);
            }
        }
    }
    write_htx(&dir.join(format!("{}.htx", name)), kt, ht, &slots)?;
    hx(std::fs::write(dir.join(format!("{}.val", name)), &vb))?;
    hx(std::fs::write(dir.join(format!("{}.key", name)), &kb))?;
    hx(std::fs::write(dir.join(format!("{}.idx", name)), &ib))?;
    Ok(model)
}
