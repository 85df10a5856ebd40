//! Key conversions.
use crate::exec::{show, R};
use crate::maps::KeyT;
use siamesedb::{DbBytes, DbInt, DbString, HashValue};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn std_hash<T: Hash>(a: &T) -> u64 {
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}

fn forms<KT: KeyT>(b: &[u8]) -> Vec<(&'static str, KT)> {
    let mut v: Vec<(&'static str, KT)> = vec![
        ("from_bytes", KT::from_bytes(b)),
        ("From<&[u8]>", KT::from(b)),
        ("From<Vec<u8>>", KT::from(b.to_vec())),
    ];
    if let Ok(s) = std::str::from_utf8(b) {
        v.push(("From<&str>", KT::from(s)));
        v.push(("From<String>", KT::from(s.to_string())));
        v.push(("From<&String>", KT::from(&s.to_string())));
    }
    if let Ok(a) = <[u8; 8]>::try_from(b) {
        v.push(("From<&[u8; 8]>", KT::from(&a)));
        let n = a.iter().fold(0u64, |x, &y| x.wrapping_mul(256).wrapping_add(y as u64));
        v.push(("From<u64>", KT::from(n)));
        v.push(("From<&u64>", KT::from(&n)));
    }
    let c = KT::from(&v[0].1);
    v.push(("From<&Self>", c));
    let c = v[0].1.clone();
    v.push(("clone", c));
    v
}

fn check_t<KT: KeyT + HashValue>(b: &[u8]) -> R<()> {
    let t = KT::KT.name();
    if &KT::signature() != KT::KT.sig() {
        return Err(format!("{}: signature is {:?}", t, KT::signature()));
    }
    let v = forms::<KT>(b);
    for (n, k) in &v {
        if k.as_bytes() != b || &k[..] != b {
            return Err(format!("{} key by {} of '{}' has the bytes '{}'", t, n, show(b), show(k.as_bytes())));
        }
        if *k != v[0].1 || v[0].1 != *k || k.cmp(&v[0].1) != std::cmp::Ordering::Equal {
            return Err(format!("{} key by {} of '{}' differs from the one by {}", t, n, show(b), v[0].0));
        }
        if k.cmp_u8(b) != std::cmp::Ordering::Equal {
            return Err(format!("{} key by {} of '{}': cmp_u8 with itself is not Equal", t, n, show(b)));
        }
        if k.hash_value() != v[0].1.hash_value() || std_hash(k) != std_hash(&v[0].1) {
            return Err(format!("{} key by {} of '{}' has another hash", t, n, show(b)));
        }
    }
    Ok(())
}

/// all conversions of these bytes, for all types
pub fn check(b: &[u8]) -> R<()> {
    check_t::<DbString>(b)?;
    check_t::<DbInt>(b)?;
    check_t::<DbBytes>(b)
}

fn pair_t<KT: KeyT + HashValue>(a: &[u8], b: &[u8]) -> R<()> {
    let t = KT::KT.name();
    let want = a.cmp(b);
    let (x, y) = (KT::from(a), KT::from(b));
    let ctx = || format!("{} keys '{}' and '{}'", t, show(a), show(b));
    if x.cmp(&y) != want || y.cmp(&x) != want.reverse() || x.partial_cmp(&y) != Some(want) {
        return Err(format!("{}: order is {:?}, expected {:?}", ctx(), x.cmp(&y), want));
    }
    if x.cmp_u8(b) != want || y.cmp_u8(a) != want.reverse() {
        return Err(format!("{}: cmp_u8 is {:?}, expected {:?}", ctx(), x.cmp_u8(b), want));
    }
    if (x == y) != (a == b) {
        return Err(format!("{}: equality", ctx()));
    }
    if a == b && x.hash_value() != y.hash_value() {
        return Err(format!("{}: hashes of equal keys", ctx()));
    }
    Ok(())
}

pub fn check_pair(a: &[u8], b: &[u8]) -> R<()> {
    pair_t::<DbString>(a, b)?;
    pair_t::<DbInt>(a, b)?;
    pair_t::<DbBytes>(a, b)?;
    if let (Ok(x), Ok(y)) = (<[u8; 8]>::try_from(a), <[u8; 8]>::try_from(b)) {
        let (x, y) = (u64::from_be_bytes(x), u64::from_be_bytes(y));
        let (p, q) = (DbInt::from(x), DbInt::from(y));
        if p.cmp(&q) != x.cmp(&y) {
            return Err(format!("integer keys {} and {}: order is {:?}", x, y, p.cmp(&q)));
        }
    }
    Ok(())
}
