//! Generators of cases, one profile per property.
use crate::case::*;
use crate::encode;
use crate::fsck::SLOTS;
use crate::rng::Rng;
use std::collections::BTreeSet;

struct Uni {
    /// style, first, span
    parts: Vec<(u8, u32, u32)>,
    live: BTreeSet<K>,
    /// profile of value lengths
    vmode: u64,
    /// key and length of the last value of the sort that differs in a bit only
    near: Option<(K, u32)>,
}

struct G {
    r: Rng,
    small: bool,
    maps: Vec<MapCfg>,
    uni: Vec<Uni>,
    ops: Vec<Op>,
    nh: Vec<usize>,
    /// tendency: percent of puts among put/delete
    grow: u64,
}

const VM: u64 = 9;

fn buf_random(r: &mut Rng) -> Buf {
    match r.below(9) {
        0 => Buf::Auto,
        1 => Buf::Size(0),
        2 => Buf::Size(*r.pick(&[1, 2, 100, 1023, 4095, 4096, 4097, 8191, 8192])),
        3 => Buf::Size(r.below(40_000) as u32),
        4 => Buf::Size(*r.pick(&[65_536, 131_072, 262_144, 1_048_576, 16 << 20, 0x3FFF_FFFF, 0x7FFF_FFFF, u32::MAX])),
        5 => Buf::Pm(*r.pick(&[0, 1, 2, 10, 50])),
        6 => Buf::Pm(r.below(1000) as u16),
        7 => Buf::Pm(*r.pick(&[999, 1000, 1001, 1500, 3000, 32767, 32768, 65535])),
        _ => Buf::Size(4096 * r.range(1, 12) as u32),
    }
}
fn bufs_random(r: &mut Rng) -> [Buf; 4] {
    let tiny = r.pct(30);
    let mut b = [Buf::Auto; 4];
    for x in b.iter_mut() {
        *x = if tiny { Buf::Size(r.below(5000) as u32) } else { buf_random(r) };
    }
    b
}

fn ht_random(r: &mut Rng, default_pct: u64) -> u64 {
    if r.pct(default_pct) {
        return 0;
    }
    match r.below(6) {
        0 => 1,
        1 => 1 + r.below(4),
        2 => 1 + r.below(17),
        3 => 1 + r.below(300),
        4 => *r.pick(&[16, 64, 509, 512, 513, 1024, 4096]),
        _ => 1 + r.below(5000),
    }
}

impl G {
    fn new(r: Rng, small: bool) -> G {
        G {
            r,
            small,
            maps: vec![],
            uni: vec![],
            ops: vec![],
            nh: vec![],
            grow: 60,
        }
    }
    fn map(&mut self, name: &str, kt: Kt, ht: u64, bufs: Option<[Buf; 4]>) {
        self.maps.push(MapCfg {
            name: name.to_string(),
            kt,
            ht,
            bufs,
        });
        let r = &mut self.r;
        let mut parts = vec![];
        match r.below(10) {
            // few keys, often the same
            0 | 1 => {
                let st = r.below(8).min(6) as u8;
                parts.push((st, r.below(50) as u32, 3 + r.below(20) as u32));
            }
            2..=4 => {
                let st = *r.pick(&[0u8, 1, 3, 0, 1]);
                parts.push((st, r.below(1000) as u32, 40 + r.below(400) as u32));
            }
            5 => {
                // lengths around the piece sizes
                parts.push((4, 0, 300));
                parts.push((2, r.below(400) as u32, 200));
            }
            6 => {
                parts.push((5, r.below(100) as u32, 20 + r.below(40) as u32));
                parts.push((0, 0, 100));
            }
            7 => {
                parts.push((7, 0, 8));
                parts.push((3, 0, 300));
                parts.push((0, 0, 60));
            }
            _ => {
                for st in [0u8, 1, 2, 3, 4, 6] {
                    if r.pct(60) {
                        parts.push((st, r.below(300) as u32, 10 + r.below(100) as u32));
                    }
                }
                parts.push((3, 0, 8));
            }
        }
        if r.pct(5) {
            // keys of equal hash values
            parts.push((8, 64 * r.below(5) as u32, 2 + r.below(60) as u32));
        }
        if r.pct(8) {
            // equally long keys that differ only at their end
            parts.push((9, 64 * r.below(12) as u32, 2 + r.below(120) as u32));
        }
        if r.pct(8) {
            // equally long keys that differ in single bits in the middle only
            parts.push((10, 256 * r.below(8) as u32, 2 + r.below(200) as u32));
        }
        let vmode = r.below(VM);
        self.uni.push(Uni {
            parts,
            live: BTreeSet::new(),
            vmode,
            near: None,
        });
        self.nh.push(1);
    }
    fn key(&mut self, m: usize) -> K {
        let r = &mut self.r;
        let (st, lo, span) = *r.pick(&self.uni[m].parts);
        K(st, lo + r.below(span as u64) as u32)
    }
    fn live_key(&mut self, m: usize) -> K {
        if self.uni[m].live.is_empty() {
            return self.key(m);
        }
        let k = self.key(m);
        let l = &self.uni[m].live;
        *l.range(k..).next().unwrap_or_else(|| l.iter().next().unwrap())
    }
    fn any_key(&mut self, m: usize, live_pct: u64) -> K {
        if self.r.pct(live_pct) {
            self.live_key(m)
        } else {
            self.key(m)
        }
    }
    fn val(&mut self, m: usize) -> V {
        let mode = self.uni[m].vmode;
        let r = &mut self.r;
        let seed = r.below(1 << 24) as u32;
        let class = |r: &mut Rng| -> u64 { (*r.pick(&CLASSES) as u64 + r.below(4)).saturating_sub(10) };
        let chunk = |r: &mut Rng| -> u64 {
            let c = match r.below(300) {
                0 => 1 << 24,
                1..=8 => *r.pick(&[1u64 << 18, 1 << 19, 1 << 20, 1 << 21, 3 << 20]),
                _ => *r.pick(&[4096u64, 8192, 16384, 16384, 32768, 65536, 131072]),
            };
            c - 20 + r.below(40)
        };
        let len = match mode {
            0 | 1 => r.below(40),
            2 | 3 => class(r),
            4 => 800 + r.below(2500),
            5 => match r.below(8) {
                0 => chunk(r),
                1 => r.below(3000),
                _ => r.below(100),
            },
            6 => {
                // a few large sizes again and again
                let c = 128 * r.range(7, 16);
                c + r.below(3) - 9
            }
            _ => match r.below(20) {
                0 => 0,
                1..=9 => r.below(32),
                10..=13 => class(r),
                14..=16 => r.below(1200),
                17 | 18 => r.below(9000),
                _ => chunk(r),
            },
        };
        V(len as u32, seed)
    }
    fn pick_map(&mut self) -> usize {
        self.r.below(self.maps.len() as u64) as usize
    }
    fn push(&mut self, o: Op) {
        self.ops.push(o)
    }
    fn hsel(&mut self, m: usize) -> usize {
        self.r.below(self.nh[m] as u64) as usize
    }
    fn range_op(&mut self, kind: Kind, m: usize, max: u64) -> Op {
        let r = &mut self.r;
        let st = *r.pick(&[0u8, 1, 3, 6, 0, 1]);
        let parts = &self.uni[m].parts;
        let (st, lo) = match parts.iter().find(|p| p.0 == st) {
            Some(p) if r.pct(70) => (p.0, p.1),
            _ => (st, 0),
        };
        let count = match r.below(10) {
            0..=4 => 1 + r.below(max.min(30)),
            5..=8 => 1 + r.below(max.min(250)),
            _ => 1 + r.below(max),
        };
        let off = if kind == Kind::PutR || r.pct(50) { 0 } else { r.below(count) as u32 };
        let mut v = match self.uni[m].vmode {
            4 if count < 300 => V(800, 0),
            6 => V(880, 0),
            _ => V(r.below(40) as u32, 0),
        };
        v.1 = r.below(1 << 20) as u32;
        let step = *r.pick(&[0u64, 0, 20, 200]);
        Op::new(kind)
            .m(m)
            .f(r.below(8))
            .k(K(st, lo + off))
            .v(v)
            .a(count)
            .a(r.below(4))
            .a(step)
    }
    /// appends one operation of the kind
    fn emit(&mut self, kind: Kind) {
        let m = self.pick_map();
        self.emit_on(kind, m)
    }
    fn emit_on(&mut self, kind: Kind, m: usize) {
        let h = self.hsel(m);
        let f = self.r.below(8);
        match kind {
            Kind::Put | Kind::Del => {
                // the tendency decides which of the two
                if self.r.pct(self.grow) {
                    let (k, v) = if self.r.pct(8) {
                        // a value that differs from the former one of the key in one or two bits only
                        let (k, len) = match self.uni[m].near {
                            Some(x) if self.r.pct(80) => x,
                            _ => (self.any_key(m, 60), self.val(m).0),
                        };
                        self.uni[m].near = Some((k, len));
                        (k, V(len, 15 << 28 | self.r.below(1 << 28) as u32))
                    } else {
                        (self.any_key(m, 30), self.val(m))
                    };
                    self.uni[m].live.insert(k);
                    self.push(Op::new(Kind::Put).m(m).h(h).f(f).k(k).v(v));
                } else {
                    let k = self.any_key(m, 85);
                    self.uni[m].live.remove(&k);
                    self.push(Op::new(Kind::Del).m(m).h(h).f(f).k(k));
                }
            }
            Kind::Get => {
                let k = self.any_key(m, 60);
                self.push(Op::new(Kind::Get).m(m).h(h).f(f).k(k));
            }
            Kind::Huge => {
                let k = self.any_key(m, 60);
                let a = *self.r.pick(&[0, 1, 7, 8, 9, 13, 100, 1008, 70_000]);
                self.push(Op::new(Kind::Huge).m(m).h(h).f(f).k(k).a(a));
            }
            Kind::BGet | Kind::BPut | Kind::BDel => {
                let n = match self.r.below(12) {
                    0 => 0,
                    1 => 1,
                    2..=8 => 2 + self.r.below(8),
                    9 if self.r.pct(10) => 100 + self.r.below(1500),
                    _ => 10 + self.r.below(60),
                };
                let mut o = Op::new(kind).m(m).h(h).f(self.r.below(6));
                for _ in 0..n {
                    let k = if !o.keys.is_empty() && self.r.pct(25) {
                        *self.r.pick(&o.keys)
                    } else {
                        self.any_key(m, 60)
                    };
                    o.keys.push(k);
                    if kind == Kind::BPut {
                        let v = self.val(m);
                        let v = V(v.0.min(if n > 90 { 300 } else { 3000 }), v.1);
                        o.vals.push(v);
                        self.uni[m].live.insert(k);
                    } else if kind == Kind::BDel {
                        self.uni[m].live.remove(&k);
                    }
                }
                if self.r.pct(20) {
                    // in order
                    let mut z: Vec<(K, V)> = o.keys.iter().copied().zip(o.vals.iter().copied().chain(std::iter::repeat(V(0, 0)))).collect();
                    z.sort_by_key(|x| x.0);
                    o.keys = z.iter().map(|x| x.0).collect();
                    if kind == Kind::BPut {
                        o.vals = z.iter().map(|x| x.1).collect();
                    }
                }
                self.push(o);
            }
            Kind::PutR => {
                let max = if self.small { 500 } else { 1200 };
                let o = self.range_op(Kind::PutR, m, max).h(h);
                for (k, _) in range_items(&o) {
                    self.uni[m].live.insert(k);
                }
                self.push(o);
            }
            Kind::DelR => {
                let max = if self.small { 500 } else { 1200 };
                let o = self.range_op(Kind::DelR, m, max).h(h);
                for (k, _) in range_items(&o) {
                    self.uni[m].live.remove(&k);
                }
                self.push(o);
            }
            Kind::GetR => {
                let o = self.range_op(Kind::GetR, m, 200).h(h);
                self.push(o);
            }
            Kind::Iter => {
                let lim = if self.r.pct(20) { 1 + self.r.below(30) } else { 0 };
                self.push(Op::new(kind).m(m).h(h).f(f).a(lim));
            }
            Kind::Iter2 => {
                let mut o = Op::new(kind).m(m).h(h).f(f).a(self.r.below(1 << 20)).a(self.r.below(2));
                for _ in 0..3 {
                    let k = self.any_key(m, 60);
                    o.keys.push(k);
                }
                self.push(o);
            }
            Kind::IterMut => {
                let n = *self.r.pick(&[1u64, 1, 2, 3, 5, 9, 20, 49]);
                let keep = self.r.pct(70) as u64;
                let which = if self.r.pct(50) { 0 } else { self.r.below(16) };
                self.push(Op::new(kind).m(m).h(h).f(f).a(n).a(keep).a(which));
            }
            Kind::Check => {
                let mode = *self.r.pick(&[0u64, 0, 1, 1, 1, 3]);
                self.push(Op::new(kind).m(m).h(h).a(mode));
            }
            Kind::CloneH | Kind::Again => {
                if self.nh[m] < 6 {
                    self.nh[m] += 1;
                    self.push(Op::new(kind).m(m).h(h));
                }
            }
            Kind::DropH => {
                if self.nh[m] == 1 {
                    // the last one: the map is opened again when it is used
                    self.push(Op::new(kind).m(m).h(h).a(1));
                } else if self.nh[m] > 1 {
                    self.nh[m] -= 1;
                    self.push(Op::new(kind).m(m).h(h));
                }
            }
            Kind::Reopen => {
                let mode = self.r.below(16);
                self.reopen(mode, 0, false);
            }
            Kind::Htx => {
                let o = Op::new(kind).m(m).a(self.r.below(4)).a(self.r.below(1 << 20));
                self.close_all();
                self.push(o);
            }
            Kind::Snap => {
                let f = self.r.below(5);
                self.push(Op::new(kind).m(m).h(h).f(f));
            }
            Kind::Fault => {
                let class = match self.r.below(6) {
                    0 | 1 => 1,
                    2 => 2,
                    3 | 4 => 4,
                    _ => 7,
                };
                let skip = match self.r.below(4) {
                    0 => 0,
                    1 => self.r.below(3),
                    2 => self.r.below(8),
                    _ => self.r.below(30),
                };
                let times = *self.r.pick(&[1u64, 1, 2, 5, 1000]);
                let o = Op::new(kind)
                    .m(m)
                    .h(h)
                    .f(self.r.below(5))
                    .a(class)
                    .a(skip)
                    .a(times)
                    .a(self.r.below(20))
                    .a(self.r.below(5))
                    .a(self.r.below(2));
                self.push(o);
            }
            Kind::FaultAll => {
                let action = *self.r.pick(&[0u64, 0, 0, 1, 1]);
                self.fault_all(m, h, action);
            }
            Kind::Obst => {
                let o = Op::new(kind).m(m).a(self.r.below(6)).a(self.r.below(8)).a(self.r.below(1 << 16)).a(self.r.below(1 << 16));
                self.close_all();
                self.push(o);
            }
            Kind::Pure => {
                let mut o = Op::new(kind).m(m).a(self.r.below(8)).a(self.r.below(1 << 20)).a(2 + self.r.below(12));
                for _ in 0..6 {
                    let k = self.any_key(m, 60);
                    o.keys.push(k);
                }
                self.close_all();
                self.push(o);
            }
            Kind::Reuse => {
                let mut o = Op::new(kind).m(m).f(f).a(self.r.below(1 << 20));
                for _ in 0..1 + self.r.below(4) {
                    let k = self.any_key(m, 50);
                    let v = self.val(m);
                    self.uni[m].live.insert(k);
                    o.keys.push(k);
                    o.vals.push(v);
                }
                self.push(o);
            }
            Kind::Wrong => {
                let v = self.r.below(4);
                let o = Op::new(kind).m(m).a(v).a(self.r.below(2)).a(self.r.below(4)).a(self.r.below(4)).a(self.r.below(1 << 20));
                if v > 0 {
                    self.close_all();
                }
                self.push(o);
            }
            Kind::Gap => {
                let files = 1 + self.r.below(7);
                let mib = match self.r.below(6) {
                    0 => 2047 + self.r.below(2),
                    1 | 2 => 4096,
                    3 => 4095 + self.r.below(3),
                    4 => 4097 + self.r.below(9000),
                    _ => 100 + self.r.below(1 << 16),
                };
                // so that pieces lie across the boundary
                let back = if self.r.pct(70) { self.r.below(400) } else { 0 };
                self.close_all();
                if self.r.pct(30) {
                    // just past the boundary: offsets that differ from earlier ones in the high half only
                    let (files, fwd) = if self.r.pct(60) { (4, 8) } else { (3, 12) };
                    let mib = 4096 * (1 + self.r.below(2));
                    let fwd = fwd + if self.r.pct(30) { self.r.below(100) } else { 0 };
                    self.push(Op::new(kind).m(m).a(files).a(mib).a(fwd).a(0));
                } else {
                    self.push(Op::new(kind).m(m).a(files).a(mib).a(0).a(back));
                }
            }
            Kind::Other => {
                let mut o = Op::new(kind).f(f).a(self.r.below(2));
                for _ in 0..self.r.below(12) {
                    let k = self.any_key(m, 60);
                    let v = self.val(m);
                    o.keys.push(k);
                    o.vals.push(V(v.0.min(3000), v.1));
                }
                self.push(o);
            }
            Kind::Conv => {
                let mut o = Op::new(kind).m(m);
                for _ in 0..2 + self.r.below(10) {
                    let r = &mut self.r;
                    let k = if r.pct(50) {
                        K(*r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 8, 9]), r.below(1 << 12) as u32)
                    } else if !o.keys.is_empty() && r.pct(40) {
                        let k: K = *r.pick(&o.keys);
                        if r.pct(50) {
                            k
                        } else {
                            K(k.0, k.1 ^ (1 << r.below(12)))
                        }
                    } else {
                        K(*r.pick(&[0u8, 1, 2, 3, 5, 6]), r.u64() as u32)
                    };
                    // style 5 and 7 are long; style 2 appends digits
                    o.keys.push(k);
                }
                self.push(o);
            }
            Kind::Image => {
                let bits = [encode::F_BIG, encode::F_FREE, encode::F_HTX, encode::F_LARGE, encode::F_FULL, encode::F_MIN, encode::F_MIX];
                let mut mode = 0;
                for b in bits {
                    if self.r.pct(45) {
                        mode |= b;
                    }
                }
                let max = if self.small { 400 } else { 2500 };
                let n = match self.r.below(8) {
                    0 => self.r.below(6),
                    1..=3 => self.r.below(SLOTS as u64 * 3),
                    4..=6 => self.r.below(max / 4),
                    _ => self.r.below(max),
                };
                if n > 600 {
                    mode &= !encode::F_LARGE;
                }
                self.close_all();
                let sd = self.r.below(1 << 30);
                self.push(Op::new(kind).m(m).a(sd).a(n).a(mode as u64));
                // keys of the image are of the styles 0..6, from zero on
                for st in [0u8, 1, 3] {
                    self.uni[m].parts.push((st, 0, (n as u32) * 3 + 10));
                }
            }
            Kind::Bad => {
                let mut o = Op::new(kind).m(m);
                let b = [encode::B_UNBAL, encode::B_UNDENSE, encode::B_SWAP, encode::B_DUP];
                let mut mode = 0;
                if self.r.pct(85) {
                    mode |= *self.r.pick(&b);
                    if self.r.pct(20) {
                        mode |= *self.r.pick(&b);
                    }
                    if mode & (encode::B_SWAP | encode::B_DUP) != 0 && self.r.pct(50) {
                        mode |= encode::B_SEP;
                    }
                }
                for x in [encode::F_BIG, encode::F_FREE, encode::F_FULL, encode::F_MIN] {
                    if self.r.pct(40) {
                        mode |= x;
                    }
                }
                let n = match self.r.below(5) {
                    0 => self.r.below(SLOTS as u64 * 2),
                    1..=3 => self.r.below(SLOTS as u64 * 8),
                    _ => self.r.below(if self.small { 400 } else { 5000 }),
                };
                o = o.a(self.r.below(1 << 30)).a(n).a(mode as u64);
                self.push(o);
            }
            Kind::Fsck => {
                let f = self.r.below(5);
                self.push(Op::new(kind).m(m).h(h).f(f));
            }
            _ => self.push(Op::new(kind).m(m).h(h).f(f)),
        }
    }
    fn fault_all(&mut self, m: usize, h: usize, action: u64) {
        let class = match action {
            0 => *self.r.pick(&[1u64, 1, 2, 4, 7, 8, 15]),
            1 => *self.r.pick(&[8u64, 8, 8, 9, 1]),
            _ => *self.r.pick(&[1u64, 2, 3, 8, 16, 16, 31]),
        };
        // how: bits 0 look first, 1.. call, 5 change, 6 big table, 7 use, 8 again at once
        let times = *self.r.pick(&[1u64, 1, 1, 2, 1000]);
        let mut o = Op::new(Kind::FaultAll)
            .m(m)
            .h(h)
            .f(self.r.below(if action == 0 { 5 } else { 8 }))
            .a(action)
            .a(class)
            .a(times)
            .a(self.r.below(4))
            .a(self.r.below(1 << 12));
        if action == 1 {
            for _ in 0..3 + self.r.below(5) {
                let k = self.any_key(m, 80);
                o.keys.push(k);
            }
        }
        if action >= 2 {
            self.close_all();
        }
        self.push(o);
    }
    fn close_all(&mut self) {
        for n in self.nh.iter_mut() {
            *n = 1;
        }
    }
    fn reopen(&mut self, mode: u64, mask: u64, newbufs: bool) {
        let outlive = !self.maps.is_empty() && self.r.pct(12);
        let lazy = self.r.pct(12);
        let unwind = self.r.pct(8);
        let mut o = Op::new(Kind::Reopen).a(mode | (outlive as u64) << 4 | (lazy as u64) << 5 | (unwind as u64) << 6).a(mask);
        if outlive {
            for _ in 0..1 + self.r.below(4) {
                let k = self.any_key(0, 50);
                let m = k.1 as usize % self.maps.len();
                o.vals.push(self.val(m));
                o.keys.push(k);
                self.uni[m].live.insert(k);
            }
        }
        if newbufs {
            for _ in 0..self.maps.len() {
                for b in bufs_random(&mut self.r) {
                    o = o.a(b.enc() as u64);
                }
            }
        }
        self.close_all();
        self.push(o);
    }
    /// n operations by weights, with the tendency changing from phase to phase
    fn hist(&mut self, n: u64, w: &[(Kind, u32)]) {
        let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
        let mut left = 0;
        for _ in 0..n {
            if left == 0 {
                left = 5 + self.r.below(60);
                self.grow = *self.r.pick(&[90u64, 75, 60, 50, 40, 15, 5]);
            }
            left -= 1;
            let i = self.r.weighted(&ws);
            self.emit(w[i].0);
        }
    }
    /// a prefix that makes a large map
    fn bulk_fill(&mut self, pct: u64, max: u64) {
        if !self.r.pct(pct) {
            return;
        }
        let m = self.pick_map();
        let r = &mut self.r;
        let st = *r.pick(&[0u8, 1, 1, 3]);
        let count = match r.below(3) {
            0 => 1 + r.below(max / 8),
            1 => 1 + r.below(max / 2),
            _ => max / 2 + r.below(max / 2),
        };
        let o = Op::new(Kind::PutR)
            .m(m)
            .f(r.below(8))
            .k(K(st, 0))
            .v(V(r.below(30) as u32, r.below(1 << 20) as u32))
            .a(count)
            .a(r.below(4))
            .a(*r.pick(&[0u64, 0, 20]));
        for (k, _) in range_items(&o) {
            self.uni[m].live.insert(k);
        }
        self.uni[m].parts.push((st, 0, count as u32));
        self.push(o);
    }
    /// deletes from a large map, so that it shrinks over several levels
    fn bulk_drain(&mut self, pct: u64) {
        if !self.r.pct(pct) {
            return;
        }
        let fills: Vec<Op> = self.ops.iter().filter(|o| o.kind == Kind::PutR && o.arg(0) > 20).cloned().collect();
        if fills.is_empty() {
            return;
        }
        let r = &mut self.r;
        let mut o = r.pick(&fills).clone();
        o.kind = Kind::DelR;
        o.args[1] = r.below(4) as u32;
        if r.pct(60) {
            // a part
            let n = o.args[0] as u64;
            let a = r.below(n);
            let b = 1 + r.below(n - a);
            o.keys[0].1 = o.keys[0].1.wrapping_add(a as u32);
            o.args[0] = b as u32;
        }
        for (k, _) in range_items(&o) {
            self.uni[o.m as usize].live.remove(&k);
        }
        self.push(o);
    }
    fn done(self, prop: &str) -> Case {
        Case {
            prop: prop.to_string(),
            maps: self.maps,
            mem: false,
            ops: self.ops,
            cyc: vec![],
            reps: 0,
        }
    }
}

const NAMES: [&str; 24] = [
    "m", "map1", "map10", "a", "A", "a.b", "idx", "some_map1", "x.key", "key", "日本", "m-1", ".hidden", "a.", "a..", "MAP1",
    "a.htx", "val", "m_1", "~m", "日", "a.b.c", "-", "a.B",
];

/// a name of up to 200 bytes that differs from others only at its end
fn long_name(r: &mut Rng) -> String {
    let n = *r.pick(&[12usize, 30, 62, 63, 64, 100, 127, 198]);
    format!("{}{}", "n".repeat(n), r.below(10))
}

/// names that differ from each other in one character
fn name_variants(r: &mut Rng) -> Vec<String> {
    const FILL: [&str; 28] = [
        " ", "_", "-", ".", "", "%", "%20", "+", ":", "*", "?", "\\", "\"", "'", "a", "A", "é", "e\u{301}", "É", "\u{3042}", "\u{30a2}",
        "\n", "\t", "  ", "__", "~", "#", "ß",
    ];
    let (pre, suf) = *r.pick(&[("m", "x"), ("map", ""), ("", "map"), ("some", "map1"), ("a.", ".b")]);
    FILL.iter().map(|f| format!("{}{}{}", pre, f, suf)).filter(|n| n != "." && n != "..").collect()
}

use Kind::*;

pub fn gen_case(prop: &str, small: bool, thorough: bool, seed: u64) -> Case {
    let mut g = G::new(Rng::new(seed), small);
    let kt = *g.r.pick(&KTS);
    let big = if small { 500 } else { 3000 };
    // now and then a map of many more entries
    let big = if g.r.below(if thorough { 100 } else { 250 }) == 0 { big * 16 } else { big };
    let scale = if thorough { 2 } else { 1 };
    match prop {
        "C01" => {
            let ht = ht_random(&mut g.r, 15);
            let b = if g.r.pct(30) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            g.bulk_fill(30, big);
            if g.r.below(150) == 0 {
                // a long session: more than 65536 updates
                let st = *g.r.pick(&[0u8, 1, 3]);
                let n = 200 + g.r.below(6000);
                for i in 0..70_000 / n + 1 {
                    let o = Op::new(PutR).f(g.r.below(8)).k(K(st, 0)).v(V(g.r.below(20) as u32, i as u32 * 7)).a(n).a(i % 4).a(0);
                    g.push(o);
                }
                g.uni[0].parts.push((st, 0, n as u32));
            }
            let n = (30 + g.r.below(300)) * scale;
            g.hist(n, &[(Put, 60), (Get, 25), (PutR, 2), (DelR, 2), (GetR, 1), (Fill, 1), (Flush, 1), (Sweep, 1), (Huge, 1)]);
            g.bulk_drain(50);
            let n = 5 + g.r.below(60);
            g.hist(n, &[(Put, 60), (Get, 20)]);
            g.emit(Sweep);
        }
        "C02" => {
            let nm = 1 + g.r.below(2);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 10);
                let b = if g.r.pct(40) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            if g.r.pct(15) {
                g.emit(Reopen);
            }
            g.bulk_fill(35, big);
            for _ in 0..(2 + g.r.below(6)) * scale {
                let n = g.r.below(40);
                g.hist(n, &[(Put, 50), (Get, 10), (PutR, 2), (DelR, 3), (BPut, 1), (BDel, 1), (Iter, 1), (Flush, 1), (SyncAll, 1), (DbSyncAll, 1)]);
                g.bulk_drain(20);
                // mostly without flush
                let mode = *g.r.pick(&[0u64, 0, 0, 0, 4, 4, 1, 2, 3, 5, 8, 12]);
                let nb = g.r.pct(15);
                g.reopen(mode, 0, nb);
            }
            let n = g.r.below(10);
            g.hist(n, &[(Put, 50)]);
            g.reopen(8, 0, false);
        }
        "C03" => {
            // now and then many maps
            let nm = if g.r.pct(4) { 6 + g.r.below(18) } else { 1 + g.r.below(3) };
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 10);
                let b = if g.r.pct(40) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            g.bulk_fill(25, big);
            for _ in 0..(3 + g.r.below(8)) * scale {
                let n = g.r.below(25);
                g.hist(n, &[(Put, 60), (Get, 12), (PutR, 2), (DelR, 2), (BPut, 1), (Iter, 2), (Flush, 4), (SyncAll, 1), (SyncData, 1), (DbSyncAll, 1), (DbSyncData, 1), (CloneH, 1), (DropH, 1), (Reopen, 1)]);
                g.bulk_drain(10);
                if g.r.pct(15) {
                    // no handle of a map is left
                    let m = g.pick_map();
                    for _ in 0..g.nh[m] {
                        g.emit_on(DropH, m);
                    }
                    let f = 3 + g.r.below(2);
                    g.push(Op::new(Snap).m(m).f(f));
                    continue;
                }
                g.emit(Snap);
                if g.r.pct(20) {
                    g.emit(Snap);
                }
            }
        }
        "C04" => {
            let ht = ht_random(&mut g.r, 5);
            let b = if g.r.pct(25) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            if g.r.pct(30) {
                g.emit(Iter);
            }
            let follow = g.r.pct(50);
            g.bulk_fill(50, big);
            for _ in 0..(3 + g.r.below(10)) * scale {
                let n = g.r.below(40);
                g.hist(n, &[(Put, 60), (Get, 5), (PutR, 3), (DelR, 4), (BPut, 1), (BDel, 1), (Reopen, 1), (Flush, 1), (IterMut, if follow { 30 } else { 0 })]);
                g.bulk_drain(25);
                let n = 1 + g.r.below(3);
                g.hist(n, &[(Iter, 5), (Iter2, 2), (IterMut, 2)]);
            }
            if g.r.pct(40) {
                // emptied
                let all: Vec<K> = g.uni[0].live.iter().copied().collect();
                for k in all {
                    g.push(Op::new(Del).k(k).f(1));
                }
                g.uni[0].live.clear();
                g.hist(3, &[(Iter, 2), (Iter2, 1), (Reopen, 1)]);
                g.grow = 100;
                g.emit(Put);
                g.emit(Iter);
            }
        }
        "C05" => {
            let ht = ht_random(&mut g.r, 5);
            let b = if g.r.pct(20) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            if g.r.pct(40) {
                for _ in 0..1 + g.r.below(4) {
                    g.emit(Bad);
                }
            }
            g.bulk_fill(70, big);
            g.emit(Check);
            for _ in 0..(3 + g.r.below(20)) * scale {
                let n = if small { g.r.below(10) } else { g.r.below(40) };
                g.hist(n, &[(Put, 60), (PutR, 3), (DelR, 4), (BDel, 2), (BPut, 2), (Reopen, 1)]);
                g.bulk_drain(25);
                g.emit(Check);
            }
        }
        "C06" => {
            let ht = match g.r.below(8) {
                0 => ht_random(&mut g.r, 50),
                1 | 2 => 1,
                _ => 1 + g.r.below(12),
            };
            let b = if g.r.pct(20) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            if kt != Kt::Int && g.r.pct(35) {
                // keys of equal hash values
                let n = 1 + g.r.below(3);
                if g.r.pct(50) {
                    g.uni[0].parts.clear();
                }
                for _ in 0..n {
                    let x = (8, 64 * g.r.below(50) as u32, 2 + g.r.below(60) as u32);
                    g.uni[0].parts.push(x);
                }
            }
            g.bulk_fill(25, big / 3);
            for _ in 0..(3 + g.r.below(6)) * scale {
                let n = 5 + g.r.below(60);
                g.hist(n, &[(Put, 50), (Get, 30), (PutR, 1), (DelR, 1), (BPut, 1), (BDel, 1), (Sweep, 1)]);
                g.bulk_drain(10);
                match g.r.below(4) {
                    0 => g.push(Op::new(Fsck).a(4)),
                    1 => g.emit(Htx),
                    2 => g.emit(Reopen),
                    _ => g.emit(Sweep),
                }
            }
            g.push(Op::new(Fsck).a(4));
            g.emit(Sweep);
        }
        "C07" => {
            let ht = ht_random(&mut g.r, 5);
            g.map("m", kt, ht, None);
            let mem = g.r.pct(60);
            g.bulk_fill(20, big / 3);
            let n = (20 + g.r.below(80)) * scale;
            g.hist(n, &[(Put, 20), (Get, 5), (BGet, 25), (BPut, 25), (BDel, 25), (PutR, 1), (DelR, 1), (Sweep, 2)]);
            g.emit(Sweep);
            g.emit(Iter);
            let mut c = g.done(prop);
            c.mem = mem;
            return c;
        }
        "C08" => {
            let ht = ht_random(&mut g.r, 25);
            let b = bufs_random(&mut g.r);
            g.map("m", kt, ht, Some(b));
            if g.r.pct(40) {
                g.uni[0].vmode = 4 + g.r.below(3);
            }
            g.bulk_fill(60, big);
            for _ in 0..(2 + g.r.below(4)) * scale {
                let n = 10 + g.r.below(60);
                g.hist(n, &[(Put, 60), (Get, 20), (PutR, 3), (DelR, 2), (BPut, 1), (BGet, 1), (BDel, 1), (Iter, 2), (Fill, 3), (Flush, 2), (SyncAll, 1), (Sweep, 1), (Check, 1)]);
                let mode = g.r.below(16);
                g.reopen(mode, 0, true);
            }
            g.emit(Sweep);
            g.emit(Iter);
        }
        "C09" => {
            let nm = if g.r.pct(6) { 10 + g.r.below(30) } else { 2 + g.r.below(4) };
            let mut names: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
            for i in 0..40 {
                names.push(format!("map{}", 2 + i % 8 + (i / 8) * 10));
            }
            if g.r.pct(25) {
                // mostly long ones
                names.truncate(8);
                for _ in 0..30 {
                    let n = long_name(&mut g.r);
                    if !names.contains(&n) {
                        names.push(n);
                    }
                }
            } else if g.r.clone().pct(25) {
                names = name_variants(&mut g.r.clone());
            } else if g.r.pct(70) {
                names.truncate(24);
            }
            let nm = nm.min(names.len() as u64);
            let one_kt = if g.r.pct(40) { Some(kt) } else { None };
            for _ in 0..nm {
                let i = g.r.below(names.len() as u64) as usize;
                let name = &names.swap_remove(i);
                let kt = one_kt.unwrap_or(*g.r.pick(&KTS));
                let ht = ht_random(&mut g.r, 5);
                let b = if g.r.pct(25) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(name, kt, ht, b);
            }
            g.bulk_fill(20, big / 3);
            let n = (60 + g.r.below(200)) * scale;
            g.hist(n, &[(Put, 60), (Get, 25), (PutR, 1), (DelR, 2), (BPut, 1), (BDel, 1), (Iter, 3), (IterMut, 4), (CloneH, 4), (Again, 4), (DropH, 5), (Other, if g.r.clone().pct(40) { 2 } else { 0 }), (Flush, 2), (SyncAll, 1), (DbSyncAll, 1), (DbSyncData, 1), (Sweep, 2), (Reopen, 1)]);
            for m in 0..nm as usize {
                g.emit_on(Sweep, m);
                g.emit_on(Iter, m);
            }
            g.reopen(8, 0, false);
        }
        "C10" => {
            let nm = 1 + g.r.below(2);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 15);
                let b = if g.r.pct(30) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            g.bulk_fill(15, big / 4);
            for _ in 0..(2 + g.r.below(6)) * scale {
                let n = g.r.below(20);
                g.hist(n, &[(Put, 50), (PutR, 1), (DelR, 1), (Get, 5), (Again, 1), (Flush, 2), (Reopen, 1)]);
                g.emit(Wrong);
            }
            g.reopen(8, 0, false);
        }
        "C11" => {
            let ht = ht_random(&mut g.r, 5);
            let b = if g.r.pct(30) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            g.bulk_fill(30, big);
            for _ in 0..(4 + g.r.below(14)) * scale {
                let n = 1 + g.r.below(30);
                g.hist(n, &[(Put, 60), (PutR, 2), (DelR, 3), (BPut, 1), (BDel, 1), (Get, 3), (Iter, 1), (Reopen, 1)]);
                g.bulk_drain(15);
                if g.r.pct(30) {
                    g.emit(Reuse);
                }
                let f = g.r.below(5);
                g.push(Op::new(Fsck).f(f).a(1));
            }
        }
        "C12" => return gen_c12(g, prop, thorough),
        "C13" => {
            let nm = 1 + g.r.below(4);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                // maps of one name and different types in the memory database
                let base = NAMES[g.r.below(3) as usize];
                let name = format!("{}~{}", base, kt.name());
                if g.maps.iter().any(|m| m.name == name) {
                    if i > 0 {
                        continue;
                    }
                }
                g.map(&name, kt, 16 + g.r.clone().below(100), None);
            }
            let n = (40 + g.r.below(250)) * scale;
            g.hist(n, &[(Put, 60), (Get, 25), (PutR, 1), (DelR, 1), (BGet, 5), (BPut, 5), (BDel, 5), (CloneH, 2), (Again, 2), (DropH, 2), (Fill, 1), (Sweep, 1)]);
            for m in 0..g.maps.len() {
                g.emit_on(Sweep, m);
            }
            let mut c = g.done(prop);
            c.mem = true;
            return c;
        }
        "C14" => {
            let nm = 1 + g.r.below(2);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 10);
                let b = if g.r.pct(40) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            g.bulk_fill(30, big / 2);
            for _ in 0..(1 + g.r.below(5)) * scale {
                let n = g.r.below(40);
                g.hist(n, &[(Put, 60), (PutR, 2), (DelR, 3), (Reopen, 1), (Htx, 1)]);
                g.bulk_drain(15);
                g.emit(Pure);
                if g.r.pct(50) {
                    g.emit(Sweep);
                }
            }
        }
        "C15" => {
            let ht = ht_random(&mut g.r, 5);
            let b = if g.r.pct(20) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            if g.r.pct(15) {
                g.emit(Stats);
            }
            if g.r.pct(25) {
                g.emit(Image);
                g.emit(Stats);
            }
            g.bulk_fill(45, big);
            for _ in 0..(2 + g.r.below(8)) * scale {
                let n = g.r.below(40);
                g.hist(n, &[(Put, 60), (PutR, 3), (DelR, 3), (BPut, 1), (Reopen, 1), (Htx, 1)]);
                g.bulk_drain(20);
                g.emit(Stats);
            }
        }
        "C16" if g.r.pct(20) => {
            // few buffers for scattered pieces and nodes, so that flush has to write in the midst of its work
            let b = if g.r.pct(85) { Buf::Pm(0) } else { Buf::Size(0) };
            g.map("m", kt, 1 + g.r.clone().below(100), Some([b; 4]));
            let st = *g.r.pick(&[1u8, 1, 0, 3]);
            let n = if small { 500 + g.r.below(4000) } else { 500 + g.r.below(5000) };
            let vl = if g.r.pct(30) { g.r.below(60) } else { 1 };
            let o = Op::new(PutR).f(g.r.below(8)).k(K(st, 0)).v(V(vl as u32, 1)).a(n).a(3).a(0);
            for (k, _) in range_items(&o) {
                g.uni[0].live.insert(k);
            }
            g.uni[0].parts = vec![(st, 0, n as u32 + 200)];
            g.push(o);
            let f = g.r.below(2);
            g.push(Op::new(Flush).f(f));
            for _ in 0..(3 + g.r.below(10)) * scale {
                g.grow = if g.r.pct(70) { 70 } else { 30 };
                for _ in 0..2 + g.r.below(12) {
                    g.emit(Put);
                }
                let (form, class) = (g.r.below(5), *g.r.pick(&[1u64, 1, 1, 2, 7]));
                let skip = g.r.below(14);
                let rest = [*g.r.pick(&[1u64, 1, 3, 1000]), g.r.below(20), g.r.below(5), g.r.below(2)];
                let mut o = Op::new(Fault).f(form).a(class).a(skip);
                for a in rest {
                    o = o.a(a);
                }
                g.push(o);
            }
            g.reopen(8, 0, false);
        }
        "C16" => {
            let nm = 1 + g.r.below(2);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 5);
                let b = if g.r.pct(40) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            g.bulk_fill(35, big / 3);
            for _ in 0..(2 + g.r.below(8)) * scale {
                let n = g.r.below(25);
                g.hist(n, &[(Put, 60), (PutR, 2), (DelR, 2), (Get, 5), (Flush, 1), (Reopen, 1), (CloneH, 1)]);
                if g.r.pct(12) {
                    if g.r.pct(50) {
                        // nothing in the buffers
                        g.emit(Reopen);
                    }
                    g.emit(FaultAll);
                    continue;
                }
                g.emit(Fault);
                if g.r.pct(25) {
                    // one after the other
                    g.emit(Fault);
                }
            }
            g.reopen(8, 0, false);
        }
        "C23" => {
            // few buffers for scattered pieces, so that an update has to make room
            let b = if g.r.pct(60) { Buf::Pm(0) } else { Buf::Size(0) };
            // half of the hash tables are larger than their buffers
            let ht = if g.r.pct(50) { 1 + g.r.below(100) } else { 20_000 + g.r.below(60_000) };
            g.map("m", kt, ht, Some([b; 4]));
            let st = *g.r.pick(&[1u8, 1, 0, 3]);
            let n = 100 + g.r.below(if small { 1500 } else { 2500 });
            let step = *g.r.pick(&[0u64, 300, 3000]);
            let vl = if g.r.pct(50) { g.r.below(60) } else { g.r.below(4000) };
            let o = Op::new(PutR).f(g.r.below(8)).k(K(st, 0)).v(V(vl as u32, 1)).a(n).a(3).a(step);
            for (k, _) in range_items(&o) {
                g.uni[0].live.insert(k);
            }
            g.uni[0].parts = vec![(st, 0, n as u32 + 200)];
            g.push(o);
            for _ in 0..(1 + g.r.below(3)) * scale {
                g.grow = if g.r.pct(50) { 70 } else { 30 };
                // a free piece amid the file, across buffers, is used again by the put that fails
                let most = if g.r.pct(50) { 10_000 } else { 70_000 };
                let big = 3000 + g.r.below(most) as u32;
                let reuse = g.r.pct(60);
                let k1 = g.any_key(0, 60);
                if reuse {
                    g.push(Op::new(Put).f(1).k(k1).v(V(big, 5)));
                    if g.r.pct(70) {
                        let k2 = g.any_key(0, 60);
                        let l2 = g.r.below(big as u64) as u32;
                        g.push(Op::new(Put).f(1).k(k2).v(V(l2, 6)));
                    }
                }
                for _ in 0..g.r.below(30) {
                    g.emit(Put);
                }
                let kept = reuse && g.r.pct(40);
                if reuse && !kept {
                    g.push(Op::new(Del).f(1).k(k1));
                }
                if g.r.pct(30) {
                    g.push(Op::new(Flush).f(1));
                }
                let k = if kept { k1 } else { g.any_key(0, 60) };
                let v = if reuse {
                    V(big + if kept { 300 } else { 0 } - g.r.below(200) as u32, 78)
                } else if g.r.pct(50) {
                    g.val(0)
                } else {
                    V(g.r.below(6000) as u32, 77)
                };
                let class = *g.r.pick(&[1u64, 1, 9, 9, 8, 11]);
                let times = *g.r.pick(&[1u64, 1, 1, 2, 1000]);
                let mut how = g.r.below(1 << 12);
                if kept && g.r.pct(70) {
                    how |= 2048;
                }
                if g.r.pct(15) {
                    g.reopen(8, 0, false);
                }
                let files = *g.r.pick(&[2u64, 1, 3, 11, 8, 8]);
                let form = g.r.below(5);
                let e = g.r.below(4);
                let mut o = Op::new(FaultAll).f(form).k(k).v(v);
                if g.r.pct(25) {
                    // a bulk call
                    for _ in 0..1 + g.r.below(30) {
                        let (k, v) = (g.any_key(0, 70), g.val(0));
                        o = o.k(k).v(v);
                    }
                }
                g.push(o.a(5).a(class).a(times).a(e).a(how).a(files));
            }
            g.reopen(8, 0, false);
        }
        "C22" => {
            let nm = 1 + g.r.below(2);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 8);
                let b = if g.r.pct(40) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            g.bulk_fill(15, big / 6);
            for _ in 0..(2 + g.r.below(4)) * scale {
                let n = g.r.below(20);
                g.hist(n, &[(Put, 60), (PutR, 1), (DelR, 2), (Get, 5), (Flush, 1), (Reopen, 1), (CloneH, 1)]);
                if g.r.pct(45) {
                    let (m, a) = (g.pick_map(), *g.r.pick(&[2u64, 2, 3, 3, 4]));
                    g.fault_all(m, 0, a);
                } else {
                    g.emit(Obst);
                }
            }
            g.reopen(8, 0, false);
        }
        "C19" => {
            let nm = 1 + g.r.below(2);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 6);
                let b = if g.r.pct(35) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            g.bulk_fill(45, big);
            for _ in 0..(3 + g.r.below(8)) * scale {
                let n = g.r.below(40);
                g.hist(n, &[(Put, 60), (Get, 15), (PutR, 3), (DelR, 3), (GetR, 1), (BGet, 1), (BPut, 2), (BDel, 2), (Iter, 2), (Iter2, 1), (IterMut, 2), (CloneH, 1), (DropH, 1), (Flush, 1), (SyncAll, 1), (SyncData, 1), (DbSyncAll, 1), (Fill, 1)]);
                g.bulk_drain(25);
                for k in [Check, Stats, Fsck, Snap, Iter, Sweep] {
                    if g.r.pct(25) {
                        g.emit(k);
                    }
                }
                if g.r.pct(40) {
                    let mode = *g.r.pick(&[0u64, 0, 0, 4, 1, 2, 3, 5]);
                    let nb = g.r.pct(20);
                    g.reopen(mode, 0, nb);
                }
            }
            g.emit(Check);
            g.reopen(8, 0, false);
        }
        "C17" => {
            let nm = 1 + g.r.below(2);
            for i in 0..nm {
                let kt = *g.r.pick(&KTS);
                let ht = ht_random(&mut g.r, 5);
                let b = if g.r.pct(40) { Some(bufs_random(&mut g.r)) } else { None };
                g.map(NAMES[i as usize], kt, ht, b);
            }
            if g.r.pct(15) {
                g.emit(Image);
            }
            g.bulk_fill(30, big / 2);
            let n = (30 + g.r.below(150)) * scale;
            g.hist(n, &[(Put, 60), (Get, 15), (PutR, 3), (DelR, 3), (BGet, 1), (BPut, 2), (BDel, 2), (Iter, 3), (Iter2, 2), (IterMut, 8), (CloneH, 2), (Again, 1), (DropH, 2), (Flush, 2), (SyncAll, 1), (Fill, 2), (Check, 1), (Stats, 1), (Reopen, 1), (Sweep, 1)]);
            g.bulk_drain(40);
            g.emit(IterMut);
            g.emit(Sweep);
        }
        "C18" => {
            g.map("m", kt, 1 + g.r.clone().below(50), None);
            let n = (10 + g.r.below(40)) * scale;
            g.hist(n, &[(Conv, 70), (Put, 20), (Get, 30)]);
            g.emit(Sweep);
            g.emit(Iter);
            let mut c = g.done(prop);
            c.mem = true;
            return c;
        }
        "C20" => {
            let ht = ht_random(&mut g.r, 15);
            let b = if g.r.pct(20) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            let from_image = g.r.pct(75);
            if from_image {
                g.emit(Image);
                if g.r.pct(50) {
                    g.emit(Iter);
                }
            } else {
                g.bulk_fill(40, big);
            }
            for _ in 0..(1 + g.r.below(5)) * scale {
                let n = 5 + g.r.below(50);
                g.hist(n, &[(Put, 60), (Get, 15), (PutR, 2), (DelR, 3), (BPut, 1), (BDel, 1), (Iter, 1)]);
                g.bulk_drain(15);
                if g.r.pct(60) {
                    g.push(Op::new(Fsck).f(0).a(7));
                } else {
                    let mode = g.r.below(16);
                    g.reopen(mode, 7, false);
                }
            }
            g.reopen(8, 7, false);
        }
        "C21" => {
            let ht = ht_random(&mut g.r, 5);
            let b = if g.r.pct(30) { Some(bufs_random(&mut g.r)) } else { None };
            g.map("m", kt, ht, b);
            let n = g.r.below(40);
            g.bulk_fill(25, big / 6);
            g.hist(n, &[(Put, 60)]);
            for _ in 0..1 + g.r.below(3) {
                g.emit(Gap);
                let n = 10 + g.r.below(60);
                g.bulk_fill(30, big / 6);
                g.hist(n, &[(Put, 60), (Get, 10), (PutR, 2), (DelR, 2), (Iter, 2), (Check, 1), (Reopen, 1), (Flush, 1), (Sweep, 1)]);
                g.push(Op::new(Fsck).a(7));
            }
            g.reopen(8, 7, false);
        }
        _ => {}
    }
    g.done(prop)
}

/// cyclic workloads
fn gen_c12(mut g: G, prop: &str, thorough: bool) -> Case {
    let kt = *g.r.pick(&KTS);
    let ht = ht_random(&mut g.r, 3);
    let b = if g.r.pct(25) { Some(bufs_random(&mut g.r)) } else { None };
    g.map("m", kt, ht, b);
    if g.r.pct(40) {
        let n = g.r.below(60);
        g.hist(n, &[(Put, 60), (PutR, 1)]);
    }
    let pre = std::mem::take(&mut g.ops);
    let reps = if thorough { 40 + g.r.below(80) } else { 20 + g.r.below(25) };
    match g.r.below(6) {
        // fill and empty
        0 | 1 => {
            let max = if g.small { 150 } else { 400 };
            let mut put = g.range_op(PutR, 0, max);
            if g.r.pct(30) {
                put.vals[0].0 = 800 + g.r.below(600) as u32;
            }
            let mut del = put.clone();
            del.kind = DelR;
            del.args[1] = g.r.below(4) as u32;
            g.push(put);
            if g.r.pct(50) {
                let n = g.r.below(10);
                g.hist(n, &[(Put, 10), (Get, 1)]);
            }
            g.push(del);
        }
        // values of changing sizes
        2 => {
            let nk = 1 + g.r.below(20);
            let nv = 2 + g.r.below(5);
            for _ in 0..nv {
                for i in 0..nk {
                    let v = g.val(0);
                    g.push(Op::new(Put).f(5).k(K(0, i as u32)).v(V(v.0.min(20_000), v.1)));
                }
            }
        }
        // large sizes
        3 => {
            let nk = 1 + g.r.below(8);
            for _ in 0..3 + g.r.below(12) {
                let i = g.r.below(nk);
                if g.r.pct(65) {
                    let len = if g.r.pct(80) { 880 + g.r.below(5000) } else { g.r.below(900) };
                    g.push(Op::new(Put).f(5).k(K(0, i as u32)).v(V(len as u32, g.r.clone().below(1000) as u32)));
                } else {
                    g.push(Op::new(Del).f(5).k(K(0, i as u32)));
                }
            }
        }
        // a long list of free pieces of different large sizes
        4 if g.r.pct(40) => {
            let n = 20 + g.r.below(180) as u32;
            let step = *g.r.pick(&[128u32, 128, 256, 1000]).min(&(30_000 / n));
            let order = g.r.below(4);
            let at = |i: u32, o: u64| if o & 1 == 0 { i } else { n - 1 - i };
            for i in 0..n {
                let i = at(i, order);
                g.push(Op::new(Put).f(5).k(K(0, i)).v(V(900 + i * step, i)));
            }
            for i in 0..n {
                let i = at(i, order >> 1);
                g.push(Op::new(Del).f(5).k(K(0, i)));
            }
            // a far larger one
            let far = g.r.clone().pct(30);
            if far {
                let len = 66_000 + g.r.clone().below(300_000) as u32;
                g.push(Op::new(Put).f(5).k(K(0, n)).v(V(len, n)));
                g.push(Op::new(Del).f(5).k(K(0, n)));
            }
            let mut o = Op::new(Reuse).f(5).a(g.r.below(1 << 20));
            if far {
                // all but the larger ones are in use
                for i in 0..n {
                    g.push(Op::new(Put).f(5).k(K(0, i)).v(V(900 + i * step, i)));
                }
                o = o.k(K(0, n + 1)).v(V(900 + step, 1));
            }
            for _ in 0..1 + g.r.below(3) {
                let i = at(g.r.below(3) as u32, g.r.clone().below(2)).min(n - 1);
                o = o.k(K(0, i)).v(V(900 + i * step, 1));
            }
            let ks: Vec<K> = o.keys.clone();
            g.push(o);
            for k in ks {
                g.push(Op::new(Del).f(5).k(k));
            }
        }
        // any
        _ => {
            let n = 5 + g.r.below(60);
            g.hist(n, &[(Put, 60), (PutR, 1), (DelR, 2), (BPut, 1), (BDel, 2), (Reuse, 1)]);
        }
    }
    if g.r.pct(30) {
        let mode = g.r.below(8);
        g.reopen(mode, 0, false);
    }
    let mut cyc = std::mem::take(&mut g.ops);
    for o in cyc.iter_mut() {
        for v in o.vals.iter_mut() {
            if v.0 > 1 << 20 {
                v.0 = (1 << 18) + v.0 % 4096;
            }
        }
    }
    let mut c = g.done(prop);
    c.ops = pre;
    c.cyc = cyc;
    c.reps = reps as u32;
    c
}

/// whether the case exercised what the property is about
pub fn nontrivial(prop: &str, c: &crate::exec::Counters) -> bool {
    let g = |k: &str| c.get(k).copied().unwrap_or(0);
    let upd = g("insert") + g("overwrite") + g("delete-hit");
    match prop {
        "C01" => upd >= 10 && g("delete-hit") > 0 && g("overwrite") > 0 && g("get-hit") > 0,
        "C02" => g("reopen") >= 2 && g("reopen-unflushed") >= 1 && upd >= 5,
        "C03" => g("snap-flush") + g("snap-sync") >= 2 && upd >= 5,
        "C04" => g("iter") + g("iter2") >= 3 && (g("iter-deep") > 0 || g("iter-empty") > 0),
        "C05" => g("check-depth2") >= 2 || g("bad-tree") > 0,
        "C06" => g("htx-collision") > 0 && g("get-hit") > 0 && g("delete-hit") > 0,
        "C07" => g("bulk") >= 5 && g("bulk-repeat") > 0 && g("bulk-unsorted") > 0,
        "C08" => g("reopen") > 0 && upd >= 20,
        "C09" => g("handle") > 0 && upd >= 20,
        "C10" => g("wrong-open") + g("wrong-closed") + g("wrong-foreign") > 0 && upd > 0,
        "C11" => g("fsck-free") + g("fsck-free-node") >= 2,
        "C12" => g("cycles") >= 20 && upd >= 40,
        "C13" => upd >= 20 && g("get-hit") > 0 && g("delete-hit") > 0,
        "C14" => g("pure") > 0 && upd >= 5,
        "C15" => g("stats") >= 2 && (g("stats-depth2") > 0 || g("stats-free") > 0),
        "C16" => g("fault-fired") > 0 && upd >= 5,
        "C17" => g("iter-mut") > 0 && upd >= 20,
        "C18" => g("conv") >= 10 && g("conv-pair") >= 10,
        "C20" => g("fsck") >= 2 && upd >= 5,
        "C21" => g("gap") > 0 && upd >= 10,
        "C19" => upd >= 20 && g("get-hit") > 0 && g("delete-hit") > 0 && g("check") > 0 && g("reopen") > 0,
        "C23" => g("fault-fired") > 0,
        "C22" => g("fault-fired") > 0 && g("obstacle") + g("other-path") + g("new-dir") > 0 && upd > 0,
        _ => false,
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "at least 10 updates with an overwrite, a delete that hits and a get that hits",
        "C02" => "at least 2 reopenings, one of them without flush or sync, and at least 5 updates",
        "C03" => "at least 2 snapshots after a flush or sync compared with the model, and at least 5 updates",
        "C04" => "at least 3 iterations, one over more than one node or over an empty map",
        "C05" => "at least 2 checks of a tree of depth 2 or more, or a malformed index judged by the self-checks",
        "C06" => "colliding or missing hash table entries at a check, gets and deletes that hit",
        "C07" => "at least 5 bulk calls, one with a repeated key and one out of order",
        "C08" => "at least one reopening under other buffer parameters and at least 20 updates",
        "C09" => "a second handle on a map, several maps, at least 20 updates",
        "C10" => "at least one attempt under another type or with a foreign file on a map with updates",
        "C11" => "at least 2 complete accountings of files that have free pieces",
        "C12" => "at least 20 repetitions of the cycle and at least 40 updates",
        "C13" => "at least 20 updates with gets and deletes that hit, file and memory map side by side",
        "C14" => "a block of reading calls between two byte-wise images, at least 5 updates before",
        "C15" => "at least 2 comparisons of all statistics, one with free pieces or more than one node",
        "C16" => "a fault fired in a flush or sync of a map with at least 5 updates",
        "C17" => "iterators kept over at least 20 updates",
        "C18" => "at least 10 keys and 10 pairs of keys in all conversion forms",
        "C20" => "at least 2 readings of the files by the independent decoder and at least 5 updates",
        "C21" => "a file extended past another size boundary and at least 10 updates",
        "C19" => "at least 20 updates with gets and deletes that hit, the self-checks, and a reopening",
        "C23" => "at least one failing system call in a put or delete",
        "C22" => "at least one opening with a failing system call and one with an obstacle, by another path or in a new directory",
        _ => "",
    }
}
