//! A test case: configuration and operations, and its text form (the replay file).
use crate::rng::mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kt {
    Str,
    Int,
    Bytes,
}
pub const KTS: [Kt; 3] = [Kt::Str, Kt::Int, Kt::Bytes];

impl Kt {
    pub fn name(self) -> &'static str {
        match self {
            Kt::Str => "str",
            Kt::Int => "int",
            Kt::Bytes => "bytes",
        }
    }
    pub fn idx(self) -> usize {
        self as usize
    }
    /// the documented signature of the type
    pub fn sig(self) -> &'static [u8; 8] {
        match self {
            Kt::Str => b"string\0\0",
            Kt::Int => b"uint64\0\0",
            Kt::Bytes => b"bytes\0\0\0",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Buf {
    Auto,
    Pm(u16),
    Size(u32),
}

impl Buf {
    pub fn enc(self) -> u32 {
        match self {
            Buf::Auto => 0,
            Buf::Pm(a) => 0x4000_0000 | a as u32,
            // the sizes of 2^30 or more end in two 1 bits
            Buf::Size(a) if a >= 1 << 30 => 0xC000_0000 | a >> 2,
            Buf::Size(a) => 0x8000_0000 | a,
        }
    }
    pub fn dec(a: u32) -> Buf {
        if a & 0xC000_0000 == 0xC000_0000 {
            Buf::Size((a & 0x3FFF_FFFF) << 2 | 3)
        } else if a & 0x8000_0000 != 0 {
            Buf::Size(a & 0x7FFF_FFFF)
        } else if a & 0x4000_0000 != 0 {
            Buf::Pm(a as u16)
        } else {
            Buf::Auto
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MapCfg {
    pub name: String,
    pub kt: Kt,
    /// size of the hash table, 0: as the library makes it (16M slots)
    pub ht: u64,
    /// val, key, idx, htx; None: the default parameters
    pub bufs: Option<[Buf; 4]>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct K(pub u8, pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct V(pub u32, pub u32);

macro_rules! kinds {
    ($($id:ident = $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        pub enum Kind { $($id),* }
        impl Kind {
            pub fn name(self) -> &'static str { match self { $(Kind::$id => $s),* } }
            pub fn parse(s: &str) -> Option<Kind> { match s { $($s => Some(Kind::$id),)* _ => None } }
        }
    };
}

kinds! {
    Put = "put", Get = "get", Del = "del",
    BGet = "bget", BPut = "bput", BDel = "bdel",
    // ranges of keys: args count, order, length step
    PutR = "putr", DelR = "delr", GetR = "getr",
    // iteration: form, args limit
    Iter = "iter",
    // iterators interleaved with each other and with reads
    Iter2 = "iter2",
    // iterators kept over mutations and drops (memory safety only)
    IterMut = "itermut",
    Flush = "flush", SyncAll = "syncall", SyncData = "syncdata",
    DbSyncAll = "dbsyncall", DbSyncData = "dbsyncdata",
    Fill = "fill",
    // self-checks of the library against an independent reading of the files, args mask
    Check = "check",
    Fsck = "fsck",
    Stats = "stats",
    // compare all keys with the model by get
    Sweep = "sweep",
    // put of a value that is too long for the files: args bytes above 2^32 - 8
    Huge = "huge",
    CloneH = "clone", Again = "again", DropH = "droph",
    // close and open: args mode, then 4 buffer codes per map
    Reopen = "reopen",
    // close, change the hash table file, open: args mode, parameter
    Htx = "htx",
    // flush/sync and check what is in the files or on stable storage, form as to the call
    Snap = "snap",
    // fault in a flush/sync, form as to the call, args: syscall class, skip, times, errno
    Fault = "fault",
    // a fault at every call of an action in turn (in forked copies of the process),
    // args: action, classes of calls, times, errno, parameter
    FaultAll = "faultall",
    // opening by other paths, with obstacles: args variant, parameters
    Obst = "obst",
    // read only operations with a byte-wise comparison around: args mode
    Pure = "pure",
    // open with a wrong type / foreign file: args variant, ...
    Wrong = "wrong",
    // extend files by a hole: args file, MiB, 16-byte units
    Gap = "gap",
    // key conversions
    Conv = "conv",
    // use a database in another directory: args 1: leave it open
    Other = "other",
    // puts, each between two readings of the files: args seed
    Reuse = "reuse",
    // start from an image made by the independent encoder: args seed, keys, mode
    Image = "image",
    // self-checks on a malformed image: args seed, keys, mode with defect bits
    Bad = "bad",
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Op {
    pub kind: Kind,
    pub m: u8,
    pub h: u8,
    pub form: u8,
    pub keys: Vec<K>,
    pub vals: Vec<V>,
    pub args: Vec<u32>,
}

impl Op {
    pub fn new(kind: Kind) -> Op {
        Op {
            kind,
            m: 0,
            h: 0,
            form: 0,
            keys: vec![],
            vals: vec![],
            args: vec![],
        }
    }
    pub fn m(mut self, m: usize) -> Op {
        self.m = m as u8;
        self
    }
    pub fn h(mut self, h: usize) -> Op {
        self.h = h as u8;
        self
    }
    pub fn f(mut self, f: u64) -> Op {
        self.form = f as u8;
        self
    }
    pub fn k(mut self, k: K) -> Op {
        self.keys.push(k);
        self
    }
    pub fn v(mut self, v: V) -> Op {
        self.vals.push(v);
        self
    }
    pub fn a(mut self, a: u64) -> Op {
        self.args.push(a as u32);
        self
    }
    pub fn arg(&self, i: usize) -> u32 {
        self.args.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub maps: Vec<MapCfg>,
    /// run the same calls on a memory database too
    pub mem: bool,
    pub ops: Vec<Op>,
    /// repeated after `ops`
    pub cyc: Vec<Op>,
    pub reps: u32,
}

fn op_line(out: &mut String, tag: &str, o: &Op) {
    use std::fmt::Write;
    let _ = write!(out, "{} {} m{} h{} f{}", tag, o.kind.name(), o.m, o.h, o.form);
    for k in &o.keys {
        let _ = write!(out, " k{}.{}", k.0, k.1);
    }
    for v in &o.vals {
        let _ = write!(out, " v{}.{}", v.0, v.1);
    }
    for a in &o.args {
        let _ = write!(out, " a{}", a);
    }
    out.push('\n');
}

fn parse_op(toks: &[&str]) -> Result<Op, String> {
    let kind = Kind::parse(toks[0]).ok_or_else(|| format!("kind {}", toks[0]))?;
    let mut o = Op::new(kind);
    let two = |s: &str| -> Result<(u32, u32), String> {
        let (a, b) = s.split_once('.').ok_or("no dot")?;
        Ok((
            a.parse().map_err(|_| "number")?,
            b.parse().map_err(|_| "number")?,
        ))
    };
    for t in &toks[1..] {
        let r = &t[1..];
        match &t[..1] {
            "m" => o.m = r.parse().map_err(|_| "m")?,
            "h" => o.h = r.parse().map_err(|_| "h")?,
            "f" => o.form = r.parse().map_err(|_| "f")?,
            "k" => {
                let (a, b) = two(r)?;
                o.keys.push(K(a as u8, b));
            }
            "v" => {
                let (a, b) = two(r)?;
                o.vals.push(V(a, b));
            }
            "a" => o.args.push(r.parse().map_err(|_| "a")?),
            _ => return Err(format!("token {}", t)),
        }
    }
    Ok(o)
}

/// white space and '%' are written as %XX
fn name_enc(n: &str) -> String {
    let mut s = String::new();
    for c in n.chars() {
        if c.is_whitespace() || c == '%' {
            s.push_str(&format!("%{:02x}", c as u32));
        } else {
            s.push(c);
        }
    }
    s
}

fn name_dec(t: &str) -> Result<String, String> {
    let mut s = String::new();
    let mut i = t.chars();
    while let Some(c) = i.next() {
        if c == '%' {
            let h: String = i.by_ref().take(2).collect();
            s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("name")?);
        } else {
            s.push(c);
        }
    }
    Ok(s)
}

impl Case {
    pub fn to_text(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "mem {}", self.mem as u8);
        let _ = writeln!(s, "reps {}", self.reps);
        for m in &self.maps {
            let _ = write!(s, "map {} {} {}", m.kt.name(), m.ht, name_enc(&m.name));
            if let Some(b) = &m.bufs {
                for x in b {
                    let _ = write!(s, " {}", x.enc());
                }
            }
            s.push('\n');
        }
        for o in &self.ops {
            op_line(&mut s, "op", o);
        }
        for o in &self.cyc {
            op_line(&mut s, "cyc", o);
        }
        s
    }
    pub fn parse(s: &str) -> Result<Case, String> {
        let mut c = Case::default();
        for line in s.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let t: Vec<&str> = line.split_whitespace().collect();
            match t[0] {
                "prop" => c.prop = t[1].to_string(),
                "mem" => c.mem = t[1] == "1",
                "reps" => c.reps = t[1].parse().map_err(|_| "reps")?,
                "map" => {
                    let kt = *KTS
                        .iter()
                        .find(|k| k.name() == t[1])
                        .ok_or("key type")?;
                    let bufs = if t.len() >= 8 {
                        let mut b = [Buf::Auto; 4];
                        for i in 0..4 {
                            b[i] = Buf::dec(t[4 + i].parse().map_err(|_| "buf")?);
                        }
                        Some(b)
                    } else {
                        None
                    };
                    c.maps.push(MapCfg {
                        name: name_dec(t[3])?,
                        kt,
                        ht: t[2].parse().map_err(|_| "ht")?,
                        bufs,
                    });
                }
                "op" => c.ops.push(parse_op(&t[1..])?),
                "cyc" => c.cyc.push(parse_op(&t[1..])?),
                _ => return Err(format!("line {}", line)),
            }
        }
        Ok(c)
    }
}

// the piece sizes below the large ones
pub const CLASSES: [u32; 15] = [
    16, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896,
];

fn pad(mut s: Vec<u8>, len: usize) -> Vec<u8> {
    let mut i = 0u8;
    while s.len() < len {
        s.push(b'a' + i % 26);
        i = i.wrapping_add(7);
    }
    s
}

/// bytes of a key
/// one step of the library's hasher
pub fn hash_step(a: u64) -> u64 {
    let mut x = a;
    x ^= x >> 12;
    x ^= x << 25;
    x ^= x >> 27;
    x
}

/// member of a family of 16-byte keys (text) that all have the same 64-bit hash value
fn hash_family(fam: u32, member: u32) -> Vec<u8> {
    const ASCII: u64 = 0x7f7f_7f7f_7f7f_7f7f;
    let s0 = hash_step(16);
    let a0 = mix(fam as u64 * 2 + 1) & ASCII;
    let sum = hash_step(s0.wrapping_add(a0)).wrapping_add(mix(fam as u64 * 2) & ASCII);
    let mut r = mix((fam as u64) << 32 | member as u64);
    loop {
        let a = r & ASCII;
        let b = sum.wrapping_sub(hash_step(s0.wrapping_add(a)));
        if b & !ASCII == 0 {
            let mut v = a.to_le_bytes().to_vec();
            v.extend_from_slice(&b.to_le_bytes());
            return v;
        }
        r = mix(r.wrapping_add(1));
    }
}

pub fn key_bytes(kt: Kt, k: K) -> Vec<u8> {
    let n = k.1;
    if kt == Kt::Int {
        let n = n as u64;
        let v: u64 = match k.0 % 11 {
            10 => 0x5a00_0000_0000_005a | n << 24,
            8 => n << 24,
            9 => n / 2 * 512 + n % 2,
            0 => n,
            1 => mix(n),
            2 => (1u64 << (n % 64)).wrapping_add(n / 64).wrapping_sub(2),
            3 => u64::MAX - n,
            4 => n * 256,
            5 => n << 32,
            6 => 0xff00_0000_0000_0000 | n,
            _ => n.swap_bytes(),
        };
        return v.to_be_bytes().to_vec();
    }
    match k.0 % 11 {
        10 => {
            // equally long keys that differ in single bits in the middle only
            const P: [usize; 8] = [0, 8, 16, 32, 64, 128, 600, 2050];
            let p = vec![b'='; P[(n / 256) as usize % 8]];
            let mid = (0..8).map(|i| b'a' + i - ((n >> i & 1) as u8) * 32);
            let over = format!("{:03}", n / 2048);
            p.iter().copied().chain(mid).chain(over.bytes()).chain(p.iter().copied()).collect()
        }
        8 => hash_family(n / 64, n % 64),
        9 => {
            // equally long keys that differ only at their end
            const P: [usize; 12] = [7, 8, 15, 31, 32, 63, 127, 255, 256, 1023, 2050, 4100];
            let mut v = vec![b'='; P[(n / 64) as usize % 12]];
            v.extend_from_slice(format!("{:03}", n % 64 + n / 768 * 64).as_bytes());
            v
        }
        0 => format!("k{:04}", n).into_bytes(),
        1 => format!("{:016x}", mix(n as u64)).into_bytes(),
        2 => {
            let mut v = vec![b'p'; (n % 400) as usize];
            let mut r = n / 400;
            while r > 0 {
                v.push(b'0' + (r % 10) as u8);
                r /= 10;
            }
            v
        }
        3 => {
            let mut v = vec![];
            let mut r = n;
            if kt == Kt::Str {
                const A: [&str; 5] = ["a", "é", "日", "\0", "~"];
                // bijective base 5, so that all are different
                while r > 0 {
                    r -= 1;
                    v.extend_from_slice(A[(r % 5) as usize].as_bytes());
                    r /= 5;
                }
            } else {
                // bijective base 256
                while r > 0 {
                    r -= 1;
                    v.push((r % 256) as u8);
                    r /= 256;
                }
            }
            v
        }
        4 => {
            let c = CLASSES[(n as usize / 3) % CLASSES.len()] as i64;
            let len = (c - 16 + (n % 3) as i64 - 1).max(0) as usize;
            pad(format!("c{}", n).into_bytes(), len)
        }
        5 => pad(
            format!("L{}:", n).into_bytes(),
            880 + (n as usize * 137) % 3000,
        ),
        6 => {
            let mut v = vec![0xff];
            v.extend_from_slice(&n.to_be_bytes());
            v
        }
        _ => pad(
            format!("X{}:", n).into_bytes(),
            [20_000, 50_011, 65_535, 65_536, 131_072, 16_384, 200_066, 1_100_000][n as usize % 8] + (n as usize / 8) % 5,
        ),
    }
}

/// bytes of a value: printable if the seed is even
pub fn val_bytes(v: V) -> Vec<u8> {
    let len = v.0 as usize;
    if v.1 >> 28 == 15 {
        // the values of a length, that differ in a single bit only
        let mut out = val_bytes(V(v.0, v.0 & 0xFFFF));
        if len > 0 {
            let z = mix(v.1 as u64);
            let at = match z % 4 {
                0 => 0,
                1 => len - 1,
                _ => (z >> 8) as usize % len,
            };
            out[at] ^= 1 << (z >> 4 & 7);
        }
        return out;
    }
    match v.1 % 32 {
        7 => return vec![0; len],
        9 => return vec![0xff; len],
        _ => {}
    }
    let mut out = Vec::with_capacity(len + 8);
    let mut s = mix(v.1 as u64 ^ 0x5555_0000_0000);
    while out.len() < len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let z = mix(s);
        out.extend_from_slice(&z.to_le_bytes());
    }
    out.truncate(len);
    if v.1 % 2 == 0 {
        for b in out.iter_mut() {
            *b = 32 + *b % 95;
        }
    }
    out
}

/// expansion of a range operation
pub fn range_items(o: &Op) -> Vec<(K, V)> {
    let k = o.keys.first().copied().unwrap_or(K(0, 0));
    let v = o.vals.first().copied().unwrap_or(V(8, 0));
    let count = o.arg(0) as u64;
    let order = o.arg(1);
    let step = o.arg(2);
    let mut out = Vec::with_capacity(count as usize);
    for i in 0..count {
        let j = match order % 4 {
            0 => i,
            1 => count - 1 - i,
            2 => {
                // from both ends
                if i % 2 == 0 {
                    i / 2
                } else {
                    count - 1 - i / 2
                }
            }
            _ => {
                // scattered: a multiplier coprime to any count below it, when the count is no multiple of it
                (i * 7919 + 13) % count
            }
        };
        let vl = v.0 + if step == 0 { 0 } else { ((j as u32).wrapping_mul(37)) % step };
        out.push((K(k.0, k.1.wrapping_add(j as u32)), V(vl, v.1.wrapping_add(i as u32))));
    }
    out
}
