use std::os::fd::AsRawFd;
use std::os::unix::fs::FileExt;
use std::path::Path;

/// data extents of a (sparse) file
pub fn extents(f: &std::fs::File, len: u64) -> Result<Vec<(u64, Vec<u8>)>, String> {
    let fd = f.as_raw_fd();
    let mut out = vec![];
    let mut pos: i64 = 0;
    while (pos as u64) < len {
        let a = unsafe { libc::lseek(fd, pos, libc::SEEK_DATA) };
        if a < 0 {
            break;
        }
        let mut b = unsafe { libc::lseek(fd, a, libc::SEEK_HOLE) };
        if b < 0 {
            b = len as i64;
        }
        let b = (b as u64).min(len);
        let mut v = vec![0u8; (b - a as u64) as usize];
        f.read_exact_at(&mut v, a as u64)
            .map_err(|e| format!("HARNESS: read {}", e))?;
        out.push((a as u64, v));
        pos = b as i64;
    }
    Ok(out)
}

/// content of a file as length and non-zero pages, for exact comparison
#[derive(Clone, PartialEq, Eq, Default, Debug)]
pub struct Image {
    pub len: u64,
    pub pages: Vec<(u64, Vec<u8>)>,
}

impl Image {
    pub fn of(p: &Path) -> Result<Image, String> {
        let f = std::fs::File::open(p).map_err(|e| format!("HARNESS: open {:?}: {}", p, e))?;
        Image::of_file(&f)
    }
    pub fn of_file(f: &std::fs::File) -> Result<Image, String> {
        let len = f.metadata().map_err(|e| format!("HARNESS: {}", e))?.len();
        let mut pages = vec![];
        for (a, data) in extents(f, len)? {
            for (i, c) in data.chunks(4096).enumerate() {
                if c.iter().any(|&b| b != 0) {
                    pages.push((a + 4096 * i as u64, c.to_vec()));
                }
            }
        }
        Ok(Image { len, pages })
    }
    pub fn write(&self, p: &Path) -> Result<(), String> {
        let w = || -> std::io::Result<()> {
            let f = std::fs::File::create(p)?;
            f.set_len(self.len)?;
            for (a, d) in &self.pages {
                f.write_all_at(d, *a)?;
            }
            Ok(())
        };
        w().map_err(|e| format!("HARNESS: write {:?}: {}", p, e))
    }
}

/// images of all files of a directory
pub fn dir_images(dir: &Path) -> Result<std::collections::BTreeMap<String, Image>, String> {
    let mut m = std::collections::BTreeMap::new();
    for e in std::fs::read_dir(dir).map_err(|e| format!("HARNESS: {}", e))? {
        let e = e.map_err(|e| format!("HARNESS: {}", e))?;
        if e.path().is_file() {
            m.insert(e.file_name().to_string_lossy().to_string(), Image::of(&e.path())?);
        }
    }
    Ok(m)
}

pub fn diff_images(
    a: &std::collections::BTreeMap<String, Image>,
    b: &std::collections::BTreeMap<String, Image>,
) -> Option<String> {
    for (n, x) in a {
        match b.get(n) {
            None => return Some(format!("file {} is gone", n)),
            Some(y) if x != y => {
                let mut at = String::new();
                for p in x.pages.iter().chain(y.pages.iter()) {
                    let xa = x.pages.iter().find(|q| q.0 == p.0);
                    let ya = y.pages.iter().find(|q| q.0 == p.0);
                    if xa != ya {
                        let e: Vec<u8> = vec![];
                        let xv = xa.map_or(&e, |q| &q.1);
                        let yv = ya.map_or(&e, |q| &q.1);
                        let i = (0..xv.len().max(yv.len()))
                            .find(|&i| xv.get(i).unwrap_or(&0) != yv.get(i).unwrap_or(&0))
                            .unwrap_or(0);
                        at = format!(", first difference at {}", p.0 + i as u64);
                        break;
                    }
                }
                return Some(format!("file {} changed (length {} to {}{})", n, x.len, y.len, at));
            }
            _ => {}
        }
    }
    for n in b.keys() {
        if !a.contains_key(n) {
            return Some(format!("file {} appeared", n));
        }
    }
    None
}
