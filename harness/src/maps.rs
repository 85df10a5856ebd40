//! One interface over all kinds of maps, in all call forms.
use crate::case::{Buf, Kt};
use siamesedb::filedb::{CheckFileDbMap, FileBufSizeParam, FileDb, FileDbMap, FileDbParams};
use siamesedb::{DbBytes, DbInt, DbMap, DbMapKeyType, DbString, DbXxx};
use std::io::Result;

pub trait KeyT:
    DbMapKeyType
    + std::fmt::Debug
    + std::fmt::Display
    + std::ops::Deref<Target = [u8]>
    + std::hash::Hash
    + From<Vec<u8>>
    + From<String>
    + From<u64>
    + for<'a> From<&'a str>
    + for<'a> From<&'a String>
    + for<'a> From<&'a [u8]>
    + for<'a> From<&'a u64>
    + for<'a> From<&'a [u8; 8]>
    + for<'a> From<&'a Self>
    + 'static
{
    const KT: Kt;
}
impl KeyT for DbString {
    const KT: Kt = Kt::Str;
}
impl KeyT for DbInt {
    const KT: Kt = Kt::Int;
}
impl KeyT for DbBytes {
    const KT: Kt = Kt::Bytes;
}

pub const FORMS: u64 = 8;
pub const BFORMS: u64 = 6;
pub const ITER_FORMS: u64 = 5;
/// forms that return text (lossy)
pub fn is_text_form(form: u8) -> bool {
    form % FORMS as u8 == 2
}
pub fn is_text_bform(form: u8) -> bool {
    let f = form % BFORMS as u8;
    f == 2 || f == 5
}

fn arr8(k: &[u8]) -> Option<[u8; 8]> {
    k.try_into().ok()
}

type Opt = Option<Vec<u8>>;
fn st(o: Option<String>) -> Opt {
    o.map(|s| s.into_bytes())
}

pub fn get_any<KT: KeyT, M: DbXxx<KT>>(m: &mut M, form: u8, k: &[u8]) -> Result<Opt> {
    let utf = std::str::from_utf8(k).ok();
    match form % FORMS as u8 {
        0 => {
            if KT::KT == Kt::Int {
                if let Some(a) = arr8(k) {
                    return m.get(&u64::from_be_bytes(a));
                }
            }
            match utf {
                Some(s) => m.get(s),
                None => m.get(k),
            }
        }
        1 => m.get(&KT::from(k)),
        2 => {
            if KT::KT == Kt::Int {
                if let Some(a) = arr8(k) {
                    return m.get_string(&u64::from_be_bytes(a)).map(st);
                }
            }
            match utf {
                Some(s) => m.get_string(s).map(st),
                None => m.get_string(k).map(st),
            }
        }
        3 => m.get_kt(&KT::from(k.to_vec())),
        4 => match utf {
            Some(s) => m.get(&s.to_string()),
            None => m.get(k),
        },
        5 => m.get(k),
        6 => match arr8(k) {
            Some(a) => m.get(&a),
            None => m.get(&KT::from(k.to_vec())),
        },
        _ => match arr8(k) {
            Some(a) => m.get(&u64::from_be_bytes(a)),
            None => m.get_kt(&KT::from_bytes(k)),
        },
    }
}

pub fn put_any<KT: KeyT, M: DbXxx<KT>>(m: &mut M, form: u8, k: &[u8], v: &[u8]) -> Result<()> {
    let utf = std::str::from_utf8(k).ok();
    match form % FORMS as u8 {
        0 => {
            if KT::KT == Kt::Int {
                if let Some(a) = arr8(k) {
                    return m.put(&u64::from_be_bytes(a), v);
                }
            }
            match utf {
                Some(s) => m.put(s, v),
                None => m.put(k, v),
            }
        }
        1 => m.put(&KT::from(k), v),
        2 => {
            let vs = match std::str::from_utf8(v) {
                Ok(s) => s,
                Err(_) => return m.put(k, v),
            };
            if KT::KT == Kt::Int {
                if let Some(a) = arr8(k) {
                    return m.put_string(&u64::from_be_bytes(a), vs);
                }
            }
            match utf {
                Some(s) => m.put_string(s, vs),
                None => m.put_string(k, vs),
            }
        }
        3 => m.put_kt(&KT::from(k.to_vec()), v),
        4 => match utf {
            Some(s) => m.put(&s.to_string(), v),
            None => m.put(k, v),
        },
        5 => m.put(k, v),
        6 => match arr8(k) {
            Some(a) => m.put(&a, v),
            None => m.put(&KT::from(k.to_vec()), v),
        },
        _ => match arr8(k) {
            Some(a) => m.put(&u64::from_be_bytes(a), v),
            None => m.put_kt(&KT::from_bytes(k), v),
        },
    }
}

pub fn del_any<KT: KeyT, M: DbXxx<KT>>(m: &mut M, form: u8, k: &[u8]) -> Result<Opt> {
    let utf = std::str::from_utf8(k).ok();
    match form % FORMS as u8 {
        0 => {
            if KT::KT == Kt::Int {
                if let Some(a) = arr8(k) {
                    return m.delete(&u64::from_be_bytes(a));
                }
            }
            match utf {
                Some(s) => m.delete(s),
                None => m.delete(k),
            }
        }
        1 => m.delete(&KT::from(k)),
        2 => {
            if KT::KT == Kt::Int {
                if let Some(a) = arr8(k) {
                    return m.delete_string(&u64::from_be_bytes(a)).map(st);
                }
            }
            match utf {
                Some(s) => m.delete_string(s).map(st),
                None => m.delete_string(k).map(st),
            }
        }
        3 => m.del_kt(&KT::from(k.to_vec())),
        4 => match utf {
            Some(s) => m.delete(&s.to_string()),
            None => m.delete(k),
        },
        5 => m.delete(k),
        6 => match arr8(k) {
            Some(a) => m.delete(&a),
            None => m.delete(&KT::from(k.to_vec())),
        },
        _ => match arr8(k) {
            Some(a) => m.delete(&u64::from_be_bytes(a)),
            None => m.del_kt(&KT::from_bytes(k)),
        },
    }
}

/// the same call on a list of keys converted to one of the key forms
macro_rules! with_keys {
    ($KT:ty, $form:expr, $keys:expr, $qs:ident => $body:expr) => {{
        let keys: &[Vec<u8>] = $keys;
        let f = $form % 3;
        let ints: Option<Vec<u64>> = if <$KT>::KT == Kt::Int && f != 1 {
            keys.iter().map(|k| arr8(k).map(u64::from_be_bytes)).collect()
        } else {
            None
        };
        let strs: Option<Vec<&str>> = keys.iter().map(|k| std::str::from_utf8(k).ok()).collect();
        if let Some(v) = &ints {
            let $qs: Vec<&u64> = v.iter().collect();
            $body
        } else if f == 1 {
            let v: Vec<$KT> = keys.iter().map(|k| <$KT>::from(k.as_slice())).collect();
            let $qs: Vec<&$KT> = v.iter().collect();
            $body
        } else if let Some(v) = strs {
            let $qs: Vec<&str> = v;
            $body
        } else {
            let $qs: Vec<&[u8]> = keys.iter().map(|k| k.as_slice()).collect();
            $body
        }
    }};
}

pub fn bget_any<KT: KeyT, M: DbXxx<KT>>(m: &mut M, form: u8, keys: &[Vec<u8>]) -> Result<Vec<Opt>> {
    if is_text_bform(form) {
        with_keys!(KT, form, keys, q => m.bulk_get_string(&q).map(|v| v.into_iter().map(st).collect()))
    } else {
        with_keys!(KT, form, keys, q => m.bulk_get(&q))
    }
}

pub fn bdel_any<KT: KeyT, M: DbXxx<KT>>(m: &mut M, form: u8, keys: &[Vec<u8>]) -> Result<Vec<Opt>> {
    if is_text_bform(form) {
        with_keys!(KT, form, keys, q => m.bulk_delete_string(&q).map(|v| v.into_iter().map(st).collect()))
    } else {
        with_keys!(KT, form, keys, q => m.bulk_delete(&q))
    }
}

/// the value itself when it is UTF-8, otherwise ASCII text of its length
pub fn text_of(v: Vec<u8>) -> Vec<u8> {
    if std::str::from_utf8(&v).is_ok() {
        v
    } else {
        v.into_iter().map(|b| b & 0x7f).collect()
    }
}

pub fn bput_any<KT: KeyT, M: DbXxx<KT>>(
    m: &mut M,
    form: u8,
    keys: &[Vec<u8>],
    vals: &[Vec<u8>],
) -> Result<()> {
    let texts: Option<Vec<String>> = if is_text_bform(form) {
        vals.iter().map(|v| String::from_utf8(v.clone()).ok()).collect()
    } else {
        None
    };
    if let Some(t) = texts {
        with_keys!(KT, form, keys, q => {
            let l: Vec<_> = q.into_iter().zip(t.into_iter()).collect();
            m.bulk_put_string(&l)
        })
    } else {
        with_keys!(KT, form, keys, q => {
            let l: Vec<_> = q.into_iter().zip(vals.iter().map(|v| v.as_slice())).collect();
            m.bulk_put(&l)
        })
    }
}

pub type PairIter = Box<dyn Iterator<Item = (Vec<u8>, Vec<u8>)>>;

pub trait DynMap {
    fn get(&mut self, form: u8, k: &[u8]) -> Result<Opt>;
    fn put(&mut self, form: u8, k: &[u8], v: &[u8]) -> Result<()>;
    fn del(&mut self, form: u8, k: &[u8]) -> Result<Opt>;
    fn bget(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Opt>>;
    fn bput(&mut self, form: u8, k: &[Vec<u8>], v: &[Vec<u8>]) -> Result<()>;
    fn bdel(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Opt>>;
    fn fill(&mut self) -> Result<()>;
    fn flush(&mut self) -> Result<()>;
    fn sync_all(&mut self) -> Result<()>;
    fn sync_data(&mut self) -> Result<()>;
    fn boxed_clone(&self) -> Box<dyn DynMap>;
    /// file maps only
    fn iter(&mut self, form: u8) -> PairIter;
    fn dirty(&self) -> bool;
    fn check(&self) -> &dyn CheckFileDbMap;
}

struct FMap<KT: KeyT>(FileDbMap<KT>);

impl<KT: KeyT> DynMap for FMap<KT> {
    fn get(&mut self, form: u8, k: &[u8]) -> Result<Opt> {
        get_any::<KT, _>(&mut self.0, form, k)
    }
    fn put(&mut self, form: u8, k: &[u8], v: &[u8]) -> Result<()> {
        put_any::<KT, _>(&mut self.0, form, k, v)
    }
    fn del(&mut self, form: u8, k: &[u8]) -> Result<Opt> {
        del_any::<KT, _>(&mut self.0, form, k)
    }
    fn bget(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Opt>> {
        bget_any::<KT, _>(&mut self.0, form, k)
    }
    fn bput(&mut self, form: u8, k: &[Vec<u8>], v: &[Vec<u8>]) -> Result<()> {
        bput_any::<KT, _>(&mut self.0, form, k, v)
    }
    fn bdel(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Opt>> {
        bdel_any::<KT, _>(&mut self.0, form, k)
    }
    fn fill(&mut self) -> Result<()> {
        siamesedb::DbXxxBase::read_fill_buffer(&mut self.0)
    }
    fn flush(&mut self) -> Result<()> {
        siamesedb::DbXxxBase::flush(&mut self.0)
    }
    fn sync_all(&mut self) -> Result<()> {
        siamesedb::DbXxxBase::sync_all(&mut self.0)
    }
    fn sync_data(&mut self) -> Result<()> {
        siamesedb::DbXxxBase::sync_data(&mut self.0)
    }
    fn boxed_clone(&self) -> Box<dyn DynMap> {
        Box::new(FMap(self.0.clone()))
    }
    fn iter(&mut self, form: u8) -> PairIter {
        fn conv<KT: KeyT>((k, v): (KT, Vec<u8>)) -> (Vec<u8>, Vec<u8>) {
            (k.as_bytes().to_vec(), v)
        }
        match form % ITER_FORMS as u8 {
            0 => Box::new(self.0.iter().map(conv)),
            1 => Box::new(self.0.iter_mut().map(conv)),
            2 => Box::new((&self.0).into_iter().map(conv)),
            3 => Box::new((&mut self.0).into_iter().map(conv)),
            _ => Box::new(self.0.clone().into_iter().map(conv)),
        }
    }
    fn dirty(&self) -> bool {
        self.0.is_dirty()
    }
    fn check(&self) -> &dyn CheckFileDbMap {
        &self.0
    }
}

fn buf_param(b: Buf) -> FileBufSizeParam {
    match b {
        Buf::Auto => FileBufSizeParam::Auto,
        Buf::Pm(a) => FileBufSizeParam::PerMille(a),
        Buf::Size(a) => FileBufSizeParam::Size(a),
    }
}

pub fn open_file_map(db: &FileDb, kt: Kt, name: &str, bufs: Option<[Buf; 4]>) -> Result<Box<dyn DynMap>> {
    Ok(match bufs {
        None => match kt {
            Kt::Str => Box::new(FMap(db.db_map_string(name)?)),
            Kt::Int => Box::new(FMap(db.db_map_int(name)?)),
            Kt::Bytes => Box::new(FMap(db.db_map_bytes(name)?)),
        },
        Some(b) => {
            let p = FileDbParams {
                val_buf_size: buf_param(b[0]),
                key_buf_size: buf_param(b[1]),
                idx_buf_size: buf_param(b[2]),
                htx_buf_size: buf_param(b[3]),
            };
            match kt {
                Kt::Str => Box::new(FMap(db.db_map_string_with_params(name, p)?)),
                Kt::Int => Box::new(FMap(db.db_map_int_with_params(name, p)?)),
                Kt::Bytes => Box::new(FMap(db.db_map_bytes_with_params(name, p)?)),
            }
        }
    })
}

struct MMap<KT: KeyT, M: DbXxx<KT> + Clone + 'static>(M, std::marker::PhantomData<KT>);

impl<KT: KeyT, M: DbXxx<KT> + Clone + 'static> DynMap for MMap<KT, M> {
    fn get(&mut self, form: u8, k: &[u8]) -> Result<Opt> {
        get_any::<KT, _>(&mut self.0, form, k)
    }
    fn put(&mut self, form: u8, k: &[u8], v: &[u8]) -> Result<()> {
        put_any::<KT, _>(&mut self.0, form, k, v)
    }
    fn del(&mut self, form: u8, k: &[u8]) -> Result<Opt> {
        del_any::<KT, _>(&mut self.0, form, k)
    }
    fn bget(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Opt>> {
        bget_any::<KT, _>(&mut self.0, form, k)
    }
    fn bput(&mut self, form: u8, k: &[Vec<u8>], v: &[Vec<u8>]) -> Result<()> {
        bput_any::<KT, _>(&mut self.0, form, k, v)
    }
    fn bdel(&mut self, form: u8, k: &[Vec<u8>]) -> Result<Vec<Opt>> {
        bdel_any::<KT, _>(&mut self.0, form, k)
    }
    fn fill(&mut self) -> Result<()> {
        self.0.read_fill_buffer()
    }
    fn flush(&mut self) -> Result<()> {
        self.0.flush()
    }
    fn sync_all(&mut self) -> Result<()> {
        self.0.sync_all()
    }
    fn sync_data(&mut self) -> Result<()> {
        self.0.sync_data()
    }
    fn boxed_clone(&self) -> Box<dyn DynMap> {
        Box::new(MMap(self.0.clone(), std::marker::PhantomData))
    }
    fn iter(&mut self, _form: u8) -> PairIter {
        Box::new(std::iter::empty())
    }
    fn dirty(&self) -> bool {
        false
    }
    fn check(&self) -> &dyn CheckFileDbMap {
        unreachable!()
    }
}

pub fn open_mem_map(db: &'static siamesedb::memdb::MemoryDb<'static>, kt: Kt, name: &str) -> Box<dyn DynMap> {
    match kt {
        Kt::Str => Box::new(MMap::<DbString, _>(db.db_map_string(name), std::marker::PhantomData)),
        Kt::Int => Box::new(MMap::<DbInt, _>(db.db_map_dbint(name), std::marker::PhantomData)),
        Kt::Bytes => Box::new(MMap::<DbBytes, _>(db.db_map_bytes(name), std::marker::PhantomData)),
    }
}
