//! The part of the lmdb-rs API linkspace-core uses, over the in-memory stand-in of liblmdb.
use lmdb_sys as ffi;
use std::marker::PhantomData;
use std::path::Path;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    KeyExist,
    NotFound,
    MapFull,
    BadValSize,
    Other(i32),
}
impl Error {
    pub fn from_err_code(c: i32) -> Error {
        match c {
            ffi::MDB_KEYEXIST => Error::KeyExist,
            ffi::MDB_NOTFOUND => Error::NotFound,
            ffi::MDB_MAP_FULL => Error::MapFull,
            ffi::MDB_BAD_VALSIZE => Error::BadValSize,
            o => Error::Other(o),
        }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "lmdb error {self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn lmdb_result(c: i32) -> Result<()> {
    if c == ffi::MDB_SUCCESS {
        Ok(())
    } else {
        Err(Error::from_err_code(c))
    }
}

macro_rules! flags {
    ($n:ident { $($k:ident = $v:expr),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct $n(u32);
        impl $n {
            $(pub const $k: $n = $n($v);)*
            pub const fn empty() -> $n { $n(0) }
            pub const fn bits(self) -> u32 { self.0 }
        }
        impl std::ops::BitOr for $n {
            type Output = $n;
            fn bitor(self, o: $n) -> $n { $n(self.0 | o.0) }
        }
    };
}
flags!(EnvironmentFlags { WRITE_MAP = 0x80000, NO_TLS = 0x200000 });
flags!(DatabaseFlags { DUP_SORT = ffi::MDB_DUPSORT, DUP_FIXED = ffi::MDB_DUPFIXED, INTEGER_KEY = ffi::MDB_INTEGERKEY });
flags!(WriteFlags { NO_OVERWRITE = ffi::MDB_NOOVERWRITE, NO_DUP_DATA = ffi::MDB_NODUPDATA, APPEND = ffi::MDB_APPEND });

pub struct EnvironmentBuilder {
    map_size: usize,
}
impl EnvironmentBuilder {
    pub fn set_max_dbs(&mut self, _n: u32) -> &mut Self {
        self
    }
    pub fn set_flags(&mut self, _f: EnvironmentFlags) -> &mut Self {
        self
    }
    pub fn set_map_size(&mut self, n: usize) -> &mut Self {
        self.map_size = n;
        self
    }
    pub fn open(&self, path: &Path) -> Result<Environment> {
        ffi::open_env(path, self.map_size).map(Environment).map_err(Error::from_err_code)
    }
}
pub struct Environment(*mut ffi::MDB_env);
unsafe impl Send for Environment {}
unsafe impl Sync for Environment {}
impl Drop for Environment {
    fn drop(&mut self) {
        unsafe { ffi::mdb_env_close(self.0) }
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Database(ffi::MDB_dbi);
impl Database {
    pub fn dbi(&self) -> ffi::MDB_dbi {
        self.0
    }
}
impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder {
        EnvironmentBuilder { map_size: 1 << 20 }
    }
    pub fn env(&self) -> *mut ffi::MDB_env {
        self.0
    }
    pub fn create_db(&self, name: Option<&str>, flags: DatabaseFlags) -> Result<Database> {
        unsafe { ffi::create_db(self.0, name.unwrap_or(""), flags.bits()) }.map(Database).map_err(Error::from_err_code)
    }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> {
        unsafe { ffi::begin(self.0, false) }.map(|t| RoTransaction(t, PhantomData)).map_err(Error::from_err_code)
    }
    pub fn begin_rw_txn(&self) -> Result<RwTransaction<'_>> {
        unsafe { ffi::begin(self.0, true) }.map(|t| RwTransaction(t, PhantomData)).map_err(Error::from_err_code)
    }
}

pub trait Transaction: Sized {
    fn txn(&self) -> *mut ffi::MDB_txn;
    fn commit(self) -> Result<()> {
        let t = self.txn();
        std::mem::forget(self);
        lmdb_result(unsafe { ffi::mdb_txn_commit(t) })
    }
    fn abort(self) {}
    fn open_ro_cursor(&self, db: Database) -> Result<RoCursor<'_>> {
        RoCursor::open(self.txn(), db)
    }
}
pub struct RoTransaction<'env>(*mut ffi::MDB_txn, PhantomData<&'env ()>);
pub struct InactiveTransaction<'env>(*mut ffi::MDB_txn, PhantomData<&'env ()>);
pub struct RwTransaction<'env>(*mut ffi::MDB_txn, PhantomData<&'env ()>);
impl<'env> Transaction for RoTransaction<'env> {
    fn txn(&self) -> *mut ffi::MDB_txn {
        self.0
    }
}
impl<'env> Transaction for RwTransaction<'env> {
    fn txn(&self) -> *mut ffi::MDB_txn {
        self.0
    }
}
impl<'env> Drop for RoTransaction<'env> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_txn_abort(self.0) }
    }
}
impl<'env> Drop for InactiveTransaction<'env> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_txn_abort(self.0) }
    }
}
impl<'env> Drop for RwTransaction<'env> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_txn_abort(self.0) }
    }
}
impl<'env> RoTransaction<'env> {
    pub fn reset(self) -> InactiveTransaction<'env> {
        let t = self.0;
        std::mem::forget(self);
        unsafe { ffi::mdb_txn_reset(t) };
        InactiveTransaction(t, PhantomData)
    }
}
impl<'env> InactiveTransaction<'env> {
    pub fn renew(self) -> Result<RoTransaction<'env>> {
        let t = self.0;
        std::mem::forget(self);
        lmdb_result(unsafe { ffi::mdb_txn_renew(t) })?;
        Ok(RoTransaction(t, PhantomData))
    }
}

unsafe fn to_val(s: Option<&[u8]>) -> ffi::MDB_val {
    match s {
        Some(s) => ffi::MDB_val { mv_size: s.len(), mv_data: s.as_ptr() as *mut _ },
        None => ffi::MDB_val { mv_size: 0, mv_data: std::ptr::null_mut() },
    }
}
unsafe fn to_slice<'a>(v: ffi::MDB_val) -> &'a [u8] {
    std::slice::from_raw_parts(v.mv_data.cast(), v.mv_size)
}
pub struct RoCursor<'txn>(*mut ffi::MDB_cursor, PhantomData<&'txn ()>);
impl<'txn> Drop for RoCursor<'txn> {
    fn drop(&mut self) {
        unsafe { ffi::mdb_cursor_close(self.0) }
    }
}
impl<'txn> RoCursor<'txn> {
    fn open(t: *mut ffi::MDB_txn, db: Database) -> Result<RoCursor<'txn>> {
        unsafe { ffi::open_cursor(t, db.0) }.map(|c| RoCursor(c, PhantomData)).map_err(Error::from_err_code)
    }
    pub fn cursor(&self) -> *mut ffi::MDB_cursor {
        self.0
    }
    /// The key is returned when the call changed it.
    pub fn get(&self, key: Option<&[u8]>, data: Option<&[u8]>, op: u32) -> Result<(Option<&'txn [u8]>, &'txn [u8])> {
        unsafe {
            let (mut k, mut d) = (to_val(key), to_val(data));
            let old = k.mv_data;
            lmdb_result(ffi::mdb_cursor_get(self.0, &mut k, &mut d, op))?;
            let key = if std::ptr::eq(old, k.mv_data) { None } else { Some(to_slice(k)) };
            Ok((key, to_slice(d)))
        }
    }
    pub fn iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'txn> {
        match self.get(Some(key.as_ref()), None, ffi::MDB_SET_RANGE) {
            Ok(_) | Err(Error::NotFound) => Iter::Ok { cursor: self, op: ffi::MDB_GET_CURRENT, next_op: ffi::MDB_NEXT },
            Err(e) => Iter::Err(e),
        }
    }
}
pub enum Iter<'txn> {
    Err(Error),
    Ok { cursor: RoCursor<'txn>, op: u32, next_op: u32 },
}
impl<'txn> Iterator for Iter<'txn> {
    type Item = Result<(&'txn [u8], &'txn [u8])>;
    fn next(&mut self) -> Option<Self::Item> {
        match self {
            Iter::Err(e) => Some(Err(*e)),
            Iter::Ok { cursor, op, next_op } => {
                let o = std::mem::replace(op, *next_op);
                unsafe {
                    let (mut k, mut d) = (to_val(None), to_val(None));
                    match ffi::mdb_cursor_get(cursor.0, &mut k, &mut d, o) {
                        ffi::MDB_SUCCESS => Some(Ok((to_slice(k), to_slice(d)))),
                        ffi::MDB_NOTFOUND | libc::EINVAL => None,
                        e => Some(Err(Error::from_err_code(e))),
                    }
                }
            }
        }
    }
}
pub struct RwCursor<'txn>(RoCursor<'txn>);
impl<'txn> RwCursor<'txn> {
    pub fn new(txn: &'txn RwTransaction<'_>, db: Database) -> Result<RwCursor<'txn>> {
        RoCursor::open(txn.0, db).map(RwCursor)
    }
    pub fn ro(&self) -> &RoCursor<'txn> {
        &self.0
    }
    pub fn put<K: AsRef<[u8]> + ?Sized, D: AsRef<[u8]> + ?Sized>(&mut self, k: &K, d: &D, f: WriteFlags) -> Result<()> {
        unsafe {
            let (mut k, mut d) = (to_val(Some(k.as_ref())), to_val(Some(d.as_ref())));
            lmdb_result(ffi::mdb_cursor_put(self.0 .0, &mut k, &mut d, f.bits()))
        }
    }
}
