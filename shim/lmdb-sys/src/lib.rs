//! In-memory stand-in for liblmdb, with the calls linkspace-core makes.
//!
//! Modelled from LMDB's documentation and mdb.c: sorted tables (bytewise keys, native-integer keys
//! with MDB_INTEGERKEY, sorted duplicates with MDB_DUPSORT), copy-on-write snapshots (a reader sees
//! the store as of the start or renewal of its transaction; one writer at a time; a write becomes
//! visible as a whole at commit, or never), cursors with LMDB's positioning rules, and 8-aligned
//! values. Environments on one path share their data for the life of the process, also after being
//! closed, so reopening and a second "process" can be exercised. Puts and commits can be made to
//! fail (`fault`). For command line programs the store can be kept in files (`disk`).
#![allow(non_camel_case_types, non_upper_case_globals, clippy::missing_safety_doc)]
use std::cell::{Cell, RefCell, UnsafeCell};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::os::fd::{AsRawFd, RawFd};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

pub use libc::{c_int, c_uint, c_void, size_t};
pub type MDB_cursor_op = c_uint;
pub const MDB_FIRST: c_uint = 0;
pub const MDB_FIRST_DUP: c_uint = 1;
pub const MDB_GET_BOTH: c_uint = 2;
pub const MDB_GET_BOTH_RANGE: c_uint = 3;
pub const MDB_GET_CURRENT: c_uint = 4;
pub const MDB_GET_MULTIPLE: c_uint = 5;
pub const MDB_LAST: c_uint = 6;
pub const MDB_LAST_DUP: c_uint = 7;
pub const MDB_NEXT: c_uint = 8;
pub const MDB_NEXT_DUP: c_uint = 9;
pub const MDB_NEXT_MULTIPLE: c_uint = 10;
pub const MDB_NEXT_NODUP: c_uint = 11;
pub const MDB_PREV: c_uint = 12;
pub const MDB_PREV_DUP: c_uint = 13;
pub const MDB_PREV_NODUP: c_uint = 14;
pub const MDB_SET: c_uint = 15;
pub const MDB_SET_KEY: c_uint = 16;
pub const MDB_SET_RANGE: c_uint = 17;

pub const MDB_NOOVERWRITE: c_uint = 0x10;
pub const MDB_NODUPDATA: c_uint = 0x20;
pub const MDB_CURRENT: c_uint = 0x40;
pub const MDB_RESERVE: c_uint = 0x10000;
pub const MDB_APPEND: c_uint = 0x20000;
pub const MDB_APPENDDUP: c_uint = 0x40000;
pub const MDB_DUPSORT: c_uint = 0x04;
pub const MDB_INTEGERKEY: c_uint = 0x08;
pub const MDB_DUPFIXED: c_uint = 0x10;

pub const MDB_SUCCESS: c_int = 0;
pub const MDB_KEYEXIST: c_int = -30799;
pub const MDB_NOTFOUND: c_int = -30798;
pub const MDB_MAP_FULL: c_int = -30792;
pub const MDB_BAD_VALSIZE: c_int = -30781;
pub const MAXKEYSIZE: usize = 511;

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct MDB_val {
    pub mv_size: size_t,
    pub mv_data: *mut c_void,
}
#[repr(C)]
#[derive(Debug, Copy, Clone, Default)]
pub struct MDB_stat {
    pub ms_psize: c_uint,
    pub ms_depth: c_uint,
    pub ms_branch_pages: size_t,
    pub ms_leaf_pages: size_t,
    pub ms_overflow_pages: size_t,
    pub ms_entries: size_t,
}
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct MDB_envinfo {
    pub me_mapaddr: *mut c_void,
    pub me_mapsize: size_t,
    pub me_last_pgno: size_t,
    pub me_last_txnid: size_t,
    pub me_maxreaders: c_uint,
    pub me_numreaders: c_uint,
}
pub type MDB_dbi = c_uint;

/// Faults for the calling thread: the number of further calls that succeed, and the code then
/// returned (once).
pub mod fault {
    use super::*;
    thread_local! {
        pub(crate) static PUT: Cell<Option<(u32, c_int)>> = const { Cell::new(None) };
        pub(crate) static COMMIT: Cell<Option<(u32, c_int)>> = const { Cell::new(None) };
    }
    pub fn puts_before_failure(n: Option<(u32, c_int)>) {
        PUT.with(|c| c.set(n))
    }
    pub fn commits_before_failure(n: Option<(u32, c_int)>) {
        COMMIT.with(|c| c.set(n))
    }
    pub(crate) fn check(c: &Cell<Option<(u32, c_int)>>) -> Result<(), c_int> {
        match c.get() {
            Some((0, e)) => {
                c.set(None);
                Err(e)
            }
            Some((n, e)) => {
                c.set(Some((n - 1, e)));
                Ok(())
            }
            None => Ok(()),
        }
    }
    /// Empties the tables of an environment that is open.
    pub fn clear(path: &std::path::Path) {
        let sh = registry().lock().unwrap().get(&path.canonicalize().unwrap()).cloned();
        if let Some(sh) = sh {
            let mut g = sh.snap.lock().unwrap();
            let mut s = (**g).clone();
            for t in &mut s.tables {
                t.1 = Arc::new(Table { flags: t.1.flags, rows: vec![] });
            }
            *g = Arc::new(s);
        }
    }
    /// Forgets the data kept for an environment's path.
    pub fn forget(path: &std::path::Path) {
        if let Ok(p) = path.canonicalize() {
            registry().lock().unwrap().remove(&p);
        }
    }
}

/// An 8-aligned value.
struct Val {
    len: usize,
    words: UnsafeCell<Box<[u64]>>,
}
unsafe impl Send for Val {}
unsafe impl Sync for Val {}
impl Val {
    fn zeroed(len: usize) -> Arc<Val> {
        Arc::new(Val { len, words: UnsafeCell::new(vec![0u64; len.div_ceil(8).max(1)].into_boxed_slice()) })
    }
    fn new(b: &[u8]) -> Arc<Val> {
        let v = Val::zeroed(b.len());
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.ptr(), b.len()) };
        v
    }
    fn ptr(&self) -> *mut u8 {
        unsafe { (*self.words.get()).as_mut_ptr().cast() }
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
    }
}

#[derive(Clone)]
struct Table {
    flags: c_uint,
    rows: Vec<(Arc<Val>, Vec<Arc<Val>>)>,
}
impl Table {
    fn cmp(&self, a: &[u8], b: &[u8]) -> Ordering {
        if self.flags & MDB_INTEGERKEY != 0 {
            let n = |v: &[u8]| u64::from_ne_bytes(v.try_into().expect("MDB_INTEGERKEY with a key that is not 8 bytes"));
            n(a).cmp(&n(b))
        } else {
            a.cmp(b)
        }
    }
    fn find(&self, k: &[u8]) -> Result<usize, usize> {
        self.rows.binary_search_by(|(r, _)| self.cmp(r.bytes(), k))
    }
    fn dup(&self) -> bool {
        self.flags & MDB_DUPSORT != 0
    }
}
#[derive(Clone)]
struct Snapshot {
    txnid: usize,
    tables: Vec<(String, Arc<Table>)>,
}
struct Shared {
    snap: Mutex<Arc<Snapshot>>,
    writer: Mutex<bool>,
    freed: Condvar,
    /// set if the data is kept in a file too, for several processes
    disk: Option<disk::Disk>,
}
impl Shared {
    /// the latest snapshot
    fn latest(&self) -> Arc<Snapshot> {
        let mut g = self.snap.lock().unwrap();
        if let Some(s) = self.disk.as_ref().and_then(|d| d.newer(g.txnid)) {
            *g = Arc::new(s);
        }
        g.clone()
    }
    fn publish(&self, s: Snapshot) {
        let mut g = self.snap.lock().unwrap();
        if let Some(d) = &self.disk {
            d.write(&s)
        }
        *g = Arc::new(s);
    }
}
/// With LMDB_STANDIN_DISK set the store lives in files of the folder: one process writes at a time,
/// a commit replaces the file.
mod disk {
    use super::*;
    pub(crate) struct Disk {
        dir: PathBuf,
        lock: std::fs::File,
    }
    impl Disk {
        pub(crate) fn open(dir: &Path) -> Option<Disk> {
            std::env::var_os("LMDB_STANDIN_DISK")?;
            let lock = std::fs::OpenOptions::new().create(true).write(true).open(dir.join("standin.lock")).ok()?;
            Some(Disk { dir: dir.into(), lock })
        }
        pub(crate) fn lock(&self) {
            unsafe { libc::flock(self.lock.as_raw_fd(), libc::LOCK_EX) };
        }
        pub(crate) fn unlock(&self) {
            unsafe { libc::flock(self.lock.as_raw_fd(), libc::LOCK_UN) };
        }
        pub(crate) fn newer(&self, than: usize) -> Option<Snapshot> {
            let b = std::fs::read(self.dir.join("standin")).ok()?;
            let mut at = 0;
            let mut num = |n: usize| {
                at += n;
                &b[at - n..at]
            };
            let n = |v: &[u8]| u64::from_le_bytes(v.try_into().unwrap()) as usize;
            let txnid = n(num(8));
            if txnid <= than {
                return None;
            }
            let tables = (0..n(num(8)))
                .map(|_| {
                    let len = n(num(8));
                    let name = String::from_utf8(num(len).to_vec()).unwrap();
                    let flags = n(num(8)) as c_uint;
                    let rows = (0..n(num(8)))
                        .map(|_| {
                            let len = n(num(8));
                            let k = Val::new(num(len));
                            let vs = (0..n(num(8)))
                                .map(|_| {
                                    let len = n(num(8));
                                    Val::new(num(len))
                                })
                                .collect();
                            (k, vs)
                        })
                        .collect();
                    (name, Arc::new(Table { flags, rows }))
                })
                .collect();
            Some(Snapshot { txnid, tables })
        }
        pub(crate) fn write(&self, s: &Snapshot) {
            let mut b = vec![];
            let num = |b: &mut Vec<u8>, n: usize| b.extend((n as u64).to_le_bytes());
            num(&mut b, s.txnid);
            num(&mut b, s.tables.len());
            for (name, t) in &s.tables {
                num(&mut b, name.len());
                b.extend(name.as_bytes());
                num(&mut b, t.flags as usize);
                num(&mut b, t.rows.len());
                for (k, vs) in &t.rows {
                    num(&mut b, k.len);
                    b.extend(k.bytes());
                    num(&mut b, vs.len());
                    for v in vs {
                        num(&mut b, v.len);
                        b.extend(v.bytes());
                    }
                }
            }
            std::fs::write(self.dir.join("standin.tmp"), b).expect("write the store");
            std::fs::rename(self.dir.join("standin.tmp"), self.dir.join("standin")).expect("write the store");
        }
    }
}
fn registry() -> &'static Mutex<HashMap<PathBuf, Arc<Shared>>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Arc<Shared>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

pub struct MDB_env {
    shared: Arc<Shared>,
    mapsize: usize,
    file: std::fs::File,
}
pub struct MDB_txn {
    shared: Arc<Shared>,
    snap: RefCell<Option<Rc<RefCell<Snapshot>>>>,
    write: bool,
    done: Cell<bool>,
}
#[derive(Clone)]
enum Pos {
    Unset,
    At(Arc<Val>, Arc<Val>),
    Eof,
}
pub struct MDB_cursor {
    snap: Rc<RefCell<Snapshot>>,
    dbi: MDB_dbi,
    write: bool,
    pos: RefCell<Pos>,
}

pub fn open_env(path: &Path, mapsize: usize) -> Result<*mut MDB_env, c_int> {
    let file = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(path.join("data.mdb"))
        .map_err(|e| e.raw_os_error().unwrap_or(libc::EIO))?;
    let p = path.canonicalize().map_err(|e| e.raw_os_error().unwrap_or(libc::EIO))?;
    let shared = registry()
        .lock()
        .unwrap()
        .entry(p)
        .or_insert_with(|| {
            Arc::new(Shared {
                disk: disk::Disk::open(path),
                snap: Mutex::new(Arc::new(Snapshot { txnid: 0, tables: vec![] })),
                writer: Mutex::new(false),
                freed: Condvar::new(),
            })
        })
        .clone();
    Ok(Box::into_raw(Box::new(MDB_env { shared, mapsize, file })))
}
pub unsafe fn mdb_env_close(env: *mut MDB_env) {
    drop(Box::from_raw(env))
}
pub unsafe fn create_db(env: *mut MDB_env, name: &str, flags: c_uint) -> Result<MDB_dbi, c_int> {
    let sh = &(*env).shared;
    if let Some(d) = &sh.disk {
        d.lock()
    }
    let g = sh.latest();
    let r = match g.tables.iter().position(|t| t.0 == name) {
        Some(i) => i,
        None => {
            let mut s = (*g).clone();
            s.txnid += sh.disk.is_some() as usize;
            s.tables.push((name.to_string(), Arc::new(Table { flags, rows: vec![] })));
            sh.publish(s);
            g.tables.len()
        }
    };
    if let Some(d) = &sh.disk {
        d.unlock()
    }
    Ok(r as MDB_dbi)
}
pub unsafe fn begin(env: *mut MDB_env, write: bool) -> Result<*mut MDB_txn, c_int> {
    let sh = (*env).shared.clone();
    if write {
        let mut w = sh.writer.lock().unwrap();
        while *w {
            w = sh.freed.wait(w).unwrap();
        }
        *w = true;
        if let Some(d) = &sh.disk {
            d.lock()
        }
    }
    let s = (*sh.latest()).clone();
    Ok(Box::into_raw(Box::new(MDB_txn {
        shared: sh,
        snap: RefCell::new(Some(Rc::new(RefCell::new(s)))),
        write,
        done: Cell::new(false),
    })))
}
impl Drop for MDB_txn {
    fn drop(&mut self) {
        if self.write {
            if let Some(d) = &self.shared.disk {
                d.unlock()
            }
            *self.shared.writer.lock().unwrap() = false;
            self.shared.freed.notify_one();
        }
    }
}
pub unsafe fn mdb_txn_abort(txn: *mut MDB_txn) {
    drop(Box::from_raw(txn))
}
pub unsafe fn mdb_txn_commit(txn: *mut MDB_txn) -> c_int {
    let t = Box::from_raw(txn);
    if t.write {
        if let Err(e) = fault::COMMIT.with(fault::check) {
            return e;
        }
        let mut s = t.snap.borrow().as_ref().unwrap().borrow().clone();
        s.txnid += 1;
        t.shared.publish(s);
    }
    t.done.set(true);
    MDB_SUCCESS
}
pub unsafe fn mdb_txn_reset(txn: *mut MDB_txn) {
    assert!(!(*txn).write);
    *(*txn).snap.borrow_mut() = None;
}
pub unsafe fn mdb_txn_renew(txn: *mut MDB_txn) -> c_int {
    if (*txn).write || (*txn).snap.borrow().is_some() {
        return libc::EINVAL;
    }
    let s = (*(*txn).shared.latest()).clone();
    *(*txn).snap.borrow_mut() = Some(Rc::new(RefCell::new(s)));
    MDB_SUCCESS
}
pub unsafe fn open_cursor(txn: *mut MDB_txn, dbi: MDB_dbi) -> Result<*mut MDB_cursor, c_int> {
    let snap = (*txn).snap.borrow().clone().ok_or(libc::EINVAL)?;
    if dbi as usize >= snap.borrow().tables.len() {
        return Err(libc::EINVAL);
    }
    Ok(Box::into_raw(Box::new(MDB_cursor { snap, dbi, write: (*txn).write, pos: RefCell::new(Pos::Unset) })))
}
pub unsafe fn mdb_cursor_close(c: *mut MDB_cursor) {
    drop(Box::from_raw(c))
}
fn val(v: &Arc<Val>) -> MDB_val {
    MDB_val { mv_size: v.len, mv_data: v.ptr().cast() }
}
unsafe fn slice<'a>(v: *const MDB_val) -> &'a [u8] {
    if (*v).mv_data.is_null() {
        &[]
    } else {
        std::slice::from_raw_parts((*v).mv_data.cast(), (*v).mv_size)
    }
}

pub unsafe fn mdb_cursor_get(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, op: c_uint) -> c_int {
    let c = &*c;
    let snap = c.snap.borrow();
    let t = &snap.tables[c.dbi as usize].1;
    let pos = c.pos.borrow().clone();
    // (row, duplicate) of the cursor
    let at = match &pos {
        Pos::At(k, v) => {
            let r = t.find(k.bytes()).expect("cursor on a removed key");
            let d = t.rows[r].1.binary_search_by(|x| x.bytes().cmp(v.bytes())).unwrap_or(0);
            Some((r, d))
        }
        _ => None,
    };
    let eof = matches!(pos, Pos::Eof);
    let last_of = |r: usize| t.rows[r].1.len() - 1;
    let first = || if t.rows.is_empty() { Err(MDB_NOTFOUND) } else { Ok((0, 0)) };
    let last = || if t.rows.is_empty() { Err(MDB_NOTFOUND) } else { Ok((t.rows.len() - 1, last_of(t.rows.len() - 1))) };
    let res: Result<(usize, usize), c_int> = match op {
        MDB_FIRST => first(),
        MDB_LAST => last(),
        MDB_GET_CURRENT => match at {
            Some(a) => Ok(a),
            None if eof => Err(MDB_NOTFOUND),
            None => Err(libc::EINVAL),
        },
        MDB_SET | MDB_SET_KEY | MDB_SET_RANGE => {
            let k = slice(key);
            if k.is_empty() {
                return MDB_BAD_VALSIZE;
            }
            match t.find(k) {
                Ok(r) => Ok((r, 0)),
                Err(r) if op == MDB_SET_RANGE && r < t.rows.len() => Ok((r, 0)),
                Err(_) => {
                    *c.pos.borrow_mut() = if t.rows.is_empty() { Pos::Unset } else { Pos::Eof };
                    return MDB_NOTFOUND;
                }
            }
        }
        MDB_FIRST_DUP | MDB_LAST_DUP => match at {
            Some((r, _)) if op == MDB_FIRST_DUP => Ok((r, 0)),
            Some((r, _)) => Ok((r, last_of(r))),
            None if eof => Err(MDB_NOTFOUND),
            None => Err(libc::EINVAL),
        },
        MDB_NEXT | MDB_NEXT_DUP | MDB_NEXT_NODUP => match at {
            None if eof => Err(MDB_NOTFOUND),
            None => first(),
            Some((r, d)) if op != MDB_NEXT_NODUP && d < last_of(r) => Ok((r, d + 1)),
            Some(_) if op == MDB_NEXT_DUP => Err(MDB_NOTFOUND),
            Some((r, _)) if r + 1 < t.rows.len() => Ok((r + 1, 0)),
            Some(_) => Err(MDB_NOTFOUND),
        },
        MDB_PREV | MDB_PREV_DUP | MDB_PREV_NODUP => match at {
            None => last(),
            Some((r, d)) if op != MDB_PREV_NODUP && d > 0 => Ok((r, d - 1)),
            Some(_) if op == MDB_PREV_DUP => Err(MDB_NOTFOUND),
            Some((r, _)) if r > 0 => Ok((r - 1, last_of(r - 1))),
            Some(_) => Err(MDB_NOTFOUND),
        },
        _ => Err(libc::EINVAL),
    };
    match res {
        Ok((r, d)) => {
            let (k, v) = (&t.rows[r].0, &t.rows[r].1[d]);
            *c.pos.borrow_mut() = Pos::At(k.clone(), v.clone());
            if !matches!(op, MDB_SET | MDB_FIRST_DUP | MDB_LAST_DUP) {
                *key = val(k);
            }
            *data = val(v);
            MDB_SUCCESS
        }
        Err(e) => e,
    }
}

pub unsafe fn mdb_cursor_put(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, flags: c_uint) -> c_int {
    let c = &*c;
    if !c.write {
        return libc::EACCES;
    }
    let k = slice(key);
    if k.is_empty() || k.len() > MAXKEYSIZE {
        return MDB_BAD_VALSIZE;
    }
    if let Err(e) = fault::PUT.with(fault::check) {
        return e;
    }
    let mut snap = c.snap.borrow_mut();
    let t = Arc::make_mut(&mut snap.tables[c.dbi as usize].1);
    if t.dup() && (*data).mv_size > MAXKEYSIZE {
        return MDB_BAD_VALSIZE;
    }
    if flags & MDB_APPEND != 0 {
        if let Some((lk, lv)) = t.rows.last() {
            if t.cmp(k, lk.bytes()) != Ordering::Greater {
                *data = val(&lv[0]);
                return MDB_KEYEXIST;
            }
        }
    }
    let new = if flags & MDB_RESERVE != 0 { Val::zeroed((*data).mv_size) } else { Val::new(slice(data)) };
    match t.find(k) {
        Ok(r) if flags & MDB_NOOVERWRITE != 0 => {
            *data = val(&t.rows[r].1[0]);
            return MDB_KEYEXIST;
        }
        Ok(r) if t.dup() => {
            let vs = &mut t.rows[r].1;
            match vs.binary_search_by(|x| x.bytes().cmp(new.bytes())) {
                Ok(_) if flags & MDB_NODUPDATA != 0 => return MDB_KEYEXIST,
                Ok(_) => {}
                Err(i) => vs.insert(i, new.clone()),
            }
        }
        Ok(r) => t.rows[r].1 = vec![new.clone()],
        Err(r) => t.rows.insert(r, (Val::new(k), vec![new.clone()])),
    }
    if flags & MDB_RESERVE != 0 {
        *data = val(&new);
    }
    MDB_SUCCESS
}

pub unsafe fn mdb_env_get_fd(env: *mut MDB_env, fd: *mut RawFd) -> c_int {
    *fd = (*env).file.as_raw_fd();
    MDB_SUCCESS
}
pub unsafe fn mdb_env_info(env: *mut MDB_env, out: *mut MDB_envinfo) -> c_int {
    *out = MDB_envinfo {
        me_mapaddr: std::ptr::null_mut(),
        me_mapsize: (*env).mapsize,
        me_last_pgno: 0,
        me_last_txnid: (*env).shared.snap.lock().unwrap().txnid,
        me_maxreaders: 126,
        me_numreaders: 0,
    };
    MDB_SUCCESS
}
pub unsafe fn mdb_stat(txn: *mut MDB_txn, dbi: MDB_dbi, out: *mut MDB_stat) -> c_int {
    let s = (*txn).snap.borrow().clone();
    let Some(s) = s else { return libc::EINVAL };
    let n = s.borrow().tables[dbi as usize].1.rows.iter().map(|r| r.1.len()).sum();
    *out = MDB_stat { ms_psize: 4096, ms_entries: n, ..Default::default() };
    MDB_SUCCESS
}
pub unsafe fn mdb_version(a: *mut c_int, b: *mut c_int, p: *mut c_int) -> *const i8 {
    (*a, *b, *p) = (0, 9, 99);
    std::ptr::null()
}
