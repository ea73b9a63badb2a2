//! In-memory stand-in for the `rocksdb` crate, covering the API surface that
//! snapchain uses.  The real crate is a git dependency that is not available
//! in this sandbox.  Semantics kept: byte-ordered keys, snapshot iterators,
//! pessimistic row locks held to commit (with a timeout), atomic commits,
//! exclusive read-write open per path, contents surviving close/reopen and
//! being carried by the files of the database directory.
//!
//! The `shim` module adds what a verification harness needs and the real crate
//! has no call for: observation of every atomic write and fault injection.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::fs;
use std::io::{Read, Write};
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, RwLock};
use std::time::{Duration, Instant};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    fn new(m: impl Into<String>) -> Self {
        Error { message: m.into() }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}

#[derive(Clone, Copy, Debug)]
pub enum DBCompressionType {
    None,
    Lz4,
}

#[derive(Clone)]
pub struct Cache {
    capacity: usize,
    used: Arc<AtomicUsize>,
}
impl Cache {
    pub fn new_lru_cache(capacity: usize) -> Cache {
        Cache {
            capacity,
            used: Arc::new(AtomicUsize::new(0)),
        }
    }
    pub fn get_usage(&self) -> usize {
        self.used.load(Ordering::Relaxed)
    }
    fn touch(&self, n: usize) {
        let cur = self.used.load(Ordering::Relaxed);
        self.used
            .store((cur + n).min(self.capacity), Ordering::Relaxed);
    }
}

#[derive(Default, Clone)]
pub struct BlockBasedOptions {
    cache: Option<Cache>,
}
impl BlockBasedOptions {
    pub fn set_block_cache(&mut self, cache: &Cache) {
        self.cache = Some(cache.clone());
    }
    pub fn set_cache_index_and_filter_blocks(&mut self, _: bool) {}
    pub fn set_pin_l0_filter_and_index_blocks_in_cache(&mut self, _: bool) {}
}

#[derive(Default, Clone)]
pub struct Options {
    create_if_missing: bool,
    cache: Option<Cache>,
}
impl Options {
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_max_write_buffer_number(&mut self, _: i32) {}
    pub fn set_min_write_buffer_number_to_merge(&mut self, _: i32) {}
    pub fn create_if_missing(&mut self, c: bool) {
        self.create_if_missing = c;
    }
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_block_based_table_factory(&mut self, b: &BlockBasedOptions) {
        self.cache = b.cache.clone();
    }
}

pub struct TransactionDBOptions {
    lock_timeout_ms: i64,
}
impl Default for TransactionDBOptions {
    fn default() -> Self {
        TransactionDBOptions {
            lock_timeout_ms: 1000,
        }
    }
}
impl TransactionDBOptions {
    pub fn set_default_lock_timeout(&mut self, ms: i64) {
        self.lock_timeout_ms = ms;
    }
}

#[derive(Default)]
pub struct WriteOptions;
impl WriteOptions {
    pub fn disable_wal(&mut self, _: bool) {}
}

#[derive(Default)]
pub struct WriteBatch {
    ops: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops
            .push((k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push((k.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
}

#[derive(Default)]
pub struct ReadOptions {
    lower: Option<Vec<u8>>,
    upper: Option<Vec<u8>>,
}
impl ReadOptions {
    pub fn set_iterate_lower_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.lower = Some(k.into());
    }
    pub fn set_iterate_upper_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.upper = Some(k.into());
    }
    pub fn fill_cache(&mut self, _: bool) {}
}

#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

// ---------------------------------------------------------------- core store

struct Locks {
    held: HashMap<Vec<u8>, u64>,
}

struct Core {
    path: PathBuf,
    data: RwLock<Arc<Map>>,
    locks: Mutex<Locks>,
    cv: Condvar,
    cache: Option<Cache>,
    read_write: bool,
}

static NEXT_TXN: AtomicU64 = AtomicU64::new(1);

fn open_paths() -> &'static Mutex<HashSet<PathBuf>> {
    static S: std::sync::OnceLock<Mutex<HashSet<PathBuf>>> = std::sync::OnceLock::new();
    S.get_or_init(|| Mutex::new(HashSet::new()))
}

const FILE: &str = "000001.sst";
const LOCK: &str = "CURRENT";

fn load(path: &Path) -> Result<Option<Map>, Error> {
    let f = path.join(FILE);
    if !f.exists() {
        return if path.join(LOCK).exists() {
            Ok(Some(Map::new()))
        } else {
            Ok(None)
        };
    }
    let mut buf = vec![];
    fs::File::open(&f)
        .and_then(|mut h| h.read_to_end(&mut buf))
        .map_err(|e| Error::new(format!("IO error: {}", e)))?;
    let mut m = Map::new();
    let mut i = 0usize;
    let corrupt = || Error::new("Corruption: truncated table file");
    while i < buf.len() {
        let rd = |i: &mut usize| -> Result<Vec<u8>, Error> {
            if *i + 4 > buf.len() {
                return Err(corrupt());
            }
            let n = u32::from_be_bytes(buf[*i..*i + 4].try_into().unwrap()) as usize;
            *i += 4;
            if *i + n > buf.len() {
                return Err(corrupt());
            }
            let v = buf[*i..*i + n].to_vec();
            *i += n;
            Ok(v)
        };
        let k = rd(&mut i)?;
        let v = rd(&mut i)?;
        m.insert(k, v);
    }
    Ok(Some(m))
}

fn persist(path: &Path, m: &Map) {
    if !path.exists() {
        return;
    }
    let mut buf = vec![];
    for (k, v) in m {
        buf.extend((k.len() as u32).to_be_bytes());
        buf.extend(k);
        buf.extend((v.len() as u32).to_be_bytes());
        buf.extend(v);
    }
    let _ = fs::File::create(path.join(FILE)).and_then(|mut f| f.write_all(&buf));
}

impl Core {
    fn open(
        opts: &Options,
        path: &Path,
        read_write: bool,
        must_exist: bool,
    ) -> Result<Core, Error> {
        let live = shim::live_image(path);
        if read_write {
            if path.as_os_str().is_empty() {
                return Err(Error::new("IO error: empty path"));
            }
            let mut open = open_paths().lock().unwrap();
            if open.contains(path) {
                return Err(Error::new(format!(
                    "IO error: lock hold by current process: {}/LOCK: No locks available",
                    path.display()
                )));
            }
            if !path.exists() {
                if !opts.create_if_missing {
                    return Err(Error::new(format!(
                        "Invalid argument: {}: does not exist (create_if_missing is false)",
                        path.display()
                    )));
                }
                fs::create_dir_all(path).map_err(|e| Error::new(format!("IO error: {}", e)))?;
            }
            open.insert(path.to_path_buf());
        }
        let loaded = match live {
            // a read-only open beside a live writer sees the writer's contents
            Some(m) if !read_write => Some((*m).clone()),
            _ => match load(path) {
                Ok(l) => l,
                Err(e) => {
                    if read_write {
                        open_paths().lock().unwrap().remove(path);
                    }
                    return Err(e);
                }
            },
        };
        if must_exist && loaded.is_none() {
            return Err(Error::new(format!(
                "IO error: No such file or directory: {}/CURRENT",
                path.display()
            )));
        }
        let data = Arc::new(loaded.unwrap_or_default());
        if read_write {
            let _ = fs::write(path.join(LOCK), b"MANIFEST\n");
            shim::register(path, &data);
        }
        Ok(Core {
            path: path.to_path_buf(),
            data: RwLock::new(data),
            locks: Mutex::new(Locks {
                held: HashMap::new(),
            }),
            cv: Condvar::new(),
            cache: opts.cache.clone(),
            read_write,
        })
    }

    fn snap(&self) -> Arc<Map> {
        self.data.read().unwrap().clone()
    }

    fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        let r = self.data.read().unwrap().get(k).cloned();
        if let (Some(c), Some(v)) = (&self.cache, &r) {
            c.touch(k.len() + v.len());
        }
        r
    }

    fn lock_row(&self, k: &[u8], owner: u64, timeout: Duration) -> Result<bool, Error> {
        let deadline = Instant::now() + timeout;
        let mut g = self.locks.lock().unwrap();
        loop {
            match g.held.get(k) {
                None => {
                    g.held.insert(k.to_vec(), owner);
                    return Ok(true);
                }
                Some(o) if *o == owner => return Ok(false),
                Some(_) => {
                    let now = Instant::now();
                    if now >= deadline {
                        return Err(Error::new(
                            "Operation timed out: Timeout waiting to lock key",
                        ));
                    }
                    g = self.cv.wait_timeout(g, deadline - now).unwrap().0;
                }
            }
        }
    }

    fn unlock_rows(&self, keys: &[Vec<u8>], owner: u64) {
        if keys.is_empty() {
            return;
        }
        let mut g = self.locks.lock().unwrap();
        for k in keys {
            if g.held.get(k) == Some(&owner) {
                g.held.remove(k);
            }
        }
        drop(g);
        self.cv.notify_all();
    }

    /// The one place where contents change: applies `ops` atomically.
    fn apply(&self, ops: Vec<(Vec<u8>, Option<Vec<u8>>)>) -> Result<(), Error> {
        shim::before_write(&self.path)?;
        let mut d = self.data.write().unwrap();
        let observed = shim::observing();
        {
            shim::release(&self.path);
            let m = Arc::make_mut(&mut d);
            for (k, v) in &ops {
                match v {
                    Some(v) => {
                        m.insert(k.clone(), v.clone());
                    }
                    None => {
                        m.remove(k);
                    }
                }
            }
        }
        shim::register(&self.path, &d);
        if observed {
            shim::after_write(&self.path, &ops, &d);
        }
        if let Some(c) = &self.cache {
            c.touch(1);
        }
        Ok(())
    }
}

impl Drop for Core {
    fn drop(&mut self) {
        if self.read_write {
            let d = self.data.get_mut().unwrap_or_else(|e| e.into_inner());
            persist(&self.path, d);
            shim::unregister(&self.path);
            open_paths()
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .remove(&self.path);
        }
    }
}

// ------------------------------------------------------------- raw iterators

pub struct RawIter<'a> {
    map: Arc<Map>,
    lower: Bound<Vec<u8>>,
    upper: Bound<Vec<u8>>,
    cur: Option<(Vec<u8>, Vec<u8>)>,
    empty: bool,
    _p: std::marker::PhantomData<&'a ()>,
}
impl<'a> RawIter<'a> {
    fn new(map: Arc<Map>, o: ReadOptions) -> Self {
        let lower = match o.lower {
            Some(l) => Bound::Included(l),
            None => Bound::Unbounded,
        };
        let upper = match o.upper {
            Some(l) => Bound::Excluded(l),
            None => Bound::Unbounded,
        };
        let empty = match (&lower, &upper) {
            (Bound::Included(a), Bound::Excluded(b)) => a >= b,
            _ => false,
        };
        RawIter {
            map,
            lower,
            upper,
            cur: None,
            empty,
            _p: std::marker::PhantomData,
        }
    }
    fn own(x: Option<(&Vec<u8>, &Vec<u8>)>) -> Option<(Vec<u8>, Vec<u8>)> {
        x.map(|(k, v)| (k.clone(), v.clone()))
    }
    pub fn seek_to_first(&mut self) {
        self.cur = if self.empty {
            None
        } else {
            Self::own(
                self.map
                    .range((self.lower.clone(), self.upper.clone()))
                    .next(),
            )
        };
    }
    pub fn seek_to_last(&mut self) {
        self.cur = if self.empty {
            None
        } else {
            Self::own(
                self.map
                    .range((self.lower.clone(), self.upper.clone()))
                    .next_back(),
            )
        };
    }
    pub fn valid(&self) -> bool {
        self.cur.is_some()
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.cur.as_ref().map(|(k, v)| (&k[..], &v[..]))
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(k, _)| &k[..])
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.cur.as_ref().map(|(_, v)| &v[..])
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            let lo = Bound::Excluded(k.clone());
            let inside = match &self.upper {
                Bound::Excluded(u) => &k < u,
                _ => true,
            };
            if inside {
                self.cur = Self::own(self.map.range((lo, self.upper.clone())).next());
            }
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.cur.take() {
            let inside = match &self.lower {
                Bound::Included(l) => &k > l,
                _ => true,
            };
            if inside {
                self.cur = Self::own(
                    self.map
                        .range((self.lower.clone(), Bound::Excluded(k)))
                        .next_back(),
                );
            }
        }
    }
}

pub struct KvIter<'a> {
    raw: RawIter<'a>,
    started: bool,
    mode_end: bool,
}
impl<'a> KvIter<'a> {
    fn new(map: Arc<Map>, mode: IteratorMode) -> Self {
        let mut o = ReadOptions::default();
        let mut mode_end = false;
        match mode {
            IteratorMode::Start => {}
            IteratorMode::End => mode_end = true,
            IteratorMode::From(k, Direction::Forward) => o.lower = Some(k.to_vec()),
            IteratorMode::From(k, Direction::Reverse) => {
                let mut u = k.to_vec();
                u.push(0);
                o.upper = Some(u);
                mode_end = true
            }
        }
        KvIter {
            raw: RawIter::new(map, o),
            started: false,
            mode_end,
        }
    }
}
impl<'a> Iterator for KvIter<'a> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        match (self.started, self.mode_end) {
            (false, false) => self.raw.seek_to_first(),
            (false, true) => self.raw.seek_to_last(),
            (true, false) => self.raw.next(),
            (true, true) => self.raw.prev(),
        }
        self.started = true;
        self.raw
            .item()
            .map(|(k, v)| Ok((k.to_vec().into_boxed_slice(), v.to_vec().into_boxed_slice())))
    }
}

pub struct Snap<'a> {
    map: Arc<Map>,
    _p: std::marker::PhantomData<&'a ()>,
}
impl<'a> Snap<'a> {
    pub fn iterator(&self, mode: IteratorMode) -> KvIter<'_> {
        KvIter::new(self.map.clone(), mode)
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.map.get(k.as_ref()).cloned())
    }
}

// --------------------------------------------------------------- public DBs

pub struct TransactionDB {
    core: Core,
    timeout: Duration,
}

macro_rules! readers {
    () => {
        pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
            Ok(self.core.get(k.as_ref()))
        }
        pub fn multi_get<K, I>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>>
        where
            K: AsRef<[u8]>,
            I: IntoIterator<Item = K>,
        {
            keys.into_iter()
                .map(|k| Ok(self.core.get(k.as_ref())))
                .collect()
        }
        pub fn raw_iterator_opt(&self, o: ReadOptions) -> RawIter<'_> {
            if let Some(c) = &self.core.cache {
                c.touch(64);
            }
            RawIter::new(self.core.snap(), o)
        }
        pub fn iterator(&self, mode: IteratorMode) -> KvIter<'_> {
            KvIter::new(self.core.snap(), mode)
        }
        pub fn snapshot(&self) -> Snap<'_> {
            Snap {
                map: self.core.snap(),
                _p: std::marker::PhantomData,
            }
        }
    };
}

impl TransactionDB {
    pub fn open<P: AsRef<Path>>(
        opts: &Options,
        t: &TransactionDBOptions,
        path: P,
    ) -> Result<Self, Error> {
        Ok(TransactionDB {
            core: Core::open(opts, path.as_ref(), true, false)?,
            timeout: Duration::from_millis(t.lock_timeout_ms.max(0) as u64),
        })
    }
    readers!();
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        let t = self.transaction();
        t.put(k, v)?;
        t.commit()
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        let t = self.transaction();
        t.delete(k)?;
        t.commit()
    }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> {
        Transaction {
            db: self,
            id: NEXT_TXN.fetch_add(1, Ordering::SeqCst),
            st: Mutex::new(TxnState {
                writes: BTreeMap::new(),
                locked: vec![],
            }),
        }
    }
}

struct TxnState {
    writes: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
    locked: Vec<Vec<u8>>,
}

pub struct Transaction<'db, D> {
    db: &'db D,
    id: u64,
    st: Mutex<TxnState>,
}

impl<'db> Transaction<'db, TransactionDB> {
    fn lock(&self, k: &[u8]) -> Result<(), Error> {
        shim::yield_point();
        if self.db.core.lock_row(k, self.id, self.db.timeout)? {
            self.st.lock().unwrap().locked.push(k.to_vec());
        }
        shim::yield_point();
        Ok(())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.lock(k.as_ref())?;
        self.st
            .lock()
            .unwrap()
            .writes
            .insert(k.as_ref().to_vec(), Some(v.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.lock(k.as_ref())?;
        self.st
            .lock()
            .unwrap()
            .writes
            .insert(k.as_ref().to_vec(), None);
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        if let Some(v) = self.st.lock().unwrap().writes.get(k.as_ref()) {
            return Ok(v.clone());
        }
        Ok(self.db.core.get(k.as_ref()))
    }
    pub fn get_for_update<K: AsRef<[u8]>>(
        &self,
        k: K,
        _exclusive: bool,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.lock(k.as_ref())?;
        self.get(k)
    }
    pub fn commit(self) -> Result<(), Error> {
        shim::yield_point();
        let ops: Vec<_> = std::mem::take(&mut self.st.lock().unwrap().writes)
            .into_iter()
            .collect();
        if ops.is_empty() {
            return Ok(());
        }
        self.db.core.apply(ops)
    }
    pub fn rollback(&self) -> Result<(), Error> {
        self.st.lock().unwrap().writes.clear();
        Ok(())
    }
}
impl<'db, D> Transaction<'db, D> {
    fn take_locked(&self) -> Vec<Vec<u8>> {
        let mut st = match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        std::mem::take(&mut st.locked)
    }
}
impl<'db, D> Drop for Transaction<'db, D> {
    fn drop(&mut self) {
        let locked = self.take_locked();
        // Only TransactionDB ever constructs a Transaction.
        let db: &TransactionDB = unsafe { &*(self.db as *const D as *const TransactionDB) };
        db.core.unlock_rows(&locked, self.id);
    }
}

pub struct DB {
    core: Core,
}
impl DB {
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<Self, Error> {
        Ok(DB {
            core: Core::open(opts, path.as_ref(), true, false)?,
        })
    }
    pub fn open_for_read_only<P: AsRef<Path>>(
        opts: &Options,
        path: P,
        _error_if_log_exists: bool,
    ) -> Result<Self, Error> {
        Ok(DB {
            core: Core::open(opts, path.as_ref(), false, true)?,
        })
    }
    pub fn destroy<P: AsRef<Path>>(_: &Options, path: P) -> Result<(), Error> {
        if open_paths().lock().unwrap().contains(path.as_ref()) {
            return Err(Error::new("IO error: lock hold by current process"));
        }
        let _ = fs::remove_file(path.as_ref().join(FILE));
        let _ = fs::remove_file(path.as_ref().join(LOCK));
        Ok(())
    }
    readers!();
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.core
            .apply(vec![(k.as_ref().to_vec(), Some(v.as_ref().to_vec()))])
    }
    pub fn write_opt(&self, b: WriteBatch, _: &WriteOptions) -> Result<(), Error> {
        self.core.apply(b.ops)
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
}

// ------------------------------------------------------------------ harness

pub mod shim {
    use super::*;
    use std::cell::RefCell;
    use std::sync::atomic::AtomicBool;

    /// One atomic write, as seen by the observer.
    #[derive(Clone)]
    pub struct Write {
        pub path: PathBuf,
        pub ops: Vec<(Vec<u8>, Option<Vec<u8>>)>,
        /// Contents right after the write.
        pub image: Arc<Map>,
    }

    static OBSERVE: AtomicBool = AtomicBool::new(false);
    fn live() -> &'static Mutex<HashMap<PathBuf, Arc<Map>>> {
        static S: std::sync::OnceLock<Mutex<HashMap<PathBuf, Arc<Map>>>> =
            std::sync::OnceLock::new();
        S.get_or_init(|| Mutex::new(HashMap::new()))
    }
    fn log() -> &'static Mutex<Vec<Write>> {
        static S: std::sync::OnceLock<Mutex<Vec<Write>>> = std::sync::OnceLock::new();
        S.get_or_init(|| Mutex::new(vec![]))
    }
    fn faults() -> &'static Mutex<HashMap<PathBuf, i64>> {
        static S: std::sync::OnceLock<Mutex<HashMap<PathBuf, i64>>> = std::sync::OnceLock::new();
        S.get_or_init(|| Mutex::new(HashMap::new()))
    }

    pub(super) fn register(p: &Path, m: &Arc<Map>) {
        live()
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .insert(p.to_path_buf(), m.clone());
    }
    pub(super) fn release(p: &Path) {
        live()
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .remove(p);
    }
    pub(super) fn unregister(p: &Path) {
        release(p)
    }
    pub(super) fn live_image(p: &Path) -> Option<Arc<Map>> {
        live()
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .get(p)
            .cloned()
    }
    pub(super) fn observing() -> bool {
        OBSERVE.load(Ordering::SeqCst)
    }
    pub(super) fn after_write(p: &Path, ops: &[(Vec<u8>, Option<Vec<u8>>)], m: &Arc<Map>) {
        log().lock().unwrap().push(Write {
            path: p.to_path_buf(),
            ops: ops.to_vec(),
            image: m.clone(),
        });
    }
    pub(super) fn before_write(p: &Path) -> Result<(), Error> {
        let mut f = faults().lock().unwrap();
        if let Some(n) = f.get_mut(p) {
            if *n <= 0 {
                return Err(Error::new("IO error: injected write failure"));
            }
            *n -= 1;
        }
        Ok(())
    }

    thread_local! {
        static YIELD: RefCell<Option<Box<dyn Fn()>>> = const { RefCell::new(None) };
    }
    /// Install a callback run by this thread at every row-lock and commit.
    pub fn set_yield(f: Option<Box<dyn Fn()>>) {
        YIELD.with(|y| *y.borrow_mut() = f);
    }
    pub(super) fn yield_point() {
        YIELD.with(|y| {
            if let Some(f) = y.borrow().as_ref() {
                f()
            }
        });
    }

    pub fn observe(on: bool) {
        OBSERVE.store(on, Ordering::SeqCst);
        if !on {
            log().lock().unwrap().clear();
        }
    }
    pub fn take_writes() -> Vec<Write> {
        std::mem::take(&mut *log().lock().unwrap())
    }
    /// Let `n` more writes to `path` succeed, then fail every one (None: heal).
    pub fn fail_after(path: &Path, n: Option<u64>) {
        let mut f = faults().lock().unwrap();
        match n {
            Some(n) => {
                f.insert(path.to_path_buf(), n as i64);
            }
            None => {
                f.remove(path);
            }
        }
    }
    /// Contents of an open database.
    pub fn image(path: &Path) -> Option<Arc<Map>> {
        live_image(path)
    }
    /// Materialise `m` as the on-disk contents of a (closed) database.
    pub fn write_image(path: &Path, m: &Map) {
        fs::create_dir_all(path).unwrap();
        fs::write(path.join(LOCK), b"MANIFEST\n").unwrap();
        persist(path, m);
    }
    /// On-disk contents of a closed database.
    pub fn read_image(path: &Path) -> Option<Map> {
        load(path).ok().flatten()
    }
}
