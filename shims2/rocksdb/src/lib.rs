//! An in-memory stand-in for the parts of RocksDB that snapchain uses: a sorted map of byte strings.
//! What a directory holds outlives the handle (so a store can be closed and opened again), commits are
//! atomic, iterators see the state as of their creation and the bounds given in ReadOptions.
//! `crash_after(n)` makes the n-th later write (single put/delete or commit) and all that follow be lost.
use std::cell::RefCell;
use std::fmt;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, MutexGuard};

pub type Rows = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Default)]
pub struct Disk {
    pub rows: Rows,
    pub writes: u64,
}

static DISKS: Mutex<Vec<(PathBuf, Arc<Mutex<Disk>>)>> = Mutex::new(Vec::new());
static CRASH: Mutex<Option<u64>> = Mutex::new(None);

pub fn disk(path: &Path) -> Arc<Mutex<Disk>> {
    let mut d = DISKS.lock().unwrap();
    for (p, k) in d.iter() {
        if p.as_path() == path {
            return k.clone();
        }
    }
    let k = Arc::new(Mutex::new(Disk::default()));
    d.push((path.to_path_buf(), k.clone()));
    k
}

/// the next `n` writes take effect, and none after them
pub fn crash_after(n: Option<u64>) {
    *CRASH.lock().unwrap() = n;
}

fn alive() -> bool {
    let mut c = CRASH.lock().unwrap();
    match &mut *c {
        None => true,
        Some(0) => false,
        Some(n) => {
            *n -= 1;
            true
        }
    }
}

fn find(rows: &Rows, key: &[u8]) -> Result<usize, usize> {
    let mut i = 0;
    while i < rows.len() {
        match rows[i].0.as_slice().cmp(key) {
            std::cmp::Ordering::Less => i += 1,
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
        }
    }
    Err(i)
}

fn set(rows: &mut Rows, key: &[u8], value: Option<&[u8]>) {
    match (find(rows, key), value) {
        (Ok(i), Some(v)) => rows[i].1 = v.to_vec(),
        (Ok(i), None) => {
            rows.remove(i);
        }
        (Err(i), Some(v)) => rows.insert(i, (key.to_vec(), v.to_vec())),
        (Err(_), None) => {}
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl Error {
    pub fn new(s: String) -> Self {
        Error(s)
    }
    pub fn into_string(self) -> String {
        self.0
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

macro_rules! opts {
    ($t:ident { $($f:ident: $a:ty),* $(,)? }) => {
        #[derive(Default, Clone)]
        pub struct $t(());
        impl $t { $(pub fn $f(&mut self, _: $a) {})* }
    };
}
opts!(Options {
    set_write_buffer_size: usize, increase_parallelism: i32, set_max_write_buffer_number: i32,
    set_min_write_buffer_number_to_merge: i32, create_if_missing: bool, set_compression_type: DBCompressionType,
    set_block_based_table_factory: &BlockBasedOptions, set_max_background_jobs: i32,
    set_level_zero_file_num_compaction_trigger: i32, set_level_zero_slowdown_writes_trigger: i32,
    set_level_zero_stop_writes_trigger: i32, set_target_file_size_base: u64, set_max_bytes_for_level_base: u64,
    set_disable_auto_compactions: bool, set_max_open_files: i32, set_bytes_per_sync: u64,
});
opts!(TransactionDBOptions { set_default_lock_timeout: i64, set_txn_lock_timeout: i64 });
opts!(BlockBasedOptions {
    set_block_cache: &Cache, set_cache_index_and_filter_blocks: bool,
    set_pin_l0_filter_and_index_blocks_in_cache: bool, set_block_size: usize,
});
opts!(WriteOptions { disable_wal: bool, set_sync: bool });

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DBCompressionType { None, Snappy, Zlib, Bz2, Lz4, Lz4hc, Zstd }

#[derive(Clone)]
pub struct Cache(());
impl Cache {
    pub fn new_lru_cache(_: usize) -> Self {
        Cache(())
    }
    pub fn get_usage(&self) -> usize {
        0
    }
    pub fn get_pinned_usage(&self) -> usize {
        0
    }
}

#[derive(Default, Clone)]
pub struct ReadOptions {
    lower: Option<Vec<u8>>,
    upper: Option<Vec<u8>>,
}
impl ReadOptions {
    pub fn set_iterate_lower_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.lower = Some(k.into());
    }
    pub fn set_iterate_upper_bound<K: Into<Vec<u8>>>(&mut self, k: K) {
        self.upper = Some(k.into());
    }
    pub fn fill_cache(&mut self, _: bool) {}
}

pub enum Direction { Forward, Reverse }
pub enum IteratorMode<'a> { Start, End, From(&'a [u8], Direction) }

/// an iterator over the rows as they were when it was made
pub struct RawIter<'a> {
    rows: Rows,
    at: Option<usize>,
    _p: PhantomData<&'a ()>,
}
impl RawIter<'_> {
    fn of(rows: &Rows, o: &ReadOptions) -> Self {
        let mut kept = Vec::new();
        for (k, v) in rows.iter() {
            if let Some(l) = &o.lower {
                if k < l {
                    continue;
                }
            }
            if let Some(u) = &o.upper {
                if k >= u {
                    break;
                }
            }
            kept.push((k.clone(), v.clone()));
        }
        RawIter { rows: kept, at: None, _p: PhantomData }
    }
    pub fn seek_to_first(&mut self) {
        self.at = if self.rows.is_empty() { None } else { Some(0) };
    }
    pub fn seek_to_last(&mut self) {
        self.at = self.rows.len().checked_sub(1);
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, k: K) {
        self.at = None;
        for i in 0..self.rows.len() {
            if self.rows[i].0.as_slice() >= k.as_ref() {
                self.at = Some(i);
                return;
            }
        }
    }
    pub fn valid(&self) -> bool {
        self.at.is_some()
    }
    pub fn item(&self) -> Option<(&[u8], &[u8])> {
        self.at.map(|i| (self.rows[i].0.as_slice(), self.rows[i].1.as_slice()))
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.at.map(|i| self.rows[i].0.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.at.map(|i| self.rows[i].1.as_slice())
    }
    pub fn next(&mut self) {
        self.at = match self.at {
            Some(i) if i + 1 < self.rows.len() => Some(i + 1),
            _ => None,
        };
    }
    pub fn prev(&mut self) {
        self.at = match self.at {
            Some(i) if i > 0 => Some(i - 1),
            _ => None,
        };
    }
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
}

type Pair = (Box<[u8]>, Box<[u8]>);
fn pairs(rows: &Rows, mode: IteratorMode) -> std::vec::IntoIter<Result<Pair, Error>> {
    let mut all: Vec<_> = Vec::new();
    for (k, v) in rows.iter() {
        if let IteratorMode::From(f, Direction::Forward) = &mode {
            if k.as_slice() < *f {
                continue;
            }
        }
        if let IteratorMode::From(f, Direction::Reverse) = &mode {
            if k.as_slice() > *f {
                continue;
            }
        }
        all.push(Ok((k.clone().into_boxed_slice(), v.clone().into_boxed_slice())));
    }
    if matches!(mode, IteratorMode::End | IteratorMode::From(_, Direction::Reverse)) {
        all.reverse();
    }
    all.into_iter()
}

macro_rules! reads {
    ($t:ty) => {
        impl $t {
            fn lock(&self) -> MutexGuard<'_, Disk> {
                self.disk.lock().unwrap()
            }
            pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
                let d = self.lock();
                Ok(find(&d.rows, k.as_ref()).ok().map(|i| d.rows[i].1.clone()))
            }
            pub fn multi_get<K: AsRef<[u8]>, I: IntoIterator<Item = K>>(&self, ks: I) -> Vec<Result<Option<Vec<u8>>, Error>> {
                ks.into_iter().map(|k| self.get(k)).collect()
            }
            pub fn raw_iterator_opt(&self, o: ReadOptions) -> RawIter<'_> {
                RawIter::of(&self.lock().rows, &o)
            }
            pub fn raw_iterator(&self) -> RawIter<'_> {
                RawIter::of(&self.lock().rows, &ReadOptions::default())
            }
            pub fn iterator(&self, m: IteratorMode) -> std::vec::IntoIter<Result<Pair, Error>> {
                pairs(&self.lock().rows, m)
            }
            pub fn path(&self) -> &Path {
                &self.path
            }
        }
    };
}

pub struct TransactionDB {
    disk: Arc<Mutex<Disk>>,
    path: PathBuf,
}
reads!(TransactionDB);
impl TransactionDB {
    pub fn open<P: AsRef<Path>>(_: &Options, _: &TransactionDBOptions, p: P) -> Result<Self, Error> {
        Ok(TransactionDB { disk: disk(p.as_ref()), path: p.as_ref().to_path_buf() })
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        if alive() {
            let mut d = self.lock();
            d.writes += 1;
            set(&mut d.rows, k.as_ref(), Some(v.as_ref()));
        }
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        if alive() {
            let mut d = self.lock();
            d.writes += 1;
            set(&mut d.rows, k.as_ref(), None);
        }
        Ok(())
    }
    pub fn transaction(&self) -> Transaction<'_, TransactionDB> {
        Transaction { db: self, log: RefCell::new(Vec::new()) }
    }
    pub fn snapshot(&self) -> Snapshot<'_> {
        Snapshot { rows: self.lock().rows.clone(), _p: PhantomData }
    }
}

pub struct Snapshot<'a> {
    rows: Rows,
    _p: PhantomData<&'a ()>,
}
impl Snapshot<'_> {
    pub fn iterator(&self, m: IteratorMode) -> std::vec::IntoIter<Result<Pair, Error>> {
        pairs(&self.rows, m)
    }
}

pub struct Transaction<'a, D> {
    db: &'a D,
    log: RefCell<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
}
impl Transaction<'_, TransactionDB> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.log.borrow_mut().push((k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.log.borrow_mut().push((k.as_ref().to_vec(), None));
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        for (x, v) in self.log.borrow().iter().rev() {
            if x.as_slice() == k.as_ref() {
                return Ok(v.clone());
            }
        }
        self.db.get(k)
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, k: K, _exclusive: bool) -> Result<Option<Vec<u8>>, Error> {
        self.get(k)
    }
    pub fn commit(self) -> Result<(), Error> {
        if alive() {
            let mut d = self.db.lock();
            d.writes += 1;
            for (k, v) in self.log.borrow().iter() {
                set(&mut d.rows, k, v.as_deref());
            }
        }
        Ok(())
    }
}

#[derive(Default)]
pub struct WriteBatch {
    log: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.log.push((k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.log.push((k.as_ref().to_vec(), None));
    }
    pub fn len(&self) -> usize {
        self.log.len()
    }
    pub fn is_empty(&self) -> bool {
        self.log.is_empty()
    }
    pub fn size_in_bytes(&self) -> usize {
        self.log.iter().map(|(k, v)| k.len() + v.as_ref().map_or(0, |v| v.len())).sum()
    }
}

pub struct DB {
    disk: Arc<Mutex<Disk>>,
    path: PathBuf,
}
reads!(DB);
impl DB {
    pub fn open<P: AsRef<Path>>(_: &Options, p: P) -> Result<Self, Error> {
        Ok(DB { disk: disk(p.as_ref()), path: p.as_ref().to_path_buf() })
    }
    pub fn open_for_read_only<P: AsRef<Path>>(_: &Options, p: P, _: bool) -> Result<Self, Error> {
        Ok(DB { disk: disk(p.as_ref()), path: p.as_ref().to_path_buf() })
    }
    pub fn destroy<P: AsRef<Path>>(_: &Options, p: P) -> Result<(), Error> {
        disk(p.as_ref()).lock().unwrap().rows.clear();
        Ok(())
    }
    pub fn write_opt(&self, b: WriteBatch, _: &WriteOptions) -> Result<(), Error> {
        if alive() {
            let mut d = self.lock();
            d.writes += 1;
            for (k, v) in b.log.iter() {
                set(&mut d.rows, k, v.as_deref());
            }
        }
        Ok(())
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.write_opt(b, &WriteOptions::default())
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }
}
