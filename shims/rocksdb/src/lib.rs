//! In-memory stand-in for the parts of `rocksdb` that witnet_storage uses.
//!
//! Semantics kept from RocksDB: keys are ordered bytewise; `prefix_iterator` without a prefix extractor
//! seeks to the prefix and then runs to the END of the database (it does not stop by itself); iterators
//! read a snapshot; a batch is applied atomically and in order; errors can be injected.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock, RwLock};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Default, Clone)]
pub struct Options {
    create_if_missing: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, c: bool) {
        self.create_if_missing = c;
    }
    pub fn set_max_open_files(&mut self, _n: i32) {}
}

/// A database that outlives the handles on it, as a directory would. Databases live in the process's
/// memory, by path.
#[derive(Default)]
pub struct Disk {
    pub map: RwLock<BTreeMap<Vec<u8>, Vec<u8>>>,
    /// every atomic write since the last `clear_journal`
    pub journal: Mutex<Vec<Vec<Op>>>,
}
impl Disk {
    pub fn contents(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.map.read().unwrap().clone()
    }
    pub fn set_contents(&self, m: BTreeMap<Vec<u8>, Vec<u8>>) {
        *self.map.write().unwrap() = m;
    }
    pub fn clear_journal(&self) {
        self.journal.lock().unwrap().clear();
    }
}
pub fn apply(m: &mut BTreeMap<Vec<u8>, Vec<u8>>, ops: &[Op]) {
    for o in ops {
        match o {
            Op::Put(k, v) => {
                m.insert(k.clone(), v.clone());
            }
            Op::Delete(k) => {
                m.remove(k);
            }
        }
    }
}
fn disks() -> &'static Mutex<HashMap<PathBuf, Arc<Disk>>> {
    static D: OnceLock<Mutex<HashMap<PathBuf, Arc<Disk>>>> = OnceLock::new();
    D.get_or_init(Default::default)
}
/// The database at a path (created when missing).
pub fn disk(path: &Path) -> Arc<Disk> {
    disks().lock().unwrap().entry(path.to_path_buf()).or_default().clone()
}
pub fn remove_disk(path: &Path) {
    disks().lock().unwrap().remove(path);
}

#[derive(Clone)]
pub enum Op {
    Put(Vec<u8>, Vec<u8>),
    Delete(Vec<u8>),
}

#[derive(Default)]
pub struct WriteBatch(pub Vec<Op>);
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.0.push(Op::Put(k.as_ref().to_vec(), v.as_ref().to_vec()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.0.push(Op::Delete(k.as_ref().to_vec()));
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
}

/// Read-only view handed out by `get`.
pub struct DBVec(Vec<u8>);
impl std::ops::Deref for DBVec {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Default)]
pub struct DB {
    disk: Arc<Disk>,
    journaled: bool,
    /// number of operations after which every operation fails (0 = never)
    fail_after: AtomicU64,
    ops: AtomicU64,
}

pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

impl DB {
    pub fn new_in_memory() -> Self {
        Self::default()
    }
    pub fn open<P: AsRef<Path>>(o: &Options, path: P) -> Result<Self, Error> {
        let p = path.as_ref();
        if !o.create_if_missing && !disks().lock().unwrap().contains_key(p) {
            return Err(Error(format!("Invalid argument: {}: does not exist", p.display())));
        }
        Ok(Self { disk: disk(p), journaled: true, ..Self::default() })
    }
    fn note(&self, ops: &[Op]) {
        if self.journaled {
            self.disk.journal.lock().unwrap().push(ops.to_vec());
        }
    }
    pub fn inject_failure_after(&self, n: u64) {
        self.ops.store(0, Ordering::SeqCst);
        self.fail_after.store(n, Ordering::SeqCst);
    }
    pub fn contents(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.disk.map.read().unwrap().clone()
    }
    fn tick(&self) -> Result<(), Error> {
        let n = self.fail_after.load(Ordering::SeqCst);
        if n != 0 && self.ops.fetch_add(1, Ordering::SeqCst) + 1 >= n {
            return Err(Error("IO error: injected".into()));
        }
        Ok(())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<DBVec>, Error> {
        self.tick()?;
        Ok(self.disk.map.read().unwrap().get(k.as_ref()).cloned().map(DBVec))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.tick()?;
        self.note(&[Op::Put(k.as_ref().to_vec(), v.as_ref().to_vec())]);
        self.disk.map.write().unwrap().insert(k.as_ref().to_vec(), v.as_ref().to_vec());
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.tick()?;
        self.note(&[Op::Delete(k.as_ref().to_vec())]);
        self.disk.map.write().unwrap().remove(k.as_ref());
        Ok(())
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.tick()?;
        self.note(&b.0);
        apply(&mut self.disk.map.write().unwrap(), &b.0);
        Ok(())
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator {
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }
    pub fn iterator(&self, mode: IteratorMode<'_>) -> DBIterator {
        let m = self.disk.map.read().unwrap();
        let items: Vec<_> = match mode {
            IteratorMode::Start => m.iter().map(own).collect(),
            IteratorMode::End => m.iter().rev().map(own).collect(),
            IteratorMode::From(p, Direction::Forward) => m.range(p.to_vec()..).map(own).collect(),
            IteratorMode::From(p, Direction::Reverse) => m.range(..=p.to_vec()).rev().map(own).collect(),
        };
        DBIterator(items.into_iter())
    }
}
fn own((k, v): (&Vec<u8>, &Vec<u8>)) -> (Box<[u8]>, Box<[u8]>) {
    (k.clone().into_boxed_slice(), v.clone().into_boxed_slice())
}
pub struct DBIterator(std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)>);
impl Iterator for DBIterator {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(Ok)
    }
}
