//! In-memory stand-in for the rocksdb crate (same names, the subset this code base may use), with simulated latency,
//! injected errors, atomic batches and crash images. Contents live in a registry keyed by path, so that a database
//! can be closed, crashed and reopened within a run.
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    InvalidArgument,
    IOError,
    Unknown,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
    kind: ErrorKind,
}
impl Error {
    pub fn new(message: String) -> Self {
        Error { message, kind: ErrorKind::Unknown }
    }
    fn io(m: &str) -> Self {
        Error { message: format!("IO error: {m}"), kind: ErrorKind::IOError }
    }
    pub fn into_string(self) -> String {
        self.message
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind.clone()
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Default)]
pub struct Options {
    pub create_if_missing: bool,
    pub create_missing_cfs: bool,
    manual_wal_flush: bool,
    atomic_flush: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, v: bool) {
        self.create_missing_cfs = v;
    }
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn set_max_write_buffer_number(&mut self, _: i32) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
    /// The log is buffered in the process until `flush_wal`, a flush or a clean close.
    pub fn set_manual_wal_flush(&mut self, v: bool) {
        self.manual_wal_flush = v;
    }
    pub fn set_atomic_flush(&mut self, v: bool) {
        self.atomic_flush = v;
    }
    pub fn set_bytes_per_sync(&mut self, _: u64) {}
    pub fn set_wal_bytes_per_sync(&mut self, _: u64) {}
    pub fn set_max_background_jobs(&mut self, _: i32) {}
    pub fn set_max_total_wal_size(&mut self, _: u64) {}
    pub fn set_keep_log_file_num(&mut self, _: usize) {}
    pub fn set_unordered_write(&mut self, _: bool) {}
    pub fn set_enable_pipelined_write(&mut self, _: bool) {}
    pub fn set_allow_concurrent_memtable_write(&mut self, _: bool) {}
    pub fn set_paranoid_checks(&mut self, _: bool) {}
    pub fn set_target_file_size_base(&mut self, _: u64) {}
    pub fn set_level_compaction_dynamic_level_bytes(&mut self, _: bool) {}
    pub fn optimize_for_point_lookup(&mut self, _: u64) {}
    pub fn optimize_level_style_compaction(&mut self, _: usize) {}
    pub fn prepare_for_bulk_load(&mut self) {}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DBCompressionType {
    None,
    Snappy,
    Lz4,
    Zstd,
}
#[derive(Clone, Default)]
pub struct WriteOptions {
    pub sync: bool,
    no_wal: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, v: bool) {
        self.sync = v;
    }
    pub fn disable_wal(&mut self, v: bool) {
        self.no_wal = v;
    }
    pub fn set_no_slowdown(&mut self, _: bool) {}
    pub fn set_low_pri(&mut self, _: bool) {}
}
#[derive(Clone, Default)]
pub struct FlushOptions;
impl FlushOptions {
    pub fn new() -> Self {
        Self
    }
    pub fn set_wait(&mut self, _: bool) {}
}
#[derive(Clone, Default)]
pub struct ReadOptions;
impl ReadOptions {
    pub fn fill_cache(&mut self, _: bool) {}
    pub fn set_verify_checksums(&mut self, _: bool) {}
    pub fn set_total_order_seek(&mut self, _: bool) {}
}

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";

pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _o: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
}
pub struct ColumnFamily {
    idx: usize,
}
pub trait AsColumnFamilyRef {
    fn idx(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn idx(&self) -> usize {
        self.idx
    }
}
impl<T: AsColumnFamilyRef + ?Sized> AsColumnFamilyRef for &T {
    fn idx(&self) -> usize {
        (**self).idx()
    }
}
impl<T: AsColumnFamilyRef + ?Sized> AsColumnFamilyRef for Arc<T> {
    fn idx(&self) -> usize {
        (**self).idx()
    }
}

#[derive(Clone)]
enum Op {
    Put(usize, Vec<u8>, Vec<u8>),
    Del(usize, Vec<u8>),
    DelRange(usize, Vec<u8>, Vec<u8>),
}
#[derive(Clone, Default)]
pub struct WriteBatch {
    ops: Vec<Op>,
}
impl WriteBatch {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
    pub fn size_in_bytes(&self) -> usize {
        self.ops.len() * 64
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops.push(Op::Put(0, k.as_ref().to_vec(), v.as_ref().to_vec()))
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K, v: V) {
        self.ops.push(Op::Put(cf.idx(), k.as_ref().to_vec(), v.as_ref().to_vec()))
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push(Op::Del(0, k.as_ref().to_vec()))
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K) {
        self.ops.push(Op::Del(cf.idx(), k.as_ref().to_vec()))
    }
    pub fn delete_range_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, a: K, b: K) {
        self.ops.push(Op::DelRange(cf.idx(), a.as_ref().to_vec(), b.as_ref().to_vec()))
    }
}

type Table = BTreeMap<Vec<u8>, Vec<u8>>;

/// The durable contents of one database.
#[derive(Clone, Default)]
pub struct Image {
    names: Vec<String>,
    tables: Vec<Arc<Table>>,
}
impl Image {
    pub fn table(&self, cf: &str) -> Option<&Table> {
        self.names.iter().position(|n| n == cf).map(|i| &*self.tables[i])
    }
    pub fn entries(&self) -> usize {
        self.tables.iter().map(|t| t.len()).sum()
    }
    pub fn cf_names(&self) -> &[String] {
        &self.names
    }
    fn ensure(&mut self, n: &str) -> usize {
        if let Some(i) = self.names.iter().position(|x| x == n) {
            return i;
        }
        self.names.push(n.to_string());
        self.tables.push(Arc::new(Table::new()));
        self.names.len() - 1
    }
    fn apply(&mut self, b: &[Op]) {
        for op in b {
            match op {
                Op::Put(c, k, v) => {
                    Arc::make_mut(&mut self.tables[*c]).insert(k.clone(), v.clone());
                }
                Op::Del(c, k) => {
                    Arc::make_mut(&mut self.tables[*c]).remove(k);
                }
                Op::DelRange(c, a, b) => {
                    let t = Arc::make_mut(&mut self.tables[*c]);
                    let ks: Vec<_> = t.range(a.clone()..b.clone()).map(|x| x.0.clone()).collect();
                    for k in ks {
                        t.remove(&k);
                    }
                }
            }
        }
    }
}

/// Fault plan of one database. Chances are per 65536 operations.
#[derive(Clone, Debug, Default)]
pub struct FaultCfg {
    pub read_err: u32,
    pub write_err: u32,
    pub iter_err: u32,
    /// A failing write may nevertheless have been applied (the error came after the log write).
    pub ambiguous: bool,
    pub latency_chance: u32,
    pub latency_max_ns: u64,
}

struct Store {
    image: Image,
    /// What is on the disk where it differs from `image`: writes that skip the log, or stay in its buffer, are only
    /// in the memory of the process until their column family is flushed or the database is closed.
    on_disk: Option<Image>,
    atomic_flush: bool,
    faults: FaultCfg,
    /// Incremented at each open: handles of an older generation belong to a dead process.
    generation: u64,
    dead_generation: u64,
    writes: u64,
    ops: u64,
    crash_at_write: u64,
    crash_applies: bool,
    crashed: bool,
    write_log: Vec<(u64, usize)>,
    failed_ops: u64,
}

struct Reg(UnsafeCell<Option<BTreeMap<String, Store>>>);
unsafe impl Sync for Reg {}
static REG: Reg = Reg(UnsafeCell::new(None));

impl Store {
    /// `logged`: the write reaches the disk with the log.
    fn write(&mut self, ops: &[Op], logged: bool) {
        if !logged && self.on_disk.is_none() {
            self.on_disk = Some(self.image.clone());
        }
        self.image.apply(ops);
        if let Some(d) = self.on_disk.as_mut() {
            if logged {
                d.apply(ops);
            } else {
                simrt::count("disk.volatile_write");
                // the memory of some column families is flushed in the background
                if simrt::fault_chance(1, 8) {
                    let all = self.atomic_flush;
                    for i in 0..d.tables.len() {
                        if all || simrt::fault_chance(1, 2) {
                            d.tables[i] = self.image.tables[i].clone();
                        }
                    }
                }
            }
        }
    }
    fn flush(&mut self, cf: Option<usize>) {
        match (cf, self.on_disk.as_mut()) {
            (Some(i), Some(d)) if !self.atomic_flush => d.tables[i] = self.image.tables[i].clone(),
            _ => self.on_disk = None,
        }
    }
}

/// One thread runs at a time and no pre-emption happens while `_g` is held.
fn with<R>(path: &str, f: impl FnOnce(&mut Store) -> R) -> R {
    let _g = simrt::Guard::new();
    let r = unsafe { (*REG.0.get()).get_or_insert_with(BTreeMap::new) };
    let s = r.entry(path.to_string()).or_insert_with(|| Store {
        image: Image::default(),
        on_disk: None,
        atomic_flush: false,
        faults: FaultCfg::default(),
        generation: 0,
        dead_generation: 0,
        writes: 0,
        ops: 0,
        crash_at_write: u64::MAX,
        crash_applies: false,
        crashed: false,
        write_log: vec![],
        failed_ops: 0,
    });
    f(s)
}

/// Control surface for harnesses.
pub mod simctl {
    use super::*;
    pub fn set_faults(path: &str, f: FaultCfg) {
        with(path, |s| s.faults = f)
    }
    /// Every database opened so far.
    pub fn paths() -> Vec<String> {
        let _g = simrt::Guard::new();
        unsafe { (*REG.0.get()).as_ref().map(|r| r.keys().cloned().collect()).unwrap_or_default() }
    }
    pub fn faults(path: &str) -> FaultCfg {
        with(path, |s| s.faults.clone())
    }
    pub fn writes(path: &str) -> u64 {
        with(path, |s| s.writes)
    }
    pub fn ops(path: &str) -> u64 {
        with(path, |s| s.ops)
    }
    pub fn failed_ops(path: &str) -> u64 {
        with(path, |s| s.failed_ops)
    }
    /// The process owning this database dies at its n-th write from now (1 = the next), which is applied or not.
    pub fn arm_crash(path: &str, n: u64, applies: bool) {
        with(path, |s| {
            s.crash_at_write = s.writes + n;
            s.crash_applies = applies;
            s.crashed = false;
        })
    }
    pub fn disarm_crash(path: &str) {
        with(path, |s| s.crash_at_write = u64::MAX)
    }
    pub fn crashed(path: &str) -> bool {
        with(path, |s| s.crashed)
    }
    /// All handles open now are dead: their operations fail and change nothing.
    pub fn kill(path: &str) {
        with(path, |s| s.dead_generation = s.generation)
    }
    pub fn image(path: &str) -> Image {
        with(path, |s| s.image.clone())
    }
    /// What a process that dies now leaves behind.
    pub fn image_after_crash(path: &str) -> Image {
        with(path, |s| s.on_disk.as_ref().unwrap_or(&s.image).clone())
    }
    pub fn install(path: &str, i: Image) {
        with(path, |s| {
            s.image = i;
            s.on_disk = None;
            s.generation += 1;
            s.dead_generation = s.generation;
            s.crashed = false;
            s.crash_at_write = u64::MAX;
        })
    }
    /// A digest of the whole contents.
    pub fn digest(path: &str) -> u64 {
        with(path, |s| {
            let mut h = 0xcbf29ce484222325u64;
            let mut eat = |b: &[u8]| {
                for x in b {
                    h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
                }
            };
            for (n, t) in s.image.names.iter().zip(&s.image.tables) {
                eat(n.as_bytes());
                for (k, v) in t.iter() {
                    eat(k);
                    eat(v);
                }
            }
            h
        })
    }
}

pub struct DB {
    path: String,
    generation: u64,
    cfs: BTreeMap<String, ColumnFamily>,
    manual_wal_flush: bool,
}
impl Drop for DB {
    fn drop(&mut self) {
        with(&self.path, |s| {
            if self.generation > s.dead_generation && self.generation == s.generation && !s.crashed {
                s.on_disk = None;
            }
        })
    }
}

enum Class {
    Read,
    Write,
    Iter,
}

impl DB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(o: &Options, path: P, cfs: I) -> Result<DB, Error> {
        let path = path.as_ref().to_string_lossy().to_string();
        let names: Vec<String> = cfs.into_iter().map(|c| c.name).collect();
        simrt::point();
        let (generation, idx) = with(&path, |s| {
            s.generation += 1;
            s.atomic_flush = o.atomic_flush;
            // an earlier process did not close it
            if let Some(d) = s.on_disk.take() {
                s.image = d;
            }
            s.image.ensure(DEFAULT_COLUMN_FAMILY_NAME);
            let idx: Vec<usize> = names.iter().map(|n| s.image.ensure(n)).collect();
            (s.generation, idx)
        });
        let mut m = BTreeMap::new();
        for (n, i) in names.into_iter().zip(idx) {
            m.insert(n, ColumnFamily { idx: i });
        }
        m.entry(DEFAULT_COLUMN_FAMILY_NAME.to_string()).or_insert(ColumnFamily { idx: 0 });
        Ok(DB { path, generation, cfs: m, manual_wal_flush: o.manual_wal_flush })
    }
    pub fn open_cf<P: AsRef<Path>, I: IntoIterator<Item = N>, N: AsRef<str>>(o: &Options, path: P, cfs: I) -> Result<DB, Error> {
        Self::open_cf_descriptors(o, path, cfs.into_iter().map(|n| ColumnFamilyDescriptor::new(n.as_ref(), Options::default())).collect::<Vec<_>>())
    }
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        Self::open_cf_descriptors(&Options::default(), path, Vec::new())
    }
    pub fn open<P: AsRef<Path>>(o: &Options, path: P) -> Result<DB, Error> {
        Self::open_cf_descriptors(o, path, Vec::new())
    }
    pub fn path(&self) -> &Path {
        Path::new(&self.path)
    }
    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.cfs.get(name)
    }
    /// A pre-emption point, possibly latency, possibly an error.
    fn enter(&self, c: Class) -> Result<(), Error> {
        simrt::point();
        let f = with(&self.path, |s| {
            s.ops += 1;
            s.faults.clone()
        });
        if f.latency_chance > 0 && simrt::fault_chance(f.latency_chance as u64, 65536) {
            let d = simrt::fault_below(f.latency_max_ns.max(1));
            simrt::count("fault.disk_latency");
            simrt::sleep(d);
        }
        let dead = with(&self.path, |s| self.generation <= s.dead_generation || s.crashed);
        if dead {
            return Err(Error::io("simulated process is dead"));
        }
        let (chance, name) = match c {
            Class::Read => (f.read_err, "fault.disk_read_error"),
            Class::Write => (f.write_err, "fault.disk_write_error"),
            Class::Iter => (f.iter_err, "fault.disk_iter_error"),
        };
        if simrt::fault_gate(name, chance) {
            with(&self.path, |s| s.failed_ops += 1);
            return Err(Error::io("simulated device error"));
        }
        Ok(())
    }
    fn commit(&self, ops: &[Op], no_wal: bool) -> Result<(), Error> {
        let logged = !no_wal && !self.manual_wal_flush;
        let amb = with(&self.path, |s| s.faults.ambiguous);
        let r = self.enter(Class::Write);
        let out = with(&self.path, |s| {
            if self.generation <= s.dead_generation || s.crashed {
                return Err(Error::io("simulated process is dead"));
            }
            if r.is_err() {
                if amb && simrt::fault_chance(1, 2) {
                    s.write(ops, logged);
                }
                return r.clone();
            }
            s.writes += 1;
            if s.writes == s.crash_at_write {
                if s.crash_applies {
                    s.write(ops, logged);
                }
                s.crashed = true;
                simrt::count("fault.crash_at_write");
                return Err(Error::io("simulated crash"));
            }
            s.write(ops, logged);
            let w = s.writes;
            s.write_log.push((w, ops.len()));
            Ok(())
        });
        simrt::point();
        out
    }
    fn table(&self, i: usize) -> Arc<Table> {
        with(&self.path, |s| s.image.tables[i].clone())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        self.get_cf(&ColumnFamily { idx: 0 }, k)
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<Option<Vec<u8>>, Error> {
        self.enter(Class::Read)?;
        let v = with(&self.path, |s| s.image.tables[cf.idx()].get(k.as_ref()).cloned());
        simrt::point();
        Ok(v)
    }
    pub fn get_cf_opt<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K, _: &ReadOptions) -> Result<Option<Vec<u8>>, Error> {
        self.get_cf(cf, k)
    }
    pub fn get_pinned_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<Option<Vec<u8>>, Error> {
        self.get_cf(cf, k)
    }
    pub fn key_may_exist_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> bool {
        with(&self.path, |s| s.image.tables[cf.idx()].contains_key(k.as_ref()))
    }
    pub fn multi_get_cf<'a, 'b: 'a, K, I, W>(&'a self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>>
    where
        K: AsRef<[u8]>,
        I: IntoIterator<Item = (&'b W, K)>,
        W: 'b + AsColumnFamilyRef,
    {
        keys.into_iter().map(|(c, k)| self.get_cf(c, k)).collect()
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.commit(&[Op::Put(0, k.as_ref().to_vec(), v.as_ref().to_vec())], false)
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K, v: V) -> Result<(), Error> {
        self.commit(&[Op::Put(cf.idx(), k.as_ref().to_vec(), v.as_ref().to_vec())], false)
    }
    pub fn put_cf_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K, v: V, o: &WriteOptions) -> Result<(), Error> {
        self.commit(&[Op::Put(cf.idx(), k.as_ref().to_vec(), v.as_ref().to_vec())], o.no_wal)
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<(), Error> {
        self.commit(&[Op::Del(cf.idx(), k.as_ref().to_vec())], false)
    }
    pub fn delete_cf_opt<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K, o: &WriteOptions) -> Result<(), Error> {
        self.commit(&[Op::Del(cf.idx(), k.as_ref().to_vec())], o.no_wal)
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.commit(&b.ops, false)
    }
    pub fn write_opt(&self, b: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        self.commit(&b.ops, o.no_wal)
    }
    pub fn write_without_wal(&self, b: WriteBatch) -> Result<(), Error> {
        self.commit(&b.ops, true)
    }
    /// Without column family: that of the default one.
    pub fn flush(&self) -> Result<(), Error> {
        self.flush_cf(&ColumnFamily { idx: 0 })
    }
    pub fn flush_wal(&self, _sync: bool) -> Result<(), Error> {
        self.enter(Class::Write)?;
        if self.manual_wal_flush {
            with(&self.path, |s| s.flush(None));
        }
        Ok(())
    }
    pub fn flush_cf(&self, cf: &impl AsColumnFamilyRef) -> Result<(), Error> {
        self.enter(Class::Write)?;
        with(&self.path, |s| s.flush(Some(cf.idx())));
        Ok(())
    }
    pub fn flush_cfs_opt<T: AsColumnFamilyRef>(&self, cfs: &[&T], _: &FlushOptions) -> Result<(), Error> {
        self.enter(Class::Write)?;
        with(&self.path, |s| cfs.iter().for_each(|c| s.flush(Some(c.idx()))));
        Ok(())
    }
    pub fn flush_opt(&self, _: &FlushOptions) -> Result<(), Error> {
        self.flush()
    }
    pub fn flush_cf_opt(&self, cf: &impl AsColumnFamilyRef, _: &FlushOptions) -> Result<(), Error> {
        self.flush_cf(cf)
    }
    pub fn iterator_cf<'a>(&'a self, cf: &impl AsColumnFamilyRef, mode: IteratorMode) -> DBIterator<'a> {
        simrt::point();
        let t = self.table(cf.idx());
        let (cur, fwd) = match mode {
            IteratorMode::Start => (Pos::First, true),
            IteratorMode::End => (Pos::Last, false),
            IteratorMode::From(k, Direction::Forward) => (Pos::At(k.to_vec()), true),
            IteratorMode::From(k, Direction::Reverse) => (Pos::At(k.to_vec()), false),
        };
        DBIterator { db: self, t, cur, fwd }
    }
    pub fn iterator_cf_opt<'a>(&'a self, cf: &impl AsColumnFamilyRef, _: ReadOptions, mode: IteratorMode) -> DBIterator<'a> {
        self.iterator_cf(cf, mode)
    }
    pub fn full_iterator_cf<'a>(&'a self, cf: &impl AsColumnFamilyRef, mode: IteratorMode) -> DBIterator<'a> {
        self.iterator_cf(cf, mode)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
enum Pos {
    First,
    Last,
    At(Vec<u8>),
    After(Vec<u8>),
    Done,
}
/// Iterates over the contents as of its creation.
pub struct DBIterator<'a> {
    db: &'a DB,
    t: Arc<Table>,
    cur: Pos,
    fwd: bool,
}
impl DBIterator<'_> {
    pub fn status(&self) -> Result<(), Error> {
        Ok(())
    }
    pub fn valid(&self) -> bool {
        !matches!(self.cur, Pos::Done)
    }
}
impl Iterator for DBIterator<'_> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if matches!(self.cur, Pos::Done) {
            return None;
        }
        if let Err(e) = self.db.enter(Class::Iter) {
            self.cur = Pos::Done;
            return Some(Err(e));
        }
        use std::ops::Bound::*;
        let e = {
            let t = &self.t;
            if self.fwd {
                match &self.cur {
                    Pos::First => t.iter().next(),
                    Pos::At(k) => t.range::<[u8], _>((Included(k.as_slice()), Unbounded)).next(),
                    Pos::After(k) => t.range::<[u8], _>((Excluded(k.as_slice()), Unbounded)).next(),
                    _ => None,
                }
            } else {
                match &self.cur {
                    Pos::Last => t.iter().next_back(),
                    Pos::At(k) => t.range::<[u8], _>((Unbounded, Included(k.as_slice()))).next_back(),
                    Pos::After(k) => t.range::<[u8], _>((Unbounded, Excluded(k.as_slice()))).next_back(),
                    _ => None,
                }
            }
            .map(|(k, v)| (k.clone(), v.clone()))
        };
        match e {
            Some((k, v)) => {
                self.cur = Pos::After(k.clone());
                Some(Ok((k.into_boxed_slice(), v.into_boxed_slice())))
            }
            None => {
                self.cur = Pos::Done;
                None
            }
        }
    }
}
