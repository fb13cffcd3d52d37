//! Stand-in for the forked `rocksdb` git dependency (not fetchable here): an ordered byte-string
//! map with the same interface, kept in one file inside the database directory.
use std::collections::BTreeMap;
use std::fmt;
use std::fs;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn into_string(self) -> String {
        self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Default, Debug, Clone)]
pub struct Options {
    read_only: bool,
    create: bool,
}
impl Options {
    pub fn set_read_only(&mut self, v: bool) {
        self.read_only = v
    }
    pub fn set_allow_mmap_reads(&mut self, _v: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _v: bool) {}
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v
    }
}

pub struct DBVector(Vec<u8>);
impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
type Map = BTreeMap<Vec<u8>, Vec<u8>>;
pub struct DB {
    file: PathBuf,
    read_only: bool,
    data: Arc<Mutex<Map>>,
    dirty: Mutex<bool>,
}
impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.file)
    }
}
pub type KVBytes = (Box<[u8]>, Box<[u8]>);
pub struct DBIterator {
    v: std::vec::IntoIter<KVBytes>,
}
impl Iterator for DBIterator {
    type Item = KVBytes;
    fn next(&mut self) -> Option<KVBytes> {
        self.v.next()
    }
}
fn err<E: fmt::Display>(e: E) -> Error {
    Error { message: format!("IO error: {}", e) }
}
fn rd(b: &[u8], p: &mut usize) -> Vec<u8> {
    let mut n = [0u8; 8];
    n.copy_from_slice(&b[*p..*p + 8]);
    let n = u64::from_le_bytes(n) as usize;
    let out = b[*p + 8..*p + 8 + n].to_vec();
    *p += 8 + n;
    out
}
impl DB {
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        let dir = path.as_ref().to_owned();
        let file = dir.join("CURRENT.shim");
        let mut data = Map::new();
        if file.exists() {
            let b = fs::read(&file).map_err(err)?;
            let mut p = 0;
            while p < b.len() {
                let k = rd(&b, &mut p);
                let v = rd(&b, &mut p);
                data.insert(k, v);
            }
        } else if opts.create && !opts.read_only {
            fs::create_dir_all(&dir).map_err(err)?;
        } else {
            return Err(err(format!("{:?}: does not exist", dir)));
        }
        Ok(DB {
            file,
            read_only: opts.read_only,
            data: Arc::new(Mutex::new(data)),
            dirty: Mutex::new(!opts.read_only),
        })
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBVector>, Error> {
        Ok(self.data.lock().unwrap().get(key.as_ref()).map(|v| DBVector(v.clone())))
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        if self.read_only {
            return Err(err("Not supported operation in read only mode."));
        }
        self.data.lock().unwrap().insert(key.as_ref().to_vec(), value.as_ref().to_vec());
        *self.dirty.lock().unwrap() = true;
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.data.lock().unwrap().remove(key.as_ref());
        Ok(())
    }
    pub fn iterator(&self, mode: IteratorMode) -> DBIterator {
        let d = self.data.lock().unwrap();
        let kv = |(k, v): (&Vec<u8>, &Vec<u8>)| {
            (k.clone().into_boxed_slice(), v.clone().into_boxed_slice())
        };
        let v: Vec<KVBytes> = match mode {
            IteratorMode::Start => d.iter().map(kv).collect(),
            IteratorMode::End => d.iter().rev().map(kv).collect(),
            IteratorMode::From(k, Direction::Forward) => d.range(k.to_vec()..).map(kv).collect(),
            IteratorMode::From(k, Direction::Reverse) => {
                d.range(..=k.to_vec()).rev().map(kv).collect()
            }
        };
        DBIterator { v: v.into_iter() }
    }
    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _s: Option<S>, _e: Option<E>) {}
    pub fn flush(&self) -> Result<(), Error> {
        self.persist()
    }
    fn persist(&self) -> Result<(), Error> {
        let mut dirty = self.dirty.lock().unwrap();
        if *dirty {
            let mut out = Vec::new();
            for (k, v) in self.data.lock().unwrap().iter() {
                out.extend_from_slice(&(k.len() as u64).to_le_bytes());
                out.extend_from_slice(k);
                out.extend_from_slice(&(v.len() as u64).to_le_bytes());
                out.extend_from_slice(v);
            }
            fs::write(&self.file, out).map_err(err)?;
            *dirty = false;
        }
        Ok(())
    }
}
impl Drop for DB {
    fn drop(&mut self) {
        if !self.read_only {
            let _ = self.persist();
        }
    }
}
