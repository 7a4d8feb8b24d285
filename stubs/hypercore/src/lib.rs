//! Stand-in for `hypercore` 0.14 (not available offline): the environment model used by all checks.
//!
//! It models what hyperbee relies on: an append-only list of immutable blocks with an atomic `append`, `get` by index
//! (`None` for a block that is not present locally), and the current length. The explorer owns every answer it
//! gives: which operations fail, which are delayed, which blocks are missing. See [`mc`].
use std::path::PathBuf;

pub mod mc;
pub mod replication;

use mc::{CoreHandle, Log};

/// Errors, a subset of hypercore's
#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum HypercoreError {
    #[error("Bad argument. {context}")]
    BadArgument { context: String },
    #[error("Hypercore not writable")]
    NotWritable,
    #[error("Invalid operation. {context}")]
    InvalidOperation { context: String },
    #[error("Hypercore storage is corrupt. {context}")]
    CorruptStorage { context: String },
    #[error("Unrecoverable input/output error occured")]
    IO {
        context: Option<String>,
        #[source]
        source: std::io::Error,
    },
}

impl From<std::io::Error> for HypercoreError {
    fn from(source: std::io::Error) -> Self {
        HypercoreError::IO { context: None, source }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AppendOutcome {
    pub length: u64,
    pub byte_length: u64,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}

#[derive(Debug)]
enum StorageKind {
    Memory,
    Disk(PathBuf),
}

#[derive(Debug)]
pub struct Storage {
    kind: StorageKind,
}

impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Self { kind: StorageKind::Memory })
    }
    /// A directory holding one file: `[length: u32 le][bytes]` per block. `overwrite` empties it first.
    pub async fn new_disk(dir: &PathBuf, overwrite: bool) -> Result<Self, HypercoreError> {
        std::fs::create_dir_all(dir)?;
        let file = dir.join("blocks");
        if overwrite || !file.exists() {
            std::fs::write(&file, b"")?;
        }
        Ok(Self { kind: StorageKind::Disk(file) })
    }
}

pub struct HypercoreBuilder {
    storage: Storage,
}

impl HypercoreBuilder {
    pub fn new(storage: Storage) -> Self {
        Self { storage }
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        let mut log = Log::default();
        let mut file = None;
        if let StorageKind::Disk(path) = self.storage.kind {
            // a file `base` beside it: the index of the first block
            if let Ok(b) = std::fs::read_to_string(path.with_file_name("base")) {
                log.base = b.trim().parse().map_err(|_| HypercoreError::CorruptStorage { context: "base".into() })?;
            }
            let bytes = std::fs::read(&path)?;
            let mut rest = &bytes[..];
            while rest.len() >= 4 {
                let n = u32::from_le_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize;
                if rest.len() < 4 + n {
                    return Err(HypercoreError::CorruptStorage { context: "short block".into() });
                }
                log.push(&rest[4..4 + n]);
                rest = &rest[4 + n..];
            }
            file = Some(path);
        }
        let core = CoreHandle::new(log);
        mc::count_built(1);
        core.with(|c| {
            c.file = file;
            c.built = true;
        });
        Ok(Hypercore { core })
    }
}

/// An append-only log
#[derive(Debug)]
pub struct Hypercore {
    pub(crate) core: CoreHandle,
}

impl Hypercore {
    pub fn info(&self) -> Info {
        self.core.info()
    }
    pub async fn get(&mut self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        self.core.get(index).await
    }
    pub async fn append(&mut self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        self.core.append(&[data]).await
    }
    pub async fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]>>(&mut self, batch: B) -> Result<AppendOutcome, HypercoreError> {
        let v: Vec<&[u8]> = batch.as_ref().iter().map(|x| x.as_ref()).collect();
        self.core.append(&v).await
    }
    pub fn has(&self, index: u64) -> bool {
        self.core.has(index)
    }
}
