//! `hypercore::replication`: the shared core and the traits hyperbee uses.
use crate::mc::CoreHandle;
use crate::{AppendOutcome, Hypercore, HypercoreError, Info};
use std::future::Future;

#[derive(thiserror::Error, Debug)]
pub enum CoreMethodsError {
    #[error("Got a hypercore error: [{0}]")]
    HypercoreError(#[from] HypercoreError),
}

pub trait CoreInfo {
    fn info(&self) -> impl Future<Output = Info> + Send;
}

pub trait CoreMethods: CoreInfo {
    fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
    fn get(&self, index: u64) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
    fn append(&self, data: &[u8]) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
}

/// A hypercore that can be shared between tasks
#[derive(Debug, Clone)]
pub struct SharedCore(pub(crate) CoreHandle);

impl SharedCore {
    pub fn from_hypercore(core: Hypercore) -> Self {
        SharedCore(core.core)
    }
    pub fn handle(&self) -> &CoreHandle {
        &self.0
    }
}

impl From<Hypercore> for SharedCore {
    fn from(core: Hypercore) -> Self {
        SharedCore(core.core)
    }
}

impl From<CoreHandle> for SharedCore {
    fn from(core: CoreHandle) -> Self {
        SharedCore(core)
    }
}

impl CoreInfo for SharedCore {
    async fn info(&self) -> Info {
        mcrt::point(mcrt::Kind::Core).await;
        self.0.info()
    }
}

impl CoreMethods for SharedCore {
    async fn has(&self, index: u64) -> bool {
        mcrt::point(mcrt::Kind::Core).await;
        self.0.has(index)
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        Ok(self.0.get(index).await?)
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        Ok(self.0.append(&[data]).await?)
    }
    fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
        let v: Vec<Vec<u8>> = batch.as_ref().iter().map(|x| x.as_ref().to_vec()).collect();
        async move {
            let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
            Ok(self.0.append(&v).await?)
        }
    }
}
