//! Stand-in for `replicator` (git dependency, unreachable offline): a core to which streams can be added.
//! Streams are recorded in the core's state for the explorer; `utils::PairEnd`s link two cores.
use futures_util::io::{AsyncRead, AsyncWrite};
use hypercore::replication::{CoreInfo, CoreMethods, CoreMethodsError, SharedCore};
use hypercore::{AppendOutcome, Hypercore, Info};
use std::any::Any;
use std::future::Future;

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum ReplicatorError {
    #[error("There was an error in the opening or mangaging a stream: {0}")]
    IoError(#[from] std::io::Error),
    #[error("Core methods error: {0}")]
    CoreMethodsError(#[from] CoreMethodsError),
}

#[derive(Debug, Clone)]
pub struct ReplicatingCore {
    core: SharedCore,
}

impl From<SharedCore> for ReplicatingCore {
    fn from(core: SharedCore) -> Self {
        Self { core }
    }
}
impl From<Hypercore> for ReplicatingCore {
    fn from(core: Hypercore) -> Self {
        Self { core: core.into() }
    }
}

impl ReplicatingCore {
    pub async fn add_stream<S: AsyncRead + AsyncWrite + Send + Sync + Unpin + 'static>(&self, stream: S, is_initiator: bool) {
        mcrt::point(mcrt::Kind::Core).await;
        let handle = self.core.handle().clone();
        let boxed: Box<dyn Any + Send> = Box::new(stream);
        #[cfg(feature = "utils")]
        if let Some(end) = boxed.downcast_ref::<utils::PairEnd>() {
            end.attach(handle.clone());
        }
        handle.with(|c| c.streams.push((boxed, is_initiator)));
    }
}

impl CoreInfo for ReplicatingCore {
    async fn info(&self) -> Info {
        self.core.info().await
    }
}

impl CoreMethods for ReplicatingCore {
    async fn has(&self, index: u64) -> bool {
        self.core.has(index).await
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        self.core.get(index).await
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        self.core.append(data).await
    }
    fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
        self.core.append_batch(batch)
    }
}

#[cfg(feature = "utils")]
pub mod utils {
    use super::*;
    use hypercore::mc::{CoreHandle, Log};
    use std::io;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll};

    /// One end of a connection. Once both ends are attached, each core follows the other.
    pub struct PairEnd {
        mine: usize,
        ends: Arc<Mutex<[Option<CoreHandle>; 2]>>,
    }
    impl PairEnd {
        pub(crate) fn attach(&self, core: CoreHandle) {
            let mut e = self.ends.lock().unwrap();
            e[self.mine] = Some(core);
            if let [Some(a), Some(b)] = &*e {
                a.with(|c| c.followers.push(b.clone()));
                b.with(|c| c.followers.push(a.clone()));
                a.mirror(b);
                b.mirror(a);
            }
        }
    }
    impl AsyncRead for PairEnd {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<io::Result<usize>> {
            Poll::Pending
        }
    }
    impl AsyncWrite for PairEnd {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
    pub fn create_connected_streams() -> (PairEnd, PairEnd) {
        let ends = Arc::new(Mutex::new([None, None]));
        (PairEnd { mine: 0, ends: ends.clone() }, PairEnd { mine: 1, ends })
    }
    pub async fn writer_and_reader_cores() -> Result<(SharedCore, SharedCore), Box<dyn std::error::Error>> {
        Ok((CoreHandle::new(Log::default()).into(), CoreHandle::new(Log::default()).into()))
    }
}
