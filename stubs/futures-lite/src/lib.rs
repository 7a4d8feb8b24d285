//! Stand-in for `futures-lite` 2.x (not available offline): the part of its surface that library code
//! commonly uses, on top of `futures-util`. Only traits and combinators; nothing here schedules or blocks.
pub use futures_util::future::Future;
pub use futures_util::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
pub use futures_util::io::{AsyncBufReadExt, AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
pub use futures_util::stream::Stream;
pub use crate::stream::StreamExt;
pub use futures_util::{pin_mut as pin, ready};

pub use crate::future::FutureExt;

pub mod future {
    pub use core::future::{pending, ready, Future, Pending, Ready};
    pub use futures_util::future::poll_fn;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Future<Output = T> + 'static>>;

    /// futures_lite's extension trait (note `poll`, which futures-util spells `poll_unpin`)
    pub trait FutureExt: Future {
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
        where
            Self: Unpin,
        {
            Future::poll(Pin::new(self), cx)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<F: Future + ?Sized> FutureExt for F {}

    pub async fn yield_now() {
        let mut done = false;
        poll_fn(move |cx| {
            if done {
                Poll::Ready(())
            } else {
                done = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        })
        .await
    }

    pub async fn poll_once<T, F: Future<Output = T>>(f: F) -> Option<T> {
        let mut f = Box::pin(f);
        poll_fn(move |cx| {
            Poll::Ready(match f.as_mut().poll(cx) {
                Poll::Ready(t) => Some(t),
                Poll::Pending => None,
            })
        })
        .await
    }

    pub async fn zip<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
        futures_util::future::join(a, b).await
    }

    pub async fn try_zip<T1, T2, E, A, B>(a: A, b: B) -> Result<(T1, T2), E>
    where
        A: Future<Output = Result<T1, E>>,
        B: Future<Output = Result<T2, E>>,
    {
        futures_util::future::try_join(a, b).await
    }
}

pub mod stream {
    pub use futures_util::stream::{empty, iter, pending, poll_fn, repeat, try_unfold, unfold};
    pub use futures_util::stream::Stream;
    use futures_util::stream as fs;
    use futures_util::StreamExt as U;
    use std::future::{ready, Future, Ready};
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub fn once<T>(t: T) -> fs::Once<Ready<T>> {
        fs::once(ready(t))
    }

    pub type Boxed<T> = Pin<Box<dyn Stream<Item = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Stream<Item = T> + 'static>>;

    /// futures_lite's extension trait (synchronous closures; `poll_next` on unpinned streams)
    pub trait StreamExt: Stream {
        fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
        where
            Self: Unpin,
        {
            Stream::poll_next(Pin::new(self), cx)
        }
        fn next(&mut self) -> fs::Next<'_, Self>
        where
            Self: Unpin,
        {
            U::next(self)
        }
        fn try_next<T, E>(&mut self) -> fs::TryNext<'_, Self>
        where
            Self: Stream<Item = Result<T, E>> + Unpin,
        {
            fs::TryStreamExt::try_next(self)
        }
        fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> fs::Map<Self, F>
        where
            Self: Sized,
        {
            U::map(self, f)
        }
        fn then<F: FnMut(Self::Item) -> Fut, Fut: Future>(self, f: F) -> fs::Then<Self, Fut, F>
        where
            Self: Sized,
        {
            U::then(self, f)
        }
        fn filter<P: FnMut(&Self::Item) -> bool>(
            self,
            mut p: P,
        ) -> fs::Filter<Self, Ready<bool>, impl FnMut(&Self::Item) -> Ready<bool>>
        where
            Self: Sized,
        {
            U::filter(self, move |x| ready(p(x)))
        }
        fn filter_map<T, F: FnMut(Self::Item) -> Option<T>>(
            self,
            mut f: F,
        ) -> fs::FilterMap<Self, Ready<Option<T>>, impl FnMut(Self::Item) -> Ready<Option<T>>>
        where
            Self: Sized,
        {
            U::filter_map(self, move |x| ready(f(x)))
        }
        fn take_while<P: FnMut(&Self::Item) -> bool>(
            self,
            mut p: P,
        ) -> fs::TakeWhile<Self, Ready<bool>, impl FnMut(&Self::Item) -> Ready<bool>>
        where
            Self: Sized,
        {
            U::take_while(self, move |x| ready(p(x)))
        }
        fn skip_while<P: FnMut(&Self::Item) -> bool>(
            self,
            mut p: P,
        ) -> fs::SkipWhile<Self, Ready<bool>, impl FnMut(&Self::Item) -> Ready<bool>>
        where
            Self: Sized,
        {
            U::skip_while(self, move |x| ready(p(x)))
        }
        fn take(self, n: usize) -> fs::Take<Self>
        where
            Self: Sized,
        {
            U::take(self, n)
        }
        fn skip(self, n: usize) -> fs::Skip<Self>
        where
            Self: Sized,
        {
            U::skip(self, n)
        }
        fn enumerate(self) -> fs::Enumerate<Self>
        where
            Self: Sized,
        {
            U::enumerate(self)
        }
        fn inspect<F: FnMut(&Self::Item)>(self, f: F) -> fs::Inspect<Self, F>
        where
            Self: Sized,
        {
            U::inspect(self, f)
        }
        fn chain<S: Stream<Item = Self::Item>>(self, s: S) -> fs::Chain<Self, S>
        where
            Self: Sized,
        {
            U::chain(self, s)
        }
        fn flatten(self) -> fs::Flatten<Self>
        where
            Self: Sized,
            Self::Item: Stream,
        {
            U::flatten(self)
        }
        fn flat_map<S: Stream, F: FnMut(Self::Item) -> S>(self, f: F) -> fs::FlatMap<Self, S, F>
        where
            Self: Sized,
        {
            U::flat_map(self, f)
        }
        fn zip<S: Stream>(self, other: S) -> fs::Zip<Self, S>
        where
            Self: Sized,
        {
            U::zip(self, other)
        }
        fn fold<T, F: FnMut(T, Self::Item) -> T>(
            self,
            init: T,
            mut f: F,
        ) -> fs::Fold<Self, Ready<T>, T, impl FnMut(T, Self::Item) -> Ready<T>>
        where
            Self: Sized,
        {
            U::fold(self, init, move |t, x| ready(f(t, x)))
        }
        fn for_each<F: FnMut(Self::Item)>(
            self,
            mut f: F,
        ) -> fs::ForEach<Self, Ready<()>, impl FnMut(Self::Item) -> Ready<()>>
        where
            Self: Sized,
        {
            U::for_each(self, move |x| ready(f(x)))
        }
        fn fuse(self) -> fs::Fuse<Self>
        where
            Self: Sized,
        {
            U::fuse(self)
        }
        fn collect<C: Default + Extend<Self::Item>>(self) -> fs::Collect<Self, C>
        where
            Self: Sized,
        {
            U::collect(self)
        }
        fn count(self) -> fs::Count<Self>
        where
            Self: Sized,
        {
            U::count(self)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}

pub mod io {
    pub use futures_util::io::*;
}

pub mod prelude {
    pub use crate::{
        AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, AsyncWriteExt, Future,
        FutureExt, Stream, StreamExt,
    };
}
