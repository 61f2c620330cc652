use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

struct Slot<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Send for Slot<T> {}
unsafe impl<T> Sync for Slot<T> {}

pub struct JoinHandle<T> {
    id: usize,
    slot: Arc<Slot<T>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

#[derive(Debug)]
pub struct JoinError;
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("task failed")
    }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        crate::model::kill_task(self.id)
    }
    pub fn is_finished(&self) -> bool {
        !crate::model::alive(self.id)
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(v) = unsafe { (*self.slot.0.get()).take() } {
            return Poll::Ready(Ok(v));
        }
        if !crate::model::alive(self.id) {
            return Poll::Ready(Err(JoinError));
        }
        Poll::Pending
    }
}

pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let slot = Arc::new(Slot(UnsafeCell::new(None)));
    let out = slot.clone();
    let id = crate::model::add_task(Box::pin(async move {
        let v = future.await;
        unsafe { *out.0.get() = Some(v) };
    }));
    JoinHandle { id, slot }
}

pub struct YieldNow(bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
