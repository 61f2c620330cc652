use std::cell::{Cell, UnsafeCell};
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::task::{Context, Poll};

// ---- Mutex ----------------------------------------------------------------

pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

impl<T> Mutex<T> {
    pub fn new(v: T) -> Self {
        Mutex { locked: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> Lock<'_, T> {
        Lock { m: self }
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        if self.locked.get() {
            return Err(TryLockError(()));
        }
        self.locked.set(true);
        Ok(MutexGuard { m: self })
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
#[derive(Debug)]
pub struct TryLockError(());

pub struct Lock<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}
impl<'a, T: ?Sized> Future for Lock<'a, T> {
    type Output = MutexGuard<'a, T>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.m.locked.get() {
            return Poll::Pending;
        }
        self.m.locked.set(true);
        Poll::Ready(MutexGuard { m: self.m })
    }
}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for MutexGuard<'_, T> {}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.locked.set(false);
    }
}

// ---- RwLock ---------------------------------------------------------------

pub struct RwLock<T: ?Sized> {
    readers: Cell<usize>,
    writer: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

impl<T> RwLock<T> {
    pub fn new(v: T) -> Self {
        RwLock { readers: Cell::new(0), writer: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> Read<'_, T> {
        Read { l: self }
    }
    pub fn write(&self) -> Write<'_, T> {
        Write { l: self }
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        if self.writer.get() {
            return Err(TryLockError(()));
        }
        self.readers.set(self.readers.get() + 1);
        Ok(RwLockReadGuard { l: self })
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        if self.writer.get() || self.readers.get() != 0 {
            return Err(TryLockError(()));
        }
        self.writer.set(true);
        Ok(RwLockWriteGuard { l: self })
    }
}
pub struct Read<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
impl<'a, T: ?Sized> Future for Read<'a, T> {
    type Output = RwLockReadGuard<'a, T>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.l.try_read() {
            Ok(g) => Poll::Ready(g),
            Err(_) => Poll::Pending,
        }
    }
}
pub struct Write<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
impl<'a, T: ?Sized> Future for Write<'a, T> {
    type Output = RwLockWriteGuard<'a, T>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.l.try_write() {
            Ok(g) => Poll::Ready(g),
            Err(_) => Poll::Pending,
        }
    }
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
unsafe impl<T: ?Sized + Sync> Send for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockReadGuard<'_, T> {}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.readers.set(self.l.readers.get() - 1);
    }
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'_, T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.writer.set(false);
    }
}

// ---- Notify ---------------------------------------------------------------

/// As tokio's: `notify_one` wakes the longest-registered waiter, or stores one
/// permit if there is none; a waiter registers when it is first polled.
pub struct Notify {
    permit: Cell<bool>,
    next: Cell<u32>,
    // (waiter, notified)
    waiters: UnsafeCell<[Option<(u32, bool)>; 4]>,
}
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl Default for Notify {
    fn default() -> Self {
        Self::new()
    }
}
impl Notify {
    pub fn new() -> Self {
        Notify { permit: Cell::new(false), next: Cell::new(0), waiters: UnsafeCell::new([None; 4]) }
    }
    fn ws(&self) -> &mut [Option<(u32, bool)>; 4] {
        unsafe { &mut *self.waiters.get() }
    }
    fn oldest_waiting(&self) -> Option<usize> {
        let ws = self.ws();
        let mut best: Option<(usize, u32)> = None;
        let mut i = 0;
        while i < 4 {
            if let Some((id, false)) = ws[i] {
                match best {
                    Some((_, b)) if b < id => {}
                    _ => best = Some((i, id)),
                }
            }
            i += 1;
        }
        best.map(|x| x.0)
    }
    pub fn notify_one(&self) {
        match self.oldest_waiting() {
            Some(i) => {
                if let Some(w) = &mut self.ws()[i] {
                    w.1 = true;
                }
            }
            None => self.permit.set(true),
        }
    }
    pub fn notify_waiters(&self) {
        let ws = self.ws();
        let mut i = 0;
        while i < 4 {
            if let Some(w) = &mut ws[i] {
                w.1 = true;
            }
            i += 1;
        }
    }
    pub fn notified(&self) -> Notified<'_> {
        Notified { n: self, slot: None }
    }
}
pub struct Notified<'a> {
    n: &'a Notify,
    slot: Option<usize>,
}
impl Future for Notified<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        match self.slot {
            Some(i) => {
                if let Some((_, true)) = self.n.ws()[i] {
                    self.n.ws()[i] = None;
                    self.slot = None;
                    return Poll::Ready(());
                }
                Poll::Pending
            }
            None => {
                if self.n.permit.get() {
                    self.n.permit.set(false);
                    return Poll::Ready(());
                }
                let id = self.n.next.get();
                self.n.next.set(id + 1);
                let mut i = 0;
                while i < 4 {
                    if self.n.ws()[i].is_none() {
                        self.n.ws()[i] = Some((id, false));
                        self.slot = Some(i);
                        return Poll::Pending;
                    }
                    i += 1;
                }
                panic!("model: too many waiters");
            }
        }
    }
}
impl Drop for Notified<'_> {
    fn drop(&mut self) {
        if let Some(i) = self.slot {
            let was = self.n.ws()[i];
            self.n.ws()[i] = None;
            if let Some((_, true)) = was {
                self.n.notify_one();
            }
        }
    }
}

// ---- Semaphore ------------------------------------------------------------

pub struct Semaphore {
    permits: Cell<usize>,
    closed: Cell<bool>,
}
unsafe impl Send for Semaphore {}
unsafe impl Sync for Semaphore {}
#[derive(Debug)]
pub struct AcquireError(());
impl std::fmt::Display for AcquireError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("semaphore closed")
    }
}
#[derive(Debug)]
pub enum TryAcquireError {
    Closed,
    NoPermits,
}
impl std::fmt::Display for TryAcquireError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no permits available")
    }
}
pub struct OwnedSemaphorePermit {
    s: std::sync::Arc<Semaphore>,
}
impl OwnedSemaphorePermit {
    pub fn forget(self) {
        // the permit goes, the reference does not matter
        std::mem::forget(self)
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        self.s.permits.set(self.s.permits.get() + 1)
    }
}
impl Semaphore {
    pub async fn acquire_owned(self: std::sync::Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        self.acquire().await?.forget();
        Ok(OwnedSemaphorePermit { s: self })
    }
    pub fn try_acquire_owned(self: std::sync::Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        self.try_acquire()?.forget();
        Ok(OwnedSemaphorePermit { s: self })
    }
}
#[must_use]
pub struct SemaphorePermit<'a> {
    s: &'a Semaphore,
}
impl std::fmt::Debug for SemaphorePermit<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("permit")
    }
}
impl SemaphorePermit<'_> {
    pub fn forget(self) {
        std::mem::forget(self)
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        self.s.permits.set(self.s.permits.get() + 1)
    }
}
impl Semaphore {
    pub fn new(n: usize) -> Self {
        Semaphore { permits: Cell::new(n), closed: Cell::new(false) }
    }
    pub fn close(&self) {
        self.closed.set(true)
    }
    pub fn is_closed(&self) -> bool {
        self.closed.get()
    }
    pub fn add_permits(&self, n: usize) {
        self.permits.set(self.permits.get() + n)
    }
    pub fn available_permits(&self) -> usize {
        self.permits.get()
    }
    pub fn acquire(&self) -> Acquire<'_> {
        Acquire { s: self }
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        if self.closed.get() {
            return Err(TryAcquireError::Closed);
        }
        if self.permits.get() == 0 {
            return Err(TryAcquireError::NoPermits);
        }
        self.permits.set(self.permits.get() - 1);
        Ok(SemaphorePermit { s: self })
    }
}
pub struct Acquire<'a> {
    s: &'a Semaphore,
}
impl<'a> Future for Acquire<'a> {
    type Output = Result<SemaphorePermit<'a>, AcquireError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.s.try_acquire() {
            Ok(p) => Poll::Ready(Ok(p)),
            Err(TryAcquireError::Closed) => Poll::Ready(Err(AcquireError(()))),
            Err(TryAcquireError::NoPermits) => Poll::Pending,
        }
    }
}

// ---- mpsc -----------------------------------------------------------------

pub mod mpsc {
    use super::*;
    use std::sync::Arc;

    struct Chan<T> {
        // `None`: taken. Items before `head` are all taken.
        q: UnsafeCell<Vec<Option<T>>>,
        head: Cell<usize>,
        cap: usize,
        senders: Cell<usize>,
        rx_open: Cell<bool>,
    }
    unsafe impl<T: Send> Send for Chan<T> {}
    unsafe impl<T: Send> Sync for Chan<T> {}
    impl<T> Chan<T> {
        fn q(&self) -> &mut Vec<Option<T>> {
            unsafe { &mut *self.q.get() }
        }
        fn len(&self) -> usize {
            self.q().len() - self.head.get()
        }
        fn pop(&self) -> Option<T> {
            let h = self.head.get();
            if h == self.q().len() {
                return None;
            }
            self.head.set(h + 1);
            self.q()[h].take()
        }
    }

    pub mod error {
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Debug for SendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("SendError")
            }
        }
        impl<T> std::fmt::Display for SendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl<T> std::error::Error for SendError<T> {}
        pub enum TrySendError<T> {
            Full(T),
            Closed(T),
        }
        impl<T> std::fmt::Debug for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("TrySendError")
            }
        }
        impl<T> std::fmt::Display for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("no available capacity or channel closed")
            }
        }
        #[derive(Debug, PartialEq, Eq, Clone, Copy)]
        pub enum TryRecvError {
            Empty,
            Disconnected,
        }
    }
    use error::*;

    pub struct Sender<T> {
        c: Arc<Chan<T>>,
    }
    pub struct Receiver<T> {
        c: Arc<Chan<T>>,
    }

    pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
        let c = Arc::new(Chan {
            q: UnsafeCell::new(Vec::new()),
            head: Cell::new(0),
            cap,
            senders: Cell::new(1),
            rx_open: Cell::new(true),
        });
        (Sender { c: c.clone() }, Receiver { c })
    }

    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.c.senders.set(self.c.senders.get() + 1);
            Sender { c: self.c.clone() }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.c.senders.set(self.c.senders.get() - 1);
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.c.rx_open.set(false);
            // tokio drops what is still queued
            while let Some(v) = self.c.pop() {
                drop(v);
            }
        }
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Send_<'_, T> {
            Send_ { s: self, v: Some(v) }
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            if !self.c.rx_open.get() {
                return Err(TrySendError::Closed(v));
            }
            if self.c.len() >= self.c.cap {
                return Err(TrySendError::Full(v));
            }
            self.c.q().push(Some(v));
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            !self.c.rx_open.get()
        }
        pub fn capacity(&self) -> usize {
            self.c.cap - self.c.len()
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&mut self) -> Recv<'_, T> {
            Recv { r: self }
        }
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            match self.c.pop() {
                Some(v) => Ok(v),
                None if self.c.senders.get() == 0 || !self.c.rx_open.get() => {
                    Err(TryRecvError::Disconnected)
                }
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn close(&mut self) {
            self.c.rx_open.set(false);
        }
        /// Not in tokio: how many items are queued.
        pub fn queued(&self) -> usize {
            self.c.len()
        }
    }
    pub struct Send_<'a, T> {
        s: &'a Sender<T>,
        v: Option<T>,
    }
    impl<T> Unpin for Send_<'_, T> {}
    impl<T> Future for Send_<'_, T> {
        type Output = Result<(), SendError<T>>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let c = &self.s.c;
            if !c.rx_open.get() {
                return Poll::Ready(Err(SendError(self.v.take().unwrap())));
            }
            if c.len() >= c.cap {
                return Poll::Pending;
            }
            let v = self.v.take();
            self.s.c.q().push(v);
            Poll::Ready(Ok(()))
        }
    }
    pub struct Recv<'a, T> {
        r: &'a mut Receiver<T>,
    }
    impl<T> Future for Recv<'_, T> {
        type Output = Option<T>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let c = &self.r.c;
            match c.pop() {
                Some(v) => Poll::Ready(Some(v)),
                None => {
                    if c.senders.get() == 0 || !c.rx_open.get() {
                        Poll::Ready(None)
                    } else {
                        Poll::Pending
                    }
                }
            }
        }
    }

    impl<T> Sender<T> {
        pub async fn closed(&self) {
            std::future::poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { Poll::Pending }).await
        }
        pub fn max_capacity(&self) -> usize {
            self.c.cap
        }
        pub fn same_channel(&self, o: &Self) -> bool {
            Arc::ptr_eq(&self.c, &o.c)
        }
        pub async fn reserve(&self) -> Result<Permit<'_, T>, SendError<()>> {
            std::future::poll_fn(|_| match self.try_reserve() {
                Ok(p) => Poll::Ready(Ok(p)),
                Err(TrySendError::Closed(())) => Poll::Ready(Err(SendError(()))),
                Err(TrySendError::Full(())) => Poll::Pending,
            })
            .await
        }
        pub fn try_reserve(&self) -> Result<Permit<'_, T>, TrySendError<()>> {
            if self.is_closed() {
                Err(TrySendError::Closed(()))
            } else if self.c.len() >= self.c.cap {
                Err(TrySendError::Full(()))
            } else {
                Ok(Permit { s: self })
            }
        }
    }
    /// Not counted against the capacity until used: nothing runs between reserve and send here.
    pub struct Permit<'a, T> {
        s: &'a Sender<T>,
    }
    impl<T> Permit<'_, T> {
        pub fn send(self, v: T) {
            self.s.c.q().push(Some(v))
        }
    }
    impl<T> Receiver<T> {
        pub fn len(&self) -> usize {
            self.c.len()
        }
        pub fn is_empty(&self) -> bool {
            self.c.len() == 0
        }
        pub fn is_closed(&self) -> bool {
            self.c.senders.get() == 0 || !self.c.rx_open.get()
        }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
            Pin::new(&mut self.recv()).poll(cx)
        }
    }
    pub struct UnboundedSender<T>(Sender<T>);
    pub struct UnboundedReceiver<T>(Receiver<T>);
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let (s, r) = channel(usize::MAX);
        (UnboundedSender(s), UnboundedReceiver(r))
    }
    impl<T> Clone for UnboundedSender<T> {
        fn clone(&self) -> Self {
            UnboundedSender(self.0.clone())
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.0.try_send(v).map_err(|e| match e {
                TrySendError::Full(v) | TrySendError::Closed(v) => SendError(v),
            })
        }
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
        pub async fn closed(&self) {
            self.0.closed().await
        }
    }
    impl<T> UnboundedReceiver<T> {
        pub fn recv(&mut self) -> Recv<'_, T> {
            self.0.recv()
        }
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            self.0.try_recv()
        }
        pub fn close(&mut self) {
            self.0.close()
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }
}

// ---- oneshot --------------------------------------------------------------

pub mod oneshot {
    use super::*;
    use std::sync::Arc;
    pub mod error {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub struct RecvError(pub(crate) ());
        impl std::fmt::Display for RecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("channel closed")
            }
        }
        impl std::error::Error for RecvError {}
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum TryRecvError {
            Empty,
            Closed,
        }
    }
    use error::*;
    struct One<T> {
        v: UnsafeCell<Option<T>>,
        tx: Cell<bool>,
        rx: Cell<bool>,
    }
    unsafe impl<T: Send> Send for One<T> {}
    unsafe impl<T: Send> Sync for One<T> {}
    pub struct Sender<T>(Arc<One<T>>);
    pub struct Receiver<T>(Arc<One<T>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let o = Arc::new(One { v: UnsafeCell::new(None), tx: Cell::new(true), rx: Cell::new(true) });
        (Sender(o.clone()), Receiver(o))
    }
    impl<T> Sender<T> {
        pub fn send(self, v: T) -> Result<(), T> {
            if !self.0.rx.get() {
                return Err(v);
            }
            unsafe { *self.0.v.get() = Some(v) };
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            !self.0.rx.get()
        }
        pub async fn closed(&mut self) {
            std::future::poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { Poll::Pending }).await
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.tx.set(false)
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            match unsafe { (*self.0.v.get()).take() } {
                Some(v) => Ok(v),
                None if self.0.tx.get() => Err(TryRecvError::Empty),
                None => Err(TryRecvError::Closed),
            }
        }
        pub fn close(&mut self) {
            self.0.rx.set(false)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.rx.set(false);
            drop(unsafe { (*self.0.v.get()).take() });
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, RecvError>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            match self.try_recv() {
                Ok(v) => Poll::Ready(Ok(v)),
                Err(TryRecvError::Empty) => Poll::Pending,
                Err(TryRecvError::Closed) => Poll::Ready(Err(RecvError(()))),
            }
        }
    }
}

// ---- watch ----------------------------------------------------------------

pub mod watch {
    use super::*;
    use std::sync::Arc;
    pub mod error {
        #[derive(Debug, Clone)]
        pub struct RecvError(pub(crate) ());
        #[derive(Debug, Clone)]
        pub struct SendError<T>(pub T);
    }
    use error::*;
    struct W<T> {
        v: UnsafeCell<T>,
        version: Cell<u64>,
        tx: Cell<usize>,
        rx: Cell<usize>,
    }
    unsafe impl<T: Send> Send for W<T> {}
    unsafe impl<T: Send> Sync for W<T> {}
    pub struct Sender<T>(Arc<W<T>>);
    pub struct Receiver<T> {
        w: Arc<W<T>>,
        seen: u64,
    }
    unsafe impl<T: Send> Send for Receiver<T> {}
    pub struct Ref<'a, T>(&'a T);
    impl<T> std::ops::Deref for Ref<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) {
        let w = Arc::new(W { v: UnsafeCell::new(v), version: Cell::new(0), tx: Cell::new(1), rx: Cell::new(1) });
        (Sender(w.clone()), Receiver { w, seen: 0 })
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            if self.0.rx.get() == 0 {
                return Err(SendError(v));
            }
            self.send_replace(v);
            Ok(())
        }
        pub fn send_replace(&self, v: T) -> T {
            self.0.version.set(self.0.version.get() + 1);
            std::mem::replace(unsafe { &mut *self.0.v.get() }, v)
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref(unsafe { &*self.0.v.get() })
        }
        pub fn is_closed(&self) -> bool {
            self.0.rx.get() == 0
        }
        pub fn subscribe(&self) -> Receiver<T> {
            self.0.rx.set(self.0.rx.get() + 1);
            Receiver { w: self.0.clone(), seen: self.0.version.get() }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.tx.set(self.0.tx.get() - 1)
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.w.rx.set(self.w.rx.get() + 1);
            Receiver { w: self.w.clone(), seen: self.seen }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.w.rx.set(self.w.rx.get() - 1)
        }
    }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref(unsafe { &*self.w.v.get() })
        }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
            self.seen = self.w.version.get();
            Ref(unsafe { &*self.w.v.get() })
        }
        pub fn has_changed(&self) -> Result<bool, RecvError> {
            if self.w.tx.get() == 0 {
                return Err(RecvError(()));
            }
            Ok(self.seen != self.w.version.get())
        }
        pub async fn changed(&mut self) -> Result<(), RecvError> {
            std::future::poll_fn(|_| {
                if self.seen != self.w.version.get() {
                    self.seen = self.w.version.get();
                    Poll::Ready(Ok(()))
                } else if self.w.tx.get() == 0 {
                    Poll::Ready(Err(RecvError(())))
                } else {
                    Poll::Pending
                }
            })
            .await
        }
    }
}
