//! What the harness drives the model with.
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Choice {
    /// Poll the second branch of a `select!` before the first.
    SelectSecondFirst,
    /// Let a task run up to its first wait right at `spawn`, before its parent goes on.
    SpawnRunsFirst,
    /// Fail this `send_to`.
    SendFails,
}

static mut CHOOSER: Option<fn(Choice) -> bool> = None;

pub fn install_chooser(f: fn(Choice) -> bool) {
    unsafe { CHOOSER = Some(f) }
}

pub fn choose(c: Choice) -> bool {
    match unsafe { CHOOSER } {
        Some(f) => f(c),
        None => false,
    }
}

// ---- tasks ----------------------------------------------------------------

pub type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
pub const MAX_TASKS: usize = 1024;

static mut TASKS: [Option<Task>; MAX_TASKS] = [const { None }; MAX_TASKS];
static mut NTASKS: usize = 0;

pub(crate) fn add_task(t: Task) -> usize {
    unsafe {
        let id = NTASKS;
        assert!(id < MAX_TASKS, "model: too many tasks");
        NTASKS += 1;
        TASKS[id] = Some(t);
        if choose(Choice::SpawnRunsFirst) {
            poll_task(id);
        }
        id
    }
}

/// Number of tasks spawned so far.
pub fn tasks() -> usize {
    unsafe { NTASKS }
}

/// Is the task still alive (not yet returned)?
pub fn alive(id: usize) -> bool {
    unsafe { TASKS[id].is_some() }
}

pub fn alive_tasks() -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < tasks() {
        if alive(i) {
            n += 1;
        }
        i += 1;
    }
    n
}

/// Drop a task (as `JoinHandle::abort` does).
pub fn kill_task(id: usize) {
    unsafe { TASKS[id] = None }
}

/// Poll one task, if it is alive.
pub fn poll_task(id: usize) {
    unsafe {
        // Taken out while it runs, so that it may itself spawn.
        if let Some(mut t) = TASKS[id].take() {
            let mut cx = Context::from_waker(Waker::noop());
            if t.as_mut().poll(&mut cx).is_pending() {
                TASKS[id] = Some(t);
            }
        }
    }
}

/// Poll every live task once, in spawn order.
pub fn step() {
    let mut i = 0;
    while i < tasks() {
        poll_task(i);
        i += 1;
    }
}

/// Poll every live task once, in reverse spawn order.
pub fn step_rev() {
    let mut i = tasks();
    while i > 0 {
        i -= 1;
        poll_task(i);
    }
}

pub fn steps(n: usize) {
    let mut i = 0;
    while i < n {
        step();
        i += 1;
    }
}

/// Poll a future once.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    match f.poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// Run a future, stepping all tasks between its polls, for at most `rounds` polls.
pub fn run<F: Future>(f: F, rounds: usize) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let mut i = 0;
    while i < rounds {
        if let Some(v) = poll_once(f.as_mut()) {
            return Some(v);
        }
        step();
        i += 1;
    }
    None
}

// ---- timers ---------------------------------------------------------------

static mut TIMER_MS: u64 = 0;

pub fn timer_now() -> u64 {
    unsafe { TIMER_MS }
}

/// Advance the timer clock: pending sleeps and timeouts up to it become ready.
pub fn advance_timer(ms: u64) {
    unsafe { TIMER_MS += ms }
}

// ---- network --------------------------------------------------------------

pub struct Datagram {
    pub sock: usize,
    pub addr: SocketAddr,
    pub bytes: Vec<u8>,
}

pub(crate) static mut NSOCKS: usize = 0;
pub(crate) static mut CLOSED: Vec<usize> = Vec::new();
/// Addresses bound with `bind()`, by socket.
pub(crate) static mut BOUND: Vec<(usize, std::net::SocketAddr)> = Vec::new();
/// The address of the next socket taken over from std.
pub(crate) static mut STD_ADDR: Option<std::net::SocketAddr> = None;
pub(crate) static mut SENT: Vec<Datagram> = Vec::new();
pub(crate) static mut INBOX: Vec<Option<Datagram>> = Vec::new();
pub(crate) static mut INBOX_HEAD: usize = 0;

/// Put a datagram, as sent by `from`, into the receive queue of socket `sock`.
pub fn deliver(sock: usize, from: SocketAddr, bytes: Vec<u8>) {
    unsafe {
        INBOX.push(Some(Datagram { sock, addr: from, bytes }))
    }
}

/// Datagrams delivered but not yet received.
pub fn undelivered() -> usize {
    unsafe {
        let mut n = 0;
        let mut i = INBOX_HEAD;
        while i < INBOX.len() {
            if INBOX[i].is_some() {
                n += 1;
            }
            i += 1;
        }
        n
    }
}

pub(crate) fn has_mail(sock: usize) -> bool {
    unsafe {
        let mut i = INBOX_HEAD;
        while i < INBOX.len() {
            if let Some(d) = &INBOX[i] {
                if d.sock == sock {
                    return true;
                }
            }
            i += 1;
        }
        false
    }
}

/// Everything sent since the last call.
pub fn take_sent() -> Vec<Datagram> {
    unsafe { std::mem::take(&mut SENT) }
}

pub fn sent() -> &'static Vec<Datagram> {
    unsafe { &SENT }
}

pub fn sockets() -> usize {
    unsafe { NSOCKS }
}

/// The next `UdpSocket::from_std()` has this address; its descriptor is not one of the system.
pub fn std_socket(a: std::net::SocketAddr) {
    unsafe { STD_ADDR = Some(a) }
}

/// Whether this socket has been dropped: its address is free again.
pub fn socket_closed(id: usize) -> bool {
    unsafe { CLOSED.contains(&id) }
}

/// Forget all state (native runs that execute several scenarios in a process).
pub fn reset() {
    unsafe {
        let mut i = 0;
        while i < NTASKS {
            TASKS[i] = None;
            i += 1;
        }
        NTASKS = 0;
        TIMER_MS = 0;
        SENT = Vec::new();
        INBOX = Vec::new();
        INBOX_HEAD = 0;
        NSOCKS = 0;
        CLOSED = Vec::new();
        BOUND = Vec::new();
        STD_ADDR = None;
        CHOOSER = None;
    }
}
