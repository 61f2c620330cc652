use crate::model::{self, Choice, Datagram};
use std::future::Future;
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::pin::Pin;
use std::task::{Context, Poll};

pub trait ToSocketAddrs {
    fn addr(&self) -> SocketAddr;
}
impl ToSocketAddrs for SocketAddr {
    fn addr(&self) -> SocketAddr {
        *self
    }
}
impl ToSocketAddrs for &str {
    fn addr(&self) -> SocketAddr {
        self.parse().unwrap()
    }
}
impl ToSocketAddrs for String {
    fn addr(&self) -> SocketAddr {
        self.parse().unwrap()
    }
}
impl ToSocketAddrs for (IpAddr, u16) {
    fn addr(&self) -> SocketAddr {
        SocketAddr::new(self.0, self.1)
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn addr(&self) -> SocketAddr {
        (**self).addr()
    }
}

pub struct UdpSocket {
    id: usize,
    local: SocketAddr,
}

impl UdpSocket {
    fn open(mut local: SocketAddr) -> Self {
        unsafe {
            let id = model::NSOCKS;
            model::NSOCKS += 1;
            if local.port() == 0 {
                local.set_port(40000 + id as u16);
            }
            UdpSocket { id, local }
        }
    }
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<Self> {
        let a = a.addr();
        // EADDRINUSE
        unsafe {
            if a.port() != 0 && model::BOUND.iter().any(|(id, b)| *b == a && !model::socket_closed(*id)) {
                return Err(io::Error::from_raw_os_error(98));
            }
        }
        let s = Self::open(a);
        unsafe { model::BOUND.push((s.id, a)) };
        Ok(s)
    }
    pub fn from_std(s: std::net::UdpSocket) -> io::Result<Self> {
        if let Some(a) = unsafe { model::STD_ADDR.take() } {
            std::mem::forget(s);
            let s = Self::open(a);
            unsafe { model::BOUND.push((s.id, a)) };
            return Ok(s);
        }
        let a = s.local_addr()?;
        Ok(Self::open(a))
    }
    /// Not in tokio: a socket for harnesses.
    pub fn model(local: SocketAddr) -> Self {
        Self::open(local)
    }
    pub fn model_id(&self) -> usize {
        self.id
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.local)
    }
    pub fn send_to<'a, A: ToSocketAddrs>(&'a self, buf: &'a [u8], target: A) -> SendTo<'a> {
        SendTo { sock: self, buf, target: target.addr() }
    }
    pub fn try_send_to(&self, buf: &[u8], target: SocketAddr) -> io::Result<usize> {
        match Pin::new(&mut self.send_to(buf, target)).poll(&mut Context::from_waker(std::task::Waker::noop())) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::Error::from(io::ErrorKind::WouldBlock)),
        }
    }
    pub fn try_recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        match Pin::new(&mut self.recv_from(buf)).poll(&mut Context::from_waker(std::task::Waker::noop())) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::Error::from(io::ErrorKind::WouldBlock)),
        }
    }
    /// Ready at once: a receive that finds nothing has to wait again.
    pub async fn writable(&self) -> io::Result<()> {
        Ok(())
    }
    pub async fn readable(&self) -> io::Result<()> {
        std::future::poll_fn(|_| if model::has_mail(self.id) { Poll::Ready(()) } else { Poll::Pending }).await;
        Ok(())
    }
    pub fn recv_from<'a>(&'a self, buf: &'a mut [u8]) -> RecvFrom<'a> {
        RecvFrom { sock: self, buf }
    }
}

impl Drop for UdpSocket {
    fn drop(&mut self) {
        unsafe { model::CLOSED.push(self.id) }
    }
}

pub struct SendTo<'a> {
    sock: &'a UdpSocket,
    buf: &'a [u8],
    target: SocketAddr,
}
impl Future for SendTo<'_> {
    type Output = io::Result<usize>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        if model::choose(Choice::SendFails) {
            return Poll::Ready(Err(io::Error::from(io::ErrorKind::Other)));
        }
        // EAFNOSUPPORT: a socket of IPv4 cannot send to an address of IPv6 (the other way Linux maps it).
        if self.sock.local.is_ipv4() && self.target.is_ipv6() {
            return Poll::Ready(Err(io::Error::from_raw_os_error(97)));
        }
        unsafe {
            model::SENT.push(Datagram {
                sock: self.sock.id,
                addr: self.target,
                bytes: self.buf.to_vec(),
            });
        }
        Poll::Ready(Ok(self.buf.len()))
    }
}

pub struct RecvFrom<'a> {
    sock: &'a UdpSocket,
    buf: &'a mut [u8],
}
impl Future for RecvFrom<'_> {
    type Output = io::Result<(usize, SocketAddr)>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let id = self.sock.id;
        unsafe {
            let mut i = model::INBOX_HEAD;
            while i < model::INBOX.len() {
                let mine = match &model::INBOX[i] {
                    Some(d) => d.sock == id,
                    None => false,
                };
                if mine {
                    let d = model::INBOX[i].take().unwrap();
                    while model::INBOX_HEAD < model::INBOX.len()
                        && model::INBOX[model::INBOX_HEAD].is_none()
                    {
                        model::INBOX_HEAD += 1;
                    }
                    // A datagram longer than the buffer is truncated, as recvfrom(2) does.
                    let n = if d.bytes.len() < self.buf.len() { d.bytes.len() } else { self.buf.len() };
                    self.buf[..n].copy_from_slice(&d.bytes[..n]);
                    return Poll::Ready(Ok((n, d.addr)));
                }
                i += 1;
            }
        }
        Poll::Pending
    }
}
