//! A loopback TCP pair whose two ends are driven step by step from one thread.
use std::future::Future;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::task::Poll;
use tokio::net::{TcpListener, TcpSocket};

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

/// (end given to the code under test, end driven by the harness)
pub async fn pair(sndbuf: Option<u32>, rcvbuf: Option<u32>) -> (tokio::net::TcpStream, std::net::TcpStream) {
    // ports may be short for a moment: an address of its own for every pair, and patience
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let mut tries = 0;
    let (a, b) = loop {
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed).wrapping_mul(40_503).wrapping_add(std::process::id().wrapping_mul(2_654_435_761));
        let ip = std::net::Ipv4Addr::new(127, 64 + (n >> 16) as u8 % 64, (n >> 8) as u8, 1 + n as u8 % 250);
        let both = async {
            let l = TcpListener::bind((ip, 0)).await?;
            let s = TcpSocket::new_v4()?;
            if let Some(n) = rcvbuf {
                s.set_recv_buffer_size(n)?;
            }
            let addr = l.local_addr()?;
            let (a, b) = tokio::join!(s.connect(addr), l.accept());
            Ok::<_, std::io::Error>((a?, b?))
        };
        match both.await {
            Ok(p) => break p,
            Err(e) if tries > 200 => panic!("{e}"),
            Err(_) => {
                tries += 1;
                tokio::time::sleep(std::time::Duration::from_millis(20)).await;
            }
        }
    };
    let driven = a.into_std().unwrap(); // stays non-blocking
    let under_test = b.0;
    driven.set_nodelay(true).unwrap();
    under_test.set_nodelay(true).unwrap();
    if let Some(n) = sndbuf {
        let v = n as libc::c_int;
        unsafe {
            libc::setsockopt(under_test.as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const _, 4);
        }
    }
    (under_test, driven)
}

pub fn unread(fd: i32) -> usize {
    let mut n: libc::c_int = 0;
    unsafe {
        libc::ioctl(fd, libc::FIONREAD, &mut n);
    }
    n as usize
}

/// Polls once; None when pending.
pub async fn poll_once<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => Poll::Ready(None),
    })
    .await
}

/// Writes a byte stream in the given pieces, one piece at a time.
pub struct Feeder<'a> {
    pub sock: std::net::TcpStream,
    pub data: &'a [u8],
    pub cuts: &'a [usize],
    pub close: bool,
    /// bytes handed to the kernel
    pub written: usize,
    /// where the piece now being written starts and ends
    pub seg_start: usize,
    pub seg_end: usize,
    pub segs: usize,
    pub closed: bool,
}
impl<'a> Feeder<'a> {
    pub fn new(sock: std::net::TcpStream, data: &'a [u8], cuts: &'a [usize], close: bool) -> Self {
        Feeder { sock, data, cuts, close, written: 0, seg_start: 0, seg_end: 0, segs: 0, closed: false }
    }
    /// Called when the reader waits and has nothing left to read. Returns false when there is nothing more to give.
    pub fn step(&mut self) -> Result<bool, String> {
        if self.written == self.seg_end {
            if self.written == self.data.len() {
                if self.closed || !self.close {
                    return Ok(false);
                }
                self.closed = true;
                self.seg_start = self.data.len();
                self.sock.shutdown(std::net::Shutdown::Write).map_err(|e| e.to_string())?;
                return Ok(true);
            }
            let left = self.data.len() - self.written;
            let mut n = if self.cuts.is_empty() { 0 } else { self.cuts[self.segs % self.cuts.len()] };
            // bound the number of pieces; after that, big ones
            if self.segs > 2500 {
                n = n.max(65536);
            }
            if n == 0 || n > left {
                n = left;
            }
            self.seg_start = self.written;
            self.seg_end = self.written + n;
            self.segs += 1;
        }
        match (&self.sock).write(&self.data[self.written..self.seg_end]) {
            Ok(n) => self.written += n,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
            // the reader may have failed and gone
            Err(_) => return Ok(false),
        }
        Ok(true)
    }
}

/// Reads what is there, at most n bytes. None = end of stream.
pub fn read_some(sock: &std::net::TcpStream, n: usize, out: &mut Vec<u8>) -> Result<Option<usize>, String> {
    let mut buf = vec![0u8; n.clamp(1, 65536)];
    match (&*sock).read(&mut buf) {
        Ok(0) => Ok(None),
        Ok(k) => {
            out.extend_from_slice(&buf[..k]);
            Ok(Some(k))
        }
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(Some(0)),
        Err(e) => Err(e.to_string()),
    }
}
