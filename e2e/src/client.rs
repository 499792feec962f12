//! A raw MQTT client: every byte sent is chosen by the caller, everything received is parsed strictly by a reader thread.
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use vcommon::mqtt::*;

/// Signals arrivals of all clients of a case.
#[derive(Default)]
pub struct Bell {
    n: Mutex<u64>,
    c: Condvar,
}
impl Bell {
    pub fn now(&self) -> u64 {
        *self.n.lock().unwrap()
    }
    fn ring(&self) {
        *self.n.lock().unwrap() += 1;
        self.c.notify_all();
    }
    /// waits until the count differs from `seen` or the time is over
    pub fn wait(&self, seen: u64, end: Instant) {
        let mut g = self.n.lock().unwrap();
        while *g == seen {
            let now = Instant::now();
            if now >= end {
                return;
            }
            g = self.c.wait_timeout(g, end - now).unwrap().0;
        }
    }
}

#[derive(Default)]
pub struct Inbox {
    pub packets: Vec<RPacket>,
    /// connection ended: "closed" or "reset"
    pub ended: Option<&'static str>,
    /// what arrived is not MQTT a server may send
    pub bad: Option<String>,
    pub bytes: u64,
}

pub struct Client {
    pub sock: TcpStream,
    pub inbox: Arc<Mutex<Inbox>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

/// Sets the local address; the port is chosen on connecting, so that it need not be free for every peer.
pub fn come_from(s: &socket2::Socket, ip: [u8; 4]) {
    use std::os::fd::AsRawFd;
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_IP, libc::IP_BIND_ADDRESS_NO_PORT, &on as *const _ as *const libc::c_void, 4);
    }
    let a = std::net::SocketAddr::from((ip, 0));
    let _ = s.bind(&a.into());
}
impl Client {
    pub fn open(addr: &str, bell: &Arc<Bell>, patience: Duration) -> Result<Client, String> {
        Self::open_with(addr, bell, patience, None, 0, vec![])
    }
    /// The k-th client of a case: they come from different addresses.
    pub fn open_nth(k: usize, addr: &str, bell: &Arc<Bell>, patience: Duration) -> Result<Client, String> {
        let from = match k % 5 {
            1 => Some([127, 0, 0, 1]),
            2 => Some([127, 77, 0, (k % 200) as u8 + 1]),
            3 => Some([127, 7, 7, 7]),
            _ => None,
        };
        Self::open_full(addr, from, bell, patience, None, 0, vec![])
    }
    /// `rcvbuf`: small receive buffer; `slow`: microseconds slept before each read of at most 512 bytes;
    /// `pauses`: after so many bytes it reads nothing for so many milliseconds
    pub fn open_with(addr: &str, bell: &Arc<Bell>, patience: Duration, rcvbuf: Option<usize>, slow: u64, pauses: Vec<(u64, u64)>) -> Result<Client, String> {
        Self::open_full(addr, None, bell, patience, rcvbuf, slow, pauses)
    }
    fn open_full(addr: &str, from: Option<[u8; 4]>, bell: &Arc<Bell>, patience: Duration, rcvbuf: Option<usize>, slow: u64, mut pauses: Vec<(u64, u64)>) -> Result<Client, String> {
        let sa: std::net::SocketAddr = addr.parse().map_err(|e| format!("{addr}: {e}"))?;
        let s = socket2::Socket::new(socket2::Domain::for_address(sa), socket2::Type::STREAM, None).map_err(|e| e.to_string())?;
        if let Some(n) = rcvbuf {
            let _ = s.set_recv_buffer_size(n);
        }
        if let (Some(ip), true) = (from, sa.is_ipv4()) {
            come_from(&s, ip);
        }
        s.connect_timeout(&sa.into(), patience).map_err(|e| format!("connect {addr}: {e}"))?;
        let sock: TcpStream = s.into();
        sock.set_nodelay(true).map_err(|e| e.to_string())?;
        sock.set_write_timeout(Some(patience)).map_err(|e| e.to_string())?;
        let inbox = Arc::new(Mutex::new(Inbox::default()));
        let (ib, bell, mut r) = (inbox.clone(), bell.clone(), sock.try_clone().map_err(|e| e.to_string())?);
        let thread = std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                let mut buf: Vec<u8> = vec![];
                let mut chunk = vec![0u8; if slow > 0 { 512 } else { 64 << 10 }];
                let mut total = 0u64;
                loop {
                    if let Some((at, ms)) = pauses.first().copied() {
                        if total >= at {
                            pauses.remove(0);
                            std::thread::sleep(Duration::from_millis(ms));
                        }
                    }
                    if slow > 0 {
                        std::thread::sleep(Duration::from_micros(slow));
                    }
                    let n = match r.read(&mut chunk) {
                        Ok(0) => {
                            let mut g = ib.lock().unwrap();
                            if !buf.is_empty() {
                                g.bad.get_or_insert(format!("the connection was closed inside a packet: {:02x?}", &buf[..buf.len().min(32)]));
                            }
                            g.ended = Some("closed");
                            drop(g);
                            bell.ring();
                            return;
                        }
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                        Err(_) => {
                            ib.lock().unwrap().ended = Some("reset");
                            bell.ring();
                            return;
                        }
                        Ok(n) => n,
                    };
                    total += n as u64;
                    buf.extend_from_slice(&chunk[..n]);
                    let mut at = 0;
                    let mut g = ib.lock().unwrap();
                    g.bytes += n as u64;
                    loop {
                        match split_frame(&buf[at..]) {
                            Ok(None) => break,
                            Ok(Some((first, s, e))) => {
                                match parse_server(first, &buf[at + s..at + e]) {
                                    Ok(p) => g.packets.push(p),
                                    Err(m) => {
                                        g.bad.get_or_insert(m);
                                        g.ended = Some("closed");
                                        drop(g);
                                        bell.ring();
                                        return;
                                    }
                                }
                                at += e;
                            }
                            Err(m) => {
                                g.bad.get_or_insert(m);
                                g.ended = Some("closed");
                                drop(g);
                                bell.ring();
                                return;
                            }
                        }
                    }
                    drop(g);
                    buf.drain(..at);
                    bell.ring();
                }
            })
            .map_err(|e| e.to_string())?;
        Ok(Client { sock, inbox, thread: Some(thread) })
    }
    /// Writes in the given pieces (cyclic lengths, 0: all that is left). Err: the connection does not take it (any more).
    pub fn send(&mut self, data: &[u8], cuts: &[usize]) -> Result<(), std::io::Error> {
        let mut at = 0;
        let mut k = 0;
        while at < data.len() {
            let c = if cuts.is_empty() || k > 64 { 0 } else { cuts[k % cuts.len()] };
            k += 1;
            let n = if c == 0 { data.len() - at } else { c.min(data.len() - at) };
            self.sock.write_all(&data[at..at + n])?;
            at += n;
        }
        Ok(())
    }
    pub fn fin(&self) {
        let _ = self.sock.shutdown(Shutdown::Write);
    }
    /// closes with a reset
    pub fn rst(&self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(self.sock.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
        }
        // the reader holds a duplicate of the descriptor: disconnecting resets at once
        let sa = libc::sockaddr { sa_family: libc::AF_UNSPEC as u16, sa_data: [0; 14] };
        unsafe {
            libc::connect(self.sock.as_raw_fd(), &sa, std::mem::size_of::<libc::sockaddr>() as u32);
        }
        let _ = self.sock.shutdown(Shutdown::Both);
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        let _ = self.sock.shutdown(Shutdown::Both);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
