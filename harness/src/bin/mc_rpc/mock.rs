//! A node stand-in on the loopback interface: records every request, answers as scripted.

use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Reply {
    /// These bytes, then the end of the stream.
    Bytes(Vec<u8>),
    /// Closed before anything is read.
    CloseAtOnce,
    /// Closed after the request was read.
    CloseAfterRequest,
    /// These bytes, then a connection reset.
    Reset(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Req {
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str())
    }
}

#[derive(Default)]
struct St {
    replies: Vec<Reply>,
    seen: Vec<Req>,
    conns: usize,
    broken: Option<String>,
}

pub struct Server {
    pub addr: SocketAddr,
    st: Arc<Mutex<St>>,
}

impl Server {
    pub fn new() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback listener");
        let addr = l.local_addr().unwrap();
        let st = Arc::new(Mutex::new(St::default()));
        let s2 = st.clone();
        std::thread::spawn(move || {
            for c in l.incoming() {
                if let Ok(c) = c {
                    serve(c, &s2);
                }
            }
        });
        Server { addr, st }
    }
    /// Scripts the answers to the next requests; the last one repeats.
    pub fn script(&self, r: Vec<Reply>) {
        let mut s = self.st.lock().unwrap();
        *s = St { replies: r, ..St::default() };
    }
    /// Requests and connections since the last script.
    pub fn seen(&self) -> (Vec<Req>, usize, Option<String>) {
        let s = self.st.lock().unwrap();
        (s.seen.clone(), s.conns, s.broken.clone())
    }
    pub fn base(&self) -> String {
        format!("http://{}", self.addr)
    }
}

fn serve(mut c: TcpStream, st: &Mutex<St>) {
    c.set_read_timeout(Some(Duration::from_secs(20))).ok();
    c.set_nodelay(true).ok();
    let reply = {
        let mut s = st.lock().unwrap();
        let i = s.conns.min(s.replies.len().saturating_sub(1));
        s.conns += 1;
        s.replies.get(i).cloned()
    };
    let Some(reply) = reply else { return };
    if matches!(reply, Reply::CloseAtOnce) {
        return;
    }
    match read_request(&mut c) {
        Ok(r) => st.lock().unwrap().seen.push(r),
        Err(e) => {
            st.lock().unwrap().broken = Some(e);
            return;
        }
    }
    match reply {
        Reply::Bytes(b) => {
            // corked: the end of the stream arrives with the last bytes, so that a client that
            // keeps connections cannot take this one for reusable
            let on: libc::c_int = 1;
            unsafe {
                libc::setsockopt(
                    c.as_raw_fd(),
                    libc::IPPROTO_TCP,
                    libc::TCP_CORK,
                    (&on as *const libc::c_int).cast(),
                    std::mem::size_of::<libc::c_int>() as u32,
                );
            }
            c.write_all(&b).ok();
            c.shutdown(Shutdown::Write).ok();
            // let the client close first, without keeping others waiting
            c.set_read_timeout(Some(Duration::from_millis(1))).ok();
            let mut sink = [0; 256];
            let closed = loop {
                match c.read(&mut sink) {
                    Ok(0) => break true,
                    Ok(_) => {}
                    Err(_) => break false,
                }
            };
            if !closed {
                std::thread::spawn(move || {
                    c.set_read_timeout(Some(Duration::from_secs(5))).ok();
                    while matches!(c.read(&mut sink), Ok(n) if n > 0) {}
                });
            }
        }
        Reply::Reset(b) => {
            c.write_all(&b).ok();
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    c.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    (&l as *const libc::linger).cast(),
                    std::mem::size_of::<libc::linger>() as u32,
                );
            }
        }
        _ => {}
    }
}

fn read_request(c: &mut TcpStream) -> Result<Req, String> {
    let mut buf = vec![];
    let mut tmp = [0; 65536];
    let head = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p;
        }
        let n = c.read(&mut tmp).map_err(|e| format!("reading a request: {e}"))?;
        if n == 0 {
            return Err("request ended inside its head".into());
        }
        buf.extend(&tmp[..n]);
    };
    let text = String::from_utf8(buf[..head].to_vec()).map_err(|_| "request head is not text")?;
    let mut rest = buf[head + 4..].to_vec();
    let mut lines = text.split("\r\n");
    let first: Vec<&str> = lines.next().unwrap_or("").split(' ').collect();
    if first.len() != 3 || !first[2].starts_with("HTTP/1.") {
        return Err(format!("request line {first:?}"));
    }
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':'))
        .map(|(k, v)| (k.trim().to_string(), v.trim().to_string()))
        .collect();
    let mut r = Req { method: first[0].into(), target: first[1].into(), headers, body: vec![] };
    let mut more = |rest: &mut Vec<u8>| -> Result<(), String> {
        let n = c.read(&mut tmp).map_err(|e| format!("reading a body: {e}"))?;
        if n == 0 {
            return Err("request ended inside its body".into());
        }
        rest.extend(&tmp[..n]);
        Ok(())
    };
    if r.header("transfer-encoding").is_some_and(|v| v.eq_ignore_ascii_case("chunked")) {
        loop {
            let p = loop {
                if let Some(p) = rest.windows(2).position(|w| w == b"\r\n") {
                    break p;
                }
                more(&mut rest)?;
            };
            let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..p]).trim(), 16).map_err(|_| "chunk size")?;
            while rest.len() < p + 2 + n + 2 {
                more(&mut rest)?;
            }
            r.body.extend(&rest[p + 2..p + 2 + n]);
            rest.drain(..p + 2 + n + 2);
            if n == 0 {
                return Ok(r);
            }
        }
    }
    let n: usize = r.header("content-length").map(|v| v.parse().unwrap_or(0)).unwrap_or(0);
    while rest.len() < n {
        more(&mut rest)?;
    }
    r.body = rest[..n].to_vec();
    Ok(r)
}

/// A port that is taken but not listened on, as long as the descriptor lives.
pub fn closed_port() -> (OwnedFd, u16) {
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0);
        assert!(fd >= 0, "socket");
        let fd = OwnedFd::from_raw_fd(fd);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as u32;
        let p = (&mut a as *mut libc::sockaddr_in).cast::<libc::sockaddr>();
        assert_eq!(libc::bind(fd.as_raw_fd(), p, n), 0, "bind");
        assert_eq!(libc::getsockname(fd.as_raw_fd(), p, &mut n), 0, "getsockname");
        (fd, u16::from_be(a.sin_port))
    }
}
