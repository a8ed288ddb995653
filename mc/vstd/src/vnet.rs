//! Sockets. A connection has two ends; one of them may belong to the environment.
use crate::world::{block, cur_pid, die, key, point, sys, touch, w, wake, with_env, ConnectRes, SysEv, K_END, K_LISTEN};
use std::collections::VecDeque;
use std::io::{self, ErrorKind};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Peer {
    End(usize),
    Env,
}
pub struct End {
    pub pid: usize,
    pub rx: VecDeque<u8>,
    pub rx_fin: bool,
    pub rx_rst: bool,
    pub tx_shut: bool,
    pub rx_shut: bool,
    pub peer: Peer,
    pub refs: usize,
    pub closed: bool,
    pub h: u64,
    pub rd_to: Option<Duration>,
    pub wr_to: Option<Duration>,
    pub nonblock: bool,
    /// At most this many bytes are returned by one read.
    pub max_read: usize,
    /// Bytes written towards the environment.
    pub out: Vec<u8>,
    pub total_read: usize,
    pub local: SocketAddr,
    pub remote: SocketAddr,
    /// Writing blocks once this many bytes are waiting at the other end.
    pub cap: usize,
    /// The kind of the environment's end was closed by reset.
    pub env_gone: bool,
}
pub struct Listener {
    pub pid: usize,
    pub addr: Option<SocketAddr>,
    pub queue: VecDeque<usize>,
    pub live: bool,
    pub h: u64,
    pub nonblock: bool,
}
pub struct Net {
    pub ends: Vec<End>,
    pub listeners: Vec<Listener>,
    pub next_port: u16,
}
impl Net {
    pub fn new() -> Net {
        Net { ends: vec![], listeners: vec![], next_port: 40001 }
    }
}
fn dummy() -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 1)
}
pub fn new_end(pid: usize, peer: Peer) -> usize {
    let id = w().net.ends.len();
    w().net.ends.push(End {
        pid,
        rx: VecDeque::new(),
        rx_fin: false,
        rx_rst: false,
        tx_shut: false,
        rx_shut: false,
        peer,
        refs: 1,
        closed: false,
        h: id as u64,
        rd_to: None,
        wr_to: None,
        nonblock: false,
        max_read: usize::MAX,
        out: vec![],
        total_read: 0,
        local: dummy(),
        remote: dummy(),
        cap: usize::MAX,
        env_gone: false,
    });
    id
}
pub fn end(id: usize) -> &'static mut End {
    &mut w().net.ends[id]
}
fn th(id: usize, k: u64) {
    let mut h = end(id).h;
    touch(&mut h, k);
    end(id).h = h;
}
/// Deliver bytes to an end (used by the environment).
pub fn push_rx(id: usize, b: &[u8]) {
    if end(id).closed {
        return;
    }
    th(id, 1);
    end(id).rx.extend(b);
    wake(key(K_END, id));
}
pub fn push_fin(id: usize) {
    th(id, 2);
    end(id).rx_fin = true;
    wake(key(K_END, id));
}
pub fn push_rst(id: usize) {
    th(id, 3);
    end(id).rx_rst = true;
    end(id).env_gone = true;
    wake(key(K_END, id));
}
pub fn close_end(id: usize) {
    if end(id).closed {
        return;
    }
    th(id, 4);
    end(id).closed = true;
    let unread = !end(id).rx.is_empty();
    match end(id).peer {
        Peer::End(p) => {
            th(p, 5);
            if unread {
                end(p).rx_rst = true;
            }
            end(p).rx_fin = true;
            wake(key(K_END, p));
            wake(key(K_END, id));
        }
        Peer::Env => sys(SysEv::ConnClosed { conn: id }),
    }
}
/// Nobody listens any more: what nobody accepted yet is closed.
fn close_listener(i: usize) {
    if w().net.listeners[i].live {
        lth(i, 3);
        w().net.listeners[i].live = false;
        let q: Vec<usize> = w().net.listeners[i].queue.drain(..).collect();
        for e in q {
            close_end(e);
        }
    }
}
/// Held by every copy of a listener.
struct Open(usize);
impl Open {
    fn new(l: usize) -> std::sync::Arc<Open> {
        std::sync::Arc::new(Open(l))
    }
}
impl Drop for Open {
    fn drop(&mut self) {
        if crate::world::active() {
            point("close");
            close_listener(self.0);
        }
    }
}
pub fn close_all(pid: usize) {
    for i in 0..w().net.listeners.len() {
        if w().net.listeners[i].pid == pid {
            close_listener(i);
        }
    }
    for i in 0..w().net.ends.len() {
        if end(i).pid == pid {
            close_end(i);
        }
    }
}
fn deadline(d: Option<Duration>) -> Option<u64> {
    d.and_then(crate::world::deadline)
}
fn read(id: usize, b: &mut [u8], peek: bool) -> io::Result<usize> {
    point("read");
    let dl = deadline(end(id).rd_to);
    loop {
        let e = end(id);
        if !e.rx.is_empty() {
            let n = b.len().min(e.rx.len()).min(e.max_read);
            for (i, x) in b[..n].iter_mut().enumerate() {
                *x = e.rx[i];
            }
            if !peek {
                e.rx.drain(..n);
                e.total_read += n;
                if let Peer::End(p) = e.peer {
                    if end(p).cap != usize::MAX || e.cap != usize::MAX {
                        wake(key(K_END, id));
                        wake(key(K_END, p));
                    }
                }
            }
            th(id, 6);
            return Ok(n);
        }
        if e.rx_rst {
            th(id, 7);
            return Err(io::Error::from_raw_os_error(libc::ECONNRESET));
        }
        if e.rx_fin || e.rx_shut {
            th(id, 8);
            return Ok(0);
        }
        if b.is_empty() {
            return Ok(0);
        }
        if e.nonblock {
            th(id, 9);
            return Err(io::Error::from_raw_os_error(libc::EAGAIN));
        }
        if block(key(K_END, id), dl, "read") {
            return Err(io::Error::from_raw_os_error(libc::EAGAIN));
        }
    }
}
fn write(id: usize, b: &[u8]) -> io::Result<usize> {
    point("write");
    th(id, 10);
    if end(id).tx_shut || end(id).rx_rst || end(id).env_gone {
        return Err(io::Error::from_raw_os_error(libc::EPIPE));
    }
    match end(id).peer {
        Peer::Env => {
            let mut h = w().h_env;
            touch(&mut h, 11);
            w().h_env = h;
            end(id).out.extend_from_slice(b);
            with_env(|e| e.data(id));
            Ok(b.len())
        }
        Peer::End(p) => {
            let dl = deadline(end(id).wr_to);
            loop {
                if end(p).closed {
                    return Err(io::Error::from_raw_os_error(libc::EPIPE));
                }
                let room = end(p).cap.saturating_sub(end(p).rx.len());
                if room > 0 || b.is_empty() {
                    let n = room.min(b.len());
                    th(p, 12);
                    end(p).rx.extend(&b[..n]);
                    wake(key(K_END, p));
                    return Ok(n);
                }
                if block(key(K_END, p), dl, "write") {
                    return Err(io::Error::from_raw_os_error(libc::EAGAIN));
                }
            }
        }
    }
}
fn shutdown(id: usize, how: std::net::Shutdown) -> io::Result<()> {
    use std::net::Shutdown::*;
    point("shutdown");
    th(id, 13);
    if matches!(how, Write | Both) {
        end(id).tx_shut = true;
        match end(id).peer {
            Peer::End(p) => {
                if end(p).closed {
                    return Err(io::Error::from_raw_os_error(libc::ENOTCONN));
                }
                th(p, 14);
                end(p).rx_fin = true;
                wake(key(K_END, p));
            }
            Peer::Env => {
                with_env(|e| e.data(id));
            }
        }
    }
    if matches!(how, Read | Both) {
        end(id).rx_shut = true;
        wake(key(K_END, id));
    }
    Ok(())
}
fn listen(addr: Option<SocketAddr>) -> usize {
    let id = w().net.listeners.len();
    w().net.listeners.push(Listener { pid: cur_pid(), addr, queue: VecDeque::new(), live: true, h: 0, nonblock: false });
    id
}
fn lth(id: usize, k: u64) {
    let mut h = w().net.listeners[id].h;
    touch(&mut h, k);
    w().net.listeners[id].h = h;
}
fn accept(id: usize) -> io::Result<usize> {
    point("accept");
    loop {
        if let Some(e) = w().net.listeners[id].queue.pop_front() {
            lth(id, 1);
            th(e, 15);
            return Ok(e);
        }
        if w().net.listeners[id].nonblock {
            return Err(io::Error::from_raw_os_error(libc::EAGAIN));
        }
        block(key(K_LISTEN, id), None, "accept");
    }
}
fn enqueue(l: usize, e: usize) {
    lth(l, 2);
    w().net.listeners[l].queue.push_back(e);
    wake(key(K_LISTEN, l));
}
/// The environment connects to a listener of the program. Returns the program's end.
pub fn env_connect(l: usize) -> usize {
    let pid = w().net.listeners[l].pid;
    let e = new_end(pid, Peer::Env);
    if let Some(a) = w().net.listeners[l].addr {
        end(e).local = a;
    }
    enqueue(l, e);
    e
}
pub fn find_tcp_listener(addr: SocketAddr) -> Option<usize> {
    w().net.listeners.iter().position(|l| l.live && l.addr.map_or(false, |a| a.port() == addr.port() && (a.ip() == addr.ip() || a.ip().is_unspecified())))
}

macro_rules! common {
    ($t:ident) => {
        impl $t {
            pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
                if d == Some(Duration::ZERO) {
                    return Err(io::Error::new(ErrorKind::InvalidInput, "cannot set a 0 duration timeout"));
                }
                end(self.0).rd_to = d;
                Ok(())
            }
            pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
                if d == Some(Duration::ZERO) {
                    return Err(io::Error::new(ErrorKind::InvalidInput, "cannot set a 0 duration timeout"));
                }
                end(self.0).wr_to = d;
                Ok(())
            }
            pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
                Ok(end(self.0).rd_to)
            }
            pub fn write_timeout(&self) -> io::Result<Option<Duration>> {
                Ok(end(self.0).wr_to)
            }
            pub fn set_nonblocking(&self, x: bool) -> io::Result<()> {
                end(self.0).nonblock = x;
                Ok(())
            }
            pub fn shutdown(&self, how: std::net::Shutdown) -> io::Result<()> {
                shutdown(self.0, how)
            }
            pub fn try_clone(&self) -> io::Result<$t> {
                end(self.0).refs += 1;
                Ok($t(self.0))
            }
            pub fn peek(&self, b: &mut [u8]) -> io::Result<usize> {
                read(self.0, b, true)
            }
            pub fn take_error(&self) -> io::Result<Option<io::Error>> {
                Ok(None)
            }
        }
        impl io::Read for $t {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                read(self.0, b, false)
            }
        }
        impl io::Read for &$t {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                read(self.0, b, false)
            }
        }
        impl io::Write for $t {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                write(self.0, b)
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        impl io::Write for &$t {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                write(self.0, b)
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                if !crate::world::active() {
                    return;
                }
                end(self.0).refs -= 1;
                if end(self.0).refs == 0 {
                    point("close");
                    close_end(self.0);
                }
            }
        }
    };
}

pub mod tcp {
    use super::*;
    pub use ::std::net::Shutdown;

    pub trait ToSocketAddrs {
        type Iter: Iterator<Item = SocketAddr>;
        fn to_socket_addrs(&self) -> io::Result<Self::Iter>;
    }
    type VI = std::vec::IntoIter<SocketAddr>;
    fn one(a: SocketAddr) -> io::Result<VI> {
        Ok(vec![a].into_iter())
    }
    fn resolve(host: &str, port: u16) -> io::Result<VI> {
        if let Ok(ip) = host.parse::<IpAddr>() {
            return one(SocketAddr::new(ip, port));
        }
        point("dns");
        let mut h = w().h_env;
        touch(&mut h, 12);
        w().h_env = h;
        let r = with_env(|e| e.dns(host))?;
        Ok(r.into_iter().map(|ip| SocketAddr::new(ip, port)).collect::<Vec<_>>().into_iter())
    }
    impl ToSocketAddrs for SocketAddr {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            one(*self)
        }
    }
    impl ToSocketAddrs for (IpAddr, u16) {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            one(SocketAddr::new(self.0, self.1))
        }
    }
    impl ToSocketAddrs for (Ipv4Addr, u16) {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            one(SocketAddr::new(IpAddr::V4(self.0), self.1))
        }
    }
    impl ToSocketAddrs for (&str, u16) {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            resolve(self.0, self.1)
        }
    }
    impl ToSocketAddrs for (String, u16) {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            resolve(&self.0, self.1)
        }
    }
    impl ToSocketAddrs for str {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            if let Ok(a) = self.parse::<SocketAddr>() {
                return one(a);
            }
            let (h, p) = self
                .rsplit_once(':')
                .ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "invalid socket address"))?;
            let p: u16 = p.parse().map_err(|_| io::Error::new(ErrorKind::InvalidInput, "invalid port value"))?;
            resolve(h, p)
        }
    }
    impl ToSocketAddrs for String {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            self.as_str().to_socket_addrs()
        }
    }
    impl ToSocketAddrs for [SocketAddr] {
        type Iter = VI;
        fn to_socket_addrs(&self) -> io::Result<VI> {
            Ok(self.to_vec().into_iter())
        }
    }
    impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
        type Iter = T::Iter;
        fn to_socket_addrs(&self) -> io::Result<T::Iter> {
            (**self).to_socket_addrs()
        }
    }

    pub struct TcpStream(pub(crate) usize);
    common!(TcpStream);
    impl std::fmt::Debug for TcpStream {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpStream({})", self.0)
        }
    }
    fn connect_to(a: SocketAddr, to: Option<Duration>) -> io::Result<TcpStream> {
        point("connect");
        if let Some(l) = find_tcp_listener(a) {
            let pid = w().net.listeners[l].pid;
            let x = new_end(cur_pid(), Peer::Env);
            let y = new_end(pid, Peer::End(x));
            end(x).peer = Peer::End(y);
            end(x).remote = a;
            end(y).local = a;
            enqueue(l, y);
            return Ok(TcpStream(x));
        }
        let id = new_end(cur_pid(), Peer::Env);
        end(id).remote = a;
        let mut h = w().h_env;
        touch(&mut h, 13);
        w().h_env = h;
        match with_env(|e| e.connect(a, id)) {
            ConnectRes::Ok => Ok(TcpStream(id)),
            ConnectRes::Err(k) => {
                end(id).closed = true;
                Err(io::Error::from(k))
            }
            ConnectRes::Hang => {
                let dl = crate::world::deadline(to.unwrap_or(Duration::from_secs(127)));
                while !block(key(K_END, id), dl, "connect") {}
                end(id).closed = true;
                sys(SysEv::ConnFail { conn: id });
                Err(io::Error::new(ErrorKind::TimedOut, "connection timed out"))
            }
        }
    }
    impl TcpStream {
        pub fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
            let mut last = None;
            for x in a.to_socket_addrs()? {
                match connect_to(x, None) {
                    Ok(s) => return Ok(s),
                    Err(e) => last = Some(e),
                }
            }
            Err(last.unwrap_or_else(|| io::Error::new(ErrorKind::InvalidInput, "could not resolve to any addresses")))
        }
        pub fn connect_timeout(a: &SocketAddr, d: Duration) -> io::Result<TcpStream> {
            connect_to(*a, Some(d))
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(end(self.0).remote)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(end(self.0).local)
        }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn nodelay(&self) -> io::Result<bool> {
            Ok(true)
        }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
    }

    pub struct TcpListener(usize, std::sync::Arc<super::Open>);
    impl std::fmt::Debug for TcpListener {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpListener({})", self.0)
        }
    }
    impl TcpListener {
        pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
            point("bind");
            let mut last = io::Error::new(ErrorKind::InvalidInput, "could not resolve to any addresses");
            for mut x in a.to_socket_addrs()? {
                if x.port() == 0 {
                    x.set_port(w().net.next_port);
                    w().net.next_port += 1;
                } else if w().net.listeners.iter().any(|l| l.live && l.addr.map_or(false, |y| y.port() == x.port())) {
                    last = io::Error::from(ErrorKind::AddrInUse);
                    continue;
                }
                let l = listen(Some(x));
                return Ok(TcpListener(l, super::Open::new(l)));
            }
            Err(last)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(w().net.listeners[self.0].addr.unwrap())
        }
        pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            let e = accept(self.0)?;
            Ok((TcpStream(e), end(e).remote))
        }
        pub fn incoming(&self) -> Incoming<'_> {
            Incoming(self)
        }
        pub fn set_nonblocking(&self, x: bool) -> io::Result<()> {
            w().net.listeners[self.0].nonblock = x;
            Ok(())
        }
        pub fn try_clone(&self) -> io::Result<TcpListener> {
            Ok(TcpListener(self.0, self.1.clone()))
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(None)
        }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
        pub fn ttl(&self) -> io::Result<u32> {
            Ok(64)
        }
    }
    pub struct Incoming<'a>(&'a TcpListener);
    impl Iterator for Incoming<'_> {
        type Item = io::Result<TcpStream>;
        fn next(&mut self) -> Option<io::Result<TcpStream>> {
            Some(self.0.accept().map(|x| x.0))
        }
    }
}

pub mod unix {
    use super::*;
    use std::path::Path;

    /// The simulation keeps no addresses of Unix sockets.
    fn unnamed() -> std::os::unix::net::SocketAddr {
        use std::os::linux::net::SocketAddrExt;
        std::os::unix::net::SocketAddr::from_abstract_name("").unwrap()
    }

    pub struct UnixStream(pub(crate) usize);
    common!(UnixStream);
    impl std::fmt::Debug for UnixStream {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "UnixStream({})", self.0)
        }
    }
    impl UnixStream {
        pub fn connect<P: AsRef<Path>>(p: P) -> io::Result<UnixStream> {
            point("uconnect");
            crate::interpose::fs_touch();
            let p = p.as_ref().to_str().unwrap_or_else(|| die("non UTF-8 socket path"));
            let l = crate::interpose::socket_at(p)?;
            if !w().net.listeners[l].live {
                return Err(io::Error::from_raw_os_error(libc::ECONNREFUSED));
            }
            let pid = w().net.listeners[l].pid;
            let x = new_end(cur_pid(), Peer::Env);
            let y = new_end(pid, Peer::End(x));
            end(x).peer = Peer::End(y);
            enqueue(l, y);
            Ok(UnixStream(x))
        }
        pub fn peer_addr(&self) -> io::Result<std::os::unix::net::SocketAddr> {
            Ok(unnamed())
        }
        pub fn local_addr(&self) -> io::Result<std::os::unix::net::SocketAddr> {
            Ok(unnamed())
        }
        pub fn pair() -> io::Result<(UnixStream, UnixStream)> {
            let x = new_end(cur_pid(), Peer::Env);
            let y = new_end(cur_pid(), Peer::End(x));
            end(x).peer = Peer::End(y);
            Ok((UnixStream(x), UnixStream(y)))
        }
        /// For the environment: which end of the connection this is.
        pub fn end_id(&self) -> usize {
            self.0
        }
    }
    pub struct UnixListener(usize, std::sync::Arc<super::Open>);
    impl std::fmt::Debug for UnixListener {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "UnixListener({})", self.0)
        }
    }
    impl UnixListener {
        pub fn bind<P: AsRef<Path>>(p: P) -> io::Result<UnixListener> {
            point("ubind");
            crate::interpose::fs_touch();
            let p = p.as_ref().to_str().unwrap_or_else(|| die("non UTF-8 socket path"));
            let l = listen(None);
            if let Err(e) = crate::interpose::bind_socket(p, l) {
                w().net.listeners[l].live = false;
                return Err(e);
            }
            Ok(UnixListener(l, super::Open::new(l)))
        }
        pub fn accept(&self) -> io::Result<(UnixStream, std::os::unix::net::SocketAddr)> {
            Ok((UnixStream(accept(self.0)?), unnamed()))
        }
        pub fn local_addr(&self) -> io::Result<std::os::unix::net::SocketAddr> {
            Ok(unnamed())
        }
        pub fn try_clone(&self) -> io::Result<UnixListener> {
            Ok(UnixListener(self.0, self.1.clone()))
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(None)
        }
        pub fn incoming(&self) -> Incoming<'_> {
            Incoming(self)
        }
        pub fn set_nonblocking(&self, x: bool) -> io::Result<()> {
            w().net.listeners[self.0].nonblock = x;
            Ok(())
        }
    }
    impl<'a> IntoIterator for &'a UnixListener {
        type Item = io::Result<UnixStream>;
        type IntoIter = Incoming<'a>;
        fn into_iter(self) -> Incoming<'a> {
            self.incoming()
        }
    }
    #[derive(Debug)]
    pub struct Incoming<'a>(&'a UnixListener);
    impl Iterator for Incoming<'_> {
        type Item = io::Result<UnixStream>;
        fn next(&mut self) -> Option<io::Result<UnixStream>> {
            Some(self.0.accept().map(|x| x.0))
        }
    }
}
