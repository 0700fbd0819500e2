//! Simulated descriptors: epoll, eventfd, UDP over a faulty network, AF_UNIX streams.
use crate::raw;
use crate::sched::*;
use libc::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const SIM_BASE: i32 = 1 << 20;

#[derive(Clone, Debug)]
pub struct NetCfg {
    /// Chances per 65536 datagrams.
    pub loss: u32,
    pub dup: u32,
    pub send_again: u32,
    pub delay_min_ns: u64,
    pub delay_max_ns: u64,
    /// Chance per 65536 that a datagram is delayed by up to late_max_ns more (reordering).
    pub late: u32,
    pub late_max_ns: u64,
    /// Ordered pairs of nodes that cannot talk (a, b) blocks a -> b.
    pub blocked: BTreeSet<(u16, u16)>,
    /// AF_UNIX streams: chance per 256 that a write is cut into pieces, and the longest delay between pieces.
    pub chunk: u32,
    pub chunk_delay_ns: u64,
    pub stream_cap: usize,
    /// Chance per 65536 that a stream read/write fails (connection reset).
    pub stream_reset: u32,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            loss: 0,
            dup: 0,
            send_again: 0,
            delay_min_ns: 20_000,
            delay_max_ns: 200_000,
            late: 0,
            late_max_ns: 0,
            blocked: BTreeSet::new(),
            chunk: 0,
            chunk_delay_ns: 50_000,
            stream_cap: 208 * 1024,
            stream_reset: 0,
        }
    }
}

pub enum NetEvent {
    Udp { to: usize, from: SocketAddr, data: Vec<u8> },
    Bytes { to: usize, data: Vec<u8> },
    Eof { to: usize, reset: bool },
    Writable { obj: usize },
}

struct Reg {
    obj: usize,
    events: u32,
    data: u64,
    pending: bool,
}
enum Kind {
    Unbound { domain: i32, ty: i32 },
    Epoll { regs: BTreeMap<i32, Reg> },
    Event { count: u64 },
    Udp { local: Option<SocketAddr>, v6: bool, q: VecDeque<(SocketAddr, Vec<u8>)> },
    Listener { path: Vec<u8>, backlog: VecDeque<usize> },
    Stream { peer: Option<usize>, rbuf: VecDeque<u8>, inflight: usize, eof: bool, reset: bool, shut_wr: bool, last_at: u64, path: Vec<u8> },
    Closed,
}
struct Obj {
    kind: Kind,
    refs: u32,
    node: u16,
    alive: bool,
}
struct FdEnt {
    obj: usize,
    nonblock: bool,
}
pub struct Net {
    objs: Vec<Obj>,
    fds: Vec<Option<FdEnt>>,
    pub cfg: NetCfg,
    udp_by_port: BTreeMap<u16, Vec<usize>>,
    unix_by_path: BTreeMap<Vec<u8>, usize>,
    next_port: u16,
    pub udp_sent: u64,
    pub udp_delivered: u64,
    gone: Vec<u16>,
}

impl Net {
    pub fn new() -> Self {
        Net {
            gone: vec![],
            objs: vec![],
            fds: vec![],
            cfg: NetCfg::default(),
            udp_by_port: BTreeMap::new(),
            unix_by_path: BTreeMap::new(),
            next_port: 49152,
            udp_sent: 0,
            udp_delivered: 0,
        }
    }
    fn new_obj(&mut self, kind: Kind, node: u16) -> usize {
        self.objs.push(Obj { kind, refs: 0, node, alive: true });
        self.objs.len() - 1
    }
    fn new_fd(&mut self, obj: usize, nonblock: bool) -> i32 {
        self.objs[obj].refs += 1;
        self.fds.push(Some(FdEnt { obj, nonblock }));
        SIM_BASE + self.fds.len() as i32 - 1
    }
    fn ent(&mut self, fd: i32) -> Option<&mut FdEnt> {
        self.fds.get_mut((fd - SIM_BASE) as usize).and_then(|x| x.as_mut())
    }
    fn obj_of(&mut self, fd: i32) -> Option<usize> {
        self.ent(fd).map(|e| e.obj)
    }
    pub fn drop_node(&mut self, node: u16) {
        self.gone.push(node);
        for o in 0..self.objs.len() {
            if self.objs[o].node == node {
                self.objs[o].alive = false;
                if let Kind::Udp { local: Some(l), .. } = &self.objs[o].kind {
                    let p = l.port();
                    if let Some(v) = self.udp_by_port.get_mut(&p) {
                        v.retain(|x| *x != o);
                    }
                }
            }
        }
    }
    fn mask(&self, obj: usize) -> u32 {
        let o = &self.objs[obj];
        match &o.kind {
            Kind::Event { count } => (if *count > 0 { EPOLLIN } else { 0 } | EPOLLOUT) as u32,
            Kind::Udp { q, .. } => (if !q.is_empty() { EPOLLIN } else { 0 } | EPOLLOUT) as u32,
            Kind::Listener { backlog, .. } => (if !backlog.is_empty() { EPOLLIN } else { 0 }) as u32,
            Kind::Stream { peer, rbuf, eof, reset, shut_wr, .. } => {
                let mut m = 0;
                if !rbuf.is_empty() || *eof || *reset {
                    m |= EPOLLIN;
                }
                if *eof || *reset {
                    m |= EPOLLRDHUP;
                }
                if *reset {
                    m |= EPOLLERR | EPOLLHUP;
                }
                if self.space(obj) > 0 || *reset || *shut_wr || peer.is_none() {
                    m |= EPOLLOUT;
                }
                if *eof && (*shut_wr || peer.is_none()) {
                    m |= EPOLLHUP;
                }
                m as u32
            }
            _ => 0,
        }
    }
    fn space(&self, obj: usize) -> usize {
        if let Kind::Stream { peer: Some(p), .. } = &self.objs[obj].kind {
            if let Kind::Stream { rbuf, inflight, .. } = &self.objs[*p].kind {
                return self.cfg.stream_cap.saturating_sub(rbuf.len() + inflight);
            }
        }
        0
    }
}

fn notify(s: &mut Sim, obj: usize) {
    let mut eps = vec![];
    for e in 0..s.net.objs.len() {
        if let Kind::Epoll { regs } = &mut s.net.objs[e].kind {
            let mut hit = false;
            for r in regs.values_mut() {
                if r.obj == obj {
                    r.pending = true;
                    hit = true;
                }
            }
            if hit {
                eps.push(e);
            }
        }
    }
    for e in eps {
        s.wake_key(Key::Epoll(e as i32), usize::MAX);
    }
    s.wake_key(Key::Fd(obj as i32), usize::MAX);
}

pub(crate) fn run_event(s: &mut Sim, e: NetEvent) {
    match e {
        NetEvent::Udp { to, from, data } => {
            if !s.net.objs[to].alive {
                return;
            }
            if std::env::var_os("FV_NET").is_some() { eprintln!("NET {} deliver obj {to} from {from} {} bytes {:02x?}", s.now, data.len(), &data[..10.min(data.len())]); }
            if let Kind::Udp { q, .. } = &mut s.net.objs[to].kind {
                if q.len() < 512 {
                    q.push_back((from, data));
                    s.net.udp_delivered += 1;
                } else {
                    s.count("fault.udp_overflow", 1);
                }
                notify(s, to);
            }
        }
        NetEvent::Bytes { to, data } => {
            if let Kind::Stream { rbuf, inflight, .. } = &mut s.net.objs[to].kind {
                *inflight -= data.len();
                rbuf.extend(data);
                notify(s, to);
            }
        }
        NetEvent::Eof { to, reset } => {
            if let Kind::Stream { eof, reset: r, .. } = &mut s.net.objs[to].kind {
                *eof = true;
                if reset {
                    *r = true;
                }
                notify(s, to);
            }
        }
        NetEvent::Writable { obj } => notify(s, obj),
    }
}

fn err(e: i32) -> i64 {
    unsafe {
        *__errno_location() = e;
    }
    -1
}
pub fn is_sim(fd: i32) -> bool {
    fd >= SIM_BASE && simulated_any()
}
fn simulated_any() -> bool {
    unsafe { !SIM.is_null() }
}

// ----- stream plumbing

fn stream_write(s: &mut Sim, obj: usize, data: &[u8]) -> i64 {
    let (peer, reset, shut) = match &s.net.objs[obj].kind {
        Kind::Stream { peer, reset, shut_wr, .. } => (*peer, *reset, *shut_wr),
        _ => return err(ENOTCONN),
    };
    if reset {
        return err(ECONNRESET);
    }
    let Some(peer) = peer else { return err(EPIPE) };
    if shut {
        return err(EPIPE);
    }
    if data.is_empty() {
        return 0;
    }
    let space = s.net.space(obj);
    if space == 0 {
        return err(EAGAIN);
    }
    let n = data.len().min(space);
    let now = s.now;
    let chunk = s.net.cfg.chunk;
    let cd = s.net.cfg.chunk_delay_ns;
    let mut pos = 0;
    if n < data.len() {
        s.count("fault.short_write", 1);
    }
    while pos < n {
        let left = n - pos;
        let mut take = left;
        if left > 1 && s.rng_net.chance(chunk as u64, 256) {
            // small pieces are the interesting ones
            let cap = if s.rng_net.chance(1, 2) { 8.min(left) } else { left };
            take = 1 + s.rng_net.usize(cap);
            s.count("fault.stream_chunked", 1);
        }
        let d = s.rng_net.below(cd + 1);
        let at = if let Kind::Stream { last_at, .. } = &mut s.net.objs[obj].kind {
            *last_at = (*last_at).max(now) + d;
            *last_at
        } else {
            now
        };
        if let Kind::Stream { inflight, .. } = &mut s.net.objs[peer].kind {
            *inflight += take;
        }
        let piece = data[pos..pos + take].to_vec();
        s.schedule_event(at, NetEvent::Bytes { to: peer, data: piece });
        pos += take;
    }
    n as i64
}
fn stream_read(s: &mut Sim, obj: usize, buf: *mut u8, len: usize) -> i64 {
    let (n, peer) = match &mut s.net.objs[obj].kind {
        Kind::Stream { rbuf, eof, reset, peer, .. } => {
            if rbuf.is_empty() {
                if *reset {
                    return err(ECONNRESET);
                }
                if *eof {
                    return 0;
                }
                return err(EAGAIN);
            }
            let n = len.min(rbuf.len());
            for i in 0..n {
                unsafe { *buf.add(i) = rbuf.pop_front().unwrap() };
            }
            (n, *peer)
        }
        _ => return err(ENOTCONN),
    };
    if let Some(p) = peer {
        notify(s, p); // room to write
    }
    n as i64
}
fn stream_shutdown(s: &mut Sim, obj: usize, reset: bool) {
    let now = s.now;
    let (peer, at) = match &mut s.net.objs[obj].kind {
        Kind::Stream { peer, shut_wr, last_at, .. } => {
            if *shut_wr && !reset {
                return;
            }
            *shut_wr = true;
            (*peer, (*last_at).max(now) + 1)
        }
        _ => return,
    };
    if let Some(p) = peer {
        s.schedule_event(at, NetEvent::Eof { to: p, reset });
    }
}
fn close_obj(s: &mut Sim, obj: usize) {
    // deregister from every epoll
    for e in 0..s.net.objs.len() {
        if let Kind::Epoll { regs } = &mut s.net.objs[e].kind {
            regs.retain(|_, r| r.obj != obj);
        }
    }
    let unread = matches!(&s.net.objs[obj].kind, Kind::Stream { rbuf, inflight, .. } if !rbuf.is_empty() || *inflight > 0);
    match &s.net.objs[obj].kind {
        Kind::Stream { .. } => {
            stream_shutdown(s, obj, unread);
            if let Kind::Stream { peer: Some(p), .. } = s.net.objs[obj].kind {
                if let Kind::Stream { peer, .. } = &mut s.net.objs[p].kind {
                    *peer = None;
                }
            }
        }
        Kind::Udp { local: Some(l), .. } => {
            let p = l.port();
            if let Some(v) = s.net.udp_by_port.get_mut(&p) {
                v.retain(|x| *x != obj);
            }
        }
        Kind::Listener { path, .. } => {
            let path = path.clone();
            if s.net.unix_by_path.get(&path) == Some(&obj) {
                s.net.unix_by_path.remove(&path);
            }
        }
        _ => {}
    }
    // keep streams around as tombstones so that in-flight bytes addressed to them are ignored
    if !matches!(s.net.objs[obj].kind, Kind::Stream { .. }) {
        s.net.objs[obj].kind = Kind::Closed;
    }
    s.net.objs[obj].alive = false;
}

// ----- public API for simulated clients (block the calling simulated thread)

/// A machine disappears from the network.
pub fn drop_node(n: u16) {
    let _g = crate::Guard::new();
    sim().net.drop_node(n);
}
pub fn dropped(n: u16) -> bool {
    sim().net.gone.contains(&n)
}
pub fn net_cfg() -> &'static mut NetCfg {
    &mut sim().net.cfg
}
pub fn udp_stats() -> (u64, u64) {
    (sim().net.udp_sent, sim().net.udp_delivered)
}
fn stream_kind(path: &[u8]) -> Kind {
    Kind::Stream { peer: None, rbuf: VecDeque::new(), inflight: 0, eof: false, reset: false, shut_wr: false, last_at: 0, path: path.to_vec() }
}
/// Connects to a simulated AF_UNIX listener; None if nobody listens.
pub fn unix_connect(path: &str) -> Option<i32> {
    let _g = Guard::new();
    let s = sim();
    let node = s.threads[s.cur].node;
    let l = *s.net.unix_by_path.get(path.as_bytes())?;
    let a = s.net.new_obj(stream_kind(b""), node);
    let lnode = s.net.objs[l].node;
    let b = s.net.new_obj(stream_kind(path.as_bytes()), lnode);
    if let Kind::Stream { peer, .. } = &mut s.net.objs[a].kind {
        *peer = Some(b);
    }
    if let Kind::Stream { peer, .. } = &mut s.net.objs[b].kind {
        *peer = Some(a);
    }
    if let Kind::Listener { backlog, .. } = &mut s.net.objs[l].kind {
        backlog.push_back(b);
    }
    notify(s, l);
    Some(s.net.new_fd(a, true))
}
/// Blocking write of everything; false if the connection broke.
pub fn stream_send(fd: i32, mut data: &[u8]) -> bool {
    loop {
        if data.is_empty() {
            return true;
        }
        let (r, o) = {
            let _g = Guard::new();
            let s = sim();
            let Some(o) = s.net.obj_of(fd) else { return false };
            (stream_write(s, o, data), o)
        };
        if r > 0 {
            data = &data[r as usize..];
            point();
        } else if r < 0 && unsafe { *__errno_location() } == EAGAIN {
            block(Key::Fd(o as i32), NEVER);
        } else {
            return false;
        }
    }
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecvEnd {
    Data(usize),
    Eof,
    Reset,
    Timeout,
}
pub fn stream_recv(fd: i32, buf: &mut [u8], timeout_ns: u64) -> RecvEnd {
    let dl = now() + timeout_ns;
    loop {
        let (r, o) = {
            let _g = Guard::new();
            let s = sim();
            let Some(o) = s.net.obj_of(fd) else { return RecvEnd::Reset };
            (stream_read(s, o, buf.as_mut_ptr(), buf.len()), o)
        };
        if r > 0 {
            point();
            return RecvEnd::Data(r as usize);
        }
        if r == 0 {
            return RecvEnd::Eof;
        }
        if unsafe { *__errno_location() } != EAGAIN {
            return RecvEnd::Reset;
        }
        if now() >= dl {
            return RecvEnd::Timeout;
        }
        block(Key::Fd(o as i32), dl);
    }
}
pub fn stream_shutdown_wr(fd: i32) {
    let _g = Guard::new();
    let s = sim();
    if let Some(o) = s.net.obj_of(fd) {
        stream_shutdown(s, o, false);
    }
}
pub fn unix_listening(path: &str) -> bool {
    sim().net.unix_by_path.contains_key(path.as_bytes())
}

// ----- helpers for the C interface

unsafe fn parse_addr(a: *const sockaddr, len: socklen_t) -> Option<SocketAddr> {
    if a.is_null() || len == 0 {
        return None;
    }
    match (*a).sa_family as i32 {
        AF_INET => {
            let a = &*(a as *const sockaddr_in);
            Some(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr))), u16::from_be(a.sin_port)))
        }
        AF_INET6 => {
            let a = &*(a as *const sockaddr_in6);
            Some(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(a.sin6_addr.s6_addr)), u16::from_be(a.sin6_port)))
        }
        _ => None,
    }
}
unsafe fn put_addr(sa: SocketAddr, v6: bool, out: *mut sockaddr, len: *mut socklen_t) {
    if out.is_null() {
        return;
    }
    if v6 || sa.is_ipv6() {
        let ip = match sa.ip() {
            IpAddr::V6(i) => i,
            IpAddr::V4(i) => i.to_ipv6_mapped(),
        };
        let mut a: sockaddr_in6 = std::mem::zeroed();
        a.sin6_family = AF_INET6 as u16;
        a.sin6_port = sa.port().to_be();
        a.sin6_addr.s6_addr = ip.octets();
        std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, out as *mut u8, std::mem::size_of::<sockaddr_in6>().min(*len as usize));
        *len = std::mem::size_of::<sockaddr_in6>() as u32;
    } else if let IpAddr::V4(ip) = sa.ip() {
        let mut a: sockaddr_in = std::mem::zeroed();
        a.sin_family = AF_INET as u16;
        a.sin_port = sa.port().to_be();
        a.sin_addr.s_addr = u32::from(ip).to_be();
        std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, out as *mut u8, std::mem::size_of::<sockaddr_in>().min(*len as usize));
        *len = std::mem::size_of::<sockaddr_in>() as u32;
    }
}
unsafe fn unix_path(a: *const sockaddr, len: socklen_t) -> Vec<u8> {
    let u = a as *const sockaddr_un;
    let off = std::mem::size_of::<sa_family_t>();
    let n = (len as usize).saturating_sub(off);
    let mut v = vec![];
    for i in 0..n {
        let c = (*u).sun_path[i] as u8;
        if c == 0 {
            break;
        }
        v.push(c);
    }
    v
}

fn sock_node(s: &Sim, addr_port: u16) -> Option<u16> {
    s.net.udp_by_port.get(&addr_port).and_then(|v| v.last()).map(|o| s.net.objs[*o].node)
}

// ----- system-call level implementations (called from hooks with the guard held)

pub(crate) fn do_epoll_create() -> i32 {
    let s = sim();
    let n = s.threads[s.cur].node;
    let o = s.net.new_obj(Kind::Epoll { regs: BTreeMap::new() }, n);
    s.net.new_fd(o, false)
}
pub(crate) fn do_eventfd(init: u32) -> i32 {
    let s = sim();
    let n = s.threads[s.cur].node;
    let o = s.net.new_obj(Kind::Event { count: init as u64 }, n);
    s.net.new_fd(o, true)
}
pub(crate) unsafe fn do_epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut epoll_event) -> i64 {
    let s = sim();
    let (Some(e), Some(o)) = (s.net.obj_of(ep), s.net.obj_of(fd)) else { return err(EBADF) };
    let mut wake = false;
    let mask = s.net.mask(o);
    if let Kind::Epoll { regs } = &mut s.net.objs[e].kind {
        match op {
            EPOLL_CTL_ADD | EPOLL_CTL_MOD => {
                if op == EPOLL_CTL_ADD && regs.contains_key(&fd) {
                    return err(EEXIST);
                }
                if op == EPOLL_CTL_MOD && !regs.contains_key(&fd) {
                    return err(ENOENT);
                }
                let events = (*ev).events;
                let data = (*ev).u64;
                regs.insert(fd, Reg { obj: o, events, data, pending: true });
                wake = mask & events != 0;
            }
            EPOLL_CTL_DEL => {
                if regs.remove(&fd).is_none() {
                    return err(ENOENT);
                }
            }
            _ => return err(EINVAL),
        }
    }
    if wake {
        s.wake_key(Key::Epoll(e as i32), usize::MAX);
    }
    0
}
unsafe fn collect(s: &mut Sim, e: usize, out: *mut epoll_event, max: i32) -> i32 {
    let mut list = vec![];
    if let Kind::Epoll { regs } = &s.net.objs[e].kind {
        for (fd, r) in regs {
            let et = r.events & EPOLLET as u32 != 0;
            if et && !r.pending {
                continue;
            }
            let m = s.net.mask(r.obj) & (r.events | (EPOLLERR | EPOLLHUP) as u32);
            if m != 0 {
                list.push((*fd, m, r.data));
            }
        }
    }
    if list.len() > 1 {
        s.rng_net.shuffle(&mut list);
    }
    list.truncate(max as usize);
    if let Kind::Epoll { regs } = &mut s.net.objs[e].kind {
        for (i, (fd, m, d)) in list.iter().enumerate() {
            regs.get_mut(fd).unwrap().pending = false;
            let p = &mut *out.add(i);
            p.events = *m;
            p.u64 = *d;
        }
    }
    list.len() as i32
}
pub(crate) unsafe fn do_epoll_wait(ep: i32, out: *mut epoll_event, max: i32, timeout_ms: i32) -> i32 {
    let Some(e) = sim().net.obj_of(ep) else { return err(EBADF) as i32 };
    let dl = if timeout_ms < 0 { NEVER } else { sim().now + timeout_ms as u64 * 1_000_000 };
    loop {
        let n = collect(sim(), e, out, max);
        if n > 0 || timeout_ms == 0 {
            return n;
        }
        if sim().now >= dl {
            return 0;
        }
        block(Key::Epoll(e as i32), dl);
    }
}
pub(crate) unsafe fn do_read(fd: i32, buf: *mut u8, len: usize) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    let nb = s.net.ent(fd).unwrap().nonblock;
    loop {
        let s = sim();
        if let Kind::Event { count } = &mut s.net.objs[o].kind {
            if *count == 0 {
                return err(EAGAIN);
            }
            *(buf as *mut u64) = *count;
            *count = 0;
            return 8;
        }
        let reset = s.net.cfg.stream_reset;
        if reset > 0 && matches!(s.net.objs[o].kind, Kind::Stream { .. }) && s.rng_net.chance(reset as u64, 65536) {
            s.count("fault.stream_reset", 1);
            if let Kind::Stream { reset, rbuf, .. } = &mut s.net.objs[o].kind {
                *reset = true;
                rbuf.clear();
            }
        }
        let r = stream_read(s, o, buf, len);
        if r < 0 && *__errno_location() == EAGAIN && !nb {
            block(Key::Fd(o as i32), NEVER);
            continue;
        }
        return r;
    }
}
pub(crate) unsafe fn do_write(fd: i32, buf: *const u8, len: usize) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    let nb = s.net.ent(fd).unwrap().nonblock;
    loop {
        let s = sim();
        if let Kind::Event { count } = &mut s.net.objs[o].kind {
            *count = count.saturating_add(*(buf as *const u64));
            notify(s, o);
            return 8;
        }
        let r = stream_write(s, o, std::slice::from_raw_parts(buf, len));
        if r < 0 && *__errno_location() == EAGAIN && !nb {
            block(Key::Fd(o as i32), NEVER);
            continue;
        }
        return r;
    }
}
pub(crate) fn do_close(fd: i32) -> i64 {
    let s = sim();
    let i = (fd - SIM_BASE) as usize;
    let Some(Some(e)) = s.net.fds.get(i) else { return err(EBADF) };
    let o = e.obj;
    s.net.fds[i] = None;
    for ep in 0..s.net.objs.len() {
        if let Kind::Epoll { regs } = &mut s.net.objs[ep].kind {
            regs.remove(&fd);
        }
    }
    s.net.objs[o].refs -= 1;
    if s.net.objs[o].refs == 0 {
        close_obj(s, o);
    }
    0
}
pub(crate) fn do_dup(fd: i32) -> i32 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) as i32 };
    let nb = s.net.ent(fd).unwrap().nonblock;
    s.net.new_fd(o, nb)
}
pub(crate) fn get_nonblock(fd: i32) -> bool {
    sim().net.ent(fd).map(|e| e.nonblock).unwrap_or(false)
}
pub(crate) fn set_nonblock(fd: i32, v: bool) {
    if let Some(e) = sim().net.ent(fd) {
        e.nonblock = v;
    }
}
pub(crate) fn do_socket(domain: i32, ty: i32) -> i32 {
    let s = sim();
    let n = s.threads[s.cur].node;
    let nb = ty & SOCK_NONBLOCK != 0;
    let base = ty & 0xf;
    let kind = if base == SOCK_DGRAM && (domain == AF_INET || domain == AF_INET6) {
        Kind::Udp { local: None, v6: domain == AF_INET6, q: VecDeque::new() }
    } else {
        Kind::Unbound { domain, ty: base }
    };
    let o = s.net.new_obj(kind, n);
    s.net.new_fd(o, nb)
}
fn auto_port(s: &mut Sim) -> u16 {
    loop {
        s.net.next_port = s.net.next_port.checked_add(1).unwrap_or(49152);
        let p = s.net.next_port;
        if s.net.udp_by_port.get(&p).map(|v| v.is_empty()).unwrap_or(true) {
            return p;
        }
    }
}
pub(crate) unsafe fn do_bind(fd: i32, a: *const sockaddr, len: socklen_t) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    if (*a).sa_family as i32 == AF_UNIX {
        let path = unix_path(a, len);
        if s.net.unix_by_path.contains_key(&path) {
            return err(EADDRINUSE);
        }
        s.net.unix_by_path.insert(path.clone(), o);
        s.net.objs[o].kind = Kind::Listener { path, backlog: VecDeque::new() };
        return 0;
    }
    let Some(mut sa) = parse_addr(a, len) else { return err(EINVAL) };
    if sa.port() == 0 {
        let p = auto_port(s);
        sa.set_port(p);
    }
    if s.net.udp_by_port.get(&sa.port()).map(|v| !v.is_empty()).unwrap_or(false) {
        return err(EADDRINUSE);
    }
    if let Kind::Udp { local, .. } = &mut s.net.objs[o].kind {
        *local = Some(sa);
        s.net.udp_by_port.entry(sa.port()).or_default().push(o);
        0
    } else {
        err(EINVAL)
    }
}
pub(crate) unsafe fn do_getsockname(fd: i32, a: *mut sockaddr, len: *mut socklen_t) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    match &s.net.objs[o].kind {
        Kind::Udp { local, v6, .. } => {
            let sa = local.unwrap_or(SocketAddr::new(if *v6 { IpAddr::V6(Ipv6Addr::UNSPECIFIED) } else { IpAddr::V4(Ipv4Addr::UNSPECIFIED) }, 0));
            put_addr(sa, *v6, a, len);
            0
        }
        _ => {
            if (*len as usize) >= 2 {
                (*a).sa_family = AF_UNIX as u16;
            }
            *len = 2;
            0
        }
    }
}
pub(crate) unsafe fn do_accept(fd: i32, a: *mut sockaddr, len: *mut socklen_t, flags: i32) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    let b = match &mut s.net.objs[o].kind {
        Kind::Listener { backlog, .. } => backlog.pop_front(),
        _ => return err(EINVAL),
    };
    let Some(b) = b else { return err(EAGAIN) };
    if !a.is_null() {
        (*a).sa_family = AF_UNIX as u16;
        *len = 2;
    }
    s.net.new_fd(b, flags & SOCK_NONBLOCK != 0) as i64
}
pub(crate) fn do_shutdown(fd: i32, how: i32) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    if matches!(&s.net.objs[o].kind, Kind::Stream { peer: None, .. }) {
        return err(ENOTCONN);
    }
    if how == SHUT_WR || how == SHUT_RDWR {
        stream_shutdown(s, o, false);
    }
    0
}
pub(crate) unsafe fn do_sendmsg(fd: i32, m: *const msghdr) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    let mut data = vec![];
    for i in 0..(*m).msg_iovlen {
        let v = &*(*m).msg_iov.add(i);
        data.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    if matches!(s.net.objs[o].kind, Kind::Stream { .. }) {
        return do_write(fd, data.as_ptr(), data.len());
    }
    let dst = parse_addr((*m).msg_name as *const sockaddr, (*m).msg_namelen);
    udp_send(o, dst, data)
}
pub(crate) unsafe fn do_sendto(fd: i32, b: *const u8, n: usize, a: *const sockaddr, len: socklen_t) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    if matches!(s.net.objs[o].kind, Kind::Stream { .. }) {
        return do_write(fd, b, n);
    }
    udp_send(o, parse_addr(a, len), std::slice::from_raw_parts(b, n).to_vec())
}
fn udp_send(o: usize, dst: Option<SocketAddr>, data: Vec<u8>) -> i64 {
    let s = sim();
    let Some(dst) = dst else { return err(EDESTADDRREQ) };
    let len = data.len() as i64;
    let (mut from, v6) = match &s.net.objs[o].kind {
        Kind::Udp { local: Some(l), v6, .. } => (*l, *v6),
        Kind::Udp { local: None, v6, .. } => {
            let v6 = *v6;
            let p = auto_port(s);
            let l = SocketAddr::new(if v6 { IpAddr::V6(Ipv6Addr::LOCALHOST) } else { IpAddr::V4(Ipv4Addr::LOCALHOST) }, p);
            if let Kind::Udp { local, .. } = &mut s.net.objs[o].kind {
                *local = Some(l);
            }
            s.net.udp_by_port.entry(p).or_default().push(o);
            (l, v6)
        }
        _ => return err(ENOTSOCK),
    };
    let _ = v6;
    let again = s.net.cfg.send_again;
    if again > 0 && s.rng_net.chance(again as u64, 65536) {
        s.count("fault.udp_send_again", 1);
        let d = s.rng_net.range(1000, 5_000_000);
        let at = s.now + d;
        s.schedule_event(at, NetEvent::Writable { obj: o });
        return err(EAGAIN);
    }
    if from.ip().is_unspecified() {
        from.set_ip(dst.ip());
    }
    s.net.udp_sent += 1;
    if std::env::var_os("FV_NET").is_some() { eprintln!("NET {} send obj {o} {from} -> {dst} {} bytes {:02x?}", s.now, data.len(), &data[..10.min(data.len())]); }
    let my = s.net.objs[o].node;
    let peer_node = sock_node(s, dst.port());
    let Some(to) = s.net.udp_by_port.get(&dst.port()).and_then(|v| v.last()).copied() else {
        s.count("net.no_listener", 1);
        return len;
    };
    if let Some(p) = peer_node {
        if s.net.cfg.blocked.contains(&(my, p)) {
            s.count("fault.udp_partitioned", 1);
            return len;
        }
    }
    let c = s.net.cfg.clone();
    if my == peer_node.unwrap_or(my) {
        // loopback within a node: reliable
        let at = s.now + 10_000;
        s.schedule_event(at, NetEvent::Udp { to, from, data });
        return len;
    }
    if c.loss > 0 && s.rng_net.chance(c.loss as u64, 65536) {
        s.count("fault.udp_lost", 1);
        return len;
    }
    let mut copies = 1;
    if c.dup > 0 && s.rng_net.chance(c.dup as u64, 65536) {
        s.count("fault.udp_duplicated", 1);
        copies = 2;
    }
    for _ in 0..copies {
        let mut d = s.rng_net.range(c.delay_min_ns, c.delay_max_ns.max(c.delay_min_ns));
        if c.late > 0 && s.rng_net.chance(c.late as u64, 65536) {
            s.count("fault.udp_late", 1);
            d += s.rng_net.below(c.late_max_ns + 1);
        }
        let at = s.now + d;
        s.schedule_event(at, NetEvent::Udp { to, from, data: data.clone() });
    }
    len
}
pub(crate) unsafe fn do_recvmsg(fd: i32, m: *mut msghdr) -> i64 {
    let s = sim();
    let Some(o) = s.net.obj_of(fd) else { return err(EBADF) };
    let (from, data, v6) = match &mut s.net.objs[o].kind {
        Kind::Udp { q, v6, .. } => match q.pop_front() {
            Some((f, d)) => (f, d, *v6),
            None => return err(EAGAIN),
        },
        Kind::Stream { .. } => {
            let v = &*(*m).msg_iov;
            (*m).msg_controllen = 0;
            (*m).msg_flags = 0;
            return do_read(fd, v.iov_base as *mut u8, v.iov_len);
        }
        _ => return err(ENOTSOCK),
    };
    let mut pos = 0;
    for i in 0..(*m).msg_iovlen {
        let v = &*(*m).msg_iov.add(i);
        let n = v.iov_len.min(data.len() - pos);
        std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), v.iov_base as *mut u8, n);
        pos += n;
    }
    if !(*m).msg_name.is_null() {
        let mut l = (*m).msg_namelen;
        put_addr(from, v6, (*m).msg_name as *mut sockaddr, &mut l);
        (*m).msg_namelen = l;
    }
    (*m).msg_controllen = 0;
    (*m).msg_flags = if pos < data.len() { MSG_TRUNC } else { 0 };
    pos as i64
}
pub(crate) fn passthrough_needed(fd: i32) -> bool {
    !is_sim(fd)
}
#[allow(dead_code)]
fn unused() {
    let _ = raw::real_now;
}
