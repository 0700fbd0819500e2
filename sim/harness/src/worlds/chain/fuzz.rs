//! The fuzz target, driven over a socket: sessions of requests, forks, and clients that misbehave.
use super::*;
use fr_fuzz::fuzz_target::FuzzTargetRunner;
use fr_fuzz::types::{PeerInfo, Version};
use simrt::net::{net_cfg, stream_recv, stream_send, stream_shutdown_wr, unix_connect, unix_listening, RecvEnd};

const MS: u64 = 1_000_000;
const SLOTS: u32 = 24; // operation numbers per session
const PATIENCE: u64 = 200_000 * MS;
const TARGET: (u8, u32, [u8; 3], [u8; 3], &str) = (1, 3, [0, 7, 2], [1, 2, 3], "target-under-test");

fn le32(n: usize) -> [u8; 4] {
    (n as u32).to_le_bytes()
}
fn frame(kind: u8, body: &[u8]) -> Vec<u8> {
    [&le32(body.len() + 1)[..], &[kind], body].concat()
}
fn peer_info(ver: u8, features: u32, jam: [u8; 3], app: [u8; 3], name: &[u8]) -> Vec<u8> {
    let mut w = W::default();
    w.u8(ver).u32(features).b(&jam).b(&app).lb(name);
    w.0
}
fn state_body(m: &Map, r: Option<&mut Rng>) -> Vec<u8> {
    let mut w = W::default();
    w.n(m.len() as u64);
    let mut kv: Vec<_> = m.iter().collect();
    if let Some(r) = r {
        r.shuffle(&mut kv);
    }
    for (k, v) in kv {
        w.b(k).lb(v);
    }
    w.0
}
fn read_n(b: &mut &[u8]) -> Option<u64> {
    let f = *b.first()?;
    let l = f.leading_ones() as usize;
    if b.len() < 1 + l.min(8) {
        return None;
    }
    let mut x = [0u8; 8];
    x[..l.min(8)].copy_from_slice(&b[1..1 + l.min(8)]);
    let low = u64::from_le_bytes(x);
    *b = &b[1 + l.min(8)..];
    Some(if l >= 8 { low } else { low | ((f as u64 & ((1u64 << (7 - l)) - 1).max(0)) << (8 * l)) })
}
fn read_state(mut b: &[u8]) -> Option<Map> {
    let n = read_n(&mut b)?;
    let mut m = Map::new();
    for _ in 0..n {
        if b.len() < 31 {
            return None;
        }
        let k: Key31 = b[..31].try_into().unwrap();
        b = &b[31..];
        let l = read_n(&mut b)? as usize;
        if b.len() < l || m.insert(k, b[..l].to_vec()).is_some() {
            return None;
        }
        b = &b[l..];
    }
    b.is_empty().then_some(m)
}

#[derive(Clone, Debug)]
enum Want {
    Peer,
    Root(H),
    Error,
    State(Map),
    /// Something must come: a reply of any kind, or the end of the session.
    Any,
    /// The session must end.
    End,
}
#[derive(Debug)]
enum Got {
    Msg(u8, Vec<u8>),
    End,
    Silence,
}

/// One connection, seen from the client.
struct Conn {
    fd: i32,
    pieces: u64,
    sent: usize,
}
impl Conn {
    fn open(path: &str, pieces: u64) -> Conn {
        Conn { fd: unix_connect(path).expect("harness: the target listens"), pieces, sent: 0 }
    }
    fn send(&mut self, r: &mut Rng, b: &[u8]) -> bool {
        let mut b = b;
        while !b.is_empty() {
            let most = *r.pick(&[3, 40, 2000]);
            let n = if r.below(256) < self.pieces { 1 + r.usize(b.len().min(most)) } else { b.len() };
            if !stream_send(self.fd, &b[..n.min(b.len())]) {
                return false;
            }
            self.sent += n.min(b.len());
            b = &b[n.min(b.len())..];
            if !b.is_empty() {
                simrt::count("fault.client_pauses");
                let max = *r.pick(&[1, 20_000, 3 * MS]);
                simrt::sleep(r.below(max));
            }
        }
        true
    }
    fn fill(&self, buf: &mut [u8], patience: u64) -> Result<(), Got> {
        let mut n = 0;
        while n < buf.len() {
            match stream_recv(self.fd, &mut buf[n..], patience) {
                RecvEnd::Data(k) => n += k,
                RecvEnd::Timeout => return Err(Got::Silence),
                _ => return Err(Got::End),
            }
        }
        Ok(())
    }
    fn recv(&self, patience: u64) -> Got {
        let mut l = [0u8; 4];
        if let Err(g) = self.fill(&mut l, patience) {
            return g;
        }
        let n = u32::from_le_bytes(l) as usize;
        if n == 0 || n > 50_000_000 {
            return Got::Msg(254, l.to_vec());
        }
        let mut b = vec![0; n];
        match self.fill(&mut b, patience) {
            Ok(()) => Got::Msg(b[0], b[1..].to_vec()),
            Err(g) => g,
        }
    }
    fn close(self, r: &mut Rng) {
        if r.chance(1, 3) {
            stream_shutdown_wr(self.fd);
            simrt::sleep(r.below(3 * MS));
        }
        unsafe { libc::close(self.fd) };
    }
}
fn agrees(want: &Want, got: &Got) -> Result<(), (String, String)> {
    let e = |c: &str, m: String| Err((c.to_string(), m));
    match (want, got) {
        (Want::Any, Got::Silence) | (Want::End, Got::Silence) => e("no-answer", "neither an answer nor the end of the session".into()),
        (Want::Any, _) | (Want::End, Got::End) => Ok(()),
        (Want::End, Got::Msg(k, _)) => e("session-goes-on", format!("a request that is not allowed got a reply of kind {k}")),
        (_, Got::Silence) => e("no-reply", "no reply".into()),
        (_, Got::End) => e("session-ended", "the target ended the session instead of replying".into()),
        (Want::Peer, Got::Msg(0, b)) => {
            let (v, f, j, a, n) = TARGET;
            if *b == peer_info(v, f, j, a, n.as_bytes()) {
                Ok(())
            } else {
                e("wrong-identity", format!("identity {b:02x?}"))
            }
        }
        (Want::Root(h), Got::Msg(2, b)) => {
            if b.as_slice() == h {
                Ok(())
            } else {
                e("wrong-root", format!("root {} instead of {}", hex8(b), hex8(h)))
            }
        }
        (Want::Root(_), Got::Msg(255, b)) => e("rejected-valid", format!("a valid block got an error: {}", String::from_utf8_lossy(b).chars().take(150).collect::<String>())),
        (Want::Error, Got::Msg(255, _)) => Ok(()),
        (Want::Error, Got::Msg(2, _)) => e("accepted-invalid", "a block that must be refused got a root".into()),
        (Want::State(m), Got::Msg(5, b)) => match read_state(b) {
            None => e("bad-state-message", "the state in the reply cannot be read or repeats a key".into()),
            Some(s) if s == *m => Ok(()),
            Some(s) => {
                let missing: Vec<_> = m.keys().filter(|k| !s.contains_key(*k)).map(component).collect();
                let extra: Vec<_> = s.keys().filter(|k| !m.contains_key(*k)).map(component).collect();
                let wrong: Vec<_> = m.iter().filter(|(k, v)| s.get(*k).is_some_and(|x| x != *v)).map(|(k, _)| component(k)).collect();
                e("wrong-state", format!("the state differs: missing {missing:?}, extra {extra:?}, wrong {wrong:?}"))
            }
        },
        (w, Got::Msg(k, _)) => {
            let w = format!("{w:?}");
            e("wrong-kind", format!("a reply of kind {k} where {} was due", w.chars().take(12).collect::<String>()))
        }
    }
}

/// What a session has built so far.
struct Sess {
    forking: bool,
    ancestors: bool,
    mix: Mix,
    blobs: Vec<Vec<u8>>,
    kinds: Vec<&'static str>,
    /// The chain up to the last finalised block, and its staged children.
    fin: Chain,
    staged: Vec<(Vec<u8>, Chain)>,
    dead: Vec<Vec<u8>>,
    /// Discarded branches and ancestors: building on them must fail.
    lost: Vec<Chain>,
    refused: Vec<Vec<u8>>,
    forked: bool,
    uniq: u64,
}
fn new_session(r: &mut Rng, spec: &Spec, no: u64) -> (Sess, Vec<u8>) {
    let mut mix = mix_for(&spec.bias, r);
    if r.chance(1, 3) {
        mix.preimages = true;
    }
    if r.chance(1, 3) {
        mix.accumulate = true;
        mix.reports = true;
    }
    let kinds: Vec<_> = kinds_for("C11", &mix).into_iter().filter(|k| *k != "slot-future").collect();
    let sub = Spec { seed: spec.seed.wrapping_mul(31).wrapping_add(no), ..spec.clone() };
    let (mut ch, map, blobs) = super::net::model_genesis(r, &sub, &mix);
    let ancestors = r.chance(1, 3);
    let forking = spec.bias == "C21" || r.chance(1, 2);
    let mut anc: Vec<(u32, H)> = (1..=r.below(12) as u32).rev().filter_map(|k| ch.st.slot.checked_sub(k * 3)).map(|s| (s, hash(&[b"old", &s.to_le_bytes()]))).collect();
    anc.push((ch.st.slot, ch.head));
    let listed = ancestors || r.chance(1, 3);
    if ancestors {
        ch.ancestors = Some(anc.iter().copied().collect());
        ch.headers = anc.clone();
    }
    let mut w = W::default();
    w.b(&ch.genesis.encode().expect("header"));
    w.b(&state_body(&map, if r.chance(1, 2) { Some(r) } else { None }));
    if listed {
        if r.chance(1, 2) {
            r.shuffle(&mut anc);
        }
        w.n(anc.len() as u64);
        for (s, h) in &anc {
            w.u32(*s).b(h);
        }
    } else {
        w.n(0);
    }
    super::net::clock_at(2, ch.st.slot, MS);
    let s = Sess { forking, ancestors, mix, blobs, kinds, fin: ch, staged: vec![], dead: vec![], lost: vec![], refused: vec![], forked: false, uniq: no << 40 };
    (s, frame(1, &w.0))
}
impl Sess {
    fn chain(&mut self, on: &Chain) -> Chain {
        let mut c = on.clone();
        self.uniq += 1;
        c.uniq = c.uniq.wrapping_add(self.uniq << 20);
        c
    }
    fn grown(&self, from: &Chain, b: &Blk, next: St) -> Chain {
        let mut c = from.clone();
        c.st = next;
        c.root = trie_root(&c.st.to_map());
        c.head = b.hash();
        c.headers.push((b.slot, c.head));
        c.imported += 1;
        if let Some(a) = c.ancestors.as_mut() {
            a.insert((b.slot, c.head));
        }
        c
    }
    /// A block on top of `on`, and what has to come of it. None: nothing could be built.
    fn child(&mut self, r: &mut Rng, on: &Chain, broken: bool) -> Option<(Vec<u8>, String, Result<Chain, Rej>)> {
        let mut c = self.chain(on);
        let step = if r.below(100) < self.mix.jump {
            r.range(6, 30) as u32
        } else if r.below(100) < self.mix.skip {
            r.range(2, 7) as u32
        } else {
            1
        };
        let mut slot = c.st.slot + step;
        c.clock = slot.max(clock_slot());
        let blobs = std::mem::take(&mut self.blobs);
        let b = build_block(r, &mut c, &mut slot, &self.mix, &blobs);
        self.blobs = blobs;
        let mut b = b?;
        c.clock = c.clock.max(slot);
        let mut what = "block".to_string();
        if broken {
            let (m, kind) = break_block(r, &mut c, &b, &self.kinds)?;
            b = m;
            what = format!("block broken by {kind}");
        }
        set_clock(b.slot.max(c.clock));
        let v = apply(&c.st, &c.head, &c.root, &b, &c, &mut *c.rules());
        if matches!(v, Err(super::svc::TOO_LONG)) {
            return None;
        }
        let res = v.map(|n| self.grown(&c, &b, n));
        Some((b.bytes(), format!("{what}, slot {}", b.slot), res))
    }
    fn state_query(&self, r: &mut Rng) -> (Vec<u8>, String, Want) {
        if self.staged.is_empty() || r.chance(1, 2) {
            return (frame(4, &self.fin.head), "state of the last finalised block".into(), Want::State(self.fin.st.to_map()));
        }
        let (_, c) = r.pick(&self.staged);
        (frame(4, &c.head), "state of a staged block".into(), Want::State(c.st.to_map()))
    }
    /// The block was submitted: what the session looks like afterwards.
    fn submitted(&mut self, on_staged: Option<usize>, bytes: Vec<u8>, res: &Result<Chain, Rej>) -> Want {
        if let Some(i) = on_staged {
            // naming a staged block as the parent settles the fork
            self.fin = self.staged[i].1.clone();
            for (j, (b, c)) in std::mem::take(&mut self.staged).into_iter().enumerate() {
                if j != i {
                    self.dead.push(b);
                    self.lost.push(c);
                } else {
                    self.dead.push(b);
                }
            }
        }
        match res {
            Ok(c) => {
                let root = c.root;
                rec::state(u64::from_le_bytes(root[..8].try_into().unwrap()));
                if self.forking {
                    if self.staged.iter().all(|s| s.0 != bytes) {
                        self.staged.push((bytes, c.clone()));
                        if self.staged.len() > 1 {
                            self.forked = true;
                        }
                    }
                } else {
                    let old = std::mem::replace(&mut self.fin, c.clone());
                    self.lost.push(old);
                    self.dead.push(bytes);
                }
                Want::Root(root)
            }
            Err(e) => {
                simrt::count(e);
                self.refused.push(bytes);
                Want::Error
            }
        }
    }
    fn request(&mut self, r: &mut Rng) -> Option<(Vec<u8>, String, Want)> {
        let broken = r.below(100) < self.mix.broken.max(10);
        let kind = r.below(100);
        if kind < 22 {
            return Some(self.state_query(r));
        }
        // which block to build on
        if kind < 30 && !self.lost.is_empty() {
            let c = r.pick(&self.lost).clone();
            let (bytes, what, _) = self.child(r, &c, false)?;
            if c.head == self.fin.head {
                return None;
            }
            self.refused.push(bytes.clone());
            return Some((frame(3, &bytes), format!("{what}, on a discarded branch"), Want::Error));
        }
        if kind < 40 {
            // something seen before
            let pick = r.below(3);
            if pick == 0 && !self.staged.is_empty() {
                let (b, c) = r.pick(&self.staged).clone();
                return Some((frame(3, &b), "a staged block again".into(), Want::Root(c.root)));
            }
            if pick == 1 && !self.dead.is_empty() {
                let b = r.pick(&self.dead).clone();
                return Some((frame(3, &b), "a finalised or discarded block again".into(), Want::Error));
            }
            return None;
        }
        let on_staged = (self.forking && !self.staged.is_empty() && r.chance(1, if self.staged.len() > 2 { 2 } else { 3 })).then(|| r.usize(self.staged.len()));
        let base = match on_staged {
            Some(i) => self.staged[i].1.clone(),
            None => self.fin.clone(),
        };
        let (bytes, what, res) = self.child(r, &base, broken)?;
        if broken && !Block::decode(&mut &bytes[..]).is_ok() {
            return None; // not a block at all
        }
        if on_staged.is_some() && broken && what.contains("parent") {
            return None; // names another parent
        }
        let verdict = match &res {
            Ok(_) => "valid",
            Err(e) => e,
        };
        let text = format!("{what}{} ({verdict})", if on_staged.is_some() { ", on a staged block" } else { "" });
        let want = self.submitted(on_staged, bytes.clone(), &res);
        if matches!(want, Want::Root(_)) {
            simrt::count("fuzz.valid_blocks");
        }
        Some((frame(3, &bytes), text, want))
    }
}
fn clock_slot() -> u32 {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    ((now - ERA) / 6) as u32
}

/// Where in a message lengths are.
fn length_places(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let head = |b: &[u8]| BlockHeader::decode(&mut &b[..]).ok().and_then(|h| h.encode().ok()).map(|e| e.len());
    match b[0] {
        0 => v.push(1 + 1 + 4 + 6),
        1 => {
            if let Some(h) = head(&b[1..]) {
                let mut rest = &b[1 + h..];
                v.push(1 + h);
                if let Some(n) = read_n(&mut rest) {
                    for _ in 0..n {
                        if rest.len() < 32 {
                            break;
                        }
                        rest = &rest[31..];
                        v.push(b.len() - rest.len());
                        match read_n(&mut rest) {
                            Some(l) if l as usize <= rest.len() => rest = &rest[l as usize..],
                            _ => break,
                        }
                    }
                    if v.len() as u64 == n + 1 && !rest.is_empty() {
                        v.push(b.len() - rest.len());
                    }
                }
            }
        }
        3 => {
            if let Some(h) = head(&b[1..]) {
                let mut i = 1 + h;
                for k in 0..6 {
                    v.push(i.min(b.len() - 1));
                    match b.get(i) {
                        Some(0) => i += 1,
                        Some(n) if k == 0 => i += 1 + *n as usize * 785,
                        Some(_) if k == 1 => {
                            v.push((i + 5).min(b.len() - 1));
                            break;
                        }
                        _ => break,
                    }
                }
            }
        }
        _ => {}
    }
    v
}
/// A frame whose contents were damaged, and what was done to it.
fn damage(r: &mut Rng, f: &[u8]) -> (Vec<u8>, &'static str) {
    let mut b = f[4..].to_vec();
    let lengths = length_places(&b);
    let what = match r.below(9) {
        0 => {
            for _ in 0..r.range(1, 4) {
                let i = r.usize(b.len());
                b[i] ^= 1 << r.below(8);
            }
            "bits flipped"
        }
        1 => {
            let n = r.usize(b.len());
            b.truncate(1 + n);
            "cut short"
        }
        2 => {
            let i = r.usize(b.len());
            let n = r.range(1, 9) as usize;
            for x in b.iter_mut().skip(i).take(n) {
                *x = 0xff;
            }
            "overwritten with ones"
        }
        3 | 7 | 8 => {
            // a length that promises the moon, where a length is
            let i = if lengths.is_empty() { b.len() / 2 } else { *r.pick(&lengths) };
            let big: u64 = *r.pick(&[1 << 28, 1 << 33, 1 << 40, 1 << 60, u64::MAX]);
            let mut w = W::default();
            w.n(big);
            let i = i.min(b.len() - 1);
            b.truncate(i);
            b.extend(w.0);
            let extra = r.usize(200);
            b.extend(r.bytes(extra));
            "a huge length"
        }
        4 => {
            let i = r.usize(b.len());
            let n = r.range(1, 60) as usize;
            let x = r.bytes(n);
            b.splice(i..i, x);
            "bytes inserted"
        }
        5 => {
            let (i, j) = (r.usize(b.len()), r.usize(b.len()));
            let (i, j) = (i.min(j), i.max(j));
            b.drain(i.max(1)..j.max(1));
            if b.is_empty() {
                b.push(1);
            }
            "bytes removed"
        }
        _ => {
            let n = r.range(1, 40) as usize;
            b.extend(r.bytes(n));
            "bytes appended"
        }
    };
    ([&le32(b.len())[..], &b].concat(), what)
}

pub fn run(spec: &Spec) {
    let mut r = Rng::stream(spec.seed, 11);
    let dir = format!("/tmp/fvsim/{:08}", std::process::id());
    std::fs::create_dir_all(&dir).expect("harness: scratch directory");
    std::env::set_var("TMPDIR", &dir);
    let sock = format!("{dir}/t.sock");
    let workers = r.range(1, 3) as usize;
    let rt = runtime(workers, *r.pick(&[1usize, 2, 8]));
    let _ = rayon::ThreadPoolBuilder::new().num_threads(r.range(1, 2) as usize).build_global();
    {
        let n = net_cfg();
        n.chunk = *r.pick(&[0, 20, 120]);
        n.chunk_delay_ns = *r.pick(&[0, 10_000, 200_000]);
        n.stream_cap = *r.pick(&[208 * 1024, 208 * 1024, 4096, 700]);
    }
    let small = net_cfg().stream_cap < 100_000;
    let pieces = *r.pick(&[0, 30, 200]);
    let (v, f, j, a, n) = TARGET;
    let info = PeerInfo::new(v, f, Version::new(j[0], j[1], j[2]), Version::new(a[0], a[1], a[2]), n.to_string());
    let s2 = sock.clone();
    std::thread::Builder::new()
        .name("target".into())
        .spawn(move || {
            rt.block_on(async move {
                let mut t = FuzzTargetRunner::new(info).expect("target");
                let end = t.run_as_fuzz_target(s2).await;
                rec::violate(&["C22"], "target-ended", format!("the target stopped: {end:?}"));
            });
        })
        .unwrap();
    while !unix_listening(&sock) {
        simrt::sleep(MS);
    }
    let n_sess = if spec.bias == "C21" { r.range(1, 2) } else { r.range(1, 4) } as u32;
    rec::ops(n_sess * SLOTS);
    rec::knobs(format!("fuzz workers={workers} sessions={n_sess} chunk={}/{} cap={} pieces={pieces}", net_cfg().chunk, net_cfg().chunk_delay_ns, net_cfg().stream_cap));
    let mut broken_before = 0;
    let mut waiting: Option<Conn> = None;
    let mut blocks = 0;
    for k in 0..n_sess {
        let last = k + 1 == n_sess;
        if !last && spec.drop_ops.contains(&(k * SLOTS)) {
            continue;
        }
        let mut r = Rng::stream(spec.seed, 5000 + k as u64);
        let (mut s, init) = new_session(&mut r, spec, k as u64);
        let mut conn = waiting.take().unwrap_or_else(|| Conn::open(&sock, pieces));
        let start = conn.sent;
        let _ = start;
        simrt::alloc::reset_peak();
        let breaks = !last && (spec.bias == "C22" || r.chance(1, 2));
        // where the session breaks: before the handshake, before or at initialisation, or after some blocks
        let at = if breaks { *r.pick(&[0u32, 1, 1, 2, 3, 4, 6]) } else { u32::MAX };
        rec::hist(format!("session {k}: forking={} ancestors={}{}", s.forking, s.ancestors, if breaks { format!(", goes wrong at step {at}") } else { String::new() }));
        let hello = frame(0, &peer_info(1, s.ancestors as u32 | (s.forking as u32) << 1, [0, 7, 2], [0, 1, 0], b"client"));
        let props = |s: &Sess, broken: u32| {
            let mut p = vec!["C20"];
            if s.forking {
                p.push("C21");
            }
            if broken > 0 {
                p.push("C22");
            }
            p
        };
        let fail = |s: &Sess, broken: u32, what: &str, e: (String, String)| {
            let panics = rec::take_panics();
            let msg = format!("session {k}: {what}: {}{}", e.1, panics.first().map(|p| format!(" (a panic: {p})")).unwrap_or_default());
            rec::violate(&props(s, broken), &e.0, msg);
        };
        let n_ops = r.range(3, SLOTS as u64 - 6) as u32;
        let mut queue: Vec<(String, Want)> = vec![];
        let mut batch: Vec<u8> = vec![];
        let mut done = false;
        for i in 0..n_ops + 2 {
            if i == at {
                break;
            }
            let mut r = Rng::stream(spec.seed, 10_000 + (k * 100 + i) as u64);
            let (bytes, what, want) = match i {
                0 => (hello.clone(), "handshake".to_string(), Want::Peer),
                1 => (init.clone(), "initialisation".to_string(), Want::Root(s.fin.root)),
                _ => {
                    if spec.drop_ops.contains(&(k * SLOTS + i)) {
                        continue;
                    }
                    match s.request(&mut r) {
                        Some(x) => x,
                        None => continue,
                    }
                }
            };
            rec::hist(format!("  {what}"));
            simrt::count("fuzz.requests");
            if matches!(want, Want::Root(_)) {
                blocks += 1;
            }
            batch.extend(bytes);
            queue.push((what, want));
            if !small && queue.len() < 4 && r.chance(1, 4) && i + 1 != at {
                simrt::count("fuzz.pipelined");
                continue;
            }
            conn.send(&mut r, &batch);
            batch.clear();
            for (what, want) in std::mem::take(&mut queue) {
                let got = conn.recv(PATIENCE);
                if let Err(e) = agrees(&want, &got) {
                    fail(&s, broken_before, &what, e);
                    return;
                }
            }
            let panics = rec::take_panics();
            if let Some(p) = panics.first() {
                rec::violate(&props(&s, broken_before), "panic", format!("session {k}: a panic: {p}"));
                return;
            }
            if i == n_ops + 1 {
                done = true;
            }
        }
        let _ = done;
        if !batch.is_empty() {
            conn.send(&mut r, &batch);
            for (what, want) in std::mem::take(&mut queue) {
                let got = conn.recv(PATIENCE);
                if let Err(e) = agrees(&want, &got) {
                    fail(&s, broken_before, &what, e);
                    return;
                }
            }
        }
        if !last && r.chance(1, 4) {
            // the next client is already there
            simrt::count("fuzz.early_client");
            waiting = Some(Conn::open(&sock, pieces));
        }
        if !breaks {
            // nothing more may come
            stream_shutdown_wr(conn.fd);
            let got = conn.recv(PATIENCE);
            if !matches!(got, Got::End) {
                rec::violate(&props(&s, broken_before), "extra-reply", format!("session {k}: after the last reply came {got:?}").chars().take(200).collect::<String>());
                return;
            }
            conn.close(&mut r);
            continue;
        }
        broken_before += 1;
        simrt::count("fault.broken_session");
        simrt::alloc::reset_peak();
        let sent0 = conn.sent;
        let (what, want) = misbehave(&mut r, spec, &mut conn, &mut s, at, &hello, &init);
        rec::hist(format!("  {what}"));
        if let Some(want) = want {
            let got = conn.recv(PATIENCE);
            if let Err(e) = agrees(&want, &got) {
                rec::violate(&["C22", "C20"], &e.0, format!("session {k}: {what}: {}", e.1));
                return;
            }
        }
        let sent = conn.sent - sent0;
        conn.close(&mut r);
        calm_disk();
        // when the next one is served, the broken one is over
        if waiting.is_none() {
            waiting = Some(Conn::open(&sock, pieces));
        }
        simrt::sleep(500 * MS);
        let (_, _, biggest) = simrt::alloc::stats();
        if Some(biggest) == what.strip_prefix("a request that claims ").and_then(|x| x.split(' ').next()?.parse().ok()) {
            rec::violate(&["C22"], "announced-length-allocated", format!("session {k}: {what}: a message header makes the target allocate the length it announces"));
        } else if biggest > (48 << 20) + 400 * sent {
            rec::violate(&["C22"], "oversized-allocation", format!("session {k}: {what}: {sent} bytes made the target ask for {biggest} bytes at once"));
            return;
        }
        let _ = rec::take_panics();
    }
    if blocks >= 2 {
        rec::nontrivial();
    }
}
fn calm_disk() {
    for p in simctl::paths() {
        let mut f = simctl::faults(&p);
        (f.read_err, f.write_err) = (0, 0);
        simctl::set_faults(&p, f);
    }
}
/// The session goes wrong. What still has to come, if anything.
fn misbehave(r: &mut Rng, spec: &Spec, conn: &mut Conn, s: &mut Sess, at: u32, hello: &[u8], init: &[u8]) -> (String, Option<Want>) {
    let _ = spec;
    let good = match at {
        0 => hello.to_vec(),
        1 => init.to_vec(),
        _ => (0..6).find_map(|_| s.request(r)).map(|x| x.0).unwrap_or_else(|| frame(4, &s.fin.head)),
    };
    match r.below(12) {
        0 | 1 => {
            let n = if r.chance(1, 4) { r.usize(5) } else { r.usize(good.len()) };
            conn.send(r, &good[..n]);
            (format!("gone after {n} of {} bytes of a request", good.len()), None)
        }
        2 => {
            let n = r.usize(300);
            let mut b = r.bytes(n);
            if let Some(x) = b.first_mut() {
                if r.chance(3, 4) {
                    *x = *r.pick(&[0, 1, 3, 4, 5, 255]);
                }
            }
            conn.send(r, &[&le32(n)[..], &b].concat());
            (format!("a request of {n} random bytes"), Some(Want::Any))
        }
        3 => {
            let l: u32 = *r.pick(&[1 << 30, 1 << 29, 1 << 28, 100_000_000]);
            let n = r.usize(100);
            let junk = r.bytes(n);
            conn.send(r, &[&l.to_le_bytes()[..], &junk].concat());
            // the request is incomplete: nothing has to come
            if r.chance(1, 2) {
                simrt::sleep(r.below(2000 * MS));
            }
            (format!("a request that claims {l} bytes"), None)
        }
        4 => {
            let k = *r.pick(&[6u8, 7, 100, 254]);
            conn.send(r, &frame(k, &[1, 2, 3]));
            (format!("a request of unknown kind {k}"), Some(Want::End))
        }
        5 => {
            let (n, f) = match r.below(3) {
                0 => ("a root", frame(2, &[7; 32])),
                1 => ("a state", frame(5, &[0])),
                _ => ("an error", frame(255, &[2, b'n', b'o'])),
            };
            conn.send(r, &f);
            (format!("{n} sent to the target"), Some(Want::End))
        }
        6 => match at {
            0 => {
                let f = if r.chance(1, 2) { init.to_vec() } else { frame(4, &s.fin.head) };
                conn.send(r, &f);
                ("no handshake first".into(), Some(Want::End))
            }
            1 => {
                conn.send(r, hello);
                ("a second handshake".into(), Some(Want::End))
            }
            _ => {
                let (f, n) = if r.chance(1, 2) { (init, "a second initialisation") } else { (hello, "a second handshake") };
                conn.send(r, f);
                (n.into(), Some(Want::End))
            }
        },
        7 if at == 1 => {
            // a block or query for a chain nobody described
            let f = if r.chance(1, 2) {
                s.child(r, &s.fin.clone(), false).map(|x| frame(3, &x.0)).unwrap_or_else(|| frame(4, &s.fin.head))
            } else {
                frame(4, &s.fin.head)
            };
            conn.send(r, &f);
            ("a request before initialisation".into(), Some(Want::Any))
        }
        7 | 8 if at >= 1 => {
            for p in simctl::paths() {
                let mut f = simctl::faults(&p);
                (f.read_err, f.write_err) = *r.pick(&[(0, 65536), (65536, 0), (3000, 3000), (0, 20_000)]);
                simctl::set_faults(&p, f);
            }
            conn.send(r, &good);
            ("the disk fails".into(), Some(Want::Any))
        }
        9 => {
            conn.send(r, &good);
            if r.chance(1, 2) {
                simrt::sleep(r.below(60 * MS));
            }
            ("gone without waiting for the reply".into(), None)
        }
        10 if at == 1 => {
            // a state whose entries make no sense
            let mut m = s.fin.st.to_map();
            let keys: Vec<_> = m.keys().copied().collect();
            for _ in 0..r.range(1, 3) {
                let v = m.get_mut(r.pick(&keys)).unwrap();
                let i = r.usize(v.len() + 1);
                match r.below(4) {
                    0 => v.truncate(i),
                    1 => {
                        let n = r.range(1, 9) as usize;
                        v.splice(i..i, vec![0xff; n]);
                    }
                    2 => {
                        for x in v.iter_mut().skip(i).take(9) {
                            *x = 0xff;
                        }
                    }
                    _ => {
                        for x in v.iter_mut().take(9) {
                            *x = 0xff;
                        }
                    }
                }
            }
            let mut w = W::default();
            w.b(&s.fin.genesis.encode().expect("header")).b(&state_body(&m, None)).n(0);
            s.fin.root = trie_root(&m);
            conn.send(r, &frame(1, &w.0));
            let got = conn.recv(PATIENCE);
            if let Got::Msg(..) = got {
                let c = s.fin.clone();
                if let Some((b, ..)) = s.child(r, &c, false) {
                    conn.send(r, &frame(3, &b));
                    return ("a block on a senseless state".into(), Some(Want::Any));
                }
            }
            ("a senseless state".into(), matches!(got, Got::Silence).then_some(Want::Any))
        }
        _ => {
            let (f, n) = damage(r, &good);
            conn.send(r, &f);
            (format!("a damaged request ({n})"), Some(Want::Any))
        }
    }
}
