//! Scripted peers on loopback TCP, and the generators of legal peer behaviour.
use super::engine::*;
use super::refbenc::*;
use super::torrents::*;
use super::wire::{self, Heard};
use crate::torrent::info::Info;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::time::{Duration, Instant};

/// The peer's end of the connection.
pub struct Link {
    s: TcpStream,
    buf: Vec<u8>,
    over: bool,
    deadline: Instant,
    /// everything the client sent, in order
    pub heard: Vec<Heard>,
    /// how many bytes the peer sent
    pub sent: u64,
}

impl Link {
    pub fn new(s: TcpStream) -> Link {
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_secs(90)));
        let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
        Link { s, buf: vec![], over: false, deadline: Instant::now() + Duration::from_secs(90), heard: vec![], sent: 0 }
    }
    /// The client's next message, or None when it has closed the connection.
    pub fn recv(&mut self) -> Option<Heard> {
        loop {
            if let Some(h) = wire::take(&mut self.buf) {
                self.heard.push(h.clone());
                return Some(h);
            }
            if self.over || Instant::now() > self.deadline {
                return None;
            }
            let mut b = [0u8; 4096];
            match self.s.read(&mut b) {
                Ok(0) | Err(_) => self.over = true,
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
            }
        }
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        let ok = self.s.write_all(b).is_ok();
        self.sent += b.len() as u64;
        ok
    }
    pub fn send_cut(&mut self, b: &[u8], cuts: &Cuts) -> bool {
        let mut at = 0;
        for (i, c) in cuts.sizes.iter().enumerate() {
            let n = *c as usize;
            if n == 0 || at + n >= b.len() {
                break;
            }
            if i > 0 {
                pause(cuts.pause);
            }
            if !self.send(&b[at..at + n]) {
                return false;
            }
            at += n;
        }
        if at > 0 {
            pause(cuts.pause);
        }
        self.send(&b[at..])
    }
    /// Bytes received that are not a whole message.
    pub fn rest(&self) -> &[u8] {
        &self.buf
    }
    pub fn drain(&mut self) {
        while self.recv().is_some() {}
    }
    pub fn close(&mut self) {
        let _ = self.s.shutdown(std::net::Shutdown::Both);
    }
    pub fn close_write(&mut self) {
        let _ = self.s.shutdown(std::net::Shutdown::Write);
    }
    pub fn requests(&self) -> Vec<(u32, u32, u32)> {
        self.heard.iter().filter_map(|h| if let Heard::Request(a, b, c) = h { Some((*a, *b, *c)) } else { None }).collect()
    }
    /// metadata requests: (extension id, piece), for messages that are exactly such a request
    pub fn metadata_requests(&self) -> Vec<(u8, Option<u64>)> {
        self.heard.iter().filter_map(metadata_request).collect()
    }
}

pub fn metadata_request(h: &Heard) -> Option<(u8, Option<u64>)> {
    match h {
        Heard::Extended(id, d) if *id != 0 => {
            let s = String::from_utf8_lossy(d);
            let n = s.strip_prefix("d8:msg_typei0e5:piecei").and_then(|x| x.strip_suffix("ee")).and_then(|x| x.parse().ok());
            Some((*id, n))
        }
        _ => None,
    }
}

fn pause(ms: u8) {
    if ms > 0 {
        std::thread::sleep(Duration::from_millis(ms as u64));
    }
}

/// A loopback address of its own for every peer, so that ports never run out.
pub fn own_ip() -> std::net::Ipv4Addr {
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst) % 250_000 + (std::process::id() % 60) * 250_000;
    std::net::Ipv4Addr::from(0x7f00_0000u32 + 0x10000 + n)
}

pub fn listen() -> TcpListener {
    TcpListener::bind((own_ip(), 0)).or_else(|_| TcpListener::bind("127.0.0.1:0")).expect("no loopback listener")
}

/// Runs `client` against a peer that does `script` with the client's connection and then listens until it is closed.
/// The link is None when the client never connected.
pub fn with_peer<R, L: Send>(
    script: impl FnOnce(&mut Link) -> L + Send,
    client: impl FnOnce(&str) -> R,
) -> (R, Option<(L, Link)>) {
    let l = listen();
    let addr = l.local_addr().unwrap();
    let done = AtomicBool::new(false);
    let connected = AtomicBool::new(false);
    std::thread::scope(|s| {
        let peer = std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn_scoped(s, || {
                let (stream, _) = l.accept().ok()?;
                connected.store(true, Ordering::SeqCst);
                if done.load(Ordering::SeqCst) {
                    return None;
                }
                let mut link = Link::new(stream);
                let r = script(&mut link);
                link.drain();
                Some((r, link))
            })
            .expect("no thread for the peer");
        struct Wake<'a>(std::net::SocketAddr, &'a AtomicBool, &'a AtomicBool);
        impl Drop for Wake<'_> {
            fn drop(&mut self) {
                // the client is done, also when it panicked; if it never connected, somebody has to
                self.1.store(true, Ordering::SeqCst);
                if !self.2.load(Ordering::SeqCst) {
                    let _ = TcpStream::connect_timeout(&self.0, Duration::from_secs(5));
                }
            }
        }
        let r = {
            let _w = Wake(addr, &done, &connected);
            client(&addr.to_string())
        };
        (r, peer.join().unwrap())
    })
}

// ---- legal behaviour ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Cuts {
    pub sizes: Vec<u16>,
    pub pause: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Noise {
    KeepAlive,
    Have(u32),
    Interested,
    NotInterested,
    Cancel(u32, u32),
    Port(u16),
    Unknown(u8, u8),
    /// an extension message of another extension
    OtherExtension(u8, u8),
}

impl Noise {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Noise::KeepAlive => vec![0; 4],
            Noise::Have(n) => wire::msg(4, &n.to_be_bytes()),
            Noise::Interested => wire::msg(2, &[]),
            Noise::NotInterested => wire::msg(3, &[]),
            Noise::Cancel(a, b) => wire::msg(8, &[a.to_be_bytes(), b.to_be_bytes(), 16384u32.to_be_bytes()].concat()),
            Noise::Port(p) => wire::msg(9, &p.to_be_bytes()),
            Noise::Unknown(id, n) => wire::msg(*id, &filler(*id as u64, *n as usize)),
            Noise::OtherExtension(id, n) => {
                let mut b = vec![*id];
                b.extend(BV::dict(vec![("added", BV::S(filler(*n as u64, *n as usize)))]).enc());
                wire::msg(20, &b)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum When {
    WithHandshake,
    AfterHandshake,
    AfterInterested,
    AfterExtension,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    Bitfield,
    Extension,
    /// an extension handshake with only the id of ut_metadata, followed by others
    ExtensionId,
    /// a further extension handshake: what changed of the extensions, with the metadata size or without
    Update(BTreeMap<String, u8>, bool),
    Unchoke,
    Noise(Noise),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Manner {
    pub reserved: [u8; 8],
    pub id: [u8; 20],
    pub when: When,
    pub items: Vec<Item>,
    /// every item in a write of its own
    pub apart: bool,
    pub ut_metadata: u8,
    pub extensions: BTreeMap<String, u8>,
    pub more: BTreeMap<String, BV>,
    pub cuts: Cuts,
    /// sent before the k-th answer
    pub noise: Vec<Vec<Noise>>,
}

impl Manner {
    /// Plays the opening. `size` is the metadata size to announce. False when the connection ended.
    pub fn open(&self, link: &mut Link, info_hash: &[u8], pieces: u64, size: u64) -> bool {
        self.open_with(link, &wire::handshake(&self.reserved, info_hash, &self.id), pieces, size)
    }
    pub fn open_with(&self, link: &mut Link, handshake: &[u8], pieces: u64, size: u64) -> bool {
        match link.recv() {
            Some(Heard::Handshake(_)) => {}
            _ => return false,
        }
        self.open_after(link, handshake, pieces, size)
    }
    pub fn open_after(&self, link: &mut Link, handshake: &[u8], pieces: u64, size: u64) -> bool {
        let other = self.extensions.iter().map(|(k, v)| (k.clone(), BV::I(*v as u64))).collect();
        let parts: Vec<Vec<u8>> = self
            .items
            .iter()
            .map(|i| match i {
                Item::Bitfield => {
                    let mut b = vec![0xffu8; ((pieces + 7) / 8) as usize];
                    if pieces % 8 != 0 {
                        if let Some(x) = b.last_mut() {
                            *x = !(0xffu8 >> (pieces % 8));
                        }
                    }
                    wire::msg(5, &b)
                }
                Item::Extension => wire::msg(20, &wire::ext_handshake(Some(self.ut_metadata as u64), Some(size), &other, &self.more)),
                Item::ExtensionId => wire::msg(20, &wire::ext_handshake(Some(self.ut_metadata as u64), None, &other, &self.more)),
                Item::Update(m, sized) => {
                    let m = m.iter().map(|(k, v)| (k.clone(), BV::I(*v as u64))).collect();
                    wire::msg(20, &wire::ext_handshake(None, sized.then_some(size), &m, &BTreeMap::new()))
                }
                Item::Unchoke => wire::msg(1, &[]),
                Item::Noise(n) => n.bytes(),
            })
            .collect();
        let mut first = handshake.to_vec();
        if self.when == When::WithHandshake {
            first.extend(parts.concat());
            return link.send_cut(&first, &self.cuts);
        }
        if !link.send_cut(&first, &self.cuts) {
            return false;
        }
        loop {
            match (&self.when, link.heard.last()) {
                (When::AfterHandshake, _) => break,
                (When::AfterInterested, Some(Heard::Interested)) => break,
                (When::AfterExtension, Some(Heard::Extended(0, _))) => break,
                _ => {}
            }
            if link.recv().is_none() {
                return false;
            }
        }
        if self.apart {
            parts.iter().all(|p| link.send_cut(p, &self.cuts))
        } else {
            link.send_cut(&parts.concat(), &self.cuts)
        }
    }
    /// What is sent before the k-th answer.
    pub fn before(&self, k: usize) -> Vec<u8> {
        if self.noise.is_empty() {
            return vec![];
        }
        self.noise[k % self.noise.len()].iter().flat_map(|n| n.bytes()).collect()
    }
    pub fn plain() -> Manner {
        Manner {
            reserved: wire::EXTENSION_BIT,
            id: *b"-RB0001-abcdefghijkl",
            when: When::AfterInterested,
            items: vec![Item::Bitfield, Item::Extension, Item::Unchoke],
            apart: false,
            ut_metadata: 3,
            extensions: BTreeMap::new(),
            more: BTreeMap::new(),
            cuts: Cuts::default(),
            noise: vec![],
        }
    }
}

pub fn noise() -> BoxedStrategy<Noise> {
    prop_oneof![
        3 => Just(Noise::KeepAlive),
        3 => any::<u32>().prop_map(Noise::Have),
        1 => Just(Noise::Interested),
        1 => Just(Noise::NotInterested),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Noise::Cancel(a, b)),
        1 => any::<u16>().prop_map(Noise::Port),
        2 => (prop_oneof![13u8..18, 21u8..=255], any::<u8>()).prop_map(|(a, b)| Noise::Unknown(a, b)),
        1 => (10u8..=255, any::<u8>()).prop_map(|(a, b)| Noise::OtherExtension(a, b)),
    ]
    .boxed()
}

/// A lot of other messages in a row, as from a peer that gets pieces itself; not too many keep-alives.
pub fn chatter() -> BoxedStrategy<Vec<Noise>> {
    let all = vec(noise(), 5..40);
    let haves = vec(any::<u32>().prop_map(Noise::Have), 5..60);
    prop_oneof![1 => all, 1 => haves]
        .prop_map(|v| {
            let mut k = 0;
            v.into_iter()
                .filter(|n| {
                    k = if matches!(n, Noise::KeepAlive) { k + 1 } else { 0 };
                    k <= 3
                })
                .collect()
        })
        .boxed()
}

pub fn cuts() -> BoxedStrategy<Cuts> {
    prop_oneof![
        3 => Just(Cuts::default()),
        1 => (vec(1u16..6, 1..12), 0u8..4).prop_map(|(sizes, pause)| Cuts { sizes, pause }),
        1 => (vec(prop_oneof![1u16..80, 1u16..9000], 1..8), 0u8..4).prop_map(|(sizes, pause)| Cuts { sizes, pause }),
    ]
    .boxed()
}

/// Legal manners: the three opening messages in any order with a few others in between, at most eight in all.
pub fn manner() -> BoxedStrategy<Manner> {
    let bitfield = prop::bool::weighted(0.8);
    let when = prop::sample::select(vec![When::WithHandshake, When::AfterHandshake, When::AfterInterested, When::AfterExtension]);
    let order = prop::sample::select(vec![[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
    let more = btree_map(prop::sample::select(vec!["v", "p", "reqq", "yourip", "complete_ago", "e"]).prop_map(String::from), value(16), 0..4);
    let ext = btree_map(prop::sample::select(vec!["ut_pex", "lt_donthave", "upload_only", "ut_holepunch", "share_mode"]).prop_map(String::from), 1u8..=255, 0..4);
    let changes = btree_map(prop::sample::select(vec!["ut_pex", "lt_donthave", "upload_only", "ut_holepunch"]).prop_map(String::from), any::<u8>(), 0..3);
    let update = (changes, any::<bool>(), any::<bool>(), 1usize..8);
    let update = prop::option::weighted(0.2, update);
    let ut = prop_oneof![2 => 1u8..10, 1 => 1u8..=255, 1 => Just(20u8), 1 => Just(255u8)];
    let reserved = prop_oneof![2 => Just(wire::EXTENSION_BIT), 1 => any::<[u8; 8]>().prop_map(|mut r| { r[5] |= 0x10; r })];
    (
        (bitfield, when, order, vec((0usize..4, noise()), 0..5), any::<bool>()),
        (reserved, any::<[u8; 20]>(), ut, ext, more, update),
        cuts(),
        prop_oneof![
            5 => Just(vec![]),
            2 => vec(vec(noise(), 0..3), 1..5),
            1 => vec(prop_oneof![1 => vec(noise(), 0..3), 1 => chatter()], 1..4),
        ],
    )
        .prop_map(|((bitfield, when, order, inserts, apart), (reserved, id, ut_metadata, extensions, more, update), cuts, noise)| {
            let mut items: Vec<Item> = order
                .iter()
                .filter(|i| bitfield || **i != 0)
                .map(|i| match i {
                    0 => Item::Bitfield,
                    1 => Item::Extension,
                    _ => Item::Unchoke,
                })
                .collect();
            for (at, n) in inserts {
                let at = at.min(items.len());
                items.insert(at, Item::Noise(n));
            }
            if let Some((changes, split, sized, later)) = update {
                let first = items.iter().position(|i| matches!(i, Item::Extension)).unwrap_or(0);
                if split {
                    items[first] = Item::ExtensionId;
                }
                items.insert((first + later).min(items.len()), Item::Update(changes, sized || split));
            }
            // idle reads of the client while it waits are few: nothing slow inside the opening
            Manner { reserved, id, when, items, apart, ut_metadata, extensions, more, cuts, noise }
        })
        .boxed()
}

// ---- torrents to fetch pieces of -----------------------------------------------------------------------------------

/// A torrent as seen by the fetch of one of its pieces.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Geo {
    pub piece_length: u64,
    pub total: u64,
    pub idx: u64,
    pub seed: u64,
}

impl Geo {
    pub fn pieces(&self) -> u64 {
        self.total / self.piece_length + (self.total % self.piece_length != 0) as u64
    }
    pub fn len_of(&self, i: u64) -> u64 {
        self.piece_length.min(self.total - i * self.piece_length)
    }
    pub fn len(&self) -> u64 {
        self.len_of(self.idx)
    }
    pub fn data_of(&self, i: u64) -> Vec<u8> {
        filler(self.seed ^ i.wrapping_mul(0x9E37_79B9), self.len_of(i) as usize)
    }
    pub fn data(&self) -> Vec<u8> {
        self.data_of(self.idx)
    }
    pub fn blocks(&self) -> u64 {
        (self.len() + 16383) / 16384
    }
    /// The hashes: right for this piece (and the neighbours asked for), made up for the others.
    pub fn hashes(&self, right: &[u64]) -> Vec<u8> {
        let mut h = filler(self.seed, 20 * self.pieces() as usize);
        for i in right.iter().chain([&self.idx]) {
            let at = 20 * *i as usize;
            h[at..at + 20].copy_from_slice(&sha1(&self.data_of(*i)));
        }
        h
    }
    pub fn dict(&self, hashes: Vec<u8>) -> Vec<u8> {
        BV::dict(vec![
            ("length", BV::I(self.total)),
            ("name", BV::s("t")),
            ("piece length", BV::I(self.piece_length)),
            ("pieces", BV::S(hashes)),
        ])
        .enc()
    }
    pub fn info(&self, hashes: Vec<u8>) -> Result<(Info, Vec<u8>), Fail> {
        let d = self.dict(hashes);
        match Info::from_bytes(d.clone()) {
            Ok(i) => Ok((i, sha1(&d))),
            Err(e) => fail(format!("metadata of {self:?} refused: {e}")),
        }
    }
}

/// Geometries whose piece `idx` has at most about `max_blocks` blocks.
pub fn geo(max_blocks: u64) -> BoxedStrategy<Geo> {
    let cap = max_blocks * 16384;
    let small = (piece_length(cap), 1u64..7, any::<u64>(), any::<u64>(), any::<u64>(), 0u8..4).prop_map(|(pl, n, cut, idx, seed, k)| {
        // the last piece is full, nearly full, one byte, or anything
        let last = match k {
            0 => pl,
            1 => 1,
            2 => (pl - 1).max(1),
            _ => 1 + cut % pl,
        };
        let idx = if idx % 3 == 0 { n - 1 } else { (idx >> 8) % n };
        Geo { piece_length: pl, total: (n - 1) * pl + last, idx, seed }
    });
    // torrents beyond 4 GiB; mostly their short last piece, else a piece of few blocks
    let big = (18u32..25, 0u64..(1 << 37), 1..=cap, any::<u64>(), any::<u64>()).prop_map(move |(e, at, last, i, seed)| {
        let pl = 1u64 << e;
        let n = (at / pl).min(if i % 8 == 1 { 200_000 } else { 20_000 }) + 1;
        let last = last.min(pl);
        let idx = if pl <= cap && i % 3 == 0 { (i >> 8) % n } else { n - 1 };
        Geo { piece_length: pl, total: (n - 1) * pl + last, idx, seed }
    });
    let odd = (1u64..cap, 1u64..400, any::<u64>(), any::<u64>()).prop_map(|(pl, n, i, seed)| Geo { piece_length: pl, total: n * pl - i % pl, idx: (i >> 20) % n, seed });
    // more pieces than 16 bits count
    let many = (1u64..100, prop_oneof![65_530u64..65_545, 65_000u64..200_000], any::<u64>(), any::<u64>()).prop_map(|(pl, n, i, seed)| {
        let idx = match i % 4 {
            0 => n - 1,
            1 => (65_535 + (i >> 8) % 3).min(n - 1),
            _ => (i >> 8) % n,
        };
        Geo { piece_length: pl, total: n * pl - (i >> 40) % pl, idx, seed }
    });
    prop_oneof![60 => small, 12 => big, 12 => odd, 1 => many].boxed()
}
