//! Scripted UDP trackers and the client's announces to them.
use super::torrents::entries;
use super::engine::*;
use crate::tracker::{get_peers_by_tracker, peer_endpoint::PeerEndpoint};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::runtime::Runtime;

pub const MAGIC: [u8; 8] = [0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum K {
    Connect(u64),
    /// (interval, leechers, seeders), peers, incomplete trailing bytes
    Announce([u32; 3], Vec<[u8; 6]>, Vec<u8>),
    /// as many made-up peers
    Many(u16, u64),
    Error(Vec<u8>),
    /// with this action instead
    Action(Box<K>, u32),
    /// with the transaction id xored with this
    Foreign(Box<K>, u32),
    /// the first n bytes only
    Cut(Box<K>, u16),
    /// followed by more bytes
    Long(Box<K>, u16),
    /// from another address than the tracker's
    Stranger(Box<K>),
    Raw(Vec<u8>),
    /// the same packet every so many ms until the client is done
    Flood(Box<K>, u8),
}

impl K {
    pub fn many(n: u16, seed: u64) -> Vec<[u8; 6]> {
        filler(seed, n as usize * 6).chunks(6).map(|c| c.try_into().unwrap()).collect()
    }
    pub fn bytes(&self, txn: &[u8; 4]) -> Vec<u8> {
        match self {
            K::Connect(id) => [&[0, 0, 0, 0], &txn[..], &id.to_be_bytes()].concat(),
            K::Announce(n, peers, tail) => {
                let mut b = [&[0, 0, 0, 1], &txn[..]].concat();
                n.iter().for_each(|x| b.extend(x.to_be_bytes()));
                b.extend(peers.concat());
                b.extend(tail);
                b
            }
            K::Many(n, seed) => K::Announce([1800, 1, *n as u32], K::many(*n, *seed), vec![]).bytes(txn),
            K::Error(t) => [&[0, 0, 0, 3], &txn[..], t].concat(),
            K::Action(k, a) => {
                let mut b = k.bytes(txn);
                let n = b.len().min(4);
                b[..n].copy_from_slice(&a.to_be_bytes()[..n]);
                b
            }
            K::Foreign(k, x) => k.bytes(&(u32::from_be_bytes(*txn) ^ x).to_be_bytes()),
            K::Cut(k, n) => {
                let mut b = k.bytes(txn);
                b.truncate(*n as usize);
                b
            }
            K::Long(k, n) => {
                let mut b = k.bytes(txn);
                b.extend(filler(*n as u64, *n as usize));
                b
            }
            K::Stranger(k) | K::Flood(k, _) => k.bytes(txn),
            K::Raw(b) => b.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pkt {
    pub wait: u16,
    pub kind: K,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    pub hash: [u8; 20],
    /// no tracker listens at the address
    pub dead: bool,
    pub path: String,
    /// what the n-th connect request is answered with
    pub connects: Vec<Vec<Pkt>>,
    pub announces: Vec<Vec<Pkt>>,
}

#[derive(Clone, Debug)]
pub struct Sent {
    /// in answer to an announce request
    pub announce: bool,
    pub stranger: bool,
    pub txn: [u8; 4],
    pub bytes: Vec<u8>,
}

impl Sent {
    /// A well-formed connect response of the tracker's; its connection id.
    pub fn connection(&self) -> Option<[u8; 8]> {
        let b = &self.bytes;
        let good = !self.announce && !self.stranger && b.len() >= 16 && b[..4] == [0; 4] && b[4..8] == self.txn;
        good.then(|| b[8..16].try_into().unwrap())
    }
    /// An announce response of the tracker's; the bytes of its peers.
    pub fn peers(&self) -> Option<&[u8]> {
        let b = &self.bytes;
        let good = self.announce && !self.stranger && b.len() >= 20 && b[..4] == [0, 0, 0, 1] && b[4..8] == self.txn;
        good.then(|| &b[20..])
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Got(Vec<u8>),
    Sent(Sent),
}

#[derive(Clone, Debug)]
pub enum End {
    Peers(Vec<PeerEndpoint>),
    Error(String),
    Panic(String),
    Hung,
}

pub fn is_connect(b: &[u8]) -> bool {
    b.len() >= 12 && b[8..12] == [0; 4]
}
pub fn is_announce(b: &[u8]) -> bool {
    b.len() >= 12 && b[8..12] == [0, 0, 0, 1]
}

fn runtime() -> &'static Runtime {
    static RT: OnceLock<Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap())
}

/// Whoever asks the stranger gets an answer, with peers the tracker does not have.
async fn impersonate(sock: Arc<UdpSocket>) {
    let mut b = vec![0; 2048];
    loop {
        if let Ok((n, from)) = sock.recv_from(&mut b).await {
            if n >= 16 {
                let txn: [u8; 4] = b[12..16].try_into().unwrap();
                let k = if is_announce(&b[..n]) { K::Announce([900, 1, 1], vec![[66, 6, 6, 6, 6, 66]; 3], vec![]) } else { K::Connect(666) };
                let _ = sock.send_to(&k.bytes(&txn), from).await;
            }
        }
    }
}

async fn serve(sock: UdpSocket, other: UdpSocket, c: Conv, log: Arc<Mutex<Vec<Ev>>>) {
    let (mut connects, mut announces) = (0, 0);
    let mut b = vec![0; 2048];
    let (sock, other) = (Arc::new(sock), Arc::new(other));
    let mut floods = tokio::task::JoinSet::new();
    let mut impostor = tokio::task::JoinSet::new();
    loop {
        let (n, from) = match sock.recv_from(&mut b).await {
            Ok(x) => x,
            Err(_) => continue,
        };
        let got = b[..n].to_vec();
        log.lock().unwrap().push(Ev::Got(got.clone()));
        let announce = is_announce(&got);
        let plan = if announce {
            announces += 1;
            c.announces.get(announces - 1)
        } else {
            connects += 1;
            c.connects.get(connects - 1)
        };
        let txn: [u8; 4] = match got.get(12..16) {
            Some(t) => t.try_into().unwrap(),
            None => [0; 4],
        };
        for p in plan.into_iter().flatten() {
            if p.wait > 0 {
                tokio::time::sleep(Duration::from_millis(p.wait as u64)).await;
            }
            let bytes = p.kind.bytes(&txn);
            let stranger = matches!(p.kind, K::Stranger(_));
            if stranger && impostor.is_empty() {
                impostor.spawn(impersonate(other.clone()));
            }
            log.lock().unwrap().push(Ev::Sent(Sent { announce, stranger, txn, bytes: bytes.clone() }));
            if let K::Flood(_, gap) = p.kind {
                let s = sock.clone();
                floods.spawn(async move {
                    loop {
                        let _ = s.send_to(&bytes, from).await;
                        tokio::time::sleep(Duration::from_millis(gap as u64 + 5)).await;
                    }
                });
            } else {
                let s = if stranger { &other } else { &sock };
                let _ = s.send_to(&bytes, from).await;
            }
        }
    }
}

/// How long an announce may take (the client itself gives up after some ten seconds).
pub const BOUND: Duration = Duration::from_secs(50);

/// Runs all announces at the same time, each to a tracker of its own.
pub fn run(convs: &[Conv]) -> Vec<(End, Vec<Ev>)> {
    run_at(convs, &mut vec![])
}

async fn bind(a: std::net::SocketAddr) -> UdpSocket {
    for _ in 0..200 {
        if let Ok(s) = UdpSocket::bind(a).await {
            return s;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    panic!("no loopback socket at {a}")
}

/// The same, the i-th tracker being the i-th of `places`, which is filled up.
pub fn run_at(convs: &[Conv], places: &mut Vec<std::net::SocketAddr>) -> Vec<(End, Vec<Ev>)> {
    let mut urls = vec![];
    let mut logs = vec![];
    let mut servers = vec![];
    for c in convs {
        // an address of its own, so that nobody else gets the port of a tracker that is gone
        let ip = match places.get(urls.len()) {
            Some(p) => p.ip(),
            None => super::peers::own_ip().into(),
        };
        let another = if urls.len() % 2 == 0 { ip } else { super::peers::own_ip().into() };
        let (sock, other) = runtime().block_on(async {
            let place = places.get(urls.len()).copied().unwrap_or((ip, 0).into());
            (bind(place).await, bind((another, 0).into()).await)
        });
        if places.len() == urls.len() {
            places.push(sock.local_addr().unwrap());
        }
        let port = sock.local_addr().unwrap().port();
        let log = Arc::new(Mutex::new(vec![]));
        urls.push((format!("udp://{ip}:{port}{}", c.path), c.hash));
        if !c.dead {
            servers.push(runtime().spawn(serve(sock, other, c.clone(), log.clone())));
        }
        logs.push(log);
    }
    let ends: Arc<Mutex<Vec<Option<End>>>> = Arc::new(Mutex::new(vec![None; convs.len()]));
    let (tx, rx) = std::sync::mpsc::channel();
    let out = ends.clone();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let set = tokio::task::LocalSet::new();
            set.block_on(&rt, async {
                let tasks: Vec<_> = urls
                    .into_iter()
                    .enumerate()
                    .map(|(i, (u, hash))| {
                        let out = out.clone();
                        let t = tokio::task::spawn_local(async move {
                            let url = url::Url::parse(&u).unwrap();
                            let r = get_peers_by_tracker(&url, &hash).await;
                            out.lock().unwrap()[i] = Some(match r {
                                Ok(p) => End::Peers(p),
                                Err(e) => End::Error(e.to_string()),
                            });
                        });
                        (i, t)
                    })
                    .collect();
                for (i, t) in tasks {
                    if let Err(e) = t.await {
                        let m = match e.try_into_panic() {
                            Ok(p) => p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
                            Err(e) => e.to_string(),
                        };
                        out.lock().unwrap()[i] = Some(End::Panic(m));
                    }
                }
            });
            let _ = tx.send(());
        })
        .unwrap();
    let _ = rx.recv_timeout(BOUND);
    servers.iter().for_each(|s| s.abort());
    let ends = ends.lock().unwrap().clone();
    ends.into_iter().zip(logs).map(|(e, l)| (e.unwrap_or(End::Hung), l.lock().unwrap().clone())).collect()
}

pub fn shown(p: &[PeerEndpoint]) -> Vec<String> {
    p.iter().map(|p| p.endpoint()).collect()
}

pub fn endpoints(b: &[u8]) -> Vec<String> {
    b.chunks_exact(6).map(|e| format!("{}.{}.{}.{}:{}", e[0], e[1], e[2], e[3], u16::from_be_bytes([e[4], e[5]]))).collect()
}

pub fn path() -> BoxedStrategy<String> {
    prop::sample::select(vec!["", "/", "/announce", "/a/b?x=y"]).prop_map(|s| s.to_string()).boxed()
}

pub fn hash() -> BoxedStrategy<[u8; 20]> {
    prop_oneof![6 => any::<[u8; 20]>(), 1 => any::<u8>().prop_map(|b| [b; 20])].boxed()
}

pub fn answer(max: u16) -> BoxedStrategy<K> {
    prop_oneof![
        2 => (any::<[u32; 3]>(), entries(1..3), vec(any::<u8>(), 0..3)).prop_map(|(n, p, t)| K::Announce(n, p, t)),
        4 => (any::<[u32; 3]>(), entries(1..30), prop_oneof![3 => Just(vec![]), 1 => vec(any::<u8>(), 0..6)]).prop_map(|(n, p, t)| K::Announce(n, p, t)),
        1 => (1u16..250, any::<u64>()).prop_map(|(n, s)| K::Many(n, s)),
        1 => (1u16..max, any::<u64>()).prop_map(|(n, s)| K::Many(n, s)),
    ]
    .boxed()
}

/// The usual ways in which a packet is not the answer.
pub fn spoilt(k: BoxedStrategy<K>, least: u16) -> BoxedStrategy<K> {
    prop_oneof![
        3 => (k.clone(), 1u32..=u32::MAX).prop_map(|(k, x)| K::Foreign(Box::new(k), x)),
        1 => (k.clone(), 0u32..32).prop_map(|(k, b)| K::Foreign(Box::new(k), 1 << b)),
        3 => (k.clone(), 0..least).prop_map(|(k, n)| K::Cut(Box::new(k), n)),
        1 => (k.clone(), 0..least, any::<u32>()).prop_map(|(k, n, x)| K::Cut(Box::new(K::Foreign(Box::new(k), x)), n)),
        2 => k.clone().prop_map(|k| K::Stranger(Box::new(k))),
        2 => (k.clone(), prop_oneof![2 => 2u32..6, 1 => any::<u32>(), 1 => (2u32..32).prop_map(|b| 1 << b)]).prop_map(|(k, a)| K::Action(Box::new(k), if a < 2 { a + 2 } else { a })),
        3 => vec(any::<u8>(), 0..40).prop_map(K::Error),
        1 => "[ -~]{0,60}".prop_map(|s| K::Error(s.into_bytes())),
        2 => vec(any::<u8>(), 0..120).prop_map(K::Raw),
        1 => (0u16..2000, any::<u64>()).prop_map(|(n, s)| K::Raw(filler(s, n as usize))),
        1 => Just(K::Raw(vec![])),
    ]
    .boxed()
}
