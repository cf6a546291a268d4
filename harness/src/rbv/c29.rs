//! C29: a download completes despite failing peers.
use super::engine::*;
use super::magnets::{hex, PREFIX};
use super::peers::*;
use super::torrents::*;
use super::wire::{self, Heard};
use super::world::*;
use crate::{ensure, ensure_soft};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What goes wrong on a connection. Numbers count the answers given before it does.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    WrongHash,
    Close,
    Silent,
    NoUnchoke,
    NoExtension,
    Choke(u8),
    Hangup(u8),
    /// a wrong byte in the answer, or in the first if there are not as many
    Corrupt(u8, u16),
    Short(u8),
    /// the data of another place
    Other(u8),
    /// no answer from then on
    Stall(u8),
    Garbage(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Peer {
    /// fails in this way on every connection
    bad: Option<Fault>,
    manner: Option<Manner>,
    /// takes so many ms for every answer
    slow: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tear {
    Keep,
    Gone,
    Prefix(u16),
    Zeros(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Torrent {
    piece_length: u64,
    /// file lengths; one: a single file
    lens: Vec<u64>,
    seed: u64,
    extra: std::collections::BTreeMap<String, super::refbenc::BV>,
    peers: Vec<Peer>,
    /// addresses that refuse connections
    gone: u8,
    /// which peers each tracker returns
    lists: Vec<Vec<u8>>,
    /// failures of otherwise honest peers, in the order of their connections: while the metadata is fetched
    metadata_faults: Vec<Fault>,
    /// and afterwards
    faults: Vec<Option<Fault>>,
    /// files of an earlier attempt with other content are there
    prefilled: bool,
    /// how often the magnet is posted
    posts: u8,
    /// files that cannot be written: a directory is there, or (true) the name is too long
    #[serde(default)]
    blocked: Vec<(u8, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    trackers: Vec<Tr>,
    torrents: Vec<Torrent>,
    /// the program is killed after so many answers, the metadata files are treated so, and it is started again
    crash: Option<(u16, Tear)>,
    /// for C17: once complete, the program is killed, the metadata files are treated so, the downloaded files removed and
    /// the program started again; once complete again, the next
    #[serde(default)]
    again: Vec<Tear>,
    /// after how many answers in all each torrent is added (at once if not given), or when those before it are complete
    #[serde(default)]
    later: Vec<u16>,
    #[serde(default)]
    at: Place,
}

/// Where the peers are.
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Place {
    /// 0: any address; 1: the peers of a torrent have one IP address and different ports; 2: all have the same port
    style: u8,
    /// the same peers have all of the torrents
    shared: bool,
}

impl Torrent {
    fn blocked(&self, i: usize) -> Option<bool> {
        self.blocked.iter().find(|b| self.lens.len() > 1 && b.0 as usize % self.lens.len() == i).map(|b| b.1)
    }
    fn layout(&self, k: usize) -> Layout {
        let single = self.lens.len() == 1;
        let name = |i: usize| if self.blocked(i) == Some(true) { "f".repeat(256) } else { format!("f{i}") };
        Layout {
            name: format!("t{k}"),
            piece_length: self.piece_length,
            files: if single { None } else { Some(self.lens.iter().enumerate().map(|(i, n)| (vec![format!("t{k}"), format!("d{}", i % 3), name(i)], *n)).collect()) },
            length: if single { self.lens[0] } else { 0 },
            seed: self.seed,
            extra: self.extra.clone(),
        }
    }
}

// ---- a torrent and its peers ----------------------------------------------------------------------------------------

struct State {
    /// an honest peer has handed out all of the metadata
    served: bool,
    metadata_left: usize,
    metadata_faults: Vec<Fault>,
    faults: std::collections::VecDeque<Option<Fault>>,
    answers: u64,
    connections: u64,
    faulty: u64,
    last: Instant,
    wrong: Option<String>,
    honest_blocks: u64,
    metadata_requests: u64,
}

struct Swarm {
    hash: Vec<u8>,
    dict: Vec<u8>,
    content: Vec<u8>,
    pieces: u64,
    piece_length: u64,
    files: Vec<(String, Vec<u8>)>,
    peers: Vec<Peer>,
    state: Mutex<State>,
}

fn address(at: Place, torrent: usize, peer: usize) -> [u8; 6] {
    let torrent = if at.shared { 0 } else { torrent };
    let port = if at.style == 2 { 6881 } else { 6881 + 1000 * torrent as u16 + peer as u16 };
    let (c, d) = if at.style == 1 { (1, 1) } else { (1 + (peer / 7) as u8, peer as u8) };
    [78, torrent as u8, c, d, (port >> 8) as u8, port as u8]
}

fn gone(torrent: usize, k: usize) -> [u8; 6] {
    [79, torrent as u8, 1, k as u8, 0x1a, 0xe1]
}

fn serve(here: &[(Arc<Swarm>, usize)], s: TcpStream) {
    let mut link = Link::new(s);
    let hs = match link.recv() {
        Some(Heard::Handshake(h)) => h,
        // only looked whether somebody listens
        _ => return,
    };
    let (sw, i) = here.iter().find(|(sw, _)| hs[28..48] == sw.hash[..]).unwrap_or(&here[0]);
    let peer = &sw.peers[*i];
    let fault = {
        let mut st = sw.state.lock().unwrap();
        st.last = Instant::now();
        st.connections += 1;
        if hs[28..48] != sw.hash[..] {
            st.wrong = Some(format!("a peer of {:02x?} is asked for {:02x?}", sw.hash, &hs[28..48]));
        }
        let f = match &peer.bad {
            Some(f) => Some(f.clone()),
            None if !st.served && st.metadata_left > 0 => {
                st.metadata_left -= 1;
                st.metadata_faults.pop()
            }
            None if !st.served => None,
            None => st.faults.pop_front().flatten(),
        };
        st.faulty += f.is_some() as u64;
        f
    };
    let mut manner = peer.manner.clone().unwrap_or_else(Manner::plain);
    match &fault {
        Some(Fault::Close) => return link.close(),
        Some(Fault::Silent) => return link.drain(),
        Some(Fault::NoUnchoke) => manner.items.retain(|i| !matches!(i, Item::Unchoke)),
        Some(Fault::NoExtension) => manner.items.retain(|i| !matches!(i, Item::Extension | Item::ExtensionId | Item::Update(..))),
        _ => {}
    }
    let mut hash = sw.hash.clone();
    if fault == Some(Fault::WrongHash) {
        hash[19] ^= 1;
    }
    // the handshake was taken off already
    let reply = wire::handshake(&manner.reserved, &hash, &manner.id);
    if !manner.open_after(&mut link, &reply, sw.pieces, sw.dict.len() as u64) {
        return;
    }
    let mut k = 0usize;
    let mut corrupted = false;
    let mut metadata = std::collections::BTreeSet::new();
    while let Some(m) = link.recv() {
        sw.state.lock().unwrap().last = Instant::now();
        // (what is answered, where the data lies, how to frame it)
        let (data, at, len, frame): (&[u8], usize, usize, Box<dyn Fn(&[u8]) -> Vec<u8>>) = match &m {
            Heard::Request(p, o, l) => {
                let (p, o, l) = (*p, *o, *l);
                let at = p as u64 * sw.piece_length + o as u64;
                (&sw.content, at as usize, l.min(1 << 17) as usize, Box::new(move |d| wire::msg(7, &wire::block(p, o, d))))
            }
            Heard::Extended(i, _) if *i != 0 => {
                let p = metadata_request(&m).and_then(|x| x.1).unwrap_or(0);
                sw.state.lock().unwrap().metadata_requests += 1;
                let n = sw.dict.len() as u64;
                (&sw.dict, p as usize * 16384, 16384, Box::new(move |d| wire::msg(20, &wire::metadata_piece(1, p, Some(n), d))))
            }
            _ => continue,
        };
        let range = |at: usize| data[at.min(data.len())..(at.saturating_add(len)).min(data.len())].to_vec();
        let mut d = range(at);
        let due = |n: u8| k == n as usize;
        match &fault {
            Some(Fault::Choke(n)) if k >= *n as usize => {
                if due(*n) {
                    link.send(&wire::msg(0, &[]));
                }
                continue;
            }
            Some(Fault::Hangup(n)) if due(*n) => return link.close(),
            Some(Fault::Stall(n)) if k >= *n as usize => {
                k += 1;
                continue;
            }
            Some(Fault::Corrupt(n, i)) if due(*n) || (!corrupted && k > 0 && at + len >= data.len()) || (!corrupted && *n > 3) => {
                corrupted = true;
                let i = *i as usize % d.len().max(1);
                if let Some(b) = d.get_mut(i) {
                    *b ^= 1 + (i % 255) as u8;
                }
            }
            Some(Fault::Short(n)) if due(*n) => {
                d.pop();
            }
            Some(Fault::Other(n)) if due(*n) => d = range(if at > 0 { at - 1 } else { 1 }),
            Some(Fault::Garbage(n)) if due(*n) => {
                // a frame of its own, so that it costs no wait
                let g = filler(at as u64, 40);
                link.send(&wire::msg(7, &g));
                return link.close();
            }
            _ => {}
        }
        if peer.slow > 0 {
            std::thread::sleep(Duration::from_millis(peer.slow as u64));
        }
        link.send(&manner.before(k));
        let b = frame(&d);
        if !link.send_cut(&b, &manner.cuts) {
            return;
        }
        k += 1;
        let mut st = sw.state.lock().unwrap();
        st.last = Instant::now();
        st.answers += 1;
        if fault.is_none() {
            if let Heard::Extended(..) = m {
                metadata.insert(at);
                if metadata.len() * 16384 >= sw.dict.len() {
                    st.served = true;
                }
            } else {
                st.honest_blocks += 1;
            }
        }
    }
}

fn start(at: Place, swarms: &[Arc<Swarm>]) {
    let mut here: std::collections::BTreeMap<[u8; 6], Vec<(Arc<Swarm>, usize)>> = Default::default();
    for (k, sw) in swarms.iter().enumerate() {
        for i in 0..sw.peers.len() {
            here.entry(address(at, k, i)).or_default().push((sw.clone(), i));
        }
    }
    for (a, here) in here {
        let ip = std::net::Ipv4Addr::new(a[0], a[1], a[2], a[3]);
        let l = TcpListener::bind((ip, u16::from_be_bytes([a[4], a[5]]))).expect("no peer socket");
        std::thread::Builder::new()
            .stack_size(128 << 10)
            .spawn(move || loop {
                if let Ok((s, _)) = l.accept() {
                    let here = here.clone();
                    let _ = std::thread::Builder::new().stack_size(256 << 10).spawn(move || serve(&here, s));
                }
            })
            .unwrap();
    }
}

// ---- the case -------------------------------------------------------------------------------------------------------

fn post(hash: &[u8], n: u8) -> Outcome {
    let body = format!("magnet:?{PREFIX}{}&dn=x", hex(hash, if n == 0 { 0 } else { u64::MAX }));
    let mut s = match TcpStream::connect("127.0.0.1:8080") {
        Ok(s) => s,
        Err(e) => return soft(format!("no connection to the server: {e}")),
    };
    let _ = s.write_all(format!("POST /add/magnet HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n{body}", body.len()).as_bytes());
    match response(&mut s, &mut vec![], Duration::from_secs(20), false) {
        Ok(Some(r)) if r.status == 200 => Ok(()),
        Ok(Some(r)) => fail(format!("the magnet is answered {}", r.status)),
        Ok(None) => soft("the magnet is not answered"),
        Err(e) => soft(format!("the magnet: {e}")),
    }
}

fn lists(c: &Case, t: usize) -> Vec<Vec<[u8; 6]>> {
    let tor = &c.torrents[t];
    let n = tor.peers.len();
    let all = n + tor.gone as usize;
    let mut out: Vec<Vec<[u8; 6]>> = (0..TRACKERS.len())
        .map(|i| tor.lists.get(i).into_iter().flatten().map(|p| *p as usize % all).map(|p| if p < n { address(c.at, t, p) } else { gone(t, p - n) }).collect())
        .collect();
    let answering = answering(c);
    for p in 0..n {
        let a = address(c.at, t, p);
        if !answering.iter().any(|i| out[*i].contains(&a)) {
            out[answering[p % answering.len()]].push(a);
        }
    }
    out
}

fn answering(c: &Case) -> Vec<usize> {
    (0..TRACKERS.len()).filter(|i| matches!(c.trackers.get(*i), None | Some(Tr::Answers { .. }))).collect()
}

fn encoded(hash: &[u8]) -> String {
    hash.iter().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(b) { (*b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

/// Whether all files are there and right; an error when they hold what never was verified.
fn look(home: &Path, sw: &Swarm, zeros: bool) -> Result<bool, Fail> {
    let mut whole = true;
    for (p, want) in &sw.files {
        match std::fs::read(home.join(p)) {
            Ok(got) => {
                ensure!(got.len() <= want.len(), "{p} holds {} bytes instead of {}", got.len(), want.len());
                if got != *want {
                    whole = false;
                    if zeros {
                        let bad = got.iter().zip(want).position(|(a, b)| a != b && *a != 0);
                        ensure!(bad.is_none(), "{p} holds data that never was verified, at byte {:?} of {}", bad, want.len());
                    }
                }
            }
            Err(_) => whole = false,
        }
    }
    Ok(whole)
}

fn tear_cache(home: &Path, hash: &[u8], tear: &Tear) {
    let p = home.join("downloads").join(encoded(hash));
    match (tear, std::fs::read(&p)) {
        (Tear::Keep, _) | (_, Err(_)) => {}
        (Tear::Gone, _) => std::fs::remove_file(&p).unwrap(),
        (Tear::Prefix(f), Ok(b)) => std::fs::write(&p, &b[..*f as usize * b.len() / 65536]).unwrap(),
        (Tear::Zeros(f), Ok(b)) => std::fs::write(&p, [&b[..*f as usize * b.len() / 65536], &vec![0; b.len() - *f as usize * b.len() / 65536]].concat()).unwrap(),
    }
}

pub fn inside(c: &Case, home: &Path, obs: &mut Obs) -> Outcome {
    let mut swarms: Vec<Arc<Swarm>> = vec![];
    let mut returned = vec![];
    for (k, t) in c.torrents.iter().enumerate() {
        let l = t.layout(k);
        let content = l.content();
        let mut at = 0;
        let files = l
            .file_list()
            .into_iter()
            .enumerate()
            .filter_map(|(i, (p, n))| {
                let d = content[at..at + n as usize].to_vec();
                at += n as usize;
                let p = p.join("/");
                if let Some(long) = t.blocked(i) {
                    if !long {
                        std::fs::create_dir_all(home.join(&p)).unwrap();
                    }
                    return None;
                }
                Some((p, d))
            })
            .collect();
        let dict = l.dict().enc();
        returned.push((sha1(&dict), lists(c, k)));
        swarms.push(Arc::new(Swarm {
            hash: sha1(&dict),
            pieces: l.pieces(),
            piece_length: l.piece_length,
            files,
            content,
            peers: t.peers.clone(),
            state: Mutex::new(State {
                served: false,
                metadata_left: 0,
                metadata_faults: t.metadata_faults.clone(),
                faults: t.faults.iter().cloned().collect(),
                answers: 0,
                connections: 0,
                faulty: 0,
                last: Instant::now(),
                wrong: None,
                honest_blocks: 0,
                metadata_requests: 0,
            }),
            dict,
        }));
        // one honest entry has to remain for the metadata, every entry is asked once
        let sw = &swarms[k];
        let asked: usize = answering(c)
            .iter()
            .flat_map(|i| &returned[k].1[*i])
            .filter(|a| (0..t.peers.len()).any(|p| t.peers[p].bad.is_none() && address(c.at, k, p) == **a))
            .count();
        if t.posts < 2 {
            sw.state.lock().unwrap().metadata_left = t.metadata_faults.len().min(asked.saturating_sub(2));
        }
        if t.prefilled {
            for (p, d) in &sw.files {
                let p = home.join(p);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, filler(t.seed ^ 7, d.len())).unwrap();
            }
        }
    }
    start(c.at, &swarms);
    let _heard = trackers(c.trackers.clone(), move |i, hash| returned.iter().find(|r| r.0 == hash).map_or(vec![], |r| r.1[i].clone()));
    let mut program = Program::start(home)?;
    let mut crash = c.crash.clone();
    let mut again = c.again.iter();
    let mut kept = false;
    let mut posted = vec![None; swarms.len()];
    let size: u64 = swarms.iter().map(|s| s.content.len() as u64).sum();
    let limit = Duration::from_secs(150 + swarms.iter().map(|s| s.pieces).sum::<u64>() / 300);
    let mut done_at = vec![None; swarms.len()];
    loop {
        std::thread::sleep(Duration::from_millis(30 + (size >> 16)));
        program.alive()?;
        for (k, sw) in swarms.iter().enumerate() {
            if let Some(w) = &sw.state.lock().unwrap().wrong {
                return fail(w.clone());
            }
            if look(home, sw, !c.torrents[k].prefilled)? {
                done_at[k].get_or_insert_with(Instant::now);
            } else {
                ensure!(done_at[k].is_none(), "complete files of torrent {k} were changed afterwards");
            }
        }
        let answers: u64 = swarms.iter().map(|s| s.state.lock().unwrap().answers).sum();
        for (k, sw) in swarms.iter().enumerate() {
            if posted[k].is_none() && (answers >= c.later.get(k).map_or(0, |n| *n as u64) || done_at[..k].iter().all(|d| d.is_some())) {
                sw.state.lock().unwrap().last = Instant::now();
                for n in 0..c.torrents[k].posts.max(1) {
                    post(&sw.hash, n)?;
                }
                posted[k] = Some(Instant::now());
            }
        }
        if let Some((n, tear)) = crash.clone() {
            if answers > n as u64 || done_at.iter().all(|d| d.is_some()) {
                crash = None;
                drop(program);
                for (k, sw) in swarms.iter().enumerate() {
                    look(home, sw, !c.torrents[k].prefilled)?;
                    tear_cache(home, &sw.hash, &tear);
                    let mut st = sw.state.lock().unwrap();
                    st.served = false;
                    st.metadata_left = 0;
                    st.last = Instant::now();
                }
                obs.label("killed and started again");
                program = Program::start(home)?;
                for (k, sw) in swarms.iter().enumerate().filter(|(k, _)| posted[*k].is_some()).collect::<Vec<_>>() {
                    post(&sw.hash, 0)?;
                    posted[k] = Some(Instant::now());
                }
                continue;
            }
        }
        if crash.is_none() && done_at.iter().all(|d| d.map_or(false, |d: Instant| d.elapsed() > Duration::from_millis(100))) {
            for (k, sw) in swarms.iter().enumerate() {
                let n = sw.state.lock().unwrap().metadata_requests;
                ensure_soft!(!kept || n == 0, "torrent {k}: its metadata had been obtained and saved, after a restart peers were asked for it {n} times");
            }
            let tear = match again.next() {
                None => break,
                Some(t) => t,
            };
            kept = matches!(tear, Tear::Keep);
            drop(program);
            obs.label(if kept { "started again with the cache" } else { "started again with a damaged cache" });
            for sw in &swarms {
                tear_cache(home, &sw.hash, tear);
                for (p, _) in &sw.files {
                    let _ = std::fs::remove_file(home.join(p));
                }
                let mut st = sw.state.lock().unwrap();
                st.metadata_requests = 0;
                st.metadata_left = 0;
                // no failures meant for the metadata
                st.served = kept;
                st.last = Instant::now();
            }
            done_at = vec![None; swarms.len()];
            program = Program::start(home)?;
            for (k, sw) in swarms.iter().enumerate() {
                post(&sw.hash, 0)?;
                posted[k] = Some(Instant::now());
            }
            continue;
        }
        for (k, sw) in swarms.iter().enumerate() {
            let st = sw.state.lock().unwrap();
            let started = match posted[k] {
                Some(p) => p,
                None => continue,
            };
            if done_at[k].is_none() && st.last.elapsed() > Duration::from_secs(25) {
                ensure_soft!(
                    false,
                    "torrent {k} ({} pieces) is not complete and no peer is asked any more: {} connections, {} blocks",
                    sw.pieces,
                    st.connections,
                    st.honest_blocks
                );
            }
            ensure_soft!(done_at[k].is_some() || started.elapsed() < limit, "torrent {k} ({} pieces) is not complete after {limit:?}: {} connections, {} blocks", sw.pieces, st.connections, st.honest_blocks);
        }
    }
    let mut faulty = 0;
    for sw in &swarms {
        let st = sw.state.lock().unwrap();
        faulty += st.faulty;
        obs.count("connections", st.connections);
        obs.count("failing connections", st.faulty);
        obs.count("blocks", st.honest_blocks);
        obs.count("pieces", sw.pieces);
    }
    obs.nontrivial = faulty > 0 || obs.labels.iter().any(|l| l.starts_with("killed"));
    if c.torrents.len() > 1 {
        obs.label(if c.torrents.len() > 2 { "three to five torrents" } else { "two torrents" });
        obs.label(if c.at.shared { "the same peers have all torrents" } else { "each torrent has its peers" });
        if c.later.iter().any(|n| *n > 0) {
            obs.label("torrents added one after another");
        }
    }
    match c.at.style {
        1 => obs.label("peers share an IP address"),
        2 => obs.label("peers share a port"),
        _ => {}
    }
    for t in &c.torrents {
        if t.posts > 1 {
            obs.label("posted twice");
        }
        if t.prefilled {
            obs.label("files already there");
        }
        if t.peers.len() == 11 {
            obs.label("exactly eleven peers");
        }
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    judge("C29", c, obs, Duration::from_secs(330))
}

// ---- cases ----------------------------------------------------------------------------------------------------------

/// Failures; the slow ones (a second or more) are rarer.
fn fault(slow: u32) -> BoxedStrategy<Fault> {
    let n = || prop_oneof![3 => Just(0u8), 2 => 1u8..5];
    prop_oneof![
        2 => Just(Fault::WrongHash),
        2 => Just(Fault::Close),
        2 => Just(Fault::Silent),
        3 => n().prop_map(Fault::Hangup),
        5 => (n(), any::<u16>()).prop_map(|(n, i)| Fault::Corrupt(n, i)),
        2 => n().prop_map(Fault::Short),
        2 => n().prop_map(Fault::Other),
        2 => n().prop_map(Fault::Garbage),
        slow => prop_oneof![Just(Fault::NoUnchoke), Just(Fault::NoExtension), n().prop_map(Fault::Choke), n().prop_map(Fault::Stall)],
    ]
    .boxed()
}

fn torrent(t: Tier) -> BoxedStrategy<Torrent> {
    let most = if t == Tier::Thorough { 2_000_000 } else { 400_000 };
    let geometry = prop_oneof![
        3 => (1u64..400).boxed(),
        4 => piece_length(40_000),
        1 => Just(65_536u64).boxed(),
    ]
    .prop_flat_map(move |pl| {
        let cap = (pl * 60).min(most);
        let single = (1..=cap).prop_map(|n| vec![n]).boxed();
        (Just(pl), prop_oneof![1 => single, 1 => lengths(pl, cap, 6).prop_map(|mut v| { if v.iter().sum::<u64>() == 0 { v[0] = 1 } v })])
    });
    let good = || (prop_oneof![2 => Just(None), 1 => manner().prop_map(Some)], prop_oneof![4 => Just(0u8), 1 => 1u8..20]).prop_map(|(manner, slow)| Peer { bad: None, manner, slow });
    let bad = || fault(1).prop_map(|f| Peer { bad: Some(f), manner: None, slow: 0 });
    let peers = (prop_oneof![2 => Just(11usize), 1 => 12usize..16], prop_oneof![Just(1usize), 2usize..5, 5usize..12])
        .prop_flat_map(move |(n, g)| (vec(good(), g.min(n)), vec(bad(), n - g.min(n)), any::<u64>()))
        .prop_map(|(mut a, b, o)| {
            a.extend(b);
            let mut p = Prng(o);
            for i in (1..a.len()).rev() {
                a.swap(i, p.below(i as u64 + 1) as usize);
            }
            a
        });
    (
        geometry,
        any::<u64>(),
        extras(),
        peers,
        prop_oneof![2 => Just(0u8), 1 => 1u8..6],
        prop_oneof![1 => Just(vec![]), 2 => vec(vec(any::<u8>(), 0..8), 18)],
        (prop_oneof![1 => Just(vec![]), 2 => vec(fault(1), 0..8)], vec(prop::option::weighted(0.7, fault(3)), 0..40)),
        prop::bool::weighted(0.15),
        prop_oneof![8 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(|((piece_length, lens), seed, extra, peers, gone, lists, (metadata_faults, faults), prefilled, posts)| Torrent {
            piece_length,
            lens,
            seed,
            extra,
            peers,
            gone,
            lists,
            metadata_faults,
            faults,
            prefilled,
            posts,
            blocked: vec![],
        })
        .boxed()
}

/// For C20: torrents some of whose files cannot be written.
pub fn blocked_cases(t: Tier) -> BoxedStrategy<Case> {
    let one = (torrent(t), vec((any::<u8>(), any::<bool>()), 1..4), vec(1u64..50, 2)).prop_map(|(mut t, blocked, more)| {
        if t.lens.len() < 3 {
            t.lens.extend(more);
        }
        t.prefilled = false;
        Torrent { blocked, ..t }
    });
    vec(one, 1).prop_map(|torrents| Case { trackers: vec![], torrents, crash: None, again: vec![], later: vec![], at: Place::default() }).boxed()
}

pub fn check_blocked(c: &Case, obs: &mut Obs) -> Outcome {
    let r = judge("C29", c, obs, Duration::from_secs(330));
    obs.nontrivial = true;
    r
}

/// For C17: torrents downloaded several times over, from the metadata cache of the first time.
pub fn cached_cases(t: Tier) -> BoxedStrategy<Case> {
    let tear = prop_oneof![3 => Just(Tear::Keep), 1 => Just(Tear::Gone), 2 => any::<u16>().prop_map(Tear::Prefix), 1 => any::<u16>().prop_map(Tear::Zeros)];
    let one = (torrent(t), vec(prop::option::weighted(0.2, fault(0)), 0..10)).prop_map(|(t, faults)| {
        // complete soon: failures only now and then
        let peers = t.peers.iter().map(|p| if p.slow == 0 { p.clone() } else { Peer { slow: 0, ..p.clone() } }).collect();
        Torrent { prefilled: false, posts: 1, metadata_faults: vec![], faults, peers, ..t }
    });
    (prop_oneof![2 => vec(one.clone(), 1), 1 => vec(one, 2)], vec(tear, 1..4)).prop_map(|(torrents, again)| Case { trackers: vec![], torrents, crash: None, again, later: vec![], at: Place::default() }).boxed()
}

pub fn check_cached(c: &Case, obs: &mut Obs) -> Outcome {
    let r = judge("C29", c, obs, Duration::from_secs(500));
    obs.nontrivial = true;
    r
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let tr = prop_oneof![
        8 => Just(Tr::Answers { lose: 0, wait: 0 }),
        1 => Just(Tr::Silent),
        1 => Just(Tr::Error),
        1 => (0u16..400).prop_map(|wait| Tr::Answers { lose: 0, wait }),
        1 => (0u8..3, 0u16..100).prop_map(|(lose, wait)| Tr::Answers { lose, wait }),
    ];
    let trackers = prop_oneof![1 => Just(vec![]), 2 => vec(tr, 18), 1 => (0usize..18).prop_map(|k| (0..18).map(|i| if i == k { Tr::Answers { lose: 0, wait: 0 } } else { Tr::Silent }).collect())].prop_map(|mut v: Vec<Tr>| {
        if !v.is_empty() && !v.iter().any(|t| matches!(t, Tr::Answers { .. })) {
            v[0] = Tr::Answers { lose: 0, wait: 0 };
        }
        v
    });
    let tear = prop_oneof![2 => Just(Tear::Keep), 1 => Just(Tear::Gone), 2 => any::<u16>().prop_map(Tear::Prefix), 1 => any::<u16>().prop_map(Tear::Zeros)];
    let crash = prop::option::weighted(0.2, (prop_oneof![0u16..4, 0u16..80], tear));
    let at = prop_oneof![4 => Just(Place::default()), 2 => (0u8..3, any::<bool>()).prop_map(|(style, shared)| Place { style, shared })];
    // several at once, or one after another
    let later = prop_oneof![1 => Just(vec![]), 2 => vec(prop_oneof![1 => 0u16..30, 1 => Just(u16::MAX)], 6)];
    let torrents = prop_oneof![16 => vec(torrent(t), 1), 4 => vec(torrent(t), 2), 1 => vec(torrent(t), 3..6)];
    (trackers, torrents, crash, later, at).prop_map(|(trackers, torrents, crash, later, at)| Case { trackers, torrents, crash, again: vec![], later, at }).boxed()
}

/// Torrents that are large in one way: thousands of pieces, tens of megabytes, hundreds of files, dozens of peers.
fn large(t: Tier) -> BoxedStrategy<Case> {
    let file = |n: u64| vec![n];
    let shape = prop_oneof![
        8 => (1u64..40, 200u64..3_000, any::<u64>()).prop_map(move |(pl, n, cut)| (pl, file(pl * n - cut % pl))),
        // the last piece has only a few bytes
        8 => (prop_oneof![Just(1u64 << 20), Just(1u64 << 19), 300_000u64..8 << 20], 16u64 << 20..if t == Tier::Thorough { 128 << 20 } else { 40 << 20 }, 0u64..4)
            .prop_map(move |(pl, n, last)| (pl, file(n / pl * pl + last))),
        4 => (1u64..30_000, vec(prop_oneof![1 => Just(0u64), 6 => 1u64..300], 100..600)).prop_map(|(pl, v)| (pl, v)),
    ];
    let good = || prop_oneof![4 => Just(None), 1 => manner().prop_map(|m| Some(Manner { cuts: Cuts::default(), ..m }))].prop_map(|manner| Peer { bad: None, manner, slow: 0 });
    let bad = || fault(0).prop_map(|f| Peer { bad: Some(f), manner: None, slow: 0 });
    let peers = prop_oneof![2 => (vec(good(), 11..16), vec(bad(), 0..2)), 1 => (vec(good(), 6..20), vec(bad(), 5..40))].prop_map(|(mut a, b)| {
        // the honest ones among the others
        for (i, p) in b.into_iter().enumerate() {
            a.insert((i * 5) % (a.len() + 1), p);
        }
        a
    });
    let one = (shape, any::<u64>(), peers, 0u8..10, vec(prop::option::weighted(0.1, fault(0)), 0..200)).prop_map(|((piece_length, lens), seed, peers, gone, faults)| {
        Torrent {
            piece_length,
            lens,
            seed,
            extra: Default::default(),
            peers,
            gone,
            lists: vec![],
            metadata_faults: vec![],
            faults,
            prefilled: false,
            posts: 1,
            blocked: vec![],
        }
    });
    one.prop_map(|t| Case { trackers: vec![], torrents: vec![t], crash: None, again: vec![], later: vec![], at: Place::default() }).boxed()
}

fn check_large(c: &Case, obs: &mut Obs) -> Outcome {
    let t = &c.torrents[0];
    let total: u64 = t.lens.iter().sum();
    obs.label(match (total / t.piece_length, t.lens.len(), total) {
        (_, 100.., _) => "100 or more files",
        (_, _, 0x100_0000..) => "more than 16 MiB",
        _ => "hundreds of pieces",
    });
    if t.peers.len() > 20 {
        obs.label("more than 20 peers");
    }
    let r = judge("C29", c, obs, Duration::from_secs(600));
    obs.nontrivial = true;
    r
}

pub fn property() -> Property {
    Property {
        id: "C29",
        rule: "Downloads by the real program in a network namespace of its own: one to five torrents, at once or one after another, with their own peers or the same (1 byte to 60 pieces, one to six files, \
               block and piece sizes down to a byte), the 18 built-in trackers played by stand-ins that answer, lose packets or stay silent, \
               and 11 to 15 peers on TCP, of which some fail on every connection and the others follow a plan of failures (wrong handshake, \
               hang up, silence, choke, corrupt, short, misplaced or missing data) that ends; also two posts of a magnet, files already there, \
               part 'large': up to 3,000 pieces, 40 MiB, 600 files or 60 peers; and a kill at any point with the metadata cache torn, then a new start. The files are looked at every 30 ms: a byte is missing, \
               zero or right; in the end they have to be complete. Non-trivial: at least one connection failed, or the program was killed.",
        assumptions: vec![
            "a download that stops counts when it stops on two more runs",
            "peers answer within milliseconds where they mean to, so that the program's own time limits are not what fails",
        ],
        parts: vec![
            part(Spec { name: "downloads", quick: 1_200, thorough: 20_000, threads: 48, crumbs: true, confirm: 2, shrink: 12, strategy: cases, check }),
            part(Spec { name: "large", quick: 60, thorough: 2_000, threads: 12, crumbs: true, confirm: 1, shrink: 6, strategy: large, check: check_large }),
        ],
        program: true,
    }
}
