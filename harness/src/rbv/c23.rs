//! C23: the HTTP API accepts magnets and survives everything else.
use super::engine::*;
use super::magnets::*;
use super::wire;
use super::world::*;
use crate::{ensure, ensure_soft};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Magnet { hash: [u8; 20], case: u64, before: Vec<String>, after: Vec<String> },
    Bytes(Vec<u8>),
    /// that many bytes of a magnet that goes on and on
    Long(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct How {
    chunked: Option<u16>,
    expect: bool,
    content_type: u8,
    /// sizes of the first segments, with pauses in between
    cuts: Vec<u16>,
    http10: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Odd {
    Request { method: String, path: String, body: Vec<u8> },
    /// bytes that are no request; then the connection is closed, or held open
    Garbage(Vec<u8>, bool),
    /// the first part of a post; then the connection is closed, or held open
    Half(u16, bool),
    /// connections without a byte
    Idle(u8),
    /// a post that announces more or less than it carries
    WrongLength(i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// on the connection used before, if it is still open
    Post(Body, How, bool),
    /// all requests at once, then all answers
    Pipelined(Vec<Body>),
    /// distinct magnets over that many connections at the same time
    Burst { seed: u64, magnets: u8, connections: u8 },
    Odd(Odd),
    Pause(u8),
    /// the magnets accepted so far, once more
    Again,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    trackers: Vec<Tr>,
    /// how many peers of each kind a tracker returns: nobody there, does not accept, talks but never serves
    gone: u8,
    deaf: u8,
    mute: u8,
    steps: Vec<Step>,
}

const WAIT: Duration = Duration::from_secs(20);

fn bytes(b: &Body) -> Vec<u8> {
    match b {
        Body::Magnet { hash, case, before, after } => {
            let mut p = before.clone();
            p.push(format!("{PREFIX}{}", hex(hash, *case)));
            p.extend(after.clone());
            format!("magnet:?{}", p.join("&")).into_bytes()
        }
        Body::Bytes(b) => b.clone(),
        Body::Long(n) => {
            let mut v = b"magnet:?dn=".to_vec();
            v.resize(*n as usize, b'x');
            v
        }
    }
}

#[derive(PartialEq, Debug)]
enum Due {
    Accept([u8; 20]),
    Refuse,
    Either(Option<[u8; 20]>),
}

/// What a post of this body calls for.
fn due(b: &[u8], plain: bool) -> Due {
    let utf8 = std::str::from_utf8(b).is_ok();
    match class(b) {
        Class::Hex(h) if utf8 && plain && b.len() < 200_000 => Due::Accept(h.try_into().unwrap()),
        Class::Hex(h) => Due::Either(Some(h.try_into().unwrap())),
        Class::Reject(_) => Due::Refuse,
        Class::Open => Due::Either(None),
    }
}

fn request(b: &[u8], how: &How) -> Vec<u8> {
    let mut h = format!("POST /add/magnet HTTP/1.{}\r\nHost: 127.0.0.1:8080\r\n", if how.http10 { 0 } else { 1 });
    if how.http10 {
        h += "Connection: keep-alive\r\n";
    }
    match how.content_type {
        1 => h += "Content-Type: text/plain\r\n",
        2 => h += "Content-Type: text/plain; charset=utf-8\r\n",
        3 => h += "Content-Type: application/x-www-form-urlencoded\r\n",
        4 => h += "Content-Type: application/octet-stream\r\n",
        5 => h += "Content-Type: nonsense\r\n",
        6 => h += "Content-Type: text/plain; charset=utf-16\r\n",
        7 => h += "Content-Type: text/plain; charset=klingon\r\n",
        _ => {}
    }
    if how.expect {
        h += "Expect: 100-continue\r\n";
    }
    let mut v;
    match how.chunked {
        Some(n) if !how.http10 => {
            h += "Transfer-Encoding: chunked\r\n\r\n";
            v = h.into_bytes();
            for c in b.chunks(n.max(1) as usize) {
                v.extend(format!("{:x}\r\n", c.len()).bytes());
                v.extend_from_slice(c);
                v.extend(b"\r\n");
            }
            v.extend(b"0\r\n\r\n");
        }
        _ => {
            h += &format!("Content-Length: {}\r\n\r\n", b.len());
            v = h.into_bytes();
            v.extend_from_slice(b);
        }
    }
    v
}

struct Seen {
    /// must be announced; may be announced
    must: BTreeMap<[u8; 20], usize>,
    may: BTreeSet<Vec<u8>>,
    held: Vec<TcpStream>,
    conn: Option<(TcpStream, Vec<u8>)>,
    requests: u64,
}

fn connect() -> Result<TcpStream, Fail> {
    match TcpStream::connect_timeout(&"127.0.0.1:8080".parse().unwrap(), WAIT) {
        Ok(s) => {
            let _ = s.set_nodelay(true);
            let _ = s.set_write_timeout(Some(WAIT));
            Ok(s)
        }
        Err(e) => soft(format!("no connection to the server: {e}")),
    }
}

fn write_cut(s: &mut TcpStream, b: &[u8], cuts: &[u16]) -> bool {
    let mut at = 0;
    for n in cuts {
        let e = (at + *n as usize).min(b.len());
        if e > at && s.write_all(&b[at..e]).is_err() {
            return false;
        }
        std::thread::sleep(Duration::from_millis(3));
        at = e;
    }
    s.write_all(&b[at..]).is_ok()
}

fn settle(seen: &mut Seen, due: Due, status: u16, what: &str) -> Outcome {
    seen.requests += 1;
    match due {
        Due::Accept(h) => {
            ensure!(status == 200, "a valid magnet is answered {status} ({what})");
            *seen.must.entry(h).or_default() += 1;
        }
        Due::Refuse => ensure!((400..500).contains(&status), "what is no magnet is answered {status} ({what})"),
        Due::Either(h) => {
            ensure!(status == 200 || (400..500).contains(&status), "answered {status} ({what})");
            match h {
                Some(h) => {
                    seen.may.insert(h.to_vec());
                }
                None => {
                    if status == 200 {
                        // left open what it names
                        seen.may.insert(vec![]);
                    }
                }
            }
        }
    }
    Ok(())
}

fn brief(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(120)]).to_string();
    format!("{} bytes {s:?}", b.len())
}

fn step(st: &Step, seen: &mut Seen) -> Outcome {
    match st {
        Step::Again => {
            let hashes: Vec<[u8; 20]> = seen.must.keys().take(20).cloned().collect();
            let mut s = connect()?;
            let mut buf = vec![];
            for h in hashes {
                let b = format!("magnet:?{PREFIX}{}", hex(&h, 0)).into_bytes();
                let _ = s.write_all(&request(&b, &How::default()));
                match response(&mut s, &mut buf, WAIT, false) {
                    Ok(Some(r)) => settle(seen, Due::Accept(h), r.status, "posted again")?,
                    Ok(None) => return soft("a magnet posted again is not answered"),
                    Err(e) => return soft(format!("{e} to a magnet posted again")),
                }
            }
        }
        Step::Pause(ms) => std::thread::sleep(Duration::from_millis(*ms as u64)),
        Step::Post(body, how, reuse) => {
            let b = bytes(body);
            // character sets other than the body's leave open what was posted
            let plain = how.content_type < 5;
            let d = due(&b, plain);
            let d = if plain || matches!(d, Due::Accept(_)) { d } else { Due::Either(None) };
            let (mut s, mut buf, used) = match seen.conn.take() {
                Some((s, b)) if *reuse => (s, b, true),
                _ => (connect()?, vec![], false),
            };
            let sent = write_cut(&mut s, &request(&b, how), &how.cuts);
            match response(&mut s, &mut buf, WAIT, false) {
                Ok(Some(r)) => {
                    settle(seen, d, r.status, &brief(&b))?;
                    if !r.close && sent {
                        seen.conn = Some((s, buf));
                    }
                }
                // the server may close a connection it kept for too long just before it is used
                Ok(None) if used => {}
                // the answer may be lost when the rest of a big body meets a closed socket
                Ok(None) if b.len() > 60_000 => seen.may.extend(if let Class::Hex(h) = class(&b) { Some(h) } else { None }),
                Ok(None) => return soft(format!("the connection was closed without an answer to {}", brief(&b))),
                Err(e) => return soft(format!("{e} to {}", brief(&b))),
            }
        }
        Step::Pipelined(bodies) => {
            let mut s = connect()?;
            let all: Vec<u8> = bodies.iter().flat_map(|b| request(&bytes(b), &How::default())).collect();
            let _ = s.write_all(&all);
            let mut buf = vec![];
            for b in bodies {
                let b = bytes(b);
                match response(&mut s, &mut buf, WAIT, false) {
                    Ok(Some(r)) => {
                        settle(seen, due(&b, true), r.status, &brief(&b))?;
                        if r.close {
                            break;
                        }
                    }
                    Ok(None) => return soft(format!("the connection was closed without an answer to the pipelined {}", brief(&b))),
                    Err(e) => return soft(format!("{e} to the pipelined {}", brief(&b))),
                }
            }
        }
        Step::Burst { seed, magnets, connections } => {
            let k = (*connections).max(1) as usize;
            let hashes: Vec<[u8; 20]> = (0..*magnets as u64).map(|i| filler(seed.wrapping_add(i << 32), 20).try_into().unwrap()).collect();
            let rs: Vec<Result<usize, String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..k)
                    .map(|c| {
                        let mine: Vec<_> = hashes.iter().skip(c).step_by(k).cloned().collect();
                        sc.spawn(move || {
                            let mut s = connect().map_err(|f| f.msg)?;
                            let mut buf = vec![];
                            for h in &mine {
                                let b = format!("magnet:?{PREFIX}{}", hex(h, 0)).into_bytes();
                                let _ = s.write_all(&request(&b, &How::default()));
                                match response(&mut s, &mut buf, WAIT, false) {
                                    Ok(Some(r)) if r.status == 200 => {}
                                    Ok(Some(r)) => return Err(format!("a magnet of a burst is answered {}", r.status)),
                                    Ok(None) => return Err("a connection was closed without an answer in a burst".into()),
                                    Err(e) => return Err(format!("{e} in a burst")),
                                }
                            }
                            Ok(mine.len())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            seen.requests += *magnets as u64;
            for h in hashes {
                *seen.must.entry(h).or_default() += 1;
            }
            for r in rs {
                if let Err(m) = r {
                    return soft(m);
                }
            }
        }
        Step::Odd(o) => {
            let mut s = connect()?;
            let _ = s.set_read_timeout(Some(Duration::from_millis(100)));
            match o {
                Odd::Request { method, path, body } => {
                    let v = [format!("{method} {path} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes(), body.clone()].concat();
                    let _ = s.write_all(&v);
                    let mut buf = vec![];
                    match response(&mut s, &mut buf, WAIT, method == "HEAD") {
                        Ok(Some(r)) => {
                            ensure!((400..500).contains(&r.status), "{method} {path} is answered {}", r.status);
                            seen.requests += 1;
                        }
                        Ok(None) => return soft(format!("{method} {path} is not answered")),
                        Err(e) => return soft(format!("{e} to {method} {path}")),
                    }
                }
                Odd::Garbage(b, hold) => {
                    let _ = s.write_all(b);
                    if *hold {
                        seen.held.push(s);
                    } else {
                        let _ = s.read(&mut [0; 100]);
                    }
                }
                Odd::Half(n, hold) => {
                    let v = request(&bytes(&Body::Magnet { hash: [7; 20], case: 0, before: vec![], after: vec![] }), &How::default());
                    // never the whole of it
                    let _ = s.write_all(&v[..(*n as usize).min(v.len() - 1)]);
                    if *hold {
                        seen.held.push(s);
                    }
                }
                Odd::Idle(n) => {
                    for _ in 0..*n {
                        seen.held.push(connect()?);
                    }
                }
                Odd::WrongLength(d) => {
                    let b = bytes(&Body::Magnet { hash: [9; 20], case: 0, before: vec![], after: vec!["dn=some-name-to-cut".into()] });
                    let n = (b.len() as i64 + *d as i64).max(0) as usize;
                    let v = [format!("POST /add/magnet HTTP/1.1\r\nHost: x\r\nContent-Length: {n}\r\n\r\n").into_bytes(), b.clone()].concat();
                    let _ = s.write_all(&v);
                    let mut buf = vec![];
                    if n <= b.len() {
                        match response(&mut s, &mut buf, WAIT, false) {
                            Ok(Some(r)) => settle(seen, due(&b[..n], true), r.status, &brief(&b[..n]))?,
                            Ok(None) => return soft("a post was closed without an answer"),
                            Err(e) => return soft(format!("{e} to a post")),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// A peer that takes the connection (the deaf one never accepts, so that connecting takes its time).
fn peers() -> Option<(std::net::SocketAddr, std::net::SocketAddr, Vec<TcpStream>)> {
    let mute = TcpListener::bind("77.1.1.1:6881").ok()?;
    let mute_addr = mute.local_addr().ok()?;
    std::thread::spawn(move || loop {
        if let Ok((mut s, _)) = mute.accept() {
            let _ = std::thread::Builder::new().stack_size(64 << 10).spawn(move || {
                let mut b = [0; 512];
                let mut got = vec![];
                while let Ok(n) = s.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    let before = got.len();
                    got.extend_from_slice(&b[..n]);
                    if before < 68 && got.len() >= 68 {
                        // the right handshake, and then nothing
                        let _ = s.write_all(&wire::handshake(&wire::EXTENSION_BIT, &got[28..48], b"-RB0001-abcdefghijkl"));
                    }
                }
            });
        }
    });
    unsafe {
        // a listener with a full queue
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_port = 6881u16.to_be();
        a.sin_addr.s_addr = u32::from_ne_bytes([77, 1, 1, 2]);
        libc::bind(fd, &a as *const _ as *const libc::sockaddr, std::mem::size_of_val(&a) as u32);
        libc::listen(fd, 0);
    }
    let deaf: std::net::SocketAddr = "77.1.1.2:6881".parse().unwrap();
    let mut fill = vec![];
    while fill.len() < 20 {
        match TcpStream::connect_timeout(&deaf, Duration::from_millis(100)) {
            Ok(s) => fill.push(s),
            Err(_) => break,
        }
    }
    Some((mute_addr, deaf, fill))
}

pub fn inside(c: &Case, home: &Path, obs: &mut Obs) -> Outcome {
    let (_mute, _deaf, _fill) = peers().expect("no peers");
    let mut list: Vec<[u8; 6]> = vec![];
    list.extend((0..c.gone).map(|i| [77, 1, 2, i, 0x1a, 0xe1]));
    list.extend((0..c.mute).map(|_| [77, 1, 1, 1, 0x1a, 0xe1]));
    if list.is_empty() {
        list.push([77, 1, 2, 255, 0x1a, 0xe1]);
    }
    let answering: Vec<usize> = (0..TRACKERS.len()).filter(|i| matches!(c.trackers.get(*i), None | Some(Tr::Answers { .. }))).collect();
    let deaf = c.deaf as usize;
    let heard = trackers(c.trackers.clone(), move |t, _| {
        let mut l = list.clone();
        if t < 2 {
            l.extend(vec![[77, 1, 1, 2, 0x1a, 0xe1]; deaf]);
        }
        l
    });
    let mut program = Program::start(home)?;
    let mut seen = Seen { must: BTreeMap::new(), may: BTreeSet::new(), held: vec![], conn: None, requests: 0 };
    for (i, st) in c.steps.iter().enumerate() {
        if let Err(f) = step(st, &mut seen) {
            program.alive()?;
            return Err(Fail { msg: format!("step {i}: {}", f.msg), ..f });
        }
        program.alive()?;
    }
    // it still answers, on new connections as well
    let late = std::thread::scope(|s| {
        let hs: Vec<_> = (0..24)
            .map(|i| {
                std::thread::Builder::new()
                    .stack_size(256 << 10)
                    .spawn_scoped(s, move || {
                        let mut c = connect()?;
                        let _ = c.write_all(&request(b"no magnet", &How::default()));
                        match response(&mut c, &mut vec![], WAIT, false) {
                            Ok(Some(r)) if (400..500).contains(&r.status) => Ok(()),
                            Ok(Some(r)) => fail(format!("in the end, what is no magnet is answered {}", r.status)),
                            Ok(None) => soft(format!("in the end, connection {i} is closed without an answer")),
                            Err(e) => soft(format!("in the end, {e} on connection {i}")),
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<Outcome>>()
    });
    for r in late {
        r?;
    }
    program.alive()?;
    // nobody else's address leads to it
    if TcpStream::connect_timeout(&"10.9.8.7:8080".parse().unwrap(), Duration::from_secs(1)).is_ok() {
        return fail("the API is reachable on another address than the local host's");
    }
    // every magnet reaches every tracker that answers
    let mut started = Instant::now();
    let mut before = 0;
    // so long without any announce
    let patience = Duration::from_secs(15) + Duration::from_millis(60 * c.deaf as u64 * 2 * seen.must.values().sum::<usize>() as u64).min(Duration::from_secs(90));
    let missing = loop {
        let h = heard.lock().unwrap();
        if h.announces.len() > before {
            before = h.announces.len();
            started = Instant::now();
        }
        let mut got: BTreeMap<(usize, &[u8]), usize> = BTreeMap::new();
        for (i, h) in &h.announces {
            *got.entry((*i, &h[..])).or_default() += 1;
        }
        // every post calls for announces of its own
        let missing: Vec<(usize, [u8; 20], usize, usize)> = seen
            .must
            .iter()
            .flat_map(|(m, n)| answering.iter().map(move |t| (*t, *m, *n)))
            .map(|(t, m, n)| (t, m, n, got.get(&(t, &m[..])).copied().unwrap_or(0)))
            .filter(|x| x.3 < x.2)
            .collect();
        if missing.is_empty() || started.elapsed() > patience {
            break missing;
        }
        drop(h);
        std::thread::sleep(Duration::from_millis(20));
    };
    // what was not posted is not announced
    std::thread::sleep(Duration::from_millis(if missing.is_empty() { 50 } else { 0 }));
    let h = heard.lock().unwrap();
    for (t, a) in &h.announces {
        let known = seen.must.keys().any(|m| m[..] == a[..]) || seen.may.contains(a) || seen.may.contains(&vec![]);
        ensure!(known, "tracker {t} was asked for {a:02x?}, which was not posted");
    }
    if let Some((t, b)) = h.odd.first() {
        ensure!(seen.may.contains(&vec![]), "tracker {t} got a packet that is no request: {}", brief(b));
    }
    if let Some((t, m, n, k)) = missing.first() {
        ensure_soft!(
            false,
            "{} of {} announces are missing after {patience:?}; tracker {t} was asked {k} times for {m:02x?}, which was posted {n} times",
            missing.iter().map(|x| x.2 - x.3).sum::<usize>(),
            seen.must.values().sum::<usize>() * answering.len()
        );
    }
    program.alive()?;
    obs.nontrivial = !seen.must.is_empty() || seen.requests > 1;
    obs.count("requests", seen.requests);
    obs.count("magnets accepted", seen.must.len() as u64);
    obs.count("announces", h.announces.len() as u64);
    for st in &c.steps {
        obs.label(format!("{st:?}").split(['(', ' ', '{']).next().unwrap().to_string());
    }
    if c.mute > 0 && !seen.must.is_empty() {
        obs.label("peers that never serve");
    }
    if c.deaf > 0 && !seen.must.is_empty() {
        obs.label("peers that do not accept");
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    judge("C23", c, obs, Duration::from_secs(400))
}

fn magnet() -> BoxedStrategy<Body> {
    let long = (prop::sample::select(vec!["dn", "tr"]), prop_oneof![3 => 200usize..5_000, 1 => 5_000usize..90_000]).prop_map(|(k, n)| vec![format!("{k}={}", "y".repeat(n))]);
    let params = prop_oneof![9 => params(), 1 => long];
    (any::<[u8; 20]>(), any::<u64>(), params.clone(), params)
        .prop_map(|(hash, case, before, after)| Body::Magnet { hash, case, before, after })
        .boxed()
}

fn body() -> BoxedStrategy<Body> {
    let near = (magnet(), any::<u16>(), 0u8..4, any::<u8>()).prop_map(|(m, p, k, x)| {
        let mut b = bytes(&m);
        let p = p as usize % b.len();
        match k {
            0 => b.truncate(p),
            1 => b[p] = x,
            2 => {
                b.remove(p);
            }
            _ => b.insert(p, x),
        }
        Body::Bytes(b)
    });
    let short = (any::<[u8; 20]>(), 0usize..80).prop_map(|(h, n)| {
        let mut d = hex(&h, 0);
        d.truncate(n);
        d += &"0".repeat(n.saturating_sub(40));
        Body::Bytes(format!("magnet:?{PREFIX}{d}").into_bytes())
    });
    prop_oneof![
        5 => magnet(),
        3 => near,
        1 => short,
        1 => vec(any::<u8>(), 0..40).prop_map(Body::Bytes),
        1 => Just(Body::Bytes(vec![])),
        1 => prop::sample::select(vec!["magnet:?", "magnet:", "m", "magnet:?xt=urn:btih:", "{\"magnet\":1}", "\u{0}", "\n"]).prop_map(|s| Body::Bytes(s.as_bytes().to_vec())),
        1 => prop_oneof![Just(1_000u32), Just(8_192), Just(40_000), 250_000u32..400_000].prop_map(Body::Long),
    ]
    .boxed()
}

fn how() -> BoxedStrategy<How> {
    (prop::option::weighted(0.2, 1u16..60), prop::bool::weighted(0.1), prop_oneof![3 => Just(0u8), 3 => 1u8..6, 1 => 6u8..8], prop_oneof![3 => Just(vec![]), 1 => vec(1u16..80, 0..6)], prop::bool::weighted(0.1))
        .prop_map(|(chunked, expect, content_type, cuts, http10)| How { chunked, expect: expect && !http10, content_type, cuts, http10 })
        .boxed()
}

fn odd() -> BoxedStrategy<Odd> {
    let word = || prop_oneof![2 => prop::sample::select(vec!["GET", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH"]).prop_map(String::from), 1 => "[A-Z]{1,10}"];
    let path = || prop_oneof![2 => Just("/add/magnet".to_string()), 1 => Just("/".into()), 2 => "(/[a-z0-9%._-]{0,8}){1,4}", 1 => "/[a-z]{0,2000}"];
    prop_oneof![
        3 => (word(), path(), vec(any::<u8>(), 0..20))
            .prop_filter("not the API itself, nor a tunnel", |(m, _, _)| m != "POST" && m != "CONNECT")
            .prop_map(|(method, path, body)| Odd::Request { method, path, body }),
        2 => path().prop_filter("not the API itself", |p| !p.to_ascii_lowercase().contains("add") && !p.contains('%')).prop_map(|path| Odd::Request {
            method: "POST".into(),
            path,
            body: format!("magnet:?{PREFIX}{}", "cd".repeat(20)).into_bytes(),
        }),
        2 => (vec(any::<u8>(), 0..100), any::<bool>()).prop_map(|(b, h)| Odd::Garbage(b, h)),
        1 => (vec(any::<u8>(), 0..60), any::<bool>()).prop_map(|(b, h)| Odd::Garbage([b"POST /add/magnet HTTP/1.1\r\n".to_vec(), b].concat(), h)),
        3 => (any::<u8>(), any::<bool>()).prop_map(|(n, h)| Odd::Half(n as u16, h)),
        1 => prop_oneof![2 => 1u8..30, 1 => 30u8..=255].prop_map(Odd::Idle),
        2 => (-60i8..20).prop_map(Odd::WrongLength),
    ]
    .boxed()
}

fn steps() -> BoxedStrategy<Vec<Step>> {
    let one = prop_oneof![
        6 => (body(), how(), any::<bool>()).prop_map(|(b, h, r)| Step::Post(b, h, r)),
        1 => vec(body().prop_filter("small", |b| !matches!(b, Body::Long(_))), 1..5).prop_map(Step::Pipelined),
        2 => (any::<u64>(), prop_oneof![1u8..16, 16u8..60], 1u8..12).prop_map(|(seed, magnets, connections)| Step::Burst { seed, magnets, connections }),
        4 => odd().prop_map(Step::Odd),
        1 => any::<u8>().prop_map(Step::Pause),
        1 => Just(Step::Again),
    ];
    vec(one, 1..10).boxed()
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    let tr = prop_oneof![
        8 => Just(Tr::Answers { lose: 0, wait: 0 }),
        1 => Just(Tr::Silent),
        1 => Just(Tr::Error),
        1 => (0u16..400).prop_map(|wait| Tr::Answers { lose: 0, wait }),
        1 => (0u8..4, 0u16..100).prop_map(|(lose, wait)| Tr::Answers { lose, wait }),
    ];
    let trackers = prop_oneof![3 => Just(vec![]), 2 => vec(tr, 18)];
    let n = || prop_oneof![3 => Just(0u8), 1 => 1u8..4];
    (trackers, n(), n(), prop_oneof![3 => Just(0u8), 1 => 1u8..4], steps())
        .prop_map(|(trackers, gone, deaf, mute, steps)| Case { trackers, gone, deaf, mute, steps })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C23",
        rule: "Sequences of requests to the real program in a network namespace of its own: magnets among other parameters, near-magnets, noise \
               and oversized bodies, posted whole, chunked, in segments, pipelined, over kept and new connections and in concurrent bursts of \
               up to 60; other methods and paths, garbage, half requests, held and idle connections. All 18 built-in trackers are played by \
               stand-ins that answer, stay silent, lose packets or return peers that refuse, ignore or stall. Valid magnets have to be answered \
               200 and announced to every tracker that answers, all else 4xx and not announced; afterwards 24 new connections have to be \
               served. Non-trivial: a magnet was accepted or two requests answered.",
        assumptions: vec!["an answer or announce that is missing counts when it is on two more runs (answers have 20 s, announces 15 s after the last one)"],
        parts: vec![part(Spec { name: "sessions", quick: 480, thorough: 15_000, threads: 32, crumbs: true, confirm: 2, shrink: 16, strategy: cases, check })],
        program: true,
    }
}
