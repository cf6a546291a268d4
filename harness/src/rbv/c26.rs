//! C26: HTTP tracker announces carry the info hash and return all peers.
use super::engine::*;
use super::refbenc::{self, BV};
use super::torrents::{entries, entry};
use super::udp::{endpoints, hash, shown, End};
use crate::tracker::get_peers_by_tracker;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Good { peers: Vec<[u8; 6]>, tail: Vec<u8>, more: BTreeMap<String, BV> },
    /// as many made-up peers
    Many(u16, u64),
    /// only the first n (modulo the length) bytes of it
    Truncated(Vec<[u8; 6]>, u16),
    Failure(String),
    /// "peers" is something else
    Peers(BV, BTreeMap<String, BV>),
    Value(BV),
    Raw(Vec<u8>),
    /// one byte of a good answer is another
    Bent(Vec<[u8; 6]>, u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Frame {
    Length,
    Close,
    Chunked(u16),
    /// if the client takes it
    Gzip,
    Deflate,
    Brotli,
    /// announces this many more bytes than it sends
    Missing(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Server {
    Answers,
    Dead,
    /// closes the connection at once, or after the request
    Closes(bool),
    /// closes after that many bytes of the answer's head
    HeadCut(u8),
    /// never answers
    Silent,
    /// instead of an answer
    Noise(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hash: [u8; 20],
    path: String,
    query: Option<Vec<(String, String)>>,
    server: Server,
    status: u16,
    frame: Frame,
    headers: u8,
    body: Body,
    cuts: Vec<u16>,
    /// before its answer the tracker sends the client elsewhere: status, and whether the whole URL is given
    #[serde(default)]
    hops: Vec<(u16, bool)>,
}

fn good(peers: &[[u8; 6]], tail: &[u8], more: &BTreeMap<String, BV>) -> Vec<u8> {
    let mut d = more.clone();
    d.insert("peers".into(), BV::S([peers.concat(), tail.to_vec()].concat()));
    BV::D(d).enc()
}

fn bytes_of(b: &Body) -> Vec<u8> {
    match b {
        Body::Good { peers, tail, more } => good(peers, tail, more),
        Body::Many(n, seed) => good(&super::udp::K::many(*n, *seed), &[], &BTreeMap::new()),
        Body::Truncated(p, n) => {
            let mut b = BV::dict(vec![("complete", BV::I(3)), ("interval", BV::I(1800)), ("peers", BV::S(p.concat()))]).enc();
            b.truncate(*n as usize % b.len());
            b
        }
        Body::Failure(t) => BV::dict(vec![("failure reason", BV::s(t))]).enc(),
        Body::Peers(v, more) => {
            let mut d = more.clone();
            d.insert("peers".into(), v.clone());
            BV::D(d).enc()
        }
        Body::Value(v) => v.enc(),
        Body::Raw(b) => b.clone(),
        Body::Bent(p, at, x) => {
            let mut b = BV::dict(vec![("interval", BV::I(1800)), ("peers", BV::S(p.concat())), ("z", BV::L(vec![BV::I(1)]))]).enc();
            let at = *at as usize % b.len();
            b[at] ^= x;
            b
        }
    }
}

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// A gzip file of stored blocks.
fn gzip(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let chunks: Vec<&[u8]> = if b.is_empty() { vec![b] } else { b.chunks(65535).collect() };
    for (i, c) in chunks.iter().enumerate() {
        o.push((i + 1 == chunks.len()) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend_from_slice(c);
    }
    o.extend(crc32(b).to_le_bytes());
    o.extend((b.len() as u32).to_le_bytes());
    o
}

/// A zlib stream of stored blocks.
fn deflate(b: &[u8]) -> Vec<u8> {
    let g = gzip(b);
    let (mut x, mut y) = (1u32, 0u32);
    for v in b {
        x = (x + *v as u32) % 65521;
        y = (y + x) % 65521;
    }
    [&[0x78, 0x01], &g[10..g.len() - 8], &(y << 16 | x).to_be_bytes()].concat()
}

/// A brotli stream of uncompressed meta-blocks.
fn brotli(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (i, c) in b.chunks(65536).enumerate() {
        // a bit for the window in front of the first; not the last, four nibbles of length, uncompressed
        let bits = (c.len() as u32 - 1) << 3 | 1 << 19;
        let bits = if i == 0 { bits << 1 } else { bits };
        o.extend(&bits.to_le_bytes()[..3]);
        o.extend_from_slice(c);
    }
    // the last, empty
    o.push(if b.is_empty() { 6 } else { 3 });
    o
}

fn answer(c: &Case, head: &str) -> Vec<u8> {
    let body = bytes_of(&c.body);
    let takes = |e: &str| head.to_ascii_lowercase().lines().any(|l| l.strip_prefix("accept-encoding:").map_or(false, |v| v.split(',').any(|x| x.trim() == e)));
    let mut h = format!("HTTP/1.1 {} Whatever\r\n", c.status);
    if c.headers & 1 != 0 {
        h += "Content-Type: text/plain\r\n";
    }
    if c.headers & 2 != 0 {
        h += "X-Powered-By: a tracker\r\nDate: Thu, 01 Jan 1970 00:00:00 GMT\r\n";
    }
    if c.headers & 4 != 0 {
        h += "connection: close\r\n";
    }
    let mut framed = vec![];
    match &c.frame {
        Frame::Gzip if takes("gzip") => {
            framed = gzip(&body);
            h += &format!("Content-Encoding: gzip\r\nContent-Length: {}\r\n", framed.len());
        }
        Frame::Deflate if takes("deflate") => {
            framed = deflate(&body);
            h += &format!("Content-Encoding: deflate\r\nContent-Length: {}\r\n", framed.len());
        }
        Frame::Brotli if takes("br") => {
            framed = brotli(&body);
            h += &format!("Content-Encoding: br\r\nContent-Length: {}\r\n", framed.len());
        }
        Frame::Length | Frame::Gzip | Frame::Deflate | Frame::Brotli => {
            h += &format!("Content-Length: {}\r\n", body.len());
            framed = body;
        }
        Frame::Close => {
            if c.headers & 4 == 0 {
                h += "Connection: close\r\n";
            }
            framed = body;
        }
        Frame::Missing(n) => {
            h += &format!("Content-Length: {}\r\n", body.len() + *n as usize);
            framed = body;
        }
        Frame::Chunked(n) => {
            h += "Transfer-Encoding: chunked\r\n";
            for c in body.chunks(*n as usize) {
                framed.extend(format!("{:x}\r\n", c.len()).bytes());
                framed.extend_from_slice(c);
                framed.extend(b"\r\n");
            }
            framed.extend(b"0\r\n\r\n");
        }
    }
    h += "\r\n";
    if let Server::HeadCut(n) = c.server {
        return h.as_bytes()[..(n as usize).min(h.len() - 4)].to_vec();
    }
    [h.into_bytes(), framed].concat()
}

/// Serves until told to stop; returns the heads of the requests.
fn serve(l: TcpListener, c: &Case, over: &std::sync::atomic::AtomicBool) -> Vec<String> {
    let mut heads = vec![];
    let mut held = vec![];
    l.set_nonblocking(true).unwrap();
    loop {
        if over.load(std::sync::atomic::Ordering::SeqCst) {
            return heads;
        }
        let mut s = match l.accept() {
            Ok((s, _)) => s,
            Err(_) => {
                std::thread::sleep(Duration::from_millis(1));
                continue;
            }
        };
        if c.server == Server::Closes(false) {
            continue;
        }
        let _ = s.set_nonblocking(false);
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
        let mut head = vec![];
        let mut b = [0; 4096];
        while !head.windows(4).any(|w| w == b"\r\n\r\n") {
            match s.read(&mut b) {
                Ok(n) if n > 0 => head.extend_from_slice(&b[..n]),
                _ => break,
            }
        }
        if head.is_empty() {
            continue;
        }
        let head: String = head.iter().map(|b| *b as char).collect();
        heads.push(head.clone());
        match &c.server {
            Server::Closes(_) | Server::Dead => {}
            Server::Silent => held.push(s),
            Server::Noise(b) => {
                let _ = s.write_all(b);
            }
            Server::Answers | Server::HeadCut(_) => {
                let a = match c.hops.get(heads.len() - 1) {
                    None => answer(c, &head),
                    Some((status, whole)) => {
                        let target = head.split(' ').nth(1).unwrap_or("/");
                        let host = if *whole { format!("http://{}", s.local_addr().unwrap()) } else { String::new() };
                        format!("HTTP/1.1 {status} Elsewhere\r\nLocation: {host}/hop{}{target}\r\nContent-Length: 0\r\n\r\n", heads.len()).into_bytes()
                    }
                };
                let mut at = 0;
                for n in &c.cuts {
                    let e = (at + *n as usize).min(a.len());
                    if e > at {
                        let _ = s.write_all(&a[at..e]);
                        std::thread::sleep(Duration::from_millis(2));
                    }
                    at = e;
                }
                let _ = s.write_all(&a[at..]);
            }
        }
    }
}

fn decoded(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                o.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
                i += 3;
            }
            // a plus sign is itself in percent-encoding, and not every tracker takes it for a blank
            x => {
                o.push(x);
                i += 1;
            }
        }
    }
    Some(o)
}

fn pairs(q: &str) -> Vec<(Option<Vec<u8>>, Option<Vec<u8>>)> {
    q.split('&').filter(|p| !p.is_empty()).map(|p| p.split_once('=').map_or((decoded(p), Some(vec![])), |(k, v)| (decoded(k), decoded(v)))).collect()
}

fn request_rules(c: &Case, url: &url::Url, k: usize, head: &str) -> Outcome {
    let line = head.lines().next().unwrap_or("");
    let words: Vec<&str> = line.split(' ').collect();
    ensure!(words.len() == 3 && words[0] == "GET" && words[2].starts_with("HTTP/1."), "request line {line:?}");
    let (path, query) = words[1].split_once('?').unwrap_or((words[1], ""));
    // after k redirections
    let k = if matches!(c.server, Server::Answers | Server::HeadCut(_)) { k.min(c.hops.len()) } else { 0 };
    let want = format!("{}{}", (1..=k).rev().map(|i| format!("/hop{i}")).collect::<String>(), url.path());
    ensure!(decoded(path) == decoded(&want), "path {path:?} requested instead of {want:?}");
    let got = pairs(query);
    let own = pairs(url.query().unwrap_or(""));
    let mut rest = got.clone();
    for p in &own {
        match rest.iter().position(|x| x == p) {
            Some(i) => {
                rest.remove(i);
            }
            None => return fail(format!("the tracker's own query parameter {p:?} is missing from {query:?}")),
        }
    }
    let of = |k: &str| -> Vec<_> { rest.iter().filter(|p| p.0.as_deref() == Some(k.as_bytes())).map(|p| p.1.clone()).collect() };
    let h = of("info_hash");
    ensure!(h == vec![Some(c.hash.to_vec())], "info hash {:02x?} requested as {h:02x?} ({query:?})", c.hash);
    let id = of("peer_id");
    ensure!(id.len() == 1 && id[0].as_ref().map_or(false, |i| i.len() == 20), "peer ids {id:?} in {query:?}");
    let want = format!("{}:{}", url.host_str().unwrap(), url.port().unwrap());
    let hosts: Vec<&str> = head.lines().skip(1).filter_map(|l| l.split_once(':')).filter(|(k, _)| k.eq_ignore_ascii_case("host")).map(|(_, v)| v.trim()).collect();
    ensure!(hosts == [want.as_str()], "Host {hosts:?} instead of {want}");
    Ok(())
}

/// The peers the answer carries; None if it is a bad answer; Err if it may be taken either way.
fn expected(c: &Case) -> Result<Option<Vec<String>>, ()> {
    if c.server != Server::Answers || c.status >= 400 {
        return Ok(None);
    }
    let body = bytes_of(&c.body);
    let from_doc = |b: &[u8]| match refbenc::classify(b) {
        refbenc::Verdict::Valid(end) if end == b.len() => match peers_of(b) {
            Some(p) => Ok(Some(endpoints(&p))),
            None => Ok(None),
        },
        refbenc::Verdict::Malformed | refbenc::Verdict::NoDocument => Ok(None),
        _ => Err(()),
    };
    let r = from_doc(&body);
    match (&c.frame, r) {
        // the document may be whole although the answer is not
        (Frame::Missing(_), Ok(Some(_))) => Err(()),
        (_, r) => r,
    }
}

/// The value of "peers" at the top of a valid document, if it is a dictionary with such a string.
fn peers_of(b: &[u8]) -> Option<Vec<u8>> {
    if b.first() != Some(&b'd') {
        return None;
    }
    let mut at = 1;
    let mut found = None;
    while b.get(at) != Some(&b'e') {
        let (k, e) = string(b, at)?;
        at = e;
        let end = match refbenc::classify(&b[at..]) {
            refbenc::Verdict::Valid(n) | refbenc::Verdict::Free(n) => at + n,
            _ => return None,
        };
        if k == b"peers" {
            found = Some(string(b, at).map(|x| x.0.to_vec()));
        }
        at = end;
    }
    found?
}

fn string(b: &[u8], at: usize) -> Option<(&[u8], usize)> {
    let colon = at + b[at..].iter().position(|x| *x == b':')?;
    let n: usize = std::str::from_utf8(&b[at..colon]).ok()?.parse().ok()?;
    Some((b.get(colon + 1..colon + 1 + n)?, colon + 1 + n))
}

const BOUND: Duration = Duration::from_secs(30);

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    // an address of its own, so that nobody else gets the port of a server that is gone
    announce(c, super::peers::listen(), obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    /// announces to the same tracker, one after the other; path and query are those of the first
    rounds: Vec<Case>,
}

fn again(c: &History, obs: &mut Obs) -> Outcome {
    let l = super::peers::listen();
    for (i, r) in c.rounds.iter().enumerate() {
        let r = Case { path: c.rounds[0].path.clone(), query: c.rounds[0].query.clone(), ..r.clone() };
        announce(&r, l.try_clone().expect("no second listener"), obs).map_err(|f| Fail { msg: format!("round {i}: {}", f.msg), ..f })?;
    }
    Ok(())
}

fn announce(c: &Case, l: TcpListener, obs: &mut Obs) -> Outcome {
    let mut u = format!("http://{}{}", l.local_addr().unwrap(), c.path);
    if let Some(q) = &c.query {
        u += "?";
        u += &q.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&");
    }
    let url = url::Url::parse(&u).unwrap();
    let dead = c.server == Server::Dead;
    let over = std::sync::atomic::AtomicBool::new(false);
    let started = Instant::now();
    let (end, heads) = std::thread::scope(|s| {
        let l = if dead {
            drop(l);
            None
        } else {
            Some(l)
        };
        let over = &over;
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, move || l.map_or(vec![], |l| serve(l, c, over))).unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        let (url, hash) = (url.clone(), c.hash);
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let r = no_panic("the announce", || rt.block_on(get_peers_by_tracker(&url, &hash)));
            let _ = tx.send(match r {
                Ok(Ok(p)) => End::Peers(p),
                Ok(Err(e)) => End::Error(e.to_string()),
                Err(f) => End::Panic(f.msg),
            });
        });
        let end = rx.recv_timeout(BOUND).unwrap_or(End::Hung);
        over.store(true, std::sync::atomic::Ordering::SeqCst);
        (end, h.join().unwrap())
    });
    let slow = started.elapsed() > Duration::from_millis(200);
    for (k, h) in heads.iter().enumerate() {
        request_rules(c, &url, k, h)?;
    }
    let want = expected(c);
    match (&want, end) {
        (_, End::Panic(m)) => return fail(m),
        (_, End::Hung) => return soft(format!("no result after {BOUND:?}")),
        (Ok(Some(w)), End::Peers(p)) => {
            let p = shown(&p);
            let k = p.iter().zip(w).take_while(|(a, b)| a == b).count();
            ensure!(&p == w, "{} peers returned of {} in the answer; the first {k} agree", p.len(), w.len());
            obs.nontrivial = !w.is_empty();
            obs.label("peers");
            obs.count("peers", p.len() as u64);
        }
        (Ok(Some(w)), End::Error(m)) => return soft(format!("the error {m:?} instead of {} peers (after {:?})", w.len(), started.elapsed())),
        (Ok(None), End::Peers(p)) => return fail(format!("{} peers from a bad answer", p.len())),
        (Ok(None), End::Error(_)) => {
            obs.nontrivial = true;
            obs.label("error");
        }
        (Err(()), _) => obs.label("either way"),
    }
    ensure!(dead || !heads.is_empty() || slow || c.server == Server::Closes(false), "no request was made");
    if !c.hops.is_empty() {
        obs.label("redirected");
    }
    if c.query.is_some() {
        obs.label("query kept");
    }
    obs.label(format!("{:?}", c.frame).split('(').next().unwrap().to_string());
    Ok(())
}

fn path() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just("/announce".to_string()),
        1 => Just(String::new()),
        1 => Just("/announce.php".to_string()),
        2 => "(/[a-zA-Z0-9._~-]{1,10}){1,4}",
        1 => "(/[a-zA-Z0-9._~%!$'()*+,;:@=-]{1,8}){1,3}/?".prop_map(|s| s.replace('%', "%41")),
    ]
    .prop_map(|p| p.split('/').map(|s| if s.chars().all(|c| c == '.') { "" } else { s }).collect::<Vec<_>>().join("/"))
    .boxed()
}

fn query() -> BoxedStrategy<Option<Vec<(String, String)>>> {
    let key = prop_oneof![2 => "[a-z_]{3,9}", 1 => Just("passkey".to_string()), 1 => Just("k".to_string())]
        .prop_filter("not the announce's own", |k| k != "info_hash" && k != "peer_id");
    let val = prop_oneof![3 => "[a-zA-Z0-9._~-]{0,20}", 1 => "[a-zA-Z0-9.+_~=:/?@%-]{0,12}".prop_map(|s| s.replace('%', "%2F"))];
    prop::option::of(vec((key, val), 0..4)).boxed()
}

fn more() -> BoxedStrategy<BTreeMap<String, BV>> {
    let key = prop_oneof![
        4 => prop::sample::select(vec!["complete", "incomplete", "interval", "min interval", "tracker id", "warning message", "external ip", "downloaded", "peers6", "peer", "z"]).prop_map(|s| s.to_string()),
        1 => refbenc::text(),
    ]
    .prop_filter("other keys", |k| k != "peers" && k != "failure reason");
    prop_oneof![1 => Just(BTreeMap::new()), 3 => prop::collection::btree_map(key, refbenc::value(20), 0..6)].boxed()
}

fn peers(max: usize) -> BoxedStrategy<Vec<[u8; 6]>> {
    prop_oneof![5 => entries(0..20), 1 => entries(0..max)].boxed()
}

fn body() -> BoxedStrategy<Body> {
    let good = || (peers(400), prop_oneof![4 => Just(vec![]), 1 => vec(any::<u8>(), 0..6)], more()).prop_map(|(peers, tail, more)| Body::Good { peers, tail, more });
    let list_peer = (any::<u16>(), "[0-9.]{0,15}").prop_map(|(p, ip)| BV::dict(vec![("ip", BV::s(&ip)), ("port", BV::I(p as u64))]));
    prop_oneof![
        40 => good(),
        1 => (prop_oneof![1u16..5_000, 1u16..20_000], any::<u64>()).prop_map(|(n, s)| Body::Many(n, s)),
        12 => (peers(50), any::<u16>()).prop_map(|(p, n)| Body::Truncated(p, n)),
        4 => "[ -~]{0,40}".prop_map(Body::Failure),
        4 => (prop_oneof![refbenc::int().prop_map(BV::I), vec(list_peer, 0..4).prop_map(BV::L), refbenc::value(8)], more()).prop_map(|(v, m)| Body::Peers(v, m)),
        4 => more().prop_map(|m| Body::Value(BV::D(m))),
        4 => refbenc::value(30).prop_map(Body::Value),
        4 => vec(any::<u8>(), 0..60).prop_map(Body::Raw),
        4 => vec(prop::sample::select(b"deil0123456789:-peers".to_vec()), 0..40).prop_map(Body::Raw),
        8 => (peers(20), any::<u16>(), 1u8..=255).prop_map(|(p, n, x)| Body::Bent(p, n, x)),
    ]
    .boxed()
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    let server = prop_oneof![
        30 => Just(Server::Answers),
        1 => Just(Server::Dead),
        1 => any::<bool>().prop_map(Server::Closes),
        1 => any::<u8>().prop_map(Server::HeadCut),
        1 => Just(Server::Silent),
        1 => vec(any::<u8>(), 0..60).prop_map(Server::Noise),
        1 => vec(any::<u8>(), 0..30).prop_map(|b| Server::Noise([b"HTTP/1.1 200 OK\r\n".to_vec(), b].concat())),
    ];
    let status = prop_oneof![12 => Just(200u16), 1 => prop::sample::select(vec![400u16, 403, 404, 410, 429, 500, 502, 503]), 1 => 400u16..600];
    let frame = prop_oneof![6 => Just(Frame::Length), 2 => Just(Frame::Close), 2 => (1u16..200).prop_map(Frame::Chunked), 2 => Just(Frame::Gzip), 1 => Just(Frame::Deflate), 1 => Just(Frame::Brotli), 1 => (1u16..50).prop_map(Frame::Missing)];
    let cuts = prop_oneof![3 => Just(vec![]), 1 => vec(1u16..60, 0..12)];
    let hop = || (prop::sample::select(vec![301u16, 302, 303, 307, 308]), any::<bool>());
    let hops = prop_oneof![9 => Just(vec![]), 1 => vec(hop(), 1..4)];
    (hash26(), path(), query(), server, status, frame, any::<u8>(), body(), cuts, hops)
        .prop_map(|(hash, path, query, server, status, frame, headers, body, cuts, hops)| Case { hash, path, query, server, status, frame, headers, body, cuts, hops })
        .boxed()
}

fn histories(t: Tier) -> BoxedStrategy<History> {
    vec(cases(t), 2..5)
        .prop_map(|mut rounds| {
            for r in &mut rounds {
                if r.server == Server::Dead {
                    r.server = Server::Answers;
                }
            }
            History { rounds }
        })
        .boxed()
}

/// Every kind of byte that has a meaning in a URL.
fn hash26() -> BoxedStrategy<[u8; 20]> {
    let b = prop_oneof![2 => any::<u8>(), 2 => prop::sample::select(b"%&=+?#/ ~-_.!*'():;@,$\0\x7f\x80\xff\n\rAz09".to_vec())];
    prop_oneof![2 => hash(), 3 => prop::array::uniform20(b)].boxed()
}

pub fn property() -> Property {
    Property {
        id: "C26",
        rule: "Announces to scripted HTTP trackers with generated paths, existing queries and info hashes (all bytes, those with a meaning in \
               URLs more often). The request the tracker hears has to keep path and query, name the tracker as Host and carry the exact hash \
               and a 20-byte peer id. Answers: compact lists of 0-400 peers (now and then up to 20,000) among other keys, sent with a length, chunked, gzipped or until \
               close, in generated segments, some after one to three redirections; truncated, bent, mistyped or missing lists, other values, failure reasons, error statuses, noise, \
               closed and silent connections. Oracle: the peers served, or an error, decided by the reference bencode recogniser. \
               In a second part two to four such announces follow each other to the same tracker. \
               Non-trivial: peers were served, or an error was due.",
        assumptions: vec![
            "failure reasons next to peers, and answers the connection ends before their announced length but after a whole document are not judged",
            "an error instead of peers counts when it repeats on three more runs (the client's patience is 400 ms)",
        ],
        parts: vec![
            part(Spec { name: "announces", quick: 50_000, thorough: 1_000_000, threads: 24, crumbs: true, confirm: 3, shrink: 300, strategy: cases, check }),
            part(Spec { name: "again", quick: 6_000, thorough: 100_000, threads: 24, crumbs: true, confirm: 3, shrink: 300, strategy: histories, check: again }),
        ],
        program: false,
    }
}
