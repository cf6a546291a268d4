//! C04: the client never requests data while choked.
use super::engine::*;
use super::peers::*;
use super::wire::{self, Heard};
use crate::ensure;
use crate::peer::manager;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Choke,
    Unchoke,
    /// announces the metadata size
    Ext,
    /// an extension handshake without metadata size
    ExtPlain,
    Have(u32),
    Bitfield,
    KeepAlive,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Answer {
    Data,
    /// data and, in the same segment, a choke
    DataChoke,
    /// a choke instead of the data, followed by these messages
    Choke(Vec<Ev>),
    /// a choke, and then the data all the same
    ChokeData,
    /// choke and unchoke, then the data
    ChokeUnchokeData,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    metadata: bool,
    geo: Geo,
    when: When,
    pre: Vec<Ev>,
    /// the answer to request k; Data after the end
    answers: Vec<Answer>,
    hang_up: bool,
}

fn bytes(e: &Ev, size: u64) -> Vec<u8> {
    match e {
        Ev::Choke => wire::msg(0, &[]),
        Ev::Unchoke => wire::msg(1, &[]),
        Ev::Ext => wire::msg(20, &wire::ext_handshake(Some(3), Some(size), &BTreeMap::new(), &BTreeMap::new())),
        Ev::ExtPlain => wire::msg(20, &wire::ext_handshake(Some(3), None, &BTreeMap::new(), &BTreeMap::new())),
        Ev::Have(n) => wire::msg(4, &n.to_be_bytes()),
        Ev::Bitfield => wire::msg(5, &[0xff]),
        Ev::KeepAlive => vec![0; 4],
    }
}

/// When the client becomes ready: the index of the message that does it.
fn ready_at(pre: &[Ev]) -> Option<usize> {
    let (mut choked, mut ext) = (true, false);
    for (i, e) in pre.iter().enumerate() {
        match e {
            Ev::Choke => choked = true,
            Ev::Unchoke => choked = false,
            Ev::Ext => ext = true,
            _ => {}
        }
        if !choked && ext {
            return Some(i);
        }
    }
    None
}

struct Seen {
    /// requests heard before the peer had sent what the client needs
    early: usize,
    requests: usize,
    /// how many requests may have been sent when the first choke after readiness is received
    allowed: Option<usize>,
    complete: bool,
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let g = &c.geo;
    let (info, hash) = g.info(g.hashes(&[]))?;
    let dict = g.dict(g.hashes(&[]));
    let data = if c.metadata { dict.clone() } else { g.data() };
    let n = (data.len() + 16383) / 16384;
    let ready = ready_at(&c.pre);
    let pre: Vec<u8> = c.pre.iter().flat_map(|e| bytes(e, dict.len() as u64)).collect();
    let manner = Manner { when: c.when.clone(), items: vec![], ..Manner::plain() };
    let is_request = |h: &Heard| matches!(h, Heard::Request(..)) || matches!(h, Heard::Extended(id, _) if *id != 0);
    let (r, peer) = with_peer(
        |link| {
            let mut s = Seen { early: 0, requests: 0, allowed: None, complete: false };
            if !manner.open(link, &hash, g.pieces(), 1) {
                return s;
            }
            s.early = link.heard.iter().filter(|h| is_request(h)).count();
            link.send(&pre);
            // a choke among the messages after the client is ready
            if let Some(r) = ready {
                if let Some(j) = c.pre[r + 1..].iter().position(|e| *e == Ev::Choke) {
                    // directly behind: nothing may be asked. Else the first request may already be on its way.
                    s.allowed = Some((j > 0) as usize);
                }
            }
            if ready.is_none() && c.hang_up {
                link.close_write();
            }
            while let Some(m) = link.recv() {
                if !is_request(&m) {
                    continue;
                }
                let k = s.requests;
                s.requests += 1;
                if s.allowed.is_some() {
                    // choked by now: no answers; what arrives is only counted
                    continue;
                }
                if ready.is_none() {
                    continue;
                }
                let answer = match &m {
                    Heard::Request(p, o, l) => {
                        let d: Vec<u8> = data.iter().skip(*o as usize).take(*l as usize).copied().collect();
                        wire::msg(7, &wire::block(*p, *o, &d))
                    }
                    Heard::Extended(..) => {
                        let p = metadata_request(&m).and_then(|x| x.1).unwrap_or(0) as usize;
                        let d: Vec<u8> = data.iter().skip(p * 16384).take(16384).copied().collect();
                        wire::msg(20, &wire::metadata_piece(1, p as u64, Some(data.len() as u64), &d))
                    }
                    _ => continue,
                };
                let choke = wire::msg(0, &[]);
                let last = k + 1 >= n;
                match c.answers.get(k).unwrap_or(&Answer::Data) {
                    Answer::Data => {
                        link.send(&answer);
                        s.complete = last;
                    }
                    Answer::DataChoke => {
                        link.send(&[answer, choke].concat());
                        s.complete = last;
                        // the next request may be sent before the choke is read
                        s.allowed = Some(k + 2);
                    }
                    Answer::Choke(more) => {
                        let mut b = choke;
                        b.extend(more.iter().flat_map(|e| bytes(e, dict.len() as u64)));
                        link.send(&b);
                        s.allowed = Some(k + 1);
                    }
                    Answer::ChokeData => {
                        link.send(&[choke, answer].concat());
                        s.allowed = Some(k + 1);
                    }
                    Answer::ChokeUnchokeData => {
                        link.send(&[choke, wire::msg(1, &[]), answer].concat());
                        s.allowed = Some(k + 1);
                    }
                }
            }
            s
        },
        |addr| {
            no_panic("the fetch", || {
                if c.metadata {
                    manager::get_info(&hash, addr).map(|_| ()).map_err(|e| e.to_string())
                } else {
                    manager::download(addr.to_string(), &hash, &info, g.idx as usize)
                        .map_err(|e| e.to_string())
                        .and_then(|d| if d == data { Ok(()) } else { Err(format!("WRONG DATA of {} bytes", d.len())) })
                }
            })
        },
    );
    let r = r?;
    let s = match peer {
        Some((s, _)) => s,
        None => return soft("the client did not connect"),
    };
    obs.label(if c.metadata { "metadata" } else { "block" });
    obs.label(match (ready, s.allowed) {
        (None, _) => "never ready",
        (_, None) => "not choked",
        (_, Some(0)) => "choked before the first request",
        _ => "choked while fetching",
    });
    obs.nontrivial = c.pre.len() > 2 && (ready.is_none() || s.allowed.is_some());
    ensure!(s.early == 0, "{} requests before the peer sent anything but its handshake", s.early);
    ensure!(
        !matches!(&r, Err(e) if e.starts_with("WRONG DATA")),
        "the fetch succeeded with other data than the peer has: {r:?}"
    );
    if ready.is_none() {
        ensure!(s.requests == 0, "{} requests to a peer that sent {:?}", s.requests, c.pre);
        ensure!(r.is_err(), "a fetch succeeded without the peer being ready");
    } else if let Some(a) = s.allowed {
        ensure!(
            s.requests <= a,
            "{} requests, where the client had received a choke after {a} of them (messages {:?}, answers {:?})",
            s.requests,
            c.pre,
            c.answers
        );
        ensure!(s.complete || r.is_err(), "the fetch succeeded although the peer choked in the middle");
    } else if let Err(e) = r {
        return soft(format!("a fetch from a peer that did not choke failed: {e}"));
    }
    Ok(())
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let ev = prop_oneof![
        3 => Just(Ev::Choke),
        3 => Just(Ev::Unchoke),
        3 => Just(Ev::Ext),
        1 => Just(Ev::ExtPlain),
        1 => any::<u32>().prop_map(Ev::Have),
        1 => Just(Ev::Bitfield),
        1 => Just(Ev::KeepAlive),
    ]
    .boxed();
    let pre = prop_oneof![
        // any history
        2 => vec(ev.clone(), 0..9),
        // one that makes the client ready, with anything before and after
        3 => (vec(ev.clone(), 0..4), any::<bool>(), vec(ev.clone(), 0..3)).prop_map(|(mut a, o, b)| {
            a.extend(if o { [Ev::Ext, Ev::Unchoke] } else { [Ev::Unchoke, Ev::Ext] });
            a.extend(b);
            a
        }),
        2 => any::<bool>().prop_map(|o| if o { vec![Ev::Ext, Ev::Unchoke] } else { vec![Ev::Unchoke, Ev::Ext] }),
    ];
    let answer = prop_oneof![
        4 => Just(Answer::Data),
        1 => Just(Answer::DataChoke),
        1 => vec(ev, 0..4).prop_map(Answer::Choke),
        1 => Just(Answer::ChokeData),
        1 => Just(Answer::ChokeUnchokeData),
    ];
    let blocks = if t == Tier::Thorough { 12 } else { 5 };
    // metadata of several pieces needs many hashes
    let wide = (1u64..20, 400u64..4000, any::<u64>()).prop_map(|(pl, n, seed)| Geo { piece_length: pl, total: pl * n, idx: seed % n, seed });
    let target = prop_oneof![
        2 => geo(blocks).prop_map(|g| (false, g)),
        1 => wide.prop_map(|g| (true, g)),
    ];
    let when = prop::sample::select(vec![When::AfterHandshake, When::AfterInterested, When::AfterExtension]);
    (target, when, pre, vec(answer, 0..6), prop::bool::weighted(0.8))
        .prop_map(|((metadata, geo), when, pre, answers, hang_up)| Case { metadata, geo, when, pre, answers, hang_up })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "Histories of up to nine choke, unchoke, extension handshake (with and without metadata size) and other messages before the \
               requests, and of answers with a choke behind, in place of, or before the data, for piece and metadata fetches. Requests the \
               peer hears are counted against the messages the client had received. Non-trivial: three or more messages, and either the \
               client never becomes ready or it is choked.",
        assumptions: vec!["messages of one segment are received together; a request that can have been sent before a choke was read is allowed"],
        parts: vec![part(Spec { name: "histories", quick: 8_000, thorough: 120_000, threads: 96, crumbs: true, confirm: 3, shrink: 300, strategy: cases, check })],
        program: false,
    }
}
