//! C27: compact peer lists are decoded exactly.
use super::engine::*;
use super::torrents::entries;
use crate::ensure;
use crate::tracker::peer_endpoint::PeerEndpoint;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, SocketAddr};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct List {
    entries: Vec<[u8; 6]>,
    tail: Vec<u8>,
}

pub fn matches(got: &[PeerEndpoint], entries: &[[u8; 6]]) -> Outcome {
    ensure!(got.len() == entries.len(), "{} endpoints from {} entries", got.len(), entries.len());
    for (i, (g, e)) in got.iter().zip(entries).enumerate() {
        let ip = Ipv4Addr::new(e[0], e[1], e[2], e[3]);
        let port = u16::from_be_bytes([e[4], e[5]]);
        ensure!(g.ip() == ip.to_string(), "entry {i}: address {} instead of {ip}", g.ip());
        ensure!(g.port() == port, "entry {i}: port {} instead of {port}", g.port());
        let ep = g.endpoint();
        match ep.parse::<SocketAddr>() {
            Ok(a) => ensure!(a == SocketAddr::new(ip.into(), port), "entry {i}: endpoint {ep} instead of {ip}:{port}"),
            Err(_) => return fail(format!("entry {i}: endpoint {ep} is no socket address")),
        }
        ensure!(ep == format!("{ip}:{port}"), "entry {i}: endpoint {ep} instead of {ip}:{port}");
    }
    Ok(())
}

fn check(c: &List, obs: &mut Obs) -> Outcome {
    let mut b = c.entries.concat();
    b.extend_from_slice(&c.tail[..c.tail.len().min(5)]);
    let got = no_panic("decoding a peer list", || PeerEndpoint::from_bytes(&b))?;
    obs.nontrivial = !c.entries.is_empty();
    if !c.tail.is_empty() {
        obs.label("incomplete trailing entry");
    }
    obs.count("entries", c.entries.len() as u64);
    matches(&got, &c.entries)
}

fn lists(t: Tier) -> BoxedStrategy<List> {
    let n = if t == Tier::Thorough { 2000 } else { 300 };
    (prop_oneof![6 => entries(0..12), 1 => entries(0..n)], vec(any::<u8>(), 0..6))
        .prop_map(|(entries, tail)| List { entries, tail })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Port(u16);
fn check_port(c: &Port, obs: &mut Obs) -> Outcome {
    obs.nontrivial = true;
    let p = c.0.to_be_bytes();
    let e = [[1, 2, 3, 4, p[0], p[1]], [p[0], p[1], p[1], p[0], 0, 1]];
    let got = no_panic("decoding a peer list", || PeerEndpoint::from_bytes(&e.concat()))?;
    matches(&got, &e)
}

pub fn property() -> Property {
    Property {
        id: "C27",
        rule: "Random compact lists (0 to 300 entries, boundary addresses and ports, 0-5 trailing bytes) decoded and compared with the \
               standard library's address formatting; a second part draws ports and address bytes uniformly. Non-trivial: at least one entry.",
        assumptions: vec![],
        parts: vec![
            part(Spec { name: "lists", quick: 900_000, thorough: 18_000_000, threads: 8, crumbs: false, confirm: 0, shrink: 3000, strategy: lists, check }),
            part(Spec { name: "ports", quick: 1_800_000, thorough: 36_000_000, threads: 8, crumbs: false, confirm: 0, shrink: 300, strategy: |_| any::<u16>().prop_map(Port).boxed(), check: check_port }),
        ],
        program: false,
    }
}
