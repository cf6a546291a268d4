//! C08: no peer can crash or exhaust the client.
use super::engine::*;
use super::peers::*;
use super::refbenc::*;
use super::torrents::sha1;
use super::wire;
use crate::peer::manager;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Chunk {
    Handshake,
    /// a message with a right or wrong length prefix
    Msg { id: u8, body: Vec<u8>, prefix: Option<u32> },
    Big { id: u8, seed: u64, len: u32 },
    /// an extension message: id byte, a dictionary given as text, data
    Ext { id: u8, dict: Vec<u8>, data: Vec<u8> },
    /// an extension dictionary with one entry replaced by an arbitrary value
    Odd { key: u8, value: BV, sub: bool },
    /// a dictionary nested this deep
    Deep { kind: u8, n: u32 },
    Raw(Vec<u8>),
    Prefix(u32),
    KeepAlives(u8),
    Unchoke,
    ExtOk(u64),
    /// answers the next request properly
    Serve(u8),
    /// an answer to the next request with other fields and length
    Block { piece: u32, offset: u32, len: u16 },
    Metadata { id: u8, piece: BV, kind: BV, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    metadata: bool,
    chunks: Vec<Chunk>,
    /// (position, xor, drop): edits of the assembled bytes behind the handshake
    edits: Vec<(u16, u8, u8)>,
    geo: Geo,
}

const OVERHEAD: usize = 4 << 20;
const PER_BYTE: usize = 1100;

fn assemble(c: &Case, hash: &[u8], dict: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut served = 0usize;
    for ch in &c.chunks {
        match ch {
            Chunk::Handshake => out.extend(wire::handshake(&wire::EXTENSION_BIT, hash, b"abcdefghijklmnopqrst")),
            Chunk::Msg { id, body, prefix } => {
                out.extend_from_slice(&prefix.unwrap_or(body.len() as u32 + 1).to_be_bytes());
                out.push(*id);
                out.extend_from_slice(body);
            }
            Chunk::Big { id, seed, len } => out.extend(wire::msg(*id, &filler(*seed, *len as usize))),
            Chunk::Ext { id, dict, data } => out.extend(wire::msg(20, &[&[*id], &dict[..], &data[..]].concat())),
            Chunk::Odd { key, value, sub } => {
                let mut m = BTreeMap::from([("ut_metadata".to_string(), BV::I(3)), ("ut_pex".to_string(), BV::I(1))]);
                let mut d = BTreeMap::from([("metadata_size".to_string(), BV::I(dict.len() as u64)), ("v".to_string(), BV::s("x"))]);
                if *sub {
                    m.insert(["ut_metadata", "ut_pex", "new"][*key as usize % 3].into(), value.clone());
                }
                d.insert("m".into(), BV::D(m));
                if !*sub {
                    d.insert(["m", "metadata_size", "msg_type", "piece", "total_size"][*key as usize % 5].into(), value.clone());
                }
                out.extend(wire::msg(20, &[vec![0], BV::D(d).enc()].concat()));
            }
            Chunk::Deep { kind, n } => {
                let unit: &[u8] = [&b"l"[..], b"d1:a", b"d1:md1:a", b"d0:l"][*kind as usize % 4];
                out.extend(wire::msg(20, &[vec![0], unit.repeat(*n as usize)].concat()));
            }
            Chunk::Raw(b) => out.extend_from_slice(b),
            Chunk::Prefix(p) => out.extend_from_slice(&p.to_be_bytes()),
            Chunk::KeepAlives(n) => out.extend(vec![0; 4 * *n as usize]),
            Chunk::Unchoke => out.extend(wire::msg(1, &[])),
            Chunk::ExtOk(id) => out.extend(wire::msg(20, &wire::ext_handshake(Some(*id), Some(dict.len() as u64), &BTreeMap::new(), &BTreeMap::new()))),
            Chunk::Serve(n) => {
                for _ in 0..*n {
                    let all = if c.metadata { dict } else { data };
                    let d: Vec<u8> = all.iter().skip(served * 16384).take(16384).copied().collect();
                    if c.metadata {
                        out.extend(wire::msg(20, &wire::metadata_piece(1, served as u64, None, &d)));
                    } else {
                        out.extend(wire::msg(7, &wire::block(c.geo.idx as u32, (served * 16384) as u32, &d)));
                    }
                    served += 1;
                }
            }
            Chunk::Block { piece, offset, len } => out.extend(wire::msg(7, &wire::block(*piece, *offset, &filler(*offset as u64, *len as usize)))),
            Chunk::Metadata { id, piece, kind, len } => {
                let d = BV::dict(vec![("msg_type", kind.clone()), ("piece", piece.clone())]).enc();
                out.extend(wire::msg(20, &[vec![*id], d, filler(*id as u64, *len as usize)].concat()));
            }
        }
    }
    for (at, x, drop) in &c.edits {
        if out.len() > 69 {
            let i = 68 + *at as usize % (out.len() - 68);
            out[i] ^= x;
            let n = (*drop as usize % 8).min(out.len() - i);
            if drop % 3 == 0 {
                out.drain(i..i + n);
            }
        }
    }
    out
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let g = &c.geo;
    let (info, hash) = g.info(g.hashes(&[]))?;
    let dict = g.dict(g.hashes(&[]));
    debug_assert!(sha1(&dict) == hash);
    let bytes = assemble(c, &hash, &dict, &g.data());
    let budget = OVERHEAD + PER_BYTE * bytes.len();
    let (r, peer) = with_peer(
        |link| {
            link.recv();
            // in one go, and then the end of the stream
            link.send(&bytes);
            link.close_write();
        },
        |addr| {
            let (r, peak) = super::alloc::with_budget(budget, || {
                no_panic("the fetch", || {
                    if c.metadata {
                        manager::get_info(&hash, addr).map(|_| ()).map_err(|e| e.to_string())
                    } else {
                        manager::download(addr.to_string(), &hash, &info, g.idx as usize).map(|_| ()).map_err(|e| e.to_string())
                    }
                })
            });
            r.map(|r| (r, peak))
        },
    );
    let (r, peak) = r?;
    let heard = peer.map_or(0, |p| p.1.heard.len());
    obs.nontrivial = heard > 1;
    obs.label(if c.metadata { "metadata" } else { "block" });
    obs.label(match heard {
        0 => "nothing heard",
        1 => "handshake refused",
        2 | 3 => "not asked",
        _ => "asked for data",
    });
    obs.label(match &r {
        Ok(_) => "fetched".to_string(),
        Err(e) => e.split(':').next().unwrap().to_string(),
    });
    obs.count("bytes sent", bytes.len() as u64);
    obs.count("peak KiB", (peak / 1024) as u64);
    Ok(())
}

fn odd_value() -> BoxedStrategy<BV> {
    prop_oneof![
        2 => int().prop_map(BV::I),
        1 => (0u32..64).prop_map(|e| BV::I(1 << e)),
        1 => Just(BV::I(0)),
        1 => Just(BV::S(vec![])),
        1 => Just(BV::L(vec![])),
        1 => Just(BV::D(BTreeMap::new())),
        1 => bytes(30).prop_map(BV::S),
        1 => value(10),
    ]
    .boxed()
}

fn chunk(t: Tier) -> BoxedStrategy<Chunk> {
    let prefix = prop_oneof![4 => Just(None), 1 => any::<u32>().prop_map(Some), 1 => (0u32..32).prop_map(|e| Some(1 << e)), 1 => (0u32..20).prop_map(Some)];
    let text = prop_oneof![
        2 => Just(b"d1:md11:ut_metadatai3ee13:metadata_sizei31235ee".to_vec()),
        1 => Just(b"d8:msg_typei1e5:piecei0ee".to_vec()),
        1 => Just(b"de".to_vec()),
        1 => Just(b"d1:m".to_vec()),
        1 => Just(b"i1e".to_vec()),
        1 => Just(b"9999999999999999999:a".to_vec()),
        1 => Just(b"4294967295:a".to_vec()),
        1 => Just(b"d1:mi0e13:metadata_size3:abce".to_vec()),
        1 => Just(vec![]),
        2 => bytes(40),
    ];
    let deep: u32 = if t == Tier::Thorough { 200_000 } else { 20_000 };
    prop_oneof![
        3 => (prop_oneof![3 => 0u8..10, 1 => 19u8..22, 1 => any::<u8>()], vec(any::<u8>(), 0..24), prefix).prop_map(|(id, body, prefix)| Chunk::Msg { id, body, prefix }),
        1 => (any::<u8>(), any::<u64>(), 0u32..60_000).prop_map(|(id, seed, len)| Chunk::Big { id, seed, len }),
        3 => (any::<u8>(), text, vec(any::<u8>(), 0..10)).prop_map(|(id, dict, data)| Chunk::Ext { id, dict, data }),
        4 => (any::<u8>(), odd_value(), any::<bool>()).prop_map(|(key, value, sub)| Chunk::Odd { key, value, sub }),
        1 => (any::<u8>(), prop_oneof![1u32..1000, 1u32..deep]).prop_map(|(kind, n)| Chunk::Deep { kind, n }),
        1 => vec(any::<u8>(), 1..40).prop_map(Chunk::Raw),
        1 => prop_oneof![any::<u32>(), (0u32..32).prop_map(|e| 1u32 << e), (0u32..32).prop_map(|e| (1u32 << e).wrapping_sub(1))].prop_map(Chunk::Prefix),
        1 => (1u8..60).prop_map(Chunk::KeepAlives),
        3 => Just(Chunk::Unchoke),
        3 => int().prop_map(|i| Chunk::ExtOk(i)),
        3 => (1u8..5).prop_map(Chunk::Serve),
        2 => (any::<u32>(), any::<u32>(), 0u16..20_000).prop_map(|(piece, offset, len)| Chunk::Block { piece, offset, len }),
        2 => (any::<u8>(), odd_value(), prop_oneof![2 => Just(BV::I(1)).boxed(), 1 => odd_value()], 0u16..20_000).prop_map(|(id, piece, kind, len)| Chunk::Metadata { id, piece, kind, len }),
    ]
    .boxed()
}

fn geos() -> BoxedStrategy<Geo> {
    let wide = (1u64..20, 400u64..3000, any::<u64>()).prop_map(|(pl, n, seed)| Geo { piece_length: pl, total: pl * n, idx: seed % n, seed });
    prop_oneof![2 => (1u64..70_000, 1u64..4, any::<u64>()).prop_map(|(pl, n, seed)| Geo { piece_length: pl, total: pl * n - seed % pl, idx: (seed >> 20) % n, seed }).boxed(), 1 => wide.boxed()].boxed()
}

/// Whole frames only: nothing the client has to wait for.
fn framed(t: Tier) -> BoxedStrategy<Case> {
    let whole = chunk(t).prop_map(|c| match c {
        Chunk::Raw(b) => Chunk::Msg { id: b[0], body: b[1..].to_vec(), prefix: None },
        Chunk::Prefix(_) => Chunk::Unchoke,
        Chunk::Msg { id, body, .. } => Chunk::Msg { id, body, prefix: None },
        c => c,
    });
    (any::<bool>(), geos(), prop_oneof![
        // straight to the data
        2 => vec(whole.clone(), 0..4).prop_map(|mut v| { let mut x = vec![Chunk::ExtOk(3), Chunk::Unchoke]; x.append(&mut v); x }),
        2 => vec(whole.clone(), 0..3).prop_flat_map(move |a| (Just(a), any::<bool>())).prop_map(|(mut a, o)| { a.push(if o { Chunk::ExtOk(1) } else { Chunk::Unchoke }); a.push(if o { Chunk::Unchoke } else { Chunk::ExtOk(1) }); a.push(Chunk::Serve(2)); a }),
        3 => vec(whole, 0..10),
    ])
        .prop_map(|(metadata, geo, mut v)| {
            v.insert(0, Chunk::Handshake);
            Case { metadata, chunks: v, edits: vec![], geo }
        })
        .boxed()
}

fn broken(t: Tier) -> BoxedStrategy<Case> {
    (any::<bool>(), geos(), prop::bool::weighted(0.9), prop::bool::weighted(0.6), vec(chunk(t), 0..7), vec((any::<u16>(), any::<u8>(), any::<u8>()), 0..4))
        .prop_map(|(metadata, geo, hs, ready, mut v, edits)| {
            if ready {
                v.insert(0, Chunk::Unchoke);
                v.insert(0, Chunk::ExtOk(2));
            }
            if hs {
                v.insert(0, Chunk::Handshake);
            }
            Case { metadata, chunks: v, edits, geo }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "Finite byte streams sent to a piece or metadata fetch: conversations with malformed, oversized, mistyped and deeply nested \
               extension dictionaries, short and odd messages in whole frames (part framed), and with wrong length prefixes, raw bytes, and \
               random edits of the stream (part broken). The fetch runs on a 2 MiB stack with an allocation budget of 4 MiB + 1100 bytes per \
               byte sent, and has to return. Non-trivial: the client accepted the handshake.",
        assumptions: vec!["streams are finite: the peer ends its side of the connection after the last byte"],
        parts: vec![
            part(Spec { name: "framed", quick: 30_000, thorough: 400_000, threads: 64, crumbs: true, confirm: 0, shrink: 300, strategy: framed, check }),
            part(Spec { name: "broken", quick: 2_500, thorough: 40_000, threads: 250, crumbs: true, confirm: 0, shrink: 60, strategy: broken, check }),
        ],
        program: false,
    }
}
