//! C02: an honest peer's piece is fetched complete and byte-exact.
use super::engine::*;
use super::peers::*;
use super::wire::{self, Heard};
use crate::ensure;
use crate::peer::manager;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    geo: Geo,
    manner: Manner,
    /// an attempt before this one, by a peer that gives so many blocks, right or wrong, and then chokes or is gone
    before: Option<(u8, bool, bool)>,
}

fn failing(c: &Case, (blocks, right, chokes): (u8, bool, bool)) -> Outcome {
    let g = &c.geo;
    let (info, hash) = g.info(g.hashes(&[]))?;
    let data = g.data();
    let (r, _) = with_peer(
        |link| {
            if !Manner::plain().open(link, &hash, g.pieces(), 1000) {
                return;
            }
            let mut left = blocks as u64 % g.blocks();
            while let Some(m) = link.recv() {
                if let Heard::Request(p, o, l) = m {
                    if left == 0 {
                        if chokes {
                            link.send(&wire::msg(0, &[]));
                        } else {
                            link.close();
                        }
                        return;
                    }
                    let (o, l) = (o as usize, l as usize);
                    let mut d = data.get(o..(o + l).min(data.len())).unwrap_or(&[]).to_vec();
                    if !right {
                        d.iter_mut().for_each(|x| *x ^= 0x55);
                    }
                    link.send(&wire::msg(7, &wire::block(p, o as u32, &d)));
                    left -= 1;
                }
            }
        },
        |addr| no_panic("the fetch", || manager::download(addr.to_string(), &hash, &info, g.idx as usize)),
    );
    if let Ok(p) = r? {
        ensure!(p == data, "piece {} returned with other bytes than the torrent's", g.idx);
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let g = &c.geo;
    if let Some(b) = c.before {
        failing(c, b)?;
        obs.label("after a failed attempt");
    }
    let (info, hash) = g.info(g.hashes(&[]))?;
    let data = g.data();
    let (r, peer) = with_peer(
        |link| {
            if !c.manner.open(link, &hash, g.pieces(), 1000) {
                return "the opening was cut short".to_string();
            }
            let mut k = 0;
            while let Some(m) = link.recv() {
                if let Heard::Request(p, o, l) = m {
                    let (o, l) = (o as usize, l as usize);
                    if p as u64 != g.idx || l == 0 || l > 16384 || o + l > data.len() {
                        return format!("request {k} is for {l} bytes at {o} of piece {p}");
                    }
                    let mut b = c.manner.before(k);
                    b.extend(wire::msg(7, &wire::block(p, o as u32, &data[o..o + l])));
                    link.send_cut(&b, &c.manner.cuts);
                    k += 1;
                }
            }
            format!("{k} blocks served")
        },
        |addr| no_panic("the fetch", || manager::download(addr.to_string(), &hash, &info, g.idx as usize)),
    );
    obs.nontrivial = g.blocks() > 1 || !c.manner.noise.is_empty() || !c.manner.cuts.sizes.is_empty();
    obs.label(format!("opening {:?}", c.manner.when));
    obs.label(match g.blocks() {
        1 => "1 block",
        2..=4 => "2-4 blocks",
        _ => "5 or more blocks",
    });
    if g.idx + 1 == g.pieces() && g.len() < g.piece_length {
        obs.label("short last piece");
    }
    if g.total > u32::MAX as u64 {
        obs.label("torrent beyond 4 GiB");
    }
    if !c.manner.cuts.sizes.is_empty() {
        obs.label("cut into segments");
    }
    if !c.manner.noise.is_empty() {
        obs.label("unrelated messages between blocks");
    }
    match r? {
        Ok(piece) => {
            ensure!(piece.len() == data.len(), "piece {} of {} bytes returned as {} bytes", g.idx, data.len(), piece.len());
            ensure!(piece == data, "piece {} returned with other bytes than the peer has", g.idx);
        }
        Err(e) => {
            return soft(format!(
                "piece {} of {} bytes was not fetched from an honest peer: {e} ({})",
                g.idx,
                data.len(),
                peer.map_or("not connected".into(), |p| p.0)
            ))
        }
    }
    Ok(())
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    (geo(if t == Tier::Thorough { 40 } else { 9 }), manner(), prop::option::weighted(0.15, any::<(u8, bool, bool)>())).prop_map(|(geo, manner, before)| Case { geo, manner, before }).boxed()
}

fn long(_t: Tier) -> BoxedStrategy<Case> {
    // many blocks: 1-4 MiB pieces, some of up to 32 MiB
    (prop_oneof![5 => 1u64 << 20..4 << 20, 1 => 4u64 << 20..16 << 20, 1 => 16u64 << 20..=32 << 20], 1u64..4, any::<u64>(), any::<u64>())
        .prop_map(|(pl, n, i, seed)| Case { geo: Geo { piece_length: pl, total: n * pl - (i >> 8) % pl, idx: i % n, seed }, manner: Manner::plain(), before: None })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "Fetches over TCP from a peer that conforms to the protocol: generated geometries (pieces from 1 byte to 9 blocks, 40 in \
               the thorough tier, some of 1-32 MiB; torrents of 1 byte to beyond 4 GiB), every order of bitfield, extension handshake and unchoke, \
               with the handshake or at three later moments, up to four other messages among them, others between the blocks, and the stream \
               cut into segments; some after an attempt at another peer that failed half-way. A failure counts when it repeats on three more runs. Non-trivial: several blocks, other messages or cuts.",
        assumptions: vec!["the client gets what it needs within its first ten reads", "the peer answers within the client's 100 ms windows"],
        parts: vec![
            part(Spec { name: "fetch", quick: 5_000, thorough: 80_000, threads: 48, crumbs: true, confirm: 3, shrink: 200, strategy: cases, check }),
            part(Spec { name: "long", quick: 60, thorough: 800, threads: 8, crumbs: true, confirm: 3, shrink: 40, strategy: long, check }),
        ],
        program: false,
    }
}
