//! C03: block requests tile the piece exactly.
use super::engine::*;
use super::peers::*;
use super::wire::{self, Heard};
use crate::ensure;
use crate::peer::manager;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    geo: Geo,
    manner: Manner,
    /// the peer stops answering after this many blocks
    stop: Option<u16>,
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let g = &c.geo;
    let (info, hash) = g.info(g.hashes(&[]))?;
    let data = g.data();
    let (r, peer) = with_peer(
        |link| {
            if !c.manner.open(link, &hash, g.pieces(), 1000) {
                return;
            }
            let mut k = 0u64;
            while let Some(m) = link.recv() {
                if let Heard::Request(p, o, l) = m {
                    if c.stop.map_or(false, |s| k >= s as u64) {
                        link.close_write();
                        return;
                    }
                    // whatever was asked for, the answer has that length
                    let (o2, l) = (o as usize, (l as usize).min(1 << 20));
                    let mut d: Vec<u8> = data.iter().skip(o2).take(l).copied().collect();
                    d.resize(l, 0);
                    let mut b = c.manner.before(k as usize);
                    b.extend(wire::msg(7, &wire::block(p, o, &d)));
                    link.send_cut(&b, &c.manner.cuts);
                    k += 1;
                }
            }
        },
        |addr| no_panic("the fetch", || manager::download(addr.to_string(), &hash, &info, g.idx as usize)),
    );
    let r = r?;
    let reqs = peer.map_or(vec![], |p| p.1.requests());
    let mut at = 0u64;
    for (i, (p, o, l)) in reqs.iter().enumerate() {
        let shown = format!("request {i} of piece {} ({} bytes; torrent of {} bytes in pieces of {})", g.idx, g.len(), g.total, g.piece_length);
        ensure!(*p as u64 == g.idx, "{shown} names piece {p}");
        ensure!(*o as u64 == at, "{shown} starts at {o} instead of {at}");
        ensure!(*l >= 1 && *l <= 16384, "{shown} asks for {l} bytes");
        at += *l as u64;
        ensure!(at <= g.len(), "{shown} ends at {at}, past the end of the piece");
    }
    obs.nontrivial = reqs.len() > 1 || g.len() % 16384 != 0;
    obs.count("requests", reqs.len() as u64);
    obs.label(if c.stop.is_some() { "answers stop" } else { "answered" });
    if g.idx + 1 == g.pieces() && g.len() < g.piece_length {
        obs.label("short last piece");
    }
    if g.idx * g.piece_length > u32::MAX as u64 {
        obs.label("piece beyond 4 GiB");
    }
    if c.stop.map_or(true, |s| s as u64 >= g.blocks()) {
        match r {
            Ok(_) => ensure!(at == g.len(), "the requests of a complete fetch end at {at} of {} bytes", g.len()),
            Err(e) => return soft(format!("piece {} was not fetched: {e}; requests {reqs:?}", g.idx)),
        }
    }
    Ok(())
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let blocks = if t == Tier::Thorough { 40 } else { 8 };
    (geo(blocks), prop_oneof![3 => Just(Manner::plain()).boxed(), 1 => manner()], prop_oneof![4 => Just(None), 1 => (0u16..9).prop_map(Some)])
        .prop_map(|(geo, manner, stop)| Case { geo, manner, stop })
        .boxed()
}

fn long(_t: Tier) -> BoxedStrategy<Case> {
    let len = prop_oneof![(60u64..260, -2i64..3).prop_map(|(n, d)| (n * 16384) as i64 + d), (1i64 << 20)..(5 << 20), (5i64 << 20)..(34 << 20)];
    (len, 1u64..4, any::<u64>(), any::<u64>())
        .prop_map(|(pl, n, i, seed)| Case {
            geo: Geo { piece_length: pl as u64, total: n * pl as u64 - (i >> 8) % pl as u64, idx: i % n, seed },
            manner: Manner::plain(),
            stop: None,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "The requests a scripted peer records for one piece, over generated geometries (piece lengths on, next to and away from \
               multiples of 16 KiB, short and one-byte last pieces, torrents beyond 4 GiB), legal manners of answering, and peers that stop \
               answering midway. Non-trivial: more than one request, or a last request shorter than 16 KiB.",
        assumptions: vec!["that all requests of a piece come at all counts only when it repeats on three more runs"],
        parts: vec![
            part(Spec { name: "requests", quick: 6_000, thorough: 100_000, threads: 48, crumbs: true, confirm: 3, shrink: 300, strategy: cases, check }),
            part(Spec { name: "long", quick: 80, thorough: 1_000, threads: 8, crumbs: true, confirm: 3, shrink: 40, strategy: long, check }),
        ],
        program: false,
    }
}
