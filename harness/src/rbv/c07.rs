//! C07: metadata is fetched completely from an honest peer.
use super::engine::*;
use super::metas::*;
use super::peers::*;
use super::refbenc::*;
use super::torrents::*;
use super::wire::{self, Heard};
use crate::ensure;
use crate::peer::manager;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    meta: Meta,
    manner: Manner,
    total_size: bool,
    /// the extension id in the peer's answers: ours (1) is right, many peers use theirs
    own_id: bool,
    /// further keys in the headers of the answers
    header: BTreeMap<String, BV>,
    /// an attempt before this one, by a peer that gives so many metadata pieces, right or wrong, and is gone
    before: Option<(u8, bool)>,
}

fn failing(c: &Case, (pieces, right): (u8, bool)) -> Outcome {
    let dict = c.meta.bytes();
    let hash = sha1(&dict);
    let n = (dict.len() + 16383) / 16384;
    let (r, _) = with_peer(
        |link| {
            if !Manner::plain().open(link, &hash, c.meta.layout.pieces(), dict.len() as u64) {
                return;
            }
            let mut left = pieces as usize % (n + 1);
            while let Some(m) = link.recv() {
                if let Some((_, Some(p))) = metadata_request(&m) {
                    if left == 0 {
                        return link.close();
                    }
                    let mut d: Vec<u8> = dict.iter().skip(p as usize * 16384).take(16384).copied().collect();
                    if !right {
                        d.iter_mut().for_each(|x| *x ^= 0x55);
                    }
                    link.send(&wire::msg(20, &wire::metadata_piece(1, p, Some(dict.len() as u64), &d)));
                    left -= 1;
                }
            }
        },
        |addr| no_panic("the fetch", || manager::get_info(&hash, addr)),
    );
    if let Ok(info) = r? {
        same_info(&info, &c.meta.layout, &c.meta.hashes())?;
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    if let Some(b) = c.before {
        failing(c, b)?;
        obs.label("after a failed attempt");
    }
    let dict = c.meta.bytes();
    let hash = sha1(&dict);
    let n = (dict.len() + 16383) / 16384;
    let (r, peer) = with_peer(
        |link| {
            if !c.manner.open(link, &hash, c.meta.layout.pieces(), dict.len() as u64) {
                return Err("the opening was cut short".to_string());
            }
            let mut k = 0;
            while let Some(m) = link.recv() {
                if let Heard::Extended(id, _) = &m {
                    if *id == 0 {
                        continue;
                    }
                    let p = match metadata_request(&m) {
                        Some((id, Some(p))) if id == c.manner.ut_metadata => p as usize,
                        _ => return Err(format!("request {k} is {m:?} where ut_metadata is {}", c.manner.ut_metadata)),
                    };
                    if p != k || p >= n {
                        return Err(format!("request {k} of {n} is for metadata piece {p}"));
                    }
                    let d = &dict[p * 16384..(p * 16384 + 16384).min(dict.len())];
                    let mut b = c.manner.before(k);
                    let id = if c.own_id { c.manner.ut_metadata } else { 1 };
                    b.extend(wire::msg(20, &wire::metadata_piece_with(id, p as u64, c.total_size.then_some(dict.len() as u64), &c.header, d)));
                    link.send_cut(&b, &c.manner.cuts);
                    k += 1;
                } else if let Heard::Request(..) = m {
                    return Err(format!("a block request during a metadata fetch: {m:?}"));
                }
            }
            Ok(k)
        },
        |addr| no_panic("the fetch", || manager::get_info(&hash, addr)),
    );
    obs.nontrivial = n > 1 || !c.manner.noise.is_empty() || !c.manner.cuts.sizes.is_empty();
    obs.label(match n {
        1..=4 => format!("{n} metadata pieces"),
        5..=19 => "5-19 metadata pieces".into(),
        20..=63 => "20-63 metadata pieces".into(),
        _ => "64 or more metadata pieces".into(),
    });
    obs.label(match dict.len() % 16384 {
        0 => "size a multiple of 16 KiB",
        1 | 16383 => "size next to a multiple of 16 KiB",
        _ => "other size",
    });
    let r = r?;
    match peer {
        Some((Ok(k), _)) => {
            if let Ok(info) = &r {
                ensure!(k == n, "{k} of {n} metadata pieces were asked for");
                same_info(info, &c.meta.layout, &c.meta.hashes())?;
            }
        }
        Some((Err(e), _)) if e.starts_with("request") || e.starts_with("a block") => return fail(e),
        _ => {}
    }
    if let Err(e) = r {
        return soft(format!("metadata of {} bytes was not fetched from an honest peer: {e}", dict.len()));
    }
    Ok(())
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let max = if t == Tier::Thorough { 20 } else { 6 };
    (meta(max), manner(), any::<bool>(), any::<bool>(), header_keys(), prop::option::weighted(0.15, any::<(u8, bool)>()))
        .prop_map(|(meta, manner, total_size, own_id, header, before)| Case { meta, manner, total_size, own_id, header, before })
        .boxed()
}

/// Metadata of large torrents: up to 700 pieces of 16 KiB.
fn large(t: Tier) -> BoxedStrategy<Case> {
    let top = if t == Tier::Thorough { 2000 } else { 700 };
    let pieces = prop_oneof![1 => 20u64..64, 2 => 64u64..200, 1 => 200u64..top];
    let manner = prop_oneof![3 => Just(Manner::plain()).boxed(), 1 => manner().prop_map(|m| Manner { cuts: Cuts::default(), ..m }).boxed()];
    (pieces.prop_flat_map(large_meta), manner, any::<bool>(), any::<bool>())
        .prop_map(|(meta, manner, total_size, own_id)| Case { meta, manner, total_size, own_id, header: BTreeMap::new(), before: None })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "Metadata fetches over TCP from a peer that serves the metadata exchange: dictionaries of one to six pieces of 16 KiB (20 in \
               the thorough tier), part 'large' up to 700 (2000), many padded to sizes on or next to a multiple of 16 KiB, any extension id, order of opening, other messages \
               and segmentation; some after an attempt that failed half-way. Non-trivial: several metadata pieces, other messages or cuts.",
        assumptions: vec!["failures of a fetch count only when they repeat on three more runs; wrong requests and wrong torrents count at once"],
        parts: vec![
            part(Spec { name: "fetch", quick: 8_000, thorough: 100_000, threads: 64, crumbs: true, confirm: 3, shrink: 300, strategy: cases, check }),
            part(Spec { name: "large", quick: 80, thorough: 2_000, threads: 8, crumbs: true, confirm: 3, shrink: 60, strategy: large, check }),
        ],
        program: false,
    }
}
