//! C01: only pieces matching the torrent's SHA-1 are accepted.
use super::engine::*;
use super::peers::*;
use super::torrents::sha1;
use super::wire::{self, Heard};
use crate::ensure;
use crate::peer::manager;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    None,
    /// flip one bit of the piece's data
    Flip(u32, u8),
    /// block k loses (negative) or gains bytes
    Resize(u8, i16),
    /// block k arrives empty
    Empty(u8),
    /// the answers to requests k and j are exchanged
    Swap(u8, u8),
    /// answer every request with the data of block k
    Repeat(u8),
    /// the data of another piece
    OtherPiece(u32),
    Zeros,
    /// another block is sent before the answers
    Unsolicited(u32),
    /// the connection ends after k blocks
    Stop(u8),
    /// right data, but the metadata's hash has one bit flipped
    HashBit(u8),
    /// right data, but the metadata has the hash of another piece there
    HashOfOther(u32),
    /// right data, but the metadata has this hash at another index only
    HashElsewhere(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    geo: Geo,
    tamper: Tamper,
}

/// The hashes in the metadata and the data the peer has.
fn hashes_and_data(g: &Geo, t: &Tamper) -> (Vec<u8>, Vec<u8>) {
    let mut hashes = g.hashes(&[]);
    let mut data = g.data();
    let at = 20 * g.idx as usize;
    let other = |k: u32| k as u64 % g.pieces();
    match t {
        Tamper::Flip(i, b) => {
            let i = *i as usize % data.len();
            data[i] ^= 1 << (b % 8);
        }
        Tamper::OtherPiece(k) => {
            hashes = g.hashes(&[other(*k)]);
            data = g.data_of(other(*k));
        }
        Tamper::Zeros => data.iter_mut().for_each(|x| *x = 0),
        Tamper::HashBit(b) => hashes[at + (*b as usize % 160) / 8] ^= 0x80 >> (b % 8),
        Tamper::HashOfOther(k) => {
            let h = sha1(&g.data_of(other(*k)));
            hashes[at..at + 20].copy_from_slice(&h);
        }
        Tamper::HashElsewhere(k) => {
            let k = 20 * other(*k) as usize;
            let own: Vec<u8> = hashes[at..at + 20].to_vec();
            let filler = filler(g.seed ^ 77, 20);
            hashes[at..at + 20].copy_from_slice(&filler);
            hashes[k..k + 20].copy_from_slice(&own);
        }
        _ => {}
    }
    (hashes, data)
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let g = &c.geo;
    let (hashes, data) = hashes_and_data(g, &c.tamper);
    let at = 20 * g.idx as usize;
    let expected = hashes[at..at + 20].to_vec();
    let (info, hash) = g.info(hashes)?;
    let manner = Manner::plain();
    let n = g.blocks() as usize;
    let slice = |o: usize, l: usize| data.get(o.min(data.len())..(o + l).min(data.len())).unwrap_or(&[]).to_vec();
    let (r, peer) = with_peer(
        |link| {
            if !manner.open(link, &hash, g.pieces(), 1000) {
                return 0;
            }
            if let Tamper::Unsolicited(x) = c.tamper {
                let l = 1 + x as usize % 16384;
                link.send(&wire::msg(7, &wire::block(g.idx as u32, 0, &filler(x as u64, l))));
            }
            let mut k = 0usize;
            while let Some(m) = link.recv() {
                if let Heard::Request(p, o, l) = m {
                    let (mut o2, l) = (o as usize, l as usize);
                    let mut d = match c.tamper {
                        Tamper::Swap(a, b) => {
                            let (a, b) = (a as usize % n, b as usize % n);
                            if k == a {
                                o2 = b * 16384
                            } else if k == b {
                                o2 = a * 16384
                            }
                            slice(o2, 16384)
                        }
                        Tamper::Repeat(a) => slice((a as usize % n) * 16384, l),
                        _ => slice(o2, l),
                    };
                    match c.tamper {
                        Tamper::Resize(a, by) if a as usize % n == k => {
                            let want = (d.len() as i64 + by as i64).max(0) as usize;
                            d.resize(want, 0x5a);
                        }
                        Tamper::Empty(a) if a as usize % n == k => d.clear(),
                        Tamper::Stop(a) if a as usize % n == k => {
                            link.close();
                            return k;
                        }
                        _ => {}
                    }
                    link.send(&wire::msg(7, &wire::block(p, o, &d)));
                    k += 1;
                }
            }
            k
        },
        |addr| no_panic("the fetch", || manager::download(addr.to_string(), &hash, &info, g.idx as usize)),
    );
    let served = peer.map_or(0, |p| p.0);
    obs.nontrivial = served >= n && !matches!(c.tamper, Tamper::None);
    obs.label(format!("{:?}", c.tamper).split('(').next().unwrap().to_string());
    match r? {
        Ok(piece) => {
            obs.label("accepted");
            ensure!(
                sha1(&piece) == expected,
                "a piece of {} bytes with SHA-1 {:02x?} was accepted where the metadata says {:02x?}",
                piece.len(),
                sha1(&piece),
                expected
            );
        }
        Err(e) => {
            if matches!(c.tamper, Tamper::None) {
                return soft(format!("the right piece was not accepted: {e}"));
            }
        }
    }
    Ok(())
}

/// Attempts at a torrent's pieces, one after the other: what was seen before must not matter.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    geo: Geo,
    /// which of up to three pieces, and how it goes
    attempts: Vec<(u8, Tamper)>,
}

fn check_history(c: &History, obs: &mut Obs) -> Outcome {
    for (i, (k, tamper)) in c.attempts.iter().enumerate() {
        let n = c.geo.pieces();
        let geo = Geo { idx: (c.geo.idx + *k as u64 % 3 * 7) % n, ..c.geo.clone() };
        check(&Case { geo, tamper: tamper.clone() }, obs).map_err(|f| Fail { msg: format!("attempt {i}: {}", f.msg), ..f })?;
    }
    obs.nontrivial = true;
    Ok(())
}

/// The comparison itself, without a peer.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Compare {
    geo: Geo,
    flip_hash: Option<u8>,
    edit: Option<(u32, u8)>,
    resize: i8,
}

fn check_compare(c: &Compare, obs: &mut Obs) -> Outcome {
    let g = &c.geo;
    let mut hashes = g.hashes(&[]);
    let at = 20 * g.idx as usize;
    if let Some(b) = c.flip_hash {
        hashes[at + (b as usize % 160) / 8] ^= 0x80 >> (b % 8);
    }
    let expected = hashes[at..at + 20].to_vec();
    let (info, _) = g.info(hashes)?;
    let mut data = g.data();
    if let Some((i, x)) = c.edit {
        let i = i as usize % data.len();
        data[i] ^= x;
    }
    let n = (data.len() as i64 + c.resize as i64).max(0) as usize;
    data.resize(n, 0);
    let want = sha1(&data) == expected;
    let got = no_panic("verifying a piece", || info.verify_piece(&data, g.idx as usize))?;
    obs.nontrivial = !want;
    obs.label(if want { "match" } else { "no match" });
    ensure!(got == want, "data with SHA-1 {:02x?} against {:02x?}: verified as {got}", sha1(&data), expected);
    Ok(())
}

fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        2 => Just(Tamper::None),
        4 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Tamper::Flip(a, b)),
        2 => (any::<u8>(), prop_oneof![-20i16..20, any::<i16>()]).prop_map(|(a, b)| Tamper::Resize(a, b)),
        1 => any::<u8>().prop_map(Tamper::Empty),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Tamper::Swap(a, b)),
        1 => any::<u8>().prop_map(Tamper::Repeat),
        2 => any::<u32>().prop_map(Tamper::OtherPiece),
        1 => Just(Tamper::Zeros),
        1 => any::<u32>().prop_map(Tamper::Unsolicited),
        1 => any::<u8>().prop_map(Tamper::Stop),
        5 => (0u8..160).prop_map(Tamper::HashBit),
        1 => any::<u32>().prop_map(Tamper::HashOfOther),
        1 => any::<u32>().prop_map(Tamper::HashElsewhere),
    ]
    .boxed()
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    (geo(if t == Tier::Thorough { 12 } else { 5 }), tamper()).prop_map(|(geo, tamper)| Case { geo, tamper }).boxed()
}

fn histories(_t: Tier) -> BoxedStrategy<History> {
    let t = prop_oneof![1 => Just(Tamper::None).boxed(), 2 => tamper()];
    (geo(3), proptest::collection::vec((prop_oneof![2 => Just(0u8), 1 => any::<u8>()], t), 2..6)).prop_map(|(geo, attempts)| History { geo, attempts }).boxed()
}

fn compares(_t: Tier) -> BoxedStrategy<Compare> {
    let small = (1u64..300, 1u64..8, any::<u64>(), any::<u64>()).prop_map(|(pl, n, i, seed)| Geo { piece_length: pl, total: n * pl - i % pl, idx: (i >> 20) % n, seed });
    (
        prop_oneof![6 => small.boxed(), 1 => geo(2)],
        prop::option::of(0u8..160),
        prop::option::weighted(0.3, (any::<u32>(), any::<u8>())),
        prop_oneof![4 => Just(0i8), 1 => -3i8..4],
    )
        .prop_map(|(geo, flip_hash, edit, resize)| Compare { geo, flip_hash, edit, resize })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "Piece fetches over TCP from a scripted peer that serves the right data, data tampered with in eleven ways (bit flips, \
               lengths, order, other pieces, early end), or right data under metadata whose 20-byte hash differs in one bit; and the \
               comparison alone on many more; histories of two to five such attempts at one torrent (all non-trivial). Non-trivial: something was tampered with and the peer answered every request, so that \
               only the comparison can reject it.",
        assumptions: vec!["SHA-1 of the sha-1 crate", "no two pieces of generated data collide"],
        parts: vec![
            part(Spec { name: "fetch", quick: 6_000, thorough: 100_000, threads: 48, crumbs: true, confirm: 3, shrink: 300, strategy: cases, check }),
            part(Spec { name: "history", quick: 1_500, thorough: 30_000, threads: 48, crumbs: true, confirm: 3, shrink: 200, strategy: histories, check: check_history }),
            part(Spec { name: "compare", quick: 200_000, thorough: 4_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: compares, check: check_compare }),
        ],
        program: false,
    }
}
