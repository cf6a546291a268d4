//! C06: metadata is accepted only if it hashes to the magnet's info hash.
use super::engine::*;
use super::metas::*;
use super::peers::*;
use super::torrents::*;
use super::wire::{self, Heard};
use crate::ensure;
use crate::peer::manager;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    None,
    /// flip one bit of the served metadata
    Flip(u32, u8),
    /// flip one bit inside a piece hash, so that the metadata stays well-formed
    FlipHash(u32),
    /// replace an ASCII letter of the name
    Name(u8),
    /// ask for another hash than that of the metadata: one bit off
    AskBit(u8),
    AskOther([u8; 20]),
    /// metadata piece k is served with bytes missing (negative) or added
    Resize(u8, i16),
    /// metadata pieces k and j exchanged
    Swap(u8, u8),
    /// the metadata of another torrent
    Foreign(Box<Meta>),
    /// the same torrent with one more key
    MoreKeys(u64),
    /// bytes behind the end of the metadata, also announced
    Tail(u8),
    /// announces a smaller or larger size than it has
    Announce(i32),
    /// metadata messages nobody asked for, before the answers
    Unsolicited(u32),
    /// every answer twice
    Twice,
    /// rejects instead of data from piece k on
    Reject(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    meta: Meta,
    tamper: Tamper,
    manner: Manner,
    /// the same again: what was seen the first time must not matter
    again: bool,
    /// the right metadata is fetched before
    primed: bool,
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    if c.primed {
        obs.label("after a fetch of the right metadata");
        let right = Case { tamper: Tamper::None, again: false, primed: false, ..c.clone() };
        fetch(&right, &mut Obs::default())?;
    }
    fetch(c, obs)?;
    if c.again {
        obs.label("the same again");
        fetch(c, &mut Obs::default())?;
    }
    Ok(())
}

fn fetch(c: &Case, obs: &mut Obs) -> Outcome {
    let dict = c.meta.bytes();
    let own = sha1(&dict);
    let mut asked = own.clone();
    let mut served = dict.clone();
    let mut announce = None;
    match &c.tamper {
        Tamper::Flip(i, b) => {
            let i = *i as usize % served.len();
            served[i] ^= 1 << (b % 8)
        }
        Tamper::FlipHash(i) => {
            let h = c.meta.layout.dict_unhashed();
            let pieces = match &h {
                super::refbenc::BV::D(d) => match d.get("pieces") {
                    Some(super::refbenc::BV::S(p)) if !p.is_empty() => p.clone(),
                    _ => vec![],
                },
                _ => vec![],
            };
            if let Some(at) = (!pieces.is_empty()).then(|| find(&served, &pieces)).flatten() {
                let n = pieces.len();
                served[at + *i as usize % n] ^= 1 << (i % 8);
            }
        }
        Tamper::Name(k) => {
            if let Some(at) = find(&served, b"4:name") {
                // a byte of the name itself, kept inside UTF-8
                let colon = at + 6 + served[at + 6..].iter().position(|b| *b == b':').unwrap() + 1;
                if served[colon].is_ascii_lowercase() {
                    served[colon] = b'a' + (served[colon] - b'a' + 1 + k % 25) % 26;
                } else {
                    served[colon] = b'x';
                }
            }
        }
        Tamper::AskBit(b) => asked[*b as usize % 160 / 8] ^= 0x80 >> (b % 8),
        Tamper::AskOther(h) => asked = h.to_vec(),
        Tamper::Foreign(m) => served = m.bytes(),
        Tamper::MoreKeys(n) => {
            let mut m = c.meta.clone();
            m.layout.extra.insert(format!("zz{n}"), super::refbenc::BV::I(*n));
            served = m.bytes();
        }
        Tamper::Tail(n) => served.extend(filler(*n as u64, *n as usize + 1)),
        Tamper::Announce(d) => announce = Some((dict.len() as i64 + *d as i64).max(1) as u64),
        _ => {}
    }
    let announce = announce.unwrap_or(served.len() as u64);
    let n = (served.len() + 16383) / 16384;
    let (r, peer) = with_peer(
        |link| {
            if !c.manner.open(link, &asked, c.meta.layout.pieces(), announce) {
                return 0;
            }
            let piece = |p: usize| -> Vec<u8> { served.iter().skip(p.saturating_mul(16384)).take(16384).copied().collect() };
            let mut k = 0usize;
            let mut delivered = 0usize;
            while let Some(m) = link.recv() {
                let p = match metadata_request(&m) {
                    Some((_, Some(p))) => p as usize,
                    _ => continue,
                };
                if let (Tamper::Unsolicited(x), 0) = (&c.tamper, k) {
                    link.send(&wire::msg(20, &wire::metadata_piece(1, 0, None, &filler(*x as u64, 1 + *x as usize % 16384))));
                }
                let mut d = match c.tamper {
                    Tamper::Swap(a, b) if p == a as usize % n => piece(b as usize % n),
                    Tamper::Swap(a, b) if p == b as usize % n => piece(a as usize % n),
                    _ => piece(p),
                };
                if let Tamper::Resize(a, by) = c.tamper {
                    if p == a as usize % n {
                        d.resize((d.len() as i64 + by as i64).max(0) as usize, 0x31);
                    }
                }
                if matches!(c.tamper, Tamper::Reject(a) if a as usize % n <= k) {
                    let mut b = vec![1];
                    b.extend(super::refbenc::BV::dict(vec![("msg_type", super::refbenc::BV::I(2)), ("piece", super::refbenc::BV::I(p as u64))]).enc());
                    link.send(&wire::msg(20, &b));
                    k += 1;
                    if k > 3 {
                        link.close_write();
                    }
                    continue;
                }
                delivered += d.len();
                let mut b = c.manner.before(k);
                let a = wire::msg(20, &wire::metadata_piece(1, p as u64, Some(announce), &d));
                b.extend_from_slice(&a);
                if let Tamper::Twice = c.tamper {
                    b.extend_from_slice(&a);
                }
                link.send_cut(&b, &c.manner.cuts);
                k += 1;
            }
            delivered
        },
        |addr| no_panic("the fetch", || manager::get_info(&asked, addr)),
    );
    let delivered = peer.map_or(0, |p| p.0);
    obs.label(format!("{:?}", c.tamper).split('(').next().unwrap().to_string());
    obs.nontrivial = delivered > 0 && !matches!(c.tamper, Tamper::None);
    obs.note = Some(format!("{delivered} bytes of metadata delivered"));
    match r? {
        Ok(info) => {
            obs.label("accepted");
            ensure!(asked == own, "metadata with SHA-1 {own:02x?} was accepted for {asked:02x?}");
            // each answer was given once, with other bytes than the metadata's
            let altered = match &c.tamper {
                Tamper::Flip(..) | Tamper::FlipHash(_) | Tamper::Name(_) | Tamper::Foreign(_) | Tamper::MoreKeys(_) => served != dict,
                // bytes behind the announced end may be left out of account
                Tamper::Resize(k, by) if *by > 0 && *k as usize % n == n - 1 => false,
                Tamper::Resize(k, by) => {
                    // it makes no difference to cut nothing off
                    let len = (served.len() - (*k as usize % n) * 16384).min(16384) as i64;
                    (len + *by as i64).max(0) != len
                }
                _ => false,
            };
            ensure!(!altered, "metadata was accepted although the peer delivered other bytes ({:?})", c.tamper);
            same_info(&info, &c.meta.layout, &c.meta.hashes())?;
        }
        Err(e) => {
            if matches!(c.tamper, Tamper::None) {
                return soft(format!("the right metadata was not accepted: {e}"));
            }
        }
    }
    Ok(())
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let max = if t == Tier::Thorough { 8 } else { 4 };
    let tamper = prop_oneof![
        2 => Just(Tamper::None),
        5 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Tamper::Flip(a, b)),
        3 => any::<u32>().prop_map(Tamper::FlipHash),
        2 => any::<u8>().prop_map(Tamper::Name),
        5 => (0u8..160).prop_map(Tamper::AskBit),
        1 => any::<[u8; 20]>().prop_map(Tamper::AskOther),
        3 => (any::<u8>(), prop_oneof![-30i16..30, any::<i16>()]).prop_map(|(a, b)| Tamper::Resize(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Tamper::Swap(a, b)),
        2 => meta(2).prop_map(|m| Tamper::Foreign(Box::new(m))),
        2 => any::<u64>().prop_map(Tamper::MoreKeys),
        2 => any::<u8>().prop_map(Tamper::Tail),
        2 => prop_oneof![-40i32..40, -40000i32..40000].prop_map(Tamper::Announce),
        2 => any::<u32>().prop_map(Tamper::Unsolicited),
        1 => Just(Tamper::Twice),
        1 => any::<u8>().prop_map(Tamper::Reject),
    ];
    (meta(max), tamper, prop_oneof![3 => Just(Manner::plain()).boxed(), 1 => manner()], prop::bool::weighted(0.15), prop::bool::weighted(0.15))
        .prop_map(|(meta, tamper, manner, again, primed)| Case { meta, tamper, manner, again, primed })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "Metadata fetches over TCP from peers that hand-shake correctly and serve the metadata with one bit flipped (anywhere, inside \
               piece hashes, in the name), pieces resized, exchanged, repeated or unasked for, another torrent's metadata, the same torrent \
               with a further key, trailing bytes, wrong announced sizes, rejects (some twice in a row, some after a fetch of the right metadata); or the right metadata for a hash that is one bit off. \
               Non-trivial: something was tampered with and the peer delivered metadata.",
        assumptions: vec!["SHA-1 of the sha-1 crate"],
        parts: vec![part(Spec { name: "metadata", quick: 8_000, thorough: 100_000, threads: 64, crumbs: true, confirm: 3, shrink: 300, strategy: cases, check })],
        program: false,
    }
}
