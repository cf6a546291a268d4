//! C22: malformed magnet links are rejected without crashing.
use super::engine::*;
use super::magnets::*;
use crate::ensure;
use crate::torrent::magnet::parse_magnet;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    link: Vec<u8>,
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let want = class(&c.link);
    let r = no_panic("parsing a magnet link", || parse_magnet(c.link.clone()))?;
    obs.nontrivial = c.link.len() >= 8;
    let shown = String::from_utf8_lossy(&c.link);
    match want {
        Class::Reject(w) => {
            obs.label(format!("to be rejected: {w}"));
            if let Ok(m) = r {
                return fail(format!("{shown:?} ({w}) accepted as info hash {:?}", m.get_info_hash()));
            }
        }
        Class::Hex(h) => {
            obs.label("valid");
            if let Ok(m) = r {
                ensure!(m.get_info_hash() == h, "{shown:?} gives info hash {:?}", m.get_info_hash());
            }
        }
        Class::Open => obs.label("open"),
    }
    Ok(())
}

fn noise(_t: Tier) -> BoxedStrategy<Case> {
    let chunk = prop_oneof![
        2 => vec(any::<u8>(), 0..12),
        2 => prop::sample::select(vec!["magnet:?", "xt=urn:btih:", "&", "dn=", "magnet:", "?", "xt=", "urn:btih:", "%", "="]).prop_map(|s| s.as_bytes().to_vec()),
        2 => "[a-f0-9]{1,41}".prop_map(|s| s.into_bytes()),
        1 => "[A-Z2-7]{30,34}".prop_map(|s| s.into_bytes()),
        1 => "[0-9a-zA-Z]{38,42}".prop_map(|s| s.into_bytes()),
    ];
    (any::<bool>(), vec(chunk, 0..8))
        .prop_map(|(m, c)| {
            let mut l = if m { b"magnet:?".to_vec() } else { vec![] };
            l.extend(c.concat());
            Case { link: l }
        })
        .boxed()
}

fn near(_t: Tier) -> BoxedStrategy<Case> {
    // a valid link, then edits
    let digits = prop_oneof![
        4 => any::<[u8; 20]>().prop_map(|h| hex(&h, 0)),
        2 => (any::<[u8; 20]>(), any::<u64>()).prop_map(|(h, c)| hex(&h, c)),
        2 => any::<[u8; 20]>().prop_map(|h| base32(&h)),
        2 => "[a-f0-9]{0,80}",
    ];
    let edit = (0u8..6, any::<u16>(), prop_oneof![any::<u8>(), prop::sample::select(b"gGzZ@[`{/:;?&=%018.-_ \n\0".to_vec())]);
    (params(), digits, params(), vec(edit, 0..3), any::<bool>())
        .prop_map(|(mut b, d, a, edits, in_hash)| {
            let mut d = d.into_bytes();
            let mut edit = |l: &mut Vec<u8>| {
                for (k, p, x) in &edits {
                    if l.is_empty() {
                        break;
                    }
                    let p = *p as usize * l.len() / 65536;
                    match k {
                        0 => {
                            l.remove(p);
                        }
                        1 => l.insert(p, *x),
                        2 | 3 => l[p] = *x,
                        4 => l.truncate(p),
                        _ => l[p] ^= 0x20,
                    }
                }
            };
            if in_hash {
                edit(&mut d);
            }
            b.push(PREFIX.to_string());
            let mut l = format!("magnet:?{}", b.join("&")).into_bytes();
            l.extend(d);
            for x in a {
                l.push(b'&');
                l.extend(x.bytes());
            }
            if !in_hash {
                edit(&mut l);
            }
            Case { link: l }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C22",
        rule: "Links assembled from magnet fragments and arbitrary bytes, and valid links with 0-2 edits to the info hash or anywhere; a reference \
               classification says which must be rejected. Non-trivial: at least 8 bytes.",
        assumptions: vec!["left open: scheme in other letter case, several btih parameters, percent-encoded keys or digits"],
        parts: vec![
            part(Spec { name: "near", quick: 600_000, thorough: 12_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: near, check }),
            part(Spec { name: "noise", quick: 600_000, thorough: 12_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: noise, check }),
        ],
        program: false,
    }
}
