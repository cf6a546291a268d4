//! C13: bencode decoding survives any input and rejects malformed ones.
use super::alloc;
use super::engine::*;
use super::refbenc::*;
use crate::bencode::decode::Decoder;
use crate::bencode::metainfo::Metainfo;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Input {
    bytes: Vec<u8>,
}

fn judge_bytes(b: &[u8], obs: &mut Obs) -> Outcome {
    let verdict = classify(b);
    let mut dec = Decoder::init(b.to_vec());
    let (r, _) = alloc::with_budget((64 << 10) + 1024 * b.len(), || no_panic("decoding", || dec.decode()));
    let r = r?;
    let used = dec.get_total_parsed_bytes();
    obs.label(match &verdict {
        Verdict::Valid(_) => "valid",
        Verdict::Free(_) => "outside the supported domain",
        Verdict::Malformed => "malformed",
        Verdict::NoDocument => "no document",
    });
    obs.nontrivial = b.len() >= 3 && verdict != Verdict::NoDocument;
    if let Ok(v) = &r {
        ensure!(used <= b.len(), "decoded a value from {used} bytes of an input of {} bytes", b.len());
        match &verdict {
            Verdict::Malformed => return fail(format!("malformed document decoded to {v:?}")),
            Verdict::Free(_) if oversized(b) => return fail(format!("an integer of 2^64 or more decoded to {v:?}")),
            Verdict::NoDocument => {
                ensure!(matches!(v, Metainfo::Nothing()), "no document, yet decoded to {v:?}");
            }
            _ => {
                ensure!(!matches!(v, Metainfo::Nothing()), "document decoded to nothing");
                // go on behind it, as a reader of several documents does
                let rest = classify(&b[used..]);
                let (r2, _) = alloc::with_budget((64 << 10) + 1024 * b.len(), || no_panic("decoding", || dec.decode()));
                let r2 = r2?;
                let end = dec.get_total_parsed_bytes();
                if let Ok(v) = r2 {
                    ensure!(end <= b.len(), "decoded a value up to byte {end} of {}", b.len());
                    if rest == Verdict::Malformed {
                        return fail(format!("malformed second document decoded to {v:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn check(c: &Input, obs: &mut Obs) -> Outcome {
    judge_bytes(&c.bytes, obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mutant {
    doc: BV,
    /// (kind, position, byte) applied in order
    edits: Vec<(u8, u16, u8)>,
}

const GRAMMAR: &[u8] = b"0123456789:ilde-";

fn mutate(mut b: Vec<u8>, edits: &[(u8, u16, u8)]) -> Vec<u8> {
    for (kind, pos, byte) in edits {
        if b.is_empty() {
            break;
        }
        let p = *pos as usize * b.len() / 65536;
        let g = GRAMMAR[*byte as usize % GRAMMAR.len()];
        match kind % 9 {
            0 => b.truncate(p),
            1 => {
                b.remove(p);
            }
            2 => b.insert(p, g),
            3 => b[p] = g,
            4 => b[p] = *byte,
            5 => b.insert(p, *byte),
            6 => {
                // overlong number
                let n: &[u8] = [&b"99999999999999999999999"[..], b"18446744073709551615", b"18446744073709551616", b"4294967296"]
                    [*byte as usize % 4];
                b.splice(p..p, n.iter().copied());
            }
            7 => {
                let q = (p + *byte as usize % 16).min(b.len());
                b.drain(p..q);
            }
            _ => {
                let q = (p + *byte as usize % 16).min(b.len());
                let dup = b[p..q].to_vec();
                b.splice(p..p, dup);
            }
        }
    }
    b
}

fn check_mutant(c: &Mutant, obs: &mut Obs) -> Outcome {
    judge_bytes(&mutate(c.doc.enc(), &c.edits), obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nest {
    unit: String,
    count: u32,
    core: String,
    close: u32,
    tail: Vec<u8>,
}

fn check_nest(c: &Nest, obs: &mut Obs) -> Outcome {
    let mut b = c.unit.as_bytes().repeat(c.count as usize);
    b.extend_from_slice(c.core.as_bytes());
    b.extend(std::iter::repeat(b'e').take(c.close as usize));
    b.extend_from_slice(&c.tail);
    obs.label(match c.count {
        0..=99 => "up to 99 levels",
        100..=9999 => "100 to 9999 levels",
        _ => "10000 levels or more",
    });
    judge_bytes(&b, obs)
}

fn soup(t: Tier) -> BoxedStrategy<Input> {
    let n = if t == Tier::Thorough { 60 } else { 30 };
    let token = prop_oneof![
        6 => prop::sample::select(vec!["i", "l", "d", "e", ":", "0:", "1:", "2:", "i0e", "le", "de", "1:a", "i1e"]).prop_map(|s| s.as_bytes().to_vec()),
        2 => prop::sample::select(vec![
            "18446744073709551615:", "99999999999999999999:", "9223372036854775807:", "4294967296:", "-1:", "i-1e", "i18446744073709551616e",
            "i18446744073709551615e", "01:", "i", "1", "d0:", "5:abc"
        ]).prop_map(|s| s.as_bytes().to_vec()),
        2 => vec(prop::sample::select(GRAMMAR.to_vec()), 1..4),
        1 => vec(any::<u8>(), 1..4),
    ];
    vec(token, 0..n).prop_map(|t| Input { bytes: t.concat() }).boxed()
}

fn noise(_t: Tier) -> BoxedStrategy<Input> {
    (prop::sample::select(b"ild0123456789".to_vec()), vec(any::<u8>(), 0..40))
        .prop_map(|(f, mut r)| {
            r.insert(0, f);
            Input { bytes: r }
        })
        .boxed()
}

fn mutants(_t: Tier) -> BoxedStrategy<Mutant> {
    (prop_oneof![3 => value(20), 1 => deep(30)], vec((any::<u8>(), any::<u16>(), any::<u8>()), 0..4))
        .prop_map(|(doc, edits)| Mutant { doc, edits })
        .boxed()
}

fn nests(t: Tier) -> BoxedStrategy<Nest> {
    let top: u32 = if t == Tier::Thorough { 3_000_000 } else { 400_000 };
    let count = prop_oneof![3 => 0u32..2000, 2 => 0u32..60_000, 1 => 0..top];
    (
        prop::sample::select(vec!["l", "d1:a", "ld1:k", "d0:l", "ll1:x", "d1:ai5e1:b", "d3:foold1:b", "li1e"]),
        count,
        prop::sample::select(vec!["", "i1e", "1:a", "le", "de", "x", "5:ab"]),
        0u8..4,
        vec(any::<u8>(), 0..3),
    )
        .prop_map(|(u, count, core, close, tail)| {
            let levels = u.bytes().filter(|b| *b == b'l' || *b == b'd').count() as u32;
            let full = count.saturating_mul(levels);
            Nest {
                unit: u.into(),
                count,
                core: core.into(),
                close: match close {
                    0 => 0,
                    1 => full,
                    2 => full.saturating_sub(1),
                    _ => full + 1,
                },
                tail,
            }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broad {
    wide: Wide,
    edits: Vec<(u8, u16, u8)>,
}

fn check_broad(c: &Broad, obs: &mut Obs) -> Outcome {
    obs.label(c.wide.label());
    judge_bytes(&mutate(c.wide.build().enc(), &c.edits), obs)
}

fn broad(t: Tier) -> BoxedStrategy<Broad> {
    let max = if t == Tier::Thorough { 60_000 } else { 3_000 };
    (wide(max), vec((any::<u8>(), any::<u16>(), any::<u8>()), 0..4)).prop_map(|(wide, edits)| Broad { wide, edits }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "Byte strings from five generators (valid documents with 0-3 random edits; sequences of grammar tokens including \
               oversized numbers; a leading type byte followed by noise; nesting of several shapes up to 400 000 levels, 3 million in \
               the thorough tier; documents of up to 3,000 siblings with 0-3 random edits), on 2 MiB stacks, with an allocation budget of 64 KiB + 1024 bytes per input byte. A reference \
               recogniser says which inputs break the grammar: those must give an error. Non-trivial: at least 3 bytes that start a document.",
        assumptions: vec!["the reference recogniser of bencode in refbenc.rs"],
        parts: vec![
            part(Spec { name: "mutants", quick: 900_000, thorough: 18_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: mutants, check: check_mutant }),
            part(Spec { name: "soup", quick: 1_500_000, thorough: 30_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: soup, check }),
            part(Spec { name: "noise", quick: 900_000, thorough: 18_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: noise, check }),
            part(Spec { name: "nesting", quick: 9_000, thorough: 180_000, threads: 8, crumbs: true, confirm: 0, shrink: 300, strategy: nests, check: check_nest }),
            part(Spec { name: "wide", quick: 4_000, thorough: 60_000, threads: 8, crumbs: true, confirm: 0, shrink: 300, strategy: broad, check: check_broad }),
        ],
        program: false,
    }
}
