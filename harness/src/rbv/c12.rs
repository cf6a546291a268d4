//! C12: bencode decoding is exact for every valid document.
use super::engine::*;
use super::refbenc::*;
use super::alloc;
use crate::bencode::decode::Decoder;
use crate::bencode::metainfo::Metainfo;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Docs {
    docs: Vec<BV>,
    tail: Vec<u8>,
}

fn check(c: &Docs, obs: &mut Obs) -> Outcome {
    let mut input = vec![];
    let mut ends = vec![];
    for d in &c.docs {
        d.enc_to(&mut input);
        ends.push(input.len());
    }
    input.extend_from_slice(&c.tail);
    let total = input.len();
    let mut dec = Decoder::init(input);
    for (i, d) in c.docs.iter().enumerate() {
        let (m, _) = alloc::with_budget((64 << 10) + 1024 * total, || no_panic("decoding a valid document", || dec.decode()));
        let m = m?;
        match m {
            Ok(m) => {
                ensure!(same(&m, d), "document {i} decoded to {m:?} instead of {d:?}");
                accessors(&m, d)?;
            }
            Err(e) => return fail(format!("valid document {i} ({} bytes) refused: {e:?}", ends[i])),
        }
        let used = dec.get_total_parsed_bytes();
        ensure!(used == ends[i], "document {i} ends at byte {} of {total}, the decoder is at {used}", ends[i]);
    }
    let depth = c.docs.iter().map(|d| d.depth()).max().unwrap_or(0);
    obs.nontrivial = total > 4;
    if depth > 8 {
        obs.label("deep (>8)");
    }
    if c.docs.len() > 1 {
        obs.label("several documents");
    }
    if !c.tail.is_empty() {
        obs.label("bytes after the document");
    }
    fn has(v: &BV, f: &dyn Fn(&BV) -> bool) -> bool {
        f(v) || match v {
            BV::L(l) => l.iter().any(|x| has(x, f)),
            BV::D(d) => d.values().any(|x| has(x, f)),
            _ => false,
        }
    }
    for (name, f) in [
        ("empty string", (&|v: &BV| matches!(v, BV::S(s) if s.is_empty())) as &dyn Fn(&BV) -> bool),
        ("empty container", &|v: &BV| matches!(v, BV::L(l) if l.is_empty()) || matches!(v, BV::D(l) if l.is_empty())),
        ("integer above 32 bits", &|v: &BV| matches!(v, BV::I(n) if *n > u32::MAX as u64)),
        ("binary string", &|v: &BV| matches!(v, BV::S(s) if std::str::from_utf8(s).is_err())),
        ("non-ASCII key", &|v: &BV| matches!(v, BV::D(d) if d.keys().any(|k| !k.is_ascii()))),
        ("string of 10 bytes or more", &|v: &BV| matches!(v, BV::S(s) if s.len() >= 10)),
        ("string of 1000 bytes or more", &|v: &BV| matches!(v, BV::S(s) if s.len() >= 1000)),
    ] {
        if c.docs.iter().any(|d| has(d, f)) {
            obs.label(name);
        }
    }
    Ok(())
}

/// The typed accessors agree with the value.
fn accessors(m: &Metainfo, v: &BV) -> Outcome {
    match v {
        BV::I(n) => {
            ensure!(m.get_integer_content().ok() == Some(*n as usize), "integer accessor");
            ensure!(m.get_string_content().is_err() && m.get_list_content().is_err(), "mistyped access accepted");
            ensure!(m.get_dict_content().is_err(), "mistyped access accepted");
        }
        BV::S(s) => {
            ensure!(m.get_string_content().ok() == std::str::from_utf8(s).ok().map(|x| x.to_string()), "string accessor");
            ensure!(m.get_integer_content().is_err() && m.get_list_content().is_err(), "mistyped access accepted");
        }
        BV::L(l) => {
            ensure!(m.get_list_content().map(|x| x.len()).ok() == Some(l.len()), "list accessor");
            ensure!(m.get_integer_content().is_err() && m.get_dict_content().is_err(), "mistyped access accepted");
        }
        BV::D(d) => {
            ensure!(m.get_dict_content().map(|x| x.len()).ok() == Some(d.len()), "dictionary accessor");
            for (k, y) in d {
                match m.get_value_from_dict(k) {
                    Ok(x) => ensure!(same(x, y), "value of key {k:?}"),
                    Err(e) => return fail(format!("key {k:?}: {e:?}")),
                }
                match y {
                    BV::I(n) => ensure!(m.get_integer_from_dict(k).ok() == Some(*n as usize), "integer of key {k:?}"),
                    BV::S(s) => {
                        ensure!(m.get_bytes_from_dict(k).ok().as_ref() == Some(s), "bytes of key {k:?}");
                        ensure!(
                            m.get_string_from_dict(k).ok() == std::str::from_utf8(s).ok().map(|x| x.to_string()),
                            "string of key {k:?}"
                        );
                    }
                    BV::L(l) => ensure!(m.get_list_from_dict(k).map(|x| x.len()).ok() == Some(l.len()), "list of key {k:?}"),
                    BV::D(_) => {}
                }
            }
            ensure!(m.get_integer_content().is_err() && m.get_list_content().is_err(), "mistyped access accepted");
        }
    }
    Ok(())
}

fn tail() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 0..20)].boxed()
}

fn docs(t: Tier) -> BoxedStrategy<Docs> {
    let big = if t == Tier::Thorough { 5000 } else { 1500 };
    (
        prop_oneof![3 => vec(value(60), 1..2), 2 => vec(value(20), 2..5), 1 => vec(bytes(big).prop_map(BV::S), 1..3)],
        tail(),
    )
        .prop_map(|(docs, tail)| Docs { docs, tail })
        .boxed()
}

fn deep_docs(_t: Tier) -> BoxedStrategy<Docs> {
    (prop_oneof![1 => deep(100), 1 => deep(12)], tail()).prop_map(|(d, tail)| Docs { docs: vec![d], tail }).boxed()
}

/// Documents with many siblings.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broad {
    wide: Wide,
    behind: Vec<BV>,
    tail: Vec<u8>,
}

fn check_broad(c: &Broad, obs: &mut Obs) -> Outcome {
    let mut docs = vec![c.wide.build()];
    docs.extend(c.behind.iter().cloned());
    obs.label(c.wide.label());
    check(&Docs { docs, tail: c.tail.clone() }, obs)
}

fn broad(t: Tier) -> BoxedStrategy<Broad> {
    let max = if t == Tier::Thorough { 60_000 } else { 3_000 };
    (wide(max), vec(value(8), 0..3), tail()).prop_map(|(wide, behind, tail)| Broad { wide, behind, tail }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C12",
        rule: "Random bencode values (prop_recursive; empty/binary/non-ASCII strings, integers at power-of-two and power-of-ten \
               boundaries up to 2^64-1, empty containers, chains up to 100 levels, up to 3,000 siblings) are encoded by a reference encoder, 1-4 documents \
               and trailing bytes are concatenated; decoding must give each value and stop exactly at its end. Non-trivial: more than 4 bytes.",
        assumptions: vec!["64-bit platform (integers are usize)"],
        parts: vec![
            part(Spec { name: "documents", quick: 800_000, thorough: 16_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: docs, check }),
            part(Spec { name: "deep", quick: 60_000, thorough: 1_200_000, threads: 8, crumbs: true, confirm: 0, shrink: 1000, strategy: deep_docs, check }),
            part(Spec { name: "wide", quick: 4_000, thorough: 60_000, threads: 8, crumbs: true, confirm: 0, shrink: 300, strategy: broad, check: check_broad }),
        ],
        program: false,
    }
}
