//! C21: a magnet link yields the info hash it names.
use super::engine::*;
use super::magnets::*;
use crate::ensure;
use crate::torrent::magnet::parse_magnet;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hash: [u8; 20],
    /// which digits are upper case
    case: u64,
    before: Vec<String>,
    after: Vec<String>,
}

fn link(c: &Case, digits: &str) -> String {
    let mut p = c.before.clone();
    p.push(format!("{PREFIX}{digits}"));
    p.extend(c.after.iter().cloned());
    format!("magnet:?{}", p.join("&"))
}

fn check_hex(c: &Case, obs: &mut Obs) -> Outcome {
    let l = link(c, &hex(&c.hash, c.case));
    obs.nontrivial = true;
    obs.label(if c.before.is_empty() { "info hash first" } else { "info hash later" });
    obs.label(if c.after.is_empty() { "info hash last" } else { "parameters behind the info hash" });
    match no_panic("parsing a magnet link", || parse_magnet(l.clone().into_bytes()))? {
        Ok(m) => ensure!(m.get_info_hash() == c.hash, "{l} gives info hash {:?} instead of {:?}", m.get_info_hash(), c.hash),
        Err(e) => return fail(format!("{l} refused: {e}")),
    }
    Ok(())
}

fn check_b32(c: &Case, obs: &mut Obs) -> Outcome {
    let mut d = base32(&c.hash);
    if c.case & 1 == 1 {
        d = d.to_ascii_lowercase();
        obs.label("lower case");
    }
    let l = link(c, &d);
    obs.nontrivial = true;
    match no_panic("parsing a magnet link", || parse_magnet(l.clone().into_bytes()))? {
        Ok(m) if m.get_info_hash() == c.hash => Ok(()),
        Ok(m) if m.get_info_hash() == d.as_bytes() => known(
            "base32-undecoded",
            format!("{l} gives the 32 digits of the base32 info hash instead of the 20 bytes they encode"),
        ),
        Ok(m) => fail(format!("{l} gives info hash {:?} instead of {:?}", m.get_info_hash(), c.hash)),
        Err(e) => fail(format!("{l} refused: {e}")),
    }
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    let hash = prop_oneof![4 => any::<[u8; 20]>(), 1 => any::<u8>().prop_map(|b| [b; 20])];
    let case = prop_oneof![Just(0u64), Just(u64::MAX), any::<u64>()];
    (hash, case, params(), params()).prop_map(|(hash, case, before, after)| Case { hash, case, before, after }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "Magnet links made of a random info hash (hex in random letter case, or base32) at a random position among 0-14 other parameters, \
               several of which look like info hashes. Every case is non-trivial.",
        assumptions: vec!["one xt=urn:btih: parameter per link, not percent-encoded"],
        parts: vec![
            part(Spec { name: "hex", quick: 600_000, thorough: 12_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: cases, check: check_hex }),
            part(Spec { name: "base32", quick: 90_000, thorough: 1_800_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: cases, check: check_b32 }),
        ],
        program: false,
    }
}
