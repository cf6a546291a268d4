//! C14: bencode encoding is canonical and decodes back.
use super::engine::*;
use super::refbenc::*;
use crate::bencode::decode::Decoder;
use crate::bencode::encode::{encode_dict_entry, Encode};
use crate::ensure;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum V {
    Str(String),
    Int(u64),
    Bytes(Vec<u8>),
    Strs(Vec<String>),
    Ints(Vec<u64>),
    Bytess(Vec<Vec<u8>>),
    Lists(Vec<Vec<String>>),
    MapInt(BTreeMap<String, u64>),
    MapStr(BTreeMap<String, String>),
    MapBytes(BTreeMap<String, Vec<u8>>),
    MapList(BTreeMap<String, Vec<u64>>),
    MapMap(BTreeMap<String, BTreeMap<String, u64>>),
    Maps(Vec<BTreeMap<String, u64>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    v: V,
    key: String,
}

fn hm<T: Clone, U>(m: &BTreeMap<String, T>, f: impl Fn(&T) -> U) -> HashMap<String, U> {
    m.iter().map(|(k, v)| (k.clone(), f(v))).collect()
}
fn bd<T>(m: &BTreeMap<String, T>, f: impl Fn(&T) -> BV) -> BV {
    BV::D(m.iter().map(|(k, v)| (k.clone(), f(v))).collect())
}

fn one(e: &impl Encode, want: &BV, key: &str) -> Outcome {
    let got = no_panic("encoding", || e.encode())?;
    ensure!(got == want.enc(), "{want:?} encoded as {:?}", String::from_utf8_lossy(&got));
    let mut d = Decoder::init(got.clone());
    match no_panic("decoding an encoding", || d.decode())? {
        Ok(m) => {
            ensure!(same(&m, want), "encoding of {want:?} decodes to {m:?}");
            ensure!(d.get_total_parsed_bytes() == got.len(), "decoding an encoding stops early");
        }
        Err(err) => return fail(format!("encoding of {want:?} does not decode: {err:?}")),
    }
    // as an entry of a dictionary
    let mut w = vec![];
    estr(&mut w, key.as_bytes());
    want.enc_to(&mut w);
    let got = no_panic("encoding an entry", || encode_dict_entry(key, e))?;
    ensure!(got == w, "entry {key:?}: {want:?} encoded as {:?}", String::from_utf8_lossy(&got));
    Ok(())
}

fn both<T: Encode>(e: T, want: BV, key: &str) -> Outcome {
    one(&e, &want, key)?;
    // optional values: present ones as themselves, absent ones as nothing
    one(&Some(e), &want, key)?;
    let none: Option<T> = None;
    ensure!(no_panic("encoding", || none.encode())?.is_empty(), "an absent value is encoded");
    ensure!(no_panic("encoding", || encode_dict_entry(key, &none))?.is_empty(), "an absent entry is encoded");
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let s = |x: &String| BV::s(x);
    let i = |x: &u64| BV::I(*x);
    let b = |x: &Vec<u8>| BV::S(x.clone());
    let k = c.key.as_str();
    obs.nontrivial = true;
    match &c.v {
        V::Str(x) => {
            obs.label(if x.is_ascii() { "ASCII string" } else { "non-ASCII string" });
            both(x.clone(), s(x), k)?;
            both(x.as_str(), s(x), k)
        }
        V::Int(x) => both(*x as usize, i(x), k),
        V::Bytes(x) => both(x.clone(), b(x), k),
        V::Strs(x) => both(x.clone(), BV::L(x.iter().map(s).collect()), k),
        V::Ints(x) => both(x.iter().map(|n| *n as usize).collect::<Vec<_>>(), BV::L(x.iter().map(i).collect()), k),
        V::Bytess(x) => both(x.clone(), BV::L(x.iter().map(b).collect()), k),
        V::Lists(x) => both(x.clone(), BV::L(x.iter().map(|l| BV::L(l.iter().map(s).collect())).collect()), k),
        V::MapInt(x) => {
            obs.label(format!("map of {} keys", x.len().min(6)));
            both(hm(x, |n| *n as usize), bd(x, i), k)
        }
        V::MapStr(x) => both(hm(x, |v| v.clone()), bd(x, s), k),
        V::MapBytes(x) => both(hm(x, |v| v.clone()), bd(x, b), k),
        V::MapList(x) => both(
            hm(x, |l| l.iter().map(|n| *n as usize).collect::<Vec<_>>()),
            bd(x, |l| BV::L(l.iter().map(i).collect())),
            k,
        ),
        V::MapMap(x) => both(hm(x, |m| hm(m, |n| *n as usize)), bd(x, |m| bd(m, i)), k),
        V::Maps(x) => both(
            x.iter().map(|m| hm(m, |n| *n as usize)).collect::<Vec<_>>(),
            BV::L(x.iter().map(|m| bd(m, i)).collect()),
            k,
        ),
    }
}

fn mapkey() -> BoxedStrategy<String> {
    prop_oneof![
        2 => text(),
        // keys that sort differently by bytes, by characters ignoring case, and by UTF-16 units
        2 => prop::sample::select(vec!["a", "B", "b", "A", "aa", "ab", "a b", "Z", "z", "é", "\u{ffff}", "😀", "0", "10", "2", "~", ""]).prop_map(String::from),
    ]
    .boxed()
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Thorough { 24 } else { 10 };
    let big = if t == Tier::Thorough { 20_000 } else { 1200 };
    let v = prop_oneof![
        4 => text().prop_map(V::Str),
        1 => vec(any::<char>(), 0..200).prop_map(|c| V::Str(c.into_iter().collect())),
        2 => int().prop_map(V::Int),
        2 => bytes(big).prop_map(V::Bytes),
        1 => vec(text(), 0..n).prop_map(V::Strs),
        1 => vec(int(), 0..n).prop_map(V::Ints),
        1 => vec(bytes(20), 0..n).prop_map(V::Bytess),
        1 => vec(vec(text(), 0..4), 0..n).prop_map(V::Lists),
        3 => btree_map(mapkey(), int(), 0..n).prop_map(V::MapInt),
        1 => btree_map(mapkey(), text(), 0..n).prop_map(V::MapStr),
        1 => btree_map(mapkey(), bytes(20), 0..n).prop_map(V::MapBytes),
        1 => btree_map(mapkey(), vec(int(), 0..4), 0..n).prop_map(V::MapList),
        1 => btree_map(mapkey(), btree_map(mapkey(), int(), 0..4), 0..n).prop_map(V::MapMap),
        1 => vec(btree_map(mapkey(), int(), 0..4), 0..n).prop_map(V::Maps),
    ];
    (v, mapkey().prop_map(|k| if k.is_empty() { "k".to_string() } else { k })).prop_map(|(v, key)| Case { v, key }).boxed()
}

/// Long lists and maps, kept small in replay files.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    kind: u8,
    times: u32,
    seed: u64,
    key: String,
}

fn check_long(c: &Long, obs: &mut Obs) -> Outcome {
    let n = c.times as u64;
    let mut p = Prng(c.seed);
    let mut word = |i: u64| format!("{}{}", ["", "k", "é", "Z"][p.below(4) as usize], i.wrapping_mul(1 + c.seed % 97));
    let words: Vec<String> = (0..n).map(&mut word).collect();
    let num = |i: u64| c.seed.rotate_left((i % 64) as u32) >> (i % 61);
    let v = match c.kind % 10 {
        0 => V::Str(words.concat()),
        1 => V::Strs(words),
        2 => V::Ints((0..n).map(num).collect()),
        3 => V::Bytess((0..n).map(|i| filler(c.seed ^ i, (i % 7) as usize)).collect()),
        4 => V::Lists(words.chunks(3).map(|w| w.to_vec()).collect()),
        5 => V::MapInt(words.into_iter().enumerate().map(|(i, w)| (w, num(i as u64))).collect()),
        6 => V::MapBytes(words.into_iter().enumerate().map(|(i, w)| (w, filler(c.seed ^ i as u64, i % 9))).collect()),
        7 => V::MapList(words.into_iter().enumerate().map(|(i, w)| (w, (0..i as u64 % 3).map(num).collect())).collect()),
        8 => V::MapMap(words.iter().enumerate().map(|(i, w)| (w.clone(), BTreeMap::from([("x".to_string(), num(i as u64))]))).collect()),
        _ => V::Maps((0..n).map(|i| BTreeMap::from([("length".to_string(), num(i))])).collect()),
    };
    obs.label(match c.times {
        0..=255 => "up to 255 entries",
        256..=999 => "256 to 999 entries",
        _ => "1000 entries or more",
    });
    check(&Case { v, key: c.key.clone() }, obs)
}

fn long(t: Tier) -> BoxedStrategy<Long> {
    let max = if t == Tier::Thorough { 40_000u32 } else { 3_000 };
    (any::<u8>(), prop_oneof![1 => 0..400u32, 2 => 200..max], any::<u64>(), "[a-z]{1,8}")
        .prop_map(|(kind, times, seed, key)| Long { kind, times, seed, key })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "Random values of every encodable type (strings over all of Unicode, byte strings, 64-bit integers, lists, nested lists, maps \
               with keys chosen to sort differently under wrong orders, optional values, dictionary entries; lists and maps of up to 3,000 entries in part 'long') are encoded by the program and \
               by a reference encoder, byte for byte, and decoded back. Every case is non-trivial.",
        assumptions: vec!["dictionary entries have a non-empty key"],
        parts: vec![part(Spec { name: "values", quick: 1_200_000, thorough: 24_000_000, threads: 8, crumbs: false, confirm: 0, shrink: 3000, strategy: cases, check }),
            part(Spec { name: "long", quick: 4_000, thorough: 60_000, threads: 8, crumbs: false, confirm: 0, shrink: 300, strategy: long, check: check_long })],
        program: false,
    }
}
