//! Reference bencode codec, written from the specification, and generators of bencode values.
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use crate::bencode::metainfo::Metainfo;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum BV {
    I(u64),
    S(Vec<u8>),
    L(Vec<BV>),
    D(BTreeMap<String, BV>),
}

pub fn estr(out: &mut Vec<u8>, s: &[u8]) {
    out.extend_from_slice(s.len().to_string().as_bytes());
    out.push(b':');
    out.extend_from_slice(s);
}

impl BV {
    pub fn s(x: &str) -> BV {
        BV::S(x.as_bytes().to_vec())
    }
    pub fn enc_to(&self, out: &mut Vec<u8>) {
        match self {
            BV::I(n) => out.extend_from_slice(format!("i{n}e").as_bytes()),
            BV::S(s) => estr(out, s),
            BV::L(l) => {
                out.push(b'l');
                for x in l {
                    x.enc_to(out);
                }
                out.push(b'e');
            }
            BV::D(d) => {
                out.push(b'd');
                // BTreeMap<String> iterates in byte order of the UTF-8 keys
                for (k, v) in d {
                    estr(out, k.as_bytes());
                    v.enc_to(out);
                }
                out.push(b'e');
            }
        }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut o = vec![];
        self.enc_to(&mut o);
        o
    }
    pub fn depth(&self) -> usize {
        match self {
            BV::L(l) => 1 + l.iter().map(|x| x.depth()).max().unwrap_or(0),
            BV::D(d) => 1 + d.values().map(|x| x.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn dict(items: Vec<(&str, BV)>) -> BV {
        BV::D(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
}

pub fn same(m: &Metainfo, v: &BV) -> bool {
    match (m, v) {
        (Metainfo::Integer(a), BV::I(b)) => *a as u64 == *b,
        (Metainfo::String(a), BV::S(b)) => a == b,
        (Metainfo::List(a), BV::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Metainfo::Dictionary(a), BV::D(b)) => {
            a.len() == b.len() && b.iter().all(|(k, y)| a.get(k).map_or(false, |x| same(x, y)))
        }
        _ => false,
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    /// a valid document inside the supported domain; the value and where it ends
    Valid(usize),
    /// grammatical, but using something the decoder is free to refuse (negative or oversized integers, leading zeros,
    /// unsorted, repeated or non-UTF-8 keys, nesting beyond 100)
    Free(usize),
    /// breaks the grammar
    Malformed,
    /// nothing that starts a document
    NoDocument,
}

/// Classifies the document at the start of `b`.
pub fn classify(b: &[u8]) -> Verdict {
    if b.is_empty() || !matches!(b[0], b'i' | b'l' | b'd' | b'0'..=b'9') {
        return Verdict::NoDocument;
    }
    let mut p = P { b, pos: 0, free: false, over: false };
    // iterative, so that the reference cannot overflow the stack itself
    match p.document() {
        Some(()) if p.free => Verdict::Free(p.pos),
        Some(()) => Verdict::Valid(p.pos),
        None => Verdict::Malformed,
    }
}

/// Whether the document at the start of `b` is grammatical and holds an integer of 2^64 or more.
pub fn oversized(b: &[u8]) -> bool {
    let mut p = P { b, pos: 0, free: false, over: false };
    !b.is_empty() && matches!(b[0], b'i' | b'l' | b'd') && p.document().is_some() && p.over
}

struct P<'a> {
    b: &'a [u8],
    pos: usize,
    free: bool,
    over: bool,
}

enum Open {
    List,
    Dict(Option<Vec<u8>>, bool), // last key; true = a value is due
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.pos).copied()
    }
    fn digits(&mut self) -> Option<&'a [u8]> {
        let s = self.pos;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.pos += 1;
        }
        if s == self.pos {
            return None;
        }
        let d = &self.b[s..self.pos];
        if d.len() > 1 && d[0] == b'0' {
            self.free = true;
        }
        Some(d)
    }
    fn string(&mut self) -> Option<&'a [u8]> {
        let d = self.digits()?;
        let n: usize = std::str::from_utf8(d).unwrap().parse().ok()?;
        if self.peek()? != b':' {
            return None;
        }
        self.pos += 1;
        let end = self.pos.checked_add(n)?;
        if end > self.b.len() {
            return None;
        }
        let s = &self.b[self.pos..end];
        self.pos = end;
        Some(s)
    }
    fn integer(&mut self) -> Option<()> {
        self.pos += 1;
        let negative = self.peek()? == b'-';
        if negative {
            self.pos += 1;
            self.free = true;
        }
        let d = self.digits()?;
        if std::str::from_utf8(d).unwrap().parse::<u64>().is_err() {
            self.free = true;
            self.over |= !negative;
        }
        if self.peek()? != b'e' {
            return None;
        }
        self.pos += 1;
        Some(())
    }
    fn document(&mut self) -> Option<()> {
        let mut stack: Vec<Open> = vec![];
        loop {
            // inside a container: close it, or read a key
            if let Some(top) = stack.last_mut() {
                let c = self.b.get(self.pos).copied()?;
                match top {
                    Open::List => {
                        if c == b'e' {
                            self.pos += 1;
                            stack.pop();
                            if stack.is_empty() {
                                return Some(());
                            }
                            if let Some(Open::Dict(_, due)) = stack.last_mut() {
                                *due = false;
                            }
                            continue;
                        }
                    }
                    Open::Dict(_, due) => {
                        if !*due {
                            if c == b'e' {
                                self.pos += 1;
                                stack.pop();
                                if stack.is_empty() {
                                    return Some(());
                                }
                                if let Some(Open::Dict(_, due)) = stack.last_mut() {
                                    *due = false;
                                }
                                continue;
                            }
                            let k = {
                                let mut q = P { b: self.b, pos: self.pos, free: self.free, over: false };
                                let k = q.string()?;
                                self.pos = q.pos;
                                self.free = q.free;
                                k
                            };
                            if std::str::from_utf8(k).is_err() {
                                self.free = true;
                            }
                            if let Some(Open::Dict(last, due)) = stack.last_mut() {
                                if let Some(l) = last {
                                    if l.as_slice() >= k {
                                        self.free = true;
                                    }
                                }
                                *last = Some(k.to_vec());
                                *due = true;
                            }
                        }
                    }
                }
            }
            // a value
            match self.peek()? {
                b'i' => self.integer()?,
                b'l' => {
                    self.pos += 1;
                    stack.push(Open::List);
                    if stack.len() > 100 {
                        self.free = true;
                    }
                    continue;
                }
                b'd' => {
                    self.pos += 1;
                    stack.push(Open::Dict(None, false));
                    if stack.len() > 100 {
                        self.free = true;
                    }
                    continue;
                }
                b'0'..=b'9' => {
                    self.string()?;
                }
                _ => return None,
            }
            match stack.last_mut() {
                None => return Some(()),
                Some(Open::Dict(_, due)) => *due = false,
                Some(Open::List) => {}
            }
        }
    }
}

// ---- generators -----------------------------------------------------------------------------------------------------

pub fn int() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..300,
        2 => any::<u64>(),
        1 => Just(u64::MAX),
        1 => Just(u32::MAX as u64),
        1 => Just(i64::MAX as u64),
        2 => (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(1)),
        1 => (1u32..20).prop_map(|e| 10u64.pow(e.min(19))),
    ]
    .boxed()
}

pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        3 => vec(any::<u8>(), 0..12),
        2 => vec(prop::sample::select(b"0123456789:ilde-".to_vec()), 0..12),
        2 => vec(any::<u8>(), 0..max.max(2)),
        1 => "[ -~]{0,24}".prop_map(|s| s.into_bytes()),
        1 => text().prop_map(|s| s.into_bytes()),
    ]
    .boxed()
}

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z ]{0,10}",
        1 => Just(String::new()),
        2 => "[a-zéüñ日本語Ω€😀]{1,8}",
        1 => "\\PC{0,10}",
        1 => vec(any::<char>(), 0..6).prop_map(|c| c.into_iter().collect::<String>()),
        1 => "[0-9:ilde]{1,8}",
    ]
    .boxed()
}

pub fn value(leaf_bytes: usize) -> BoxedStrategy<BV> {
    let leaf = prop_oneof![2 => int().prop_map(BV::I), 3 => bytes(leaf_bytes).prop_map(BV::S)];
    leaf.prop_recursive(5, 40, 6, |inner| {
        prop_oneof![
            1 => vec(inner.clone(), 0..6).prop_map(BV::L),
            1 => btree_map(text(), inner, 0..6).prop_map(BV::D),
        ]
    })
    .boxed()
}

/// A chain of `depth` containers around a leaf.
pub fn deep(max: usize) -> BoxedStrategy<BV> {
    (vec(any::<bool>(), 1..=max), value(8))
        .prop_map(move |(kinds, leaf)| {
            let mut v = leaf;
            for k in kinds {
                if v.depth() >= max {
                    break;
                }
                v = if k { BV::L(vec![v]) } else { BV::D(BTreeMap::from([("k".to_string(), v)])) };
            }
            v
        })
        .boxed()
}

/// A document with up to thousands of siblings, kept small in replay files: `units` over and over.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wide {
    units: Vec<BV>,
    times: u32,
    /// in a dictionary with numbered keys rather than in a list
    dict: bool,
    /// containers around it
    wrap: u8,
}

impl Wide {
    pub fn build(&self) -> BV {
        let all = (0..self.times as usize).map(|i| self.units[i % self.units.len()].clone());
        let mut v = match self.dict {
            true => BV::D(all.enumerate().map(|(i, v)| (format!("k{i}"), v)).collect()),
            false => BV::L(all.collect()),
        };
        for i in 0..self.wrap {
            v = if i % 2 == 0 { BV::dict(vec![("a", BV::I(1)), ("w", v), ("x", BV::s("end"))]) } else { BV::L(vec![v, BV::I(2)]) };
        }
        v
    }
    pub fn label(&self) -> &'static str {
        match self.times {
            0..=255 => "up to 255 siblings",
            256..=999 => "256 to 999 siblings",
            _ => "1000 siblings or more",
        }
    }
}

pub fn wide(max: u32) -> BoxedStrategy<Wide> {
    (vec(value(6), 1..4), prop_oneof![1 => 0u32..400, 2 => 200u32..max], any::<bool>(), 0u8..4)
        .prop_map(|(units, times, dict, wrap)| {
            // the units may be large themselves
            let size: usize = units.iter().map(|u| u.enc().len()).sum::<usize>() / units.len() + 1;
            let times = times.min((400_000 / size) as u32);
            Wide { units, times, dict, wrap }
        })
        .boxed()
}
