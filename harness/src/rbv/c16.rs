//! C16: unusable torrent metadata is rejected, never a crash.
use super::engine::*;
use super::refbenc::*;
use super::torrents::*;
use super::alloc;
use crate::ensure;
use crate::torrent::info::Info;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Remove(String),
    Set(String, BV),
    /// change the number of hash bytes
    Resize(i32),
    FileRemove(u8, String),
    FileSet(u8, String, BV),
    FileIs(u8, BV),
    PathElement(u8, BV),
    DropFiles,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Layout,
    edits: Vec<Edit>,
}

#[derive(PartialEq, Debug)]
enum Use {
    Usable(u64, u64), // piece length, total
    Unusable(&'static str),
    /// the statement does not say
    Open,
}

fn utf8(v: Option<&BV>) -> bool {
    matches!(v, Some(BV::S(s)) if std::str::from_utf8(s).is_ok())
}

fn usable(v: &BV) -> Use {
    let d = match v {
        BV::D(d) => d,
        _ => return Use::Unusable("not a dictionary"),
    };
    if !utf8(d.get("name")) {
        return Use::Unusable("name");
    }
    let hashes = match d.get("pieces") {
        Some(BV::S(s)) => s.len() as u64,
        _ => return Use::Unusable("pieces"),
    };
    let pl = match d.get("piece length") {
        Some(BV::I(0)) => return Use::Unusable("zero piece length"),
        Some(BV::I(n)) => *n,
        _ => return Use::Unusable("piece length"),
    };
    let length = match d.get("length") {
        None => None,
        Some(BV::I(n)) => Some(Ok(*n)),
        Some(_) => Some(Err(())),
    };
    let files = match d.get("files") {
        None => None,
        Some(BV::L(l)) => {
            let mut total = Some(0u64);
            let mut ok = true;
            for f in l {
                match f {
                    BV::D(f) => {
                        match f.get("length") {
                            Some(BV::I(n)) => total = total.and_then(|t: u64| t.checked_add(*n)),
                            _ => ok = false,
                        }
                        match f.get("path") {
                            Some(BV::L(p)) => ok &= p.iter().all(|x| utf8(Some(x))),
                            _ => ok = false,
                        }
                    }
                    _ => ok = false,
                }
            }
            if !ok {
                return Use::Unusable("file entry");
            }
            match total {
                None => return Use::Unusable("total length overflows"),
                Some(t) => Some(Ok(t)),
            }
        }
        Some(_) => Some(Err(())),
    };
    let total = match (length, files) {
        (None, None) => return Use::Unusable("neither length nor files"),
        (Some(Ok(n)), None) | (None, Some(Ok(n))) => n,
        (Some(Err(())), None) => return Use::Unusable("length"),
        (None, Some(Err(()))) => return Use::Unusable("files"),
        _ => return Use::Open, // both, consistent or not
    };
    let count = total / pl + (total % pl != 0) as u64;
    match count.checked_mul(20) {
        Some(n) if n == hashes => {}
        _ => return Use::Unusable("number of hashes"),
    }
    if count.checked_mul(pl).is_none() {
        return Use::Unusable("piece offsets overflow");
    }
    Use::Usable(pl, total)
}

fn apply(base: &Layout, edits: &[Edit]) -> BV {
    let mut v = base.dict_unhashed();
    for e in edits {
        let d = match &mut v {
            BV::D(d) => d,
            _ => break,
        };
        fn file<'a>(d: &'a mut BTreeMap<String, BV>, i: u8) -> Option<&'a mut BV> {
            match d.get_mut("files") {
                Some(BV::L(l)) if !l.is_empty() => {
                    let n = l.len();
                    l.get_mut(i as usize % n)
                }
                _ => None,
            }
        }
        match e {
            Edit::Remove(k) => {
                d.remove(k);
            }
            Edit::Set(k, x) => {
                d.insert(k.clone(), x.clone());
            }
            Edit::Resize(n) => {
                if let Some(BV::S(s)) = d.get_mut("pieces") {
                    let len = (s.len() as i64 + *n as i64).max(0) as usize;
                    s.resize(len, 7);
                }
            }
            Edit::FileRemove(i, k) => {
                if let Some(BV::D(f)) = file(d, *i) {
                    f.remove(k);
                }
            }
            Edit::FileSet(i, k, x) => {
                if let Some(BV::D(f)) = file(d, *i) {
                    f.insert(k.clone(), x.clone());
                }
            }
            Edit::FileIs(i, x) => {
                if let Some(f) = file(d, *i) {
                    *f = x.clone();
                }
            }
            Edit::PathElement(i, x) => {
                if let Some(BV::D(f)) = file(d, *i) {
                    if let Some(BV::L(p)) = f.get_mut("path") {
                        p.push(x.clone());
                    }
                }
            }
            Edit::DropFiles => {
                if let Some(BV::L(l)) = d.get_mut("files") {
                    l.pop();
                }
            }
        }
    }
    v
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let v = apply(&c.base, &c.edits);
    let bytes = v.enc();
    let want = usable(&v);
    obs.nontrivial = !c.edits.is_empty();
    obs.label(match &want {
        Use::Usable(..) => "usable".to_string(),
        Use::Unusable(w) => format!("unusable: {w}"),
        Use::Open => "both length and files".into(),
    });
    judge_info(&bytes, want)
}

fn judge_info(bytes: &[u8], want: Use) -> Outcome {
    let (r, _) = alloc::with_budget((64 << 10) + 1024 * bytes.len(), || {
        no_panic("interpreting metadata", || Info::from_bytes(bytes.to_vec()))
    });
    let info = match r? {
        Ok(i) => i,
        Err(_) => return Ok(()),
    };
    if let Use::Unusable(w) = &want {
        return fail(format!("unusable metadata accepted ({w})"));
    }
    no_panic("an operation on accepted metadata", || {
        let total = info.get_total_length();
        let pl = info.get_piece_length();
        if let Use::Usable(p, t) = want {
            ensure!(pl as u64 == p && total as u64 == t, "piece length {pl}, total {total} instead of {p}, {t}");
        }
        // as the download does
        let count = (0..total).step_by(pl).len();
        for i in 0..count {
            ensure!(info.get_piece(i).len() == 20, "hash of piece {i}");
            ensure!(!info.verify_piece(b"", i), "no data verifies as piece {i}");
        }
        let files = info.get_files().map_err(|e| Fail { msg: format!("no files: {e}"), soft: false, sig: None })?;
        let mut sum = 0usize;
        for f in &files {
            let _ = f.get_path();
            sum = match sum.checked_add(f.get_length()) {
                Some(s) => s,
                None => return fail("accepted file lengths overflow"),
            };
        }
        ensure!(sum == total, "files make {sum} bytes, total is {total}");
        let _ = info.compute_info_hash();
        Ok(())
    })?
}

fn wild() -> BoxedStrategy<BV> {
    prop_oneof![
        2 => int().prop_map(BV::I),
        2 => bytes(45).prop_map(BV::S),
        1 => Just(BV::S(vec![0xff, 0xfe])),
        1 => Just(BV::L(vec![])),
        1 => Just(BV::D(BTreeMap::new())),
        1 => vec(value(5), 0..3).prop_map(BV::L),
        1 => Just(BV::I(0)),
        1 => Just(BV::I(u64::MAX)),
    ]
    .boxed()
}

fn edits() -> BoxedStrategy<Vec<Edit>> {
    let key = prop::sample::select(vec!["name", "pieces", "piece length", "length", "files"]).prop_map(String::from).boxed();
    let fkey = prop::sample::select(vec!["length", "path"]).prop_map(String::from).boxed();
    let big = prop_oneof![Just(u64::MAX), Just(u64::MAX / 2), Just(1u64 << 63), (1u64 << 60)..u64::MAX, 0u64..3].boxed();
    let e = prop_oneof![
        2 => key.clone().prop_map(Edit::Remove),
        3 => (key, wild()).prop_map(|(k, v)| Edit::Set(k, v)),
        2 => prop::sample::select(vec![-20i32, 20, -1, 1, 19, -19, 40, -1_000_000, 200, 10]).prop_map(Edit::Resize),
        1 => (any::<u8>(), fkey.clone()).prop_map(|(i, k)| Edit::FileRemove(i, k)),
        2 => (any::<u8>(), fkey, wild()).prop_map(|(i, k, v)| Edit::FileSet(i, k, v)),
        2 => (any::<u8>(), big.clone()).prop_map(|(i, v)| Edit::FileSet(i, "length".into(), BV::I(v))),
        1 => (any::<u8>(), wild()).prop_map(|(i, v)| Edit::FileIs(i, v)),
        1 => (any::<u8>(), wild()).prop_map(|(i, v)| Edit::PathElement(i, v)),
        1 => Just(Edit::DropFiles),
        2 => big.clone().prop_map(|v| Edit::Set("piece length".into(), BV::I(v))),
        2 => big.prop_map(|v| Edit::Set("length".into(), BV::I(v))),
    ];
    vec(e, 0..4).boxed()
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    (big_layout(12), edits()).prop_map(|(base, edits)| Case { base, edits }).boxed()
}

/// Few pieces with enormous lengths: arithmetic at the edge of 64 bits.
fn edge_cases(_t: Tier) -> BoxedStrategy<Case> {
    let big = prop_oneof![any::<u64>(), (0u32..64).prop_map(|e| 1u64 << e), (0u64..4).prop_map(|d| u64::MAX - d), 1u64..5].boxed();
    (big.clone(), vec(big, 1..4), 0u64..4, any::<bool>())
        .prop_map(|(pl, lens, count, single)| {
            let base = Layout { name: "n".into(), piece_length: pl.max(1), files: None, length: 0, seed: 1, extra: BTreeMap::new() };
            let mut edits = vec![];
            if single {
                edits.push(Edit::Set("length".into(), BV::I(lens[0])));
            } else {
                edits.push(Edit::Remove("length".into()));
                let l = lens.iter().map(|n| BV::dict(vec![("length", BV::I(*n)), ("path", BV::L(vec![BV::s("p")]))])).collect();
                edits.push(Edit::Set("files".into(), BV::L(l)));
            }
            edits.push(Edit::Resize(20 * count as i32));
            Case { base, edits }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    base: Layout,
    bytes: Vec<(u16, u8)>,
    cut: u16,
}
/// Dictionaries damaged byte by byte: no expectation but that nothing crashes (rejecting malformed bencode is C13).
fn check_raw(c: &Raw, obs: &mut Obs) -> Outcome {
    let mut b = c.base.dict_unhashed().enc();
    for (p, x) in &c.bytes {
        let n = b.len();
        if n > 0 {
            b[*p as usize * n / 65536] = *x;
        }
    }
    let n = b.len();
    b.truncate(n - (c.cut as usize % (n + 1)).min(n));
    obs.nontrivial = !c.bytes.is_empty();
    judge_info(&b, Use::Open)
}
fn raw(_t: Tier) -> BoxedStrategy<Raw> {
    let x = prop_oneof![any::<u8>(), prop::sample::select(b"0123456789:ilde".to_vec())];
    (big_layout(4), vec((any::<u16>(), x), 0..5), prop_oneof![3 => Just(0u16), 1 => 0u16..40])
        .prop_map(|(base, bytes, cut)| Raw { base, bytes, cut })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "Valid info dictionaries with 0-3 edits (keys removed or retyped, zero and enormous lengths, wrong numbers of hash bytes, broken \
               file entries), dictionaries with lengths at the edge of 64 bits, and dictionaries with damaged bytes. An independent predicate \
               says which are unusable: those must be refused; on whatever is accepted, all operations are run. Non-trivial: at least one edit.",
        assumptions: vec!["dictionaries with both length and files are left open: they may be accepted or refused"],
        parts: vec![
            part(Spec { name: "edits", quick: 300_000, thorough: 6_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: cases, check }),
            part(Spec { name: "edges", quick: 300_000, thorough: 6_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: edge_cases, check }),
            part(Spec { name: "damaged", quick: 200_000, thorough: 4_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: raw, check: check_raw }),
        ],
        program: false,
    }
}
