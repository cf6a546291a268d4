//! Metadata dictionaries of chosen sizes.
use super::engine::*;
use super::refbenc::*;
use super::torrents::*;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Meta {
    pub layout: Layout,
    /// pad with an additional key to exactly this many bytes, when that is more than the dictionary has
    pub size: Option<usize>,
}

impl Meta {
    pub fn hashes(&self) -> Vec<u8> {
        filler(self.layout.seed, 20 * self.layout.pieces() as usize)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let b = self.layout.dict_unhashed().enc();
        let target = match self.size {
            Some(s) if s > b.len() + 12 => s,
            _ => return b,
        };
        // key "zpad": 6 bytes, then a string of p bytes with its length in front
        let room = target - b.len() - 6;
        let digits = (1..9).find(|d| room > *d + 1 && (room - d - 1).to_string().len() == *d);
        let p = match digits {
            Some(d) => room - d - 1,
            // no length gives exactly this size
            None => room - 3,
        };
        let mut l = self.layout.clone();
        l.extra.insert("zpad".into(), BV::S(filler(self.layout.seed ^ 5, p)));
        l.dict_unhashed().enc()
    }
}

/// Metadata of up to `pieces` metadata pieces of 16 KiB, often just on or next to a multiple of 16 KiB.
pub fn meta(pieces: u64) -> BoxedStrategy<Meta> {
    let files = vec((vec(name(), 1..4), 0u64..50_000), 1..12);
    let layout = (name(), piece_length(40_000), prop::option::of(files), 1u64..200_000, any::<u64>(), extras()).prop_map(
        move |(name, piece_length, files, length, seed, extra)| {
            let total = files.as_ref().map_or(length, |f: &Vec<(Vec<String>, u64)>| f.iter().map(|x| x.1).sum::<u64>());
            // not more hashes than asked for
            let piece_length = piece_length.max(total / (700 * pieces) + 1);
            Layout { name, piece_length, files, length, seed, extra }
        },
    );
    let size = prop_oneof![
        2 => Just(None),
        3 => (1..=pieces, -3i64..4).prop_map(|(n, d)| Some((n as i64 * 16384 + d) as usize)),
        2 => (200usize..(16384 * pieces as usize)).prop_map(Some),
    ];
    (layout, size)
        .prop_filter("a torrent has content", |(l, _)| l.total() > 0)
        .prop_map(|(layout, size)| Meta { layout, size })
        .boxed()
}

/// Metadata of about `pieces` metadata pieces: mostly hashes, or else one long value that is none of the program's business.
pub fn large_meta(pieces: u64) -> BoxedStrategy<Meta> {
    let files = vec((vec(name(), 1..4), 0u64..1 << 20), 1..200);
    (name(), 1u64..5_000, prop::option::of(files), any::<u64>(), any::<u64>(), -3i64..4)
        .prop_map(move |(name, piece_length, files, raw, seed, d)| {
            // 16384 bytes are 819 hashes
            let hashes = pieces * 819 - raw % (pieces * 819 / 4);
            let total = files.as_ref().map_or(0, |f: &Vec<(Vec<String>, u64)>| f.iter().map(|x| x.1).sum::<u64>());
            let (piece_length, length) = if total > 0 { ((total / hashes).max(1), 0) } else { (piece_length, piece_length * hashes - raw % piece_length) };
            let files = if total > 0 { files } else { None };
            let size = if raw % 3 > 0 { Some((pieces as i64 * 16384 + if raw % 3 == 1 { d } else { (raw % 16384) as i64 }) as usize) } else { None };
            Meta { layout: Layout { name, piece_length, files, length, seed, extra: BTreeMap::new() }, size }
        })
        .boxed()
}

/// Further keys in the header of a metadata piece: mostly none, else any values, some of which look like the header's end.
pub fn header_keys() -> BoxedStrategy<BTreeMap<String, BV>> {
    let key = prop_oneof![prop::sample::select(vec!["a", "n", "users", "v", "zz", "total"]).prop_map(String::from), "[a-z]{1,6}"]
        .prop_filter("not a key of its own", |k| k != "piece" && k != "msg_type" && k != "total_size");
    let value = prop_oneof![
        1 => value(6),
        1 => prop::sample::select(vec!["ee", "e", "beep", "8:msg_typei0e", "10:total_sizei3ee", "dee", "5:piecei7e"]).prop_map(BV::s),
        1 => any::<u64>().prop_map(BV::I),
    ];
    prop_oneof![3 => Just(BTreeMap::new()), 1 => btree_map(key, value, 1..4)].boxed()
}
