//! Models of torrents: their info dictionary, content and layout, computed independently of the program.
use super::engine::*;
use super::refbenc::*;
use crate::ensure;
use crate::torrent::info::Info;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha1::{Digest, Sha1};
use std::collections::BTreeMap;

/// The layout of a torrent; content and hashes follow from it.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Layout {
    pub name: String,
    pub piece_length: u64,
    /// None: a single file of `length`
    pub files: Option<Vec<(Vec<String>, u64)>>,
    pub length: u64,
    pub seed: u64,
    /// additional keys of the dictionary
    pub extra: BTreeMap<String, BV>,
}

impl Layout {
    pub fn total(&self) -> u64 {
        match &self.files {
            Some(f) => f.iter().map(|x| x.1).sum(),
            None => self.length,
        }
    }
    pub fn pieces(&self) -> u64 {
        let t = self.total();
        t / self.piece_length + (t % self.piece_length != 0) as u64
    }
    pub fn file_list(&self) -> Vec<(Vec<String>, u64)> {
        match &self.files {
            Some(f) => f.clone(),
            None => vec![(vec![self.name.clone()], self.length)],
        }
    }
    pub fn content(&self) -> Vec<u8> {
        filler(self.seed, self.total() as usize)
    }
    pub fn piece_range(&self, i: u64) -> (u64, u64) {
        (i * self.piece_length, ((i + 1) * self.piece_length).min(self.total()))
    }
    /// The concatenated SHA-1 hashes of the content's pieces.
    pub fn hashes(&self) -> Vec<u8> {
        let c = self.content();
        c.chunks(self.piece_length as usize).flat_map(|p| Sha1::digest(p).to_vec()).collect()
    }
    pub fn dict_with(&self, hashes: Vec<u8>) -> BV {
        let mut d: BTreeMap<String, BV> = self.extra.clone();
        match &self.files {
            Some(f) => {
                let l = f
                    .iter()
                    .map(|(p, n)| {
                        BV::dict(vec![("length", BV::I(*n)), ("path", BV::L(p.iter().map(|x| BV::s(x)).collect()))])
                    })
                    .collect();
                d.insert("files".into(), BV::L(l));
            }
            None => {
                d.insert("length".into(), BV::I(self.length));
            }
        }
        d.insert("name".into(), BV::s(&self.name));
        d.insert("piece length".into(), BV::I(self.piece_length));
        d.insert("pieces".into(), BV::S(hashes));
        BV::D(d)
    }
    pub fn dict(&self) -> BV {
        self.dict_with(self.hashes())
    }
    pub fn info_hash(&self) -> Vec<u8> {
        Sha1::digest(&self.dict().enc()).to_vec()
    }
    /// A dictionary with made-up hashes, for layouts too big to have content.
    pub fn dict_unhashed(&self) -> BV {
        self.dict_with(filler(self.seed, 20 * self.pieces() as usize))
    }
}

pub fn same_info(info: &Info, l: &Layout, hashes: &[u8]) -> Outcome {
    ensure!(info.get_piece_length() as u64 == l.piece_length, "piece length {} instead of {}", info.get_piece_length(), l.piece_length);
    let want = l.file_list();
    match info.get_files() {
        Ok(files) => {
            ensure!(files.len() == want.len(), "{} files instead of {}", files.len(), want.len());
            for (i, (f, (p, n))) in files.iter().zip(&want).enumerate() {
                ensure!(&f.get_path() == p, "file {i} has path {:?} instead of {p:?}", f.get_path());
                ensure!(f.get_length() as u64 == *n, "file {i} has length {} instead of {n}", f.get_length());
            }
        }
        Err(e) => return fail(format!("no files: {e}")),
    }
    ensure!(info.get_total_length() as u64 == l.total(), "total length {} instead of {}", info.get_total_length(), l.total());
    for (i, h) in hashes.chunks(20).enumerate() {
        ensure!(info.get_piece(i) == h, "hash of piece {i} is wrong");
    }
    Ok(())
}

pub fn sha1(b: &[u8]) -> Vec<u8> {
    Sha1::digest(b).to_vec()
}

const STANDARD: [&str; 5] = ["files", "length", "name", "piece length", "pieces"];

pub fn extras() -> BoxedStrategy<BTreeMap<String, BV>> {
    let key = prop_oneof![
        3 => prop::sample::select(vec!["private", "source", "md5sum", "publisher", "cross_seed_entry", "meta version", "zzz", "a"]).prop_map(String::from),
        1 => text(),
    ];
    prop_oneof![
        3 => Just(BTreeMap::new()),
        1 => Just(BTreeMap::from([("private".to_string(), BV::I(1))])),
        1 => proptest::collection::btree_map(key, value(10), 0..3),
    ]
    .prop_map(|mut m| {
        for k in STANDARD {
            m.remove(k);
        }
        m
    })
    .boxed()
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![4 => "[a-zA-Z0-9_. -]{1,16}", 2 => "[a-zéü日本Ω😀]{1,8}", 1 => "\\PC{1,12}"]
        .prop_map(|s| if s.is_empty() { "n".into() } else { s })
        .boxed()
}

/// Piece lengths around and away from the 16 KiB block size.
pub fn piece_length(max: u64) -> BoxedStrategy<u64> {
    prop_oneof![
        3 => prop::sample::select(vec![16384u64, 32768, 65536, 1, 2, 3, 7, 16, 20, 16383, 16385, 24576, 32767, 32769, 40000, 49152, 50000]),
        2 => 1..=max,
        2 => 1..=max.min(64),
    ]
    .prop_map(move |x| x.min(max))
    .boxed()
}

/// File lengths that make `pieces` pieces or so, with boundaries on, just before and just after piece boundaries.
pub fn lengths(piece_length: u64, max_total: u64, max_files: usize) -> BoxedStrategy<Vec<u64>> {
    let pl = piece_length;
    let one = prop_oneof![
        3 => 0..=(3 * pl),
        2 => (0u64..4).prop_map(move |k| k * pl),
        1 => (1u64..4).prop_map(move |k| k * pl + 1),
        1 => (1u64..4).prop_map(move |k| k * pl - 1),
        2 => Just(0u64),
        2 => 0..=(pl.min(10)),
    ];
    vec(one, 1..=max_files)
        .prop_map(move |mut v| {
            let mut sum = 0;
            for x in v.iter_mut() {
                if sum + *x > max_total {
                    *x = max_total - sum;
                }
                sum += *x;
            }
            v
        })
        .boxed()
}

/// Info dictionaries of all sizes up to petabytes, described without content.
pub fn big_layout(max_pieces: u64) -> BoxedStrategy<Layout> {
    let pl = prop_oneof![
        3 => (4u32..24).prop_map(|e| 1u64 << e),
        2 => 1u64..2_000_000,
        1 => 1u64..100,
        1 => (0u64..(1 << 40)),
    ]
    .prop_map(|x| x.max(1));
    let files = vec((vec(name(), 1..4), any::<u64>(), 0u8..5), 1..8);
    (name(), pl, any::<bool>(), files, any::<u64>(), extras(), 0..=max_pieces)
        .prop_map(|(name, piece_length, single, raw, seed, extra, pieces)| {
            let total = {
                let t = piece_length.saturating_mul(pieces).min(1 << 50);
                let cut = if pieces > 0 { seed % piece_length } else { 0 };
                t - cut.min(t)
            };
            if single {
                Layout { name, piece_length, files: None, length: total, seed, extra }
            } else {
                let mut left = total;
                let n = raw.len();
                let files = raw
                    .into_iter()
                    .enumerate()
                    .map(|(i, (p, x, k))| {
                        let len = if i + 1 == n {
                            left
                        } else {
                            match k {
                                0 => 0,
                                1 => (x % 4 * piece_length).min(left),
                                _ => x % (left + 1),
                            }
                        };
                        left -= len;
                        (p, len)
                    })
                    .collect();
                Layout { name, piece_length, files: Some(files), length: 0, seed, extra }
            }
        })
        .boxed()
}

/// A torrent of up to thousands of files, kept small in replay files.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    files: u32,
    piece_length: u64,
    /// greatest length of a file
    longest: u64,
    /// files of a directory
    per_dir: u32,
    name: String,
    seed: u64,
}

impl Many {
    pub fn layout(&self) -> Layout {
        let mut p = Prng(self.seed);
        let files = (0..self.files)
            .map(|i| {
                let dir = i / self.per_dir.max(1);
                let path = match p.below(3) {
                    0 => vec![format!("file {i}")],
                    1 => vec![format!("d{dir}"), format!("{i}.bin")],
                    _ => vec![format!("d{dir}"), "x".to_string(), format!("é{i}")],
                };
                let n = match p.below(8) {
                    0 => 0,
                    1 => p.below(3) * self.piece_length,
                    _ => p.below(self.longest + 1),
                };
                (path, n)
            })
            .collect();
        Layout { name: self.name.clone(), piece_length: self.piece_length, files: Some(files), length: 0, seed: self.seed, extra: Default::default() }
    }
    pub fn label(&self) -> &'static str {
        match self.files {
            0..=99 => "fewer than 100 files",
            100..=999 => "100 to 999 files",
            _ => "1000 files or more",
        }
    }
}

pub fn many_files(max: u32) -> BoxedStrategy<Many> {
    (prop_oneof![1 => 1..max.min(300), 1 => 1..max], 1u64..100_000, 0u64..200_000, 1u32..200, name(), any::<u64>())
        .prop_map(|(files, piece_length, longest, per_dir, name, seed)| Many {
            files,
            // not more than some ten thousand pieces
            piece_length: piece_length.max(files as u64 * longest / 20_000),
            longest,
            per_dir,
            name,
            seed,
        })
        .boxed()
}

/// An entry of a compact peer list.
pub fn entry() -> BoxedStrategy<[u8; 6]> {
    let byte = prop_oneof![3 => any::<u8>(), 1 => prop::sample::select(vec![0u8, 1, 9, 10, 99, 100, 127, 128, 255])].boxed();
    let port = prop_oneof![2 => any::<u16>(), 1 => prop::sample::select(vec![0u16, 1, 255, 256, 80, 6881, 0x7fff, 0x8000, 65535])];
    (byte.clone(), byte.clone(), byte.clone(), byte, port)
        .prop_map(|(a, b, c, d, p)| {
            let p = p.to_be_bytes();
            [a, b, c, d, p[0], p[1]]
        })
        .boxed()
}

/// Entries of a compact peer list, some of them repeated, or with the address or the port of an earlier one.
pub fn entries(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<[u8; 6]>> {
    vec((entry(), any::<u8>()), n)
        .prop_map(|v| {
            let mut out: Vec<[u8; 6]> = vec![];
            for (mut e, k) in v {
                if let Some(last) = out.last() {
                    let from = if k < 128 { *last } else { out[k as usize % out.len()] };
                    match k % 16 {
                        0 => e = from,
                        1 => e[..4].copy_from_slice(&from[..4]),
                        2 => e[4..].copy_from_slice(&from[4..]),
                        _ => {}
                    }
                }
                out.push(e);
            }
            out
        })
        .boxed()
}
