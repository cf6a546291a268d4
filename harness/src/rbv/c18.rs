//! C18: written pieces reproduce the torrent's files exactly.
use super::engine::*;
use super::scratch::*;
use super::torrents::*;
use crate::ensure;
use crate::torrent::file::File;
use crate::torrent::writer::write;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    piece_length: u64,
    lens: Vec<u64>,
    /// how deep each file lies
    depth: Vec<u8>,
    seed: u64,
    /// random order of the pieces, then repeats
    order: u64,
    repeats: Vec<u16>,
    /// files already there with other content (an earlier, unfinished download)
    existing: u8,
    /// names of the directories on each level
    #[serde(default)]
    dirs: Vec<String>,
    /// and of the files, where they are no directory's or earlier file's
    #[serde(default)]
    names: Vec<String>,
}

fn paths(top: &str, c: &Case) -> Vec<Vec<String>> {
    let dir = |k: usize| c.dirs.get(k).cloned().unwrap_or(format!("d{k}"));
    let mut taken: BTreeSet<Vec<String>> = BTreeSet::new();
    for k in 0..3 {
        taken.insert((0..=k).map(dir).collect());
    }
    c.depth[..c.lens.len()]
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let mut p: Vec<String> = (0..*d as usize).map(dir).collect();
            p.push(c.names.get(i).cloned().unwrap_or(format!("file {i}.bin")));
            while !taken.insert(p.clone()) {
                let mut n = p.pop().unwrap();
                if n.len() > 200 {
                    n = "other".into();
                }
                p.push(format!("{n}{i}"));
            }
            p.insert(0, top.to_string());
            p
        })
        .collect()
}

/// Any name Linux can store.
fn file_name() -> BoxedStrategy<String> {
    let special = prop::sample::select(vec![
        ':', '?', '*', '"', '<', '>', '|', '\\', '%', '&', '#', '$', '~', '\'', '`', ';', '!', '@', '+', '=', ',', '^', '{', '[', ' ', '.', '-', '_', '\t', '\n', '\u{1}', '\u{7f}', 'é', '\u{301}', 'Ä', '日', '😀', '\u{200b}', '\u{feff}', '\u{a0}',
    ]);
    prop_oneof![
        4 => vec(prop_oneof![3 => "[a-zA-Z0-9]".prop_map(|s| s.chars().next().unwrap()), 2 => special], 1..14).prop_map(|v| v.into_iter().collect::<String>()),
        1 => name(),
        1 => prop::sample::select(vec!["...", ".a", "a.", " a", "a ", " ", "con", "NUL.txt", "~", "-", "a.part", "a.tmp", ".rustBit", "a%2Fb", "%00", "desktop.ini", "a..b", "..a", "A", "a", "con.", "files"]).prop_map(String::from),
        1 => "[a-z]{200,250}",
        1 => "[a-z]{1,6}\\.[a-z0-9]{1,4}",
    ]
    .prop_map(|s| s.replace(['/', '\0'], "_"))
    .prop_map(|s| {
        let mut s = s;
        while s.len() > 250 {
            s.pop();
        }
        if s.is_empty() || s == "." || s == ".." { "x".into() } else { s }
    })
    .boxed()
}

fn on_disk(p: &[String]) -> PathBuf {
    work().join(p.join("/"))
}

pub fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let l = Layout {
        name: "n".into(),
        piece_length: c.piece_length,
        files: Some(c.lens.iter().enumerate().map(|(i, n)| (vec![i.to_string()], *n)).collect()),
        length: 0,
        seed: c.seed,
        extra: Default::default(),
    };
    let pieces = l.pieces();
    if pieces == 0 {
        return Ok(());
    }
    let content = l.content();
    let top = unique();
    let _gone = Gone(work().join(&top));
    let paths = paths(&top, c);
    let files: Vec<File> = paths.iter().zip(&c.lens).map(|(p, n)| File::new(p.clone(), *n as usize)).collect();
    let mut starts = vec![];
    let mut at = 0;
    for n in &c.lens {
        starts.push(at);
        at += n;
    }
    // the model: what each file holds; None = does not exist
    let mut model: Vec<Option<Vec<u8>>> = vec![None; files.len()];
    for (i, p) in paths.iter().enumerate() {
        if c.existing > 0 && i as u64 % c.existing as u64 == 0 {
            let old = filler(c.seed ^ 99, c.lens[i] as usize);
            let d = on_disk(p);
            std::fs::create_dir_all(d.parent().unwrap()).unwrap();
            std::fs::write(&d, &old).unwrap();
            model[i] = Some(old);
            obs.label("file already there");
        }
    }
    let mut order: Vec<u64> = (0..pieces).collect();
    let mut p = Prng(c.order);
    for i in (1..order.len()).rev() {
        order.swap(i, p.below(i as u64 + 1) as usize);
    }
    for r in &c.repeats {
        let at = p.below(order.len() as u64 + 1) as usize;
        order.insert(at, *r as u64 % pieces);
    }
    for (step, idx) in order.iter().enumerate() {
        let (a, b) = l.piece_range(*idx);
        let piece = content[a as usize..b as usize].to_vec();
        match no_panic(&format!("writing piece {idx}"), || write(piece.clone(), *idx as usize, files.clone(), c.piece_length as usize))? {
            Ok(()) => {}
            Err(e) => return fail(format!("writing piece {idx} failed: {e}")),
        }
        for (i, n) in c.lens.iter().enumerate() {
            let (s, e) = (starts[i], starts[i] + n);
            let d = on_disk(&paths[i]);
            let got = std::fs::read(&d).ok();
            let (x, y) = (a.max(s), b.min(e));
            if x < y {
                let m = model[i].get_or_insert_with(Vec::new);
                if m.len() < (y - s) as usize {
                    m.resize((y - s) as usize, 0);
                }
                m[(x - s) as usize..(y - s) as usize].copy_from_slice(&content[x as usize..y as usize]);
            }
            if *n == 0 {
                // created with any of the pieces next to it
                ensure!(got.as_ref().map_or(true, |g| g.is_empty()), "step {step}: empty file {i} holds data");
            } else {
                ensure!(got == model[i], "step {step}, after piece {idx} ({a}..{b}): file {i} ({s}..{e}) differs from the model{}", diff(&got, &model[i]));
            }
        }
    }
    let mut at = 0usize;
    for (i, n) in c.lens.iter().enumerate() {
        let got = match std::fs::read(on_disk(&paths[i])) {
            Ok(g) => g,
            Err(e) => return fail(format!("file {i} of {n} bytes does not exist at the end: {e}")),
        };
        ensure!(got == content[at..at + *n as usize], "file {i} differs at the end");
        at += *n as usize;
    }
    obs.nontrivial = pieces > 1 || files.len() > 1;
    obs.count("writes", order.len() as u64);
    if c.lens.iter().any(|n| *n == 0) {
        obs.label("empty file");
    }
    if !c.names.is_empty() {
        obs.label("names of any kind");
    }
    if files.len() > 1 {
        obs.label("several files");
    }
    let inner = BTreeSet::from_iter(starts.iter().copied());
    if inner.iter().any(|s| *s > 0 && s % c.piece_length == 0) {
        obs.label("file boundary on piece boundary");
    }
    if inner.iter().any(|s| s % c.piece_length != 0) {
        obs.label("file boundary inside a piece");
    }
    Ok(())
}

fn diff(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> String {
    match (a, b) {
        (Some(a), Some(b)) => format!(
            " (lengths {} and {}, first difference at {:?})",
            a.len(),
            b.len(),
            a.iter().zip(b).position(|(x, y)| x != y)
        ),
        (None, Some(_)) => " (missing)".into(),
        (Some(_), None) => " (should not exist yet)".into(),
        _ => String::new(),
    }
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let max = if t == Tier::Thorough { 60_000 } else { 20_000 };
    prop_oneof![4 => piece_length(100), 2 => piece_length(20_000)]
        .prop_flat_map(move |pl| {
            (
                Just(pl),
                lengths(pl, (pl * 12).min(max), 7),
                vec(0u8..3, 7),
                any::<u64>(),
                prop_oneof![1 => Just(0u64), 4 => any::<u64>()],
                vec(any::<u16>(), 0..4),
                prop_oneof![3 => Just(0u8), 1 => 1u8..4],
                (prop_oneof![1 => Just(vec![]), 1 => vec(file_name(), 3)], prop_oneof![1 => Just(vec![]), 2 => vec(file_name(), 7)]),
            )
        })
        .prop_map(|(piece_length, lens, depth, seed, order, repeats, existing, (dirs, names))| Case { piece_length, lens, depth, seed, order, repeats, existing, dirs, names })
        .boxed()
}

/// Hundreds of small files, dozens of them in one piece.
fn many(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Thorough { 1500 } else { 400 };
    (1u64..2000, vec(prop_oneof![1 => Just(0u64), 4 => 0u64..60], 50..n), any::<u64>(), any::<u64>(), vec(any::<u16>(), 0..2))
        .prop_map(|(piece_length, lens, seed, order, repeats)| {
            let total: u64 = lens.iter().sum();
            let depth = lens.iter().map(|n| (n % 3) as u8).collect();
            Case { piece_length: piece_length.max(total / 24 + 1), lens, depth, seed, order, repeats, existing: 0, dirs: vec![], names: vec![] }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big {
    piece_length: u64,
    lens: Vec<u64>,
    picks: Vec<u64>,
    seed: u64,
}

/// Files and offsets beyond 4 GiB; only some pieces are written, into sparse files.
fn check_big(c: &Big, obs: &mut Obs) -> Outcome {
    let total: u64 = c.lens.iter().sum();
    let pieces = total / c.piece_length + (total % c.piece_length != 0) as u64;
    if pieces == 0 {
        return Ok(());
    }
    let top = unique();
    let _gone = Gone(work().join(&top));
    let paths: Vec<Vec<String>> = (0..c.lens.len()).map(|i| vec![top.clone(), format!("f{i}")]).collect();
    let files: Vec<File> = paths.iter().zip(&c.lens).map(|(p, n)| File::new(p.clone(), *n as usize)).collect();
    let mut expect_len = vec![None::<u64>; files.len()];
    let mut written: Vec<(usize, u64, Vec<u8>)> = vec![];
    for pick in &c.picks {
        // pieces at file boundaries, or anywhere
        let idx = if pick % 2 == 0 {
            let f = (pick / 2) as usize % c.lens.len();
            (c.lens[..=f].iter().sum::<u64>() / c.piece_length).min(pieces - 1)
        } else {
            pick / 2 % pieces
        };
        let (a, b) = (idx * c.piece_length, ((idx + 1) * c.piece_length).min(total));
        let piece = filler(c.seed ^ idx, (b - a) as usize);
        match no_panic(&format!("writing piece {idx}"), || write(piece.clone(), idx as usize, files.clone(), c.piece_length as usize))? {
            Ok(()) => {}
            Err(e) => return fail(format!("writing piece {idx} failed: {e}")),
        }
        let mut s = 0;
        for (i, n) in c.lens.iter().enumerate() {
            let (x, y) = (a.max(s), b.min(s + n));
            if x < y {
                expect_len[i] = Some(expect_len[i].unwrap_or(0).max(y - s));
                written.push((i, x - s, piece[(x - a) as usize..(y - a) as usize].to_vec()));
                if y > u32::MAX as u64 {
                    obs.label("offset beyond 4 GiB");
                    obs.nontrivial = true;
                }
            }
            s += n;
        }
    }
    for (i, want) in expect_len.iter().enumerate() {
        let got = std::fs::metadata(on_disk(&paths[i])).ok().map(|m| m.len());
        if c.lens[i] > 0 {
            ensure!(got == *want, "file {i} has length {got:?} instead of {want:?}");
        }
    }
    for (i, off, data) in &written {
        let f = std::fs::File::open(on_disk(&paths[*i])).unwrap();
        let mut buf = vec![0; data.len()];
        ensure!(f.read_exact_at(&mut buf, *off).is_ok() && &buf == data, "file {i}: wrong bytes at offset {off}");
    }
    // nothing but these bytes: the data blocks of the sparse files hold no more than was written
    use std::os::unix::fs::MetadataExt;
    for (i, p) in paths.iter().enumerate() {
        if let Ok(m) = std::fs::metadata(on_disk(p)) {
            let bytes: u64 = written.iter().filter(|w| w.0 == i).map(|w| (w.2.len() as u64 / 4096 + 2) * 4096).sum();
            if m.blocks() * 512 > bytes + (1 << 20) {
                obs.label("file system without sparse files");
            }
        }
    }
    Ok(())
}

fn big(_t: Tier) -> BoxedStrategy<Big> {
    let len = prop_oneof![
        3 => (1u64 << 31)..(1u64 << 34),
        1 => (0u64..5).prop_map(|d| (1u64 << 32) + d - 2),
        1 => 0u64..100_000,
        1 => Just(0u64),
    ];
    let pl = prop_oneof![Just(1u64 << 14), Just(1u64 << 16), Just(1u64 << 18), 1000u64..300_000];
    (pl, vec(len, 1..4), vec(any::<u64>(), 1..8), any::<u64>())
        .prop_map(|(piece_length, lens, picks, seed)| Big { piece_length, lens, picks, seed })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "Random layouts (1-7 files, lengths on, just before and just after piece boundaries, empty files, nested directories, names of any characters) are written \
               piece by piece in random order with repeats into a scratch directory; after every write all files are compared with a model. \
               Part 'many-files' does so with 50 to 400 small files, dozens of them in one piece. \
               Part 'big' writes selected pieces of torrents of up to 48 GiB into sparse files. Non-trivial: more than one piece or file, resp. an offset beyond 4 GiB.",
        assumptions: vec!["Linux file system with sparse files", "torrents with at least one piece", "existing files are not longer than the torrent's"],
        parts: vec![
            part(Spec { name: "layouts", quick: 120_000, thorough: 2_400_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: cases, check }),
            part(Spec { name: "many-files", quick: 240, thorough: 5_000, threads: 8, crumbs: true, confirm: 0, shrink: 60, strategy: many, check }),
            part(Spec { name: "big", quick: 15_000, thorough: 300_000, threads: 8, crumbs: true, confirm: 0, shrink: 300, strategy: big, check: check_big }),
        ],
        program: false,
    }
}
