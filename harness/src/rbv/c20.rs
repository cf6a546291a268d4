//! C20: a file that cannot be written does not stop the others.
use super::engine::*;
use super::scratch::*;
use super::torrents::*;
use crate::ensure;
use crate::torrent::file::File;
use crate::torrent::writer::write;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Good,
    TooLong,
    Nul,
    DirectoryInPlace,
    FileForDirectory,
    ReadOnlyFile,
    ReadOnlyDirectory,
    NoPath,
    DirectoryTooLong,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    piece_length: u64,
    files: Vec<(Kind, u64)>,
    seed: u64,
    order: u64,
}

fn prepare(i: usize, k: Kind, top: &str, n: u64) -> Vec<String> {
    let s = |x: String| x;
    let dir = work().join(top);
    let p = match k {
        Kind::Good => vec![s(top.into()), format!("good{i}")],
        Kind::TooLong => vec![s(top.into()), "x".repeat(256)],
        Kind::DirectoryTooLong => vec![s(top.into()), "y".repeat(300), "f".into()],
        Kind::Nul => vec![s(top.into()), format!("a\0b{i}")],
        Kind::DirectoryInPlace => {
            std::fs::create_dir_all(dir.join(format!("dir{i}"))).unwrap();
            vec![s(top.into()), format!("dir{i}")]
        }
        Kind::FileForDirectory => {
            std::fs::write(dir.join(format!("file{i}")), b"old").unwrap();
            vec![s(top.into()), format!("file{i}"), "inner".into()]
        }
        Kind::ReadOnlyFile => {
            let f = dir.join(format!("ro{i}"));
            std::fs::write(&f, filler(5, n as usize)).unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o444)).unwrap();
            vec![s(top.into()), format!("ro{i}")]
        }
        Kind::ReadOnlyDirectory => {
            let d = dir.join(format!("rod{i}"));
            std::fs::create_dir_all(&d).unwrap();
            std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555)).unwrap();
            vec![s(top.into()), format!("rod{i}"), "f".into()]
        }
        Kind::NoPath => vec![],
    };
    p
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let l = Layout {
        name: "n".into(),
        piece_length: c.piece_length,
        files: Some(c.files.iter().enumerate().map(|(i, n)| (vec![i.to_string()], n.1)).collect()),
        length: 0,
        seed: c.seed,
        extra: Default::default(),
    };
    let pieces = l.pieces();
    let content = l.content();
    let top = unique();
    let _gone = Gone(work().join(&top));
    std::fs::create_dir_all(work().join(&top)).unwrap();
    let paths: Vec<Vec<String>> = c.files.iter().enumerate().map(|(i, (k, n))| prepare(i, *k, &top, *n)).collect();
    let files: Vec<File> = paths.iter().zip(&c.files).map(|(p, n)| File::new(p.clone(), n.1 as usize)).collect();
    let root = unsafe { libc::geteuid() } == 0;
    let bad = |k: Kind| match k {
        Kind::Good => false,
        // root is not stopped by permissions
        Kind::ReadOnlyFile | Kind::ReadOnlyDirectory => !root,
        _ => true,
    };
    let mut order: Vec<u64> = (0..pieces).collect();
    let mut p = Prng(c.order);
    if c.order != 0 {
        for i in (1..order.len()).rev() {
            order.swap(i, p.below(i as u64 + 1) as usize);
        }
    }
    let mut model: Vec<Option<Vec<u8>>> = vec![None; files.len()];
    for idx in order {
        let (a, b) = l.piece_range(idx);
        let piece = content[a as usize..b as usize].to_vec();
        let r = no_panic(&format!("writing piece {idx}"), || write(piece, idx as usize, files.clone(), c.piece_length as usize))?;
        let mut s = 0;
        let mut hit_bad = false;
        let mut near_bad = false;
        for (i, (k, n)) in c.files.iter().enumerate() {
            let (x, y) = (a.max(s), b.min(s + n));
            if x < y {
                if bad(*k) {
                    hit_bad = true;
                } else {
                    let m = model[i].get_or_insert_with(|| if *k == Kind::ReadOnlyFile { filler(5, *n as usize) } else { vec![] });
                    if m.len() < (y - s) as usize {
                        m.resize((y - s) as usize, 0);
                    }
                    m[(x - s) as usize..(y - s) as usize].copy_from_slice(&content[x as usize..y as usize]);
                }
            } else if *n == 0 && a <= s && s <= b && bad(*k) {
                near_bad = true; // an empty file that may or may not be created with this piece
            }
            s += n;
        }
        if hit_bad {
            ensure!(r.is_err(), "piece {idx} contains data of a file that cannot be written, yet writing it reports success");
            obs.nontrivial = true;
        } else if !near_bad {
            if let Err(e) = r {
                return fail(format!("piece {idx} concerns no unwritable file, yet writing it failed: {e}"));
            }
        }
        for (i, (k, n)) in c.files.iter().enumerate() {
            if !bad(*k) && *n > 0 {
                let got = std::fs::read(work().join(paths[i].join("/"))).ok();
                if *k == Kind::ReadOnlyFile && model[i].is_none() {
                    continue;
                }
                ensure!(got == model[i], "after piece {idx}: file {i} ({:?}) is not as it should be", k);
            }
        }
    }
    // what was in the way is still there
    for (i, (k, n)) in c.files.iter().enumerate() {
        match k {
            Kind::DirectoryInPlace => ensure!(work().join(paths[i].join("/")).is_dir(), "directory {i} was replaced"),
            Kind::FileForDirectory => {
                ensure!(std::fs::read(work().join(&top).join(format!("file{i}"))).ok().as_deref() == Some(b"old"), "file {i} was replaced")
            }
            Kind::ReadOnlyFile if !root => {
                let f: PathBuf = work().join(paths[i].join("/"));
                ensure!(std::fs::read(f).ok() == Some(filler(5, *n as usize)), "read-only file {i} was changed")
            }
            _ => {}
        }
    }
    for (k, _) in &c.files {
        obs.label(format!("{k:?}"));
    }
    Ok(())
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    use Kind::*;
    let kind = prop_oneof![
        4 => Just(Good),
        4 => prop::sample::select(vec![TooLong, Nul, DirectoryInPlace, FileForDirectory, ReadOnlyFile, ReadOnlyDirectory, NoPath, DirectoryTooLong]),
    ];
    piece_length(200)
        .prop_flat_map(move |pl| {
            (Just(pl), lengths(pl, pl * 8, 6), vec(kind.clone(), 6), any::<u64>(), prop_oneof![Just(0u64), any::<u64>()])
        })
        .prop_map(|(piece_length, lens, kinds, seed, order)| Case { piece_length, files: kinds.into_iter().zip(lens).collect(), seed, order })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Full {
    piece_length: u64,
    lens: Vec<u64>,
    limit: u64,
    seed: u64,
}

/// The disk takes only `limit` bytes of each file: writes come out short or fail.
fn check_full(c: &Full, obs: &mut Obs) -> Outcome {
    let l = Layout {
        name: "n".into(),
        piece_length: c.piece_length,
        files: Some(c.lens.iter().enumerate().map(|(i, n)| (vec![i.to_string()], *n)).collect()),
        length: 0,
        seed: c.seed,
        extra: Default::default(),
    };
    let content = l.content();
    let top = unique();
    let _gone = Gone(work().join(&top));
    let files: Vec<File> = c.lens.iter().enumerate().map(|(i, n)| File::new(vec![top.clone(), format!("f{i}")], *n as usize)).collect();
    for idx in 0..l.pieces() {
        let (a, b) = l.piece_range(idx);
        let piece = content[a as usize..b as usize].to_vec();
        let r = {
            let _limit = DiskLimit::set(c.limit);
            no_panic(&format!("writing piece {idx} to a full disk"), || write(piece, idx as usize, files.clone(), c.piece_length as usize))?
        };
        let mut s = 0;
        let mut cut = false;
        for (i, n) in c.lens.iter().enumerate() {
            let (x, y) = (a.max(s), b.min(s + n));
            if x < y {
                if y - s > c.limit {
                    cut = true;
                } else {
                    let got = std::fs::read(work().join(&top).join(format!("f{i}"))).unwrap_or_default();
                    ensure!(
                        got.len() as u64 >= y - s && got[(x - s) as usize..(y - s) as usize] == content[x as usize..y as usize],
                        "piece {idx}: the part of file {i} that fits is missing"
                    );
                }
            }
            s += n;
        }
        if cut {
            obs.nontrivial = true;
            ensure!(r.is_err(), "piece {idx} does not fit on the disk, yet writing it reports success");
        } else {
            ensure!(r.is_ok(), "piece {idx} fits on the disk, yet writing it failed: {r:?}");
        }
    }
    Ok(())
}

fn full(_t: Tier) -> BoxedStrategy<Full> {
    piece_length(400)
        .prop_flat_map(|pl| (Just(pl), lengths(pl, pl * 6, 4), 0..(pl * 4), any::<u64>()))
        .prop_map(|(piece_length, lens, limit, seed)| Full { piece_length, lens, limit, seed })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "Random layouts in which random files cannot be written (name too long, NUL in the name, a directory in its place, a file where a \
               directory is needed, read-only file or directory, no path at all) are written piece by piece as an unprivileged user; each write \
               must report an error exactly if it concerns such a file, and all other files must match a model. Part 'full-disk' limits the file \
               size so that writes come out short. Part 'program' downloads torrents with such files by the real program (as C29 does): \
               all other files have to become complete. Non-trivial: a piece with data of an unwritable file.",
        assumptions: vec!["run as an unprivileged user (the check drops root)"],
        parts: vec![
            part(Spec { name: "faults", quick: 90_000, thorough: 1_800_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: cases, check }),
            part(Spec { name: "full-disk", quick: 18_000, thorough: 360_000, threads: 1, crumbs: true, confirm: 0, shrink: 1000, strategy: full, check: check_full }),
            part(Spec {
                name: "program",
                quick: 300,
                thorough: 5_000,
                threads: 48,
                crumbs: true,
                confirm: 2,
                shrink: 12,
                strategy: super::c29::blocked_cases,
                check: super::c29::check_blocked,
            }),
        ],
        program: true,
    }
}
