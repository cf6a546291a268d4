//! C19: a torrent cannot write outside the download directory.
//! The worker runs as an unprivileged user inside its scratch directory, and the download directory is a few levels
//! below it, so an escaping write lands in the scratch directory.
use super::engine::*;
use super::refbenc::*;
use super::scratch::*;
use super::torrents::*;
use crate::ensure;
use crate::torrent::info::Info;
use crate::torrent::writer::write;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum El {
    /// a plain name
    Name(String),
    Up,
    Cur,
    Empty,
    /// an absolute path into the scratch directory
    Abs,
    /// "../" embedded in one element
    UpSlash(u8),
    /// name/name in one element
    Nested(String, String),
    /// name/../../name in one element
    Winding(String, u8, String),
    /// an existing file outside the download directory
    Victim(u8),
    /// what a shell or a decoder would make something else of
    Raw(u8),
}

/// Each with how many levels it would lead up.
const RAWS: [(&str, usize); 12] = [
    ("~", 1),
    ("$HOME", 1),
    ("${HOME}", 1),
    ("%2e%2e", 1),
    ("%2E.", 1),
    ("..%2f..", 2),
    (".. ", 1),
    (" ..", 1),
    ("..\\..", 2),
    ("\u{ff0e}\u{ff0e}", 1),
    ("..\t", 1),
    ("..;", 1),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// None: single-file torrent whose name is made of the first path
    multi: bool,
    paths: Vec<Vec<El>>,
    lens: Vec<u64>,
    piece_length: u64,
    seed: u64,
}

const LEVELS: usize = 4;

fn jail() -> PathBuf {
    let mut p = work();
    for k in 0..LEVELS {
        p = p.join(format!("jail{k}"));
    }
    p
}

fn setup() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::fs::create_dir_all(jail()).unwrap();
        std::env::set_current_dir(jail()).unwrap();
        std::env::set_var("HOME", jail().parent().unwrap());
    });
}

fn render(p: &[El], tag: &str) -> Vec<String> {
    let mut ups = 0;
    let mut up = |n: usize| {
        // never above the scratch directory
        let k = n.min(LEVELS - ups);
        ups += k;
        k
    };
    p.iter()
        .map(|e| match e {
            El::Name(s) => format!("{tag}{s}"),
            El::Up => {
                if up(1) == 1 {
                    "..".into()
                } else {
                    ".".into()
                }
            }
            El::Cur => ".".into(),
            El::Empty => "".into(),
            El::Abs => format!("{}/{tag}abs", work().display()),
            El::UpSlash(n) => format!("{}{tag}u", "../".repeat(up(*n as usize))),
            El::Nested(a, b) => format!("{tag}{a}/{tag}{b}"),
            El::Winding(a, n, b) => format!("{tag}{a}/{}{tag}{b}", "../".repeat(1 + up(*n as usize))),
            El::Victim(k) => format!("{}/{tag}victim{k}", work().display()),
            El::Raw(k) => {
                let (s, n) = RAWS[*k as usize % RAWS.len()];
                if up(n) == n {
                    s.into()
                } else {
                    ".".into()
                }
            }
        })
        .collect()
}

/// What the file system makes of the joined path, without touching it: None = not a file below the directory.
fn legal(p: &[String]) -> Option<Vec<String>> {
    let joined = p.join("/");
    if joined.starts_with('/') || joined.contains('\0') {
        return None;
    }
    if joined.ends_with('/') || joined.ends_with("/.") || joined == "." || joined.is_empty() {
        return None;
    }
    let mut out = vec![];
    for c in joined.split('/') {
        match c {
            "" | "." => {}
            ".." => return None,
            c if c.len() > 255 => return None,
            c => out.push(c.to_string()),
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

/// Everything carrying the tag below `dir`, except inside the download directory.
fn tagged(dir: &Path, tag: &str, shared: &[&str], skip: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if e.file_name().to_string_lossy().contains(tag) {
            out.push(p.clone());
        }
        let own = |n: &str| n.starts_with("jail") || shared.contains(&n);
        if p != skip && e.file_type().map_or(false, |t| t.is_dir()) && own(&e.file_name().to_string_lossy()) {
            tagged(&p, tag, shared, skip, out);
        }
    }
}

struct Sweep<'a>(&'a str, &'a [&'a str]);
impl Drop for Sweep<'_> {
    fn drop(&mut self) {
        let mut all = vec![];
        tagged(&work(), self.0, self.1, Path::new("/nonexistent"), &mut all);
        for p in all {
            let _ = std::fs::remove_dir_all(&p);
            let _ = std::fs::remove_file(&p);
        }
    }
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    setup();
    let tag = format!("{}_", unique());
    // directories that cases share
    let shared: Vec<&str> = c.paths.iter().flatten().filter_map(|e| if let El::Raw(k) = e { Some(RAWS[*k as usize % RAWS.len()].0) } else { None }).collect();
    let _sweep = Sweep(&tag, &shared);
    let paths: Vec<Vec<String>> = c.paths.iter().map(|p| render(p, &tag)).collect();
    let mut victims = vec![];
    for p in &c.paths {
        for e in p {
            if let El::Victim(k) = e {
                let v = work().join(format!("{tag}victim{k}"));
                std::fs::write(&v, b"precious").unwrap();
                victims.push(v);
            }
        }
    }
    let layout = if c.multi {
        Layout {
            name: "n".into(),
            piece_length: c.piece_length,
            files: Some(paths.iter().cloned().zip(c.lens.iter().copied()).collect()),
            length: 0,
            seed: c.seed,
            extra: Default::default(),
        }
    } else {
        Layout { name: paths[0].join("/"), piece_length: c.piece_length, files: None, length: c.lens[0], seed: c.seed, extra: Default::default() }
    };
    let want: Vec<(Option<Vec<String>>, u64)> = layout.file_list().iter().map(|(p, n)| (legal(p), *n)).collect();
    let harmless = want.iter().all(|w| w.0.is_some());
    // two files may claim the same place, or one the directory of another, be it a path that names no file but whose
    // directories are made; then only containment is judged
    let distinct = {
        let claimed = |p: &[String]| -> Vec<String> {
            p.join("/").split('/').filter(|c| !c.is_empty() && *c != ".").take_while(|c| *c != "..").map(String::from).collect()
        };
        let all: Vec<Vec<String>> = layout.file_list().iter().map(|(p, _)| claimed(p)).collect();
        let files: Vec<bool> = want.iter().map(|w| w.0.is_some()).collect();
        let apart = |i: usize, j: usize| all[i].len() > all[j].len() || all[j][..all[i].len()] != all[i][..];
        (0..all.len()).all(|i| (0..all.len()).all(|j| i == j || !(files[i] || files[j]) || (apart(i, j) && apart(j, i))))
    };
    obs.label(if harmless { "harmless paths only" } else { "a path that leaves the directory or names no file" });
    obs.nontrivial = layout.pieces() > 0;
    let bytes = layout.dict().enc();
    let content = layout.content();
    let info = match no_panic("interpreting metadata", || Info::from_bytes(bytes))? {
        Ok(i) => Some(i),
        Err(e) => {
            ensure!(!harmless, "metadata with harmless paths refused: {e}");
            None
        }
    };
    if let Some(info) = info {
        let files = info.get_files().map_err(|e| Fail { msg: format!("no files: {e}"), soft: false, sig: None })?;
        for i in 0..layout.pieces() {
            let (a, b) = layout.piece_range(i);
            let r = no_panic(&format!("writing piece {i}"), || {
                write(content[a as usize..b as usize].to_vec(), i as usize, files.clone(), c.piece_length as usize)
            })?;
            if harmless && distinct {
                if let Err(e) = r {
                    return fail(format!("writing piece {i} of harmless paths failed: {e}"));
                }
            }
        }
        if distinct && layout.pieces() > 0 {
            let mut at = 0usize;
            for (p, n) in &want {
                if let Some(p) = p {
                    let f = jail().join(p.join("/"));
                    let got = std::fs::read(&f);
                    ensure!(
                        got.as_ref().ok().map(|g| &g[..]) == Some(&content[at..at + *n as usize]),
                        "harmless path {p:?} was not written where it belongs"
                    );
                }
                at += *n as usize;
            }
        }
    }
    let mut out = vec![];
    tagged(&work(), &tag, &shared, &jail(), &mut out);
    out.retain(|p| !victims.contains(p));
    ensure!(out.is_empty(), "created outside the download directory: {out:?} (paths {paths:?})");
    for v in victims {
        ensure!(std::fs::read(&v).ok().as_deref() == Some(b"precious"), "changed a file outside the download directory (paths {paths:?})");
        obs.label("aims at an existing file");
    }
    Ok(())
}

fn plain() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z0-9]{1,6}",
        2 => prop::sample::select(vec!["..", "...", "..a", "a..", ".hidden", "a..b", "..\\..\\x", "C:\\x", " ", "~", "-rf", "a b ", "con", "\n", "%2e%2e", "*"]).prop_map(String::from),
        1 => "[é日Ω😀]{1,4}",
    ]
    .boxed()
}

fn el() -> BoxedStrategy<El> {
    prop_oneof![
        8 => plain().prop_map(El::Name),
        2 => Just(El::Up),
        1 => Just(El::Cur),
        1 => Just(El::Empty),
        1 => Just(El::Abs),
        1 => (1u8..4).prop_map(El::UpSlash),
        1 => (plain(), plain()).prop_map(|(a, b)| El::Nested(a, b)),
        1 => (plain(), 0u8..4, plain()).prop_map(|(a, n, b)| El::Winding(a, n, b)),
        1 => (0u8..3).prop_map(El::Victim),
        1 => any::<u8>().prop_map(El::Raw),
    ]
    .boxed()
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    let path = prop_oneof![3 => vec(el(), 1..6), 2 => vec(plain().prop_map(El::Name), 1..5), 1 => vec(Just(El::Up), 1..5).prop_flat_map(|u| (Just(u), plain()).prop_map(|(mut u, n)| {
        u.push(El::Name(n));
        u
    }))];
    let raw = (vec(any::<u8>().prop_map(El::Raw), 1..4), vec(plain().prop_map(El::Name), 1..3)).prop_map(|(a, b)| [a, b].concat());
    let path = prop_oneof![9 => path, 1 => raw].prop_map(|mut p| {
        // files of several cases share these names as directories
        if let Some(El::Raw(_)) = p.last() {
            p.push(El::Name("x".into()));
        }
        p
    });
    (any::<bool>(), vec((path, prop_oneof![4 => 1u64..60, 1 => Just(0u64)]), 1..5), 1u64..40, any::<u64>())
        .prop_map(|(multi, pl, piece_length, seed)| {
            let (paths, lens) = pl.into_iter().unzip();
            Case { multi, paths, lens, piece_length, seed }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C19",
        rule: "Torrents (metadata and pieces) whose file paths are random sequences of plain names, odd but legal names, names that shells and decoders expand, '..', '.', empty and \
               absolute elements, embedded separators and paths of existing files outside; all pieces are written, then the scratch directory \
               around the download directory is searched for anything new or changed, and harmless files must be where they belong. \
               Non-trivial: at least one piece is written.",
        assumptions: vec!["no symbolic links inside the download directory", "escapes are aimed at most four levels up, into the scratch directory"],
        parts: vec![part(Spec { name: "paths", quick: 120_000, thorough: 2_400_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: cases, check })],
        program: false,
    }
}
