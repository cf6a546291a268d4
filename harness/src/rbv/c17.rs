//! C17: the metadata cache reloads exactly and survives torn files.
use super::engine::*;
use super::scratch::*;
use super::torrents::*;
use crate::ensure;
use crate::torrent::info::Info;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tear {
    /// the process stopped after this fraction of the file was written
    Prefix(u16),
    /// the length reached the disk, the data did not
    Zeros(u16),
    /// a few bytes short of complete
    Short(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    layout: Layout,
    /// saved before over the same file, so that it is overwritten
    earlier: Option<Layout>,
    tears: Vec<Tear>,
}

fn info_of(l: &Layout) -> Result<Info, Fail> {
    match no_panic("interpreting valid metadata", || Info::from_bytes(l.dict_unhashed().enc()))? {
        Ok(i) => Ok(i),
        Err(e) => fail(format!("valid metadata refused: {e}")),
    }
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let path = work().join(unique());
    let _gone = GoneFile(path.clone());
    let p = path.to_str().unwrap();
    if let Some(e) = &c.earlier {
        let i = info_of(e)?;
        if no_panic("saving", || i.save(p))?.is_err() {
            return fail("saving failed");
        }
        obs.label("over an earlier file");
    }
    let info = info_of(&c.layout)?;
    if let Err(e) = no_panic("saving", || info.save(p))? {
        return fail(format!("saving failed: {e}"));
    }
    match no_panic("loading", || Info::from_file(p))? {
        Ok(i) => {
            ensure!(i == info, "loaded {i:?}, saved {info:?}");
            super_same(&i, &c.layout)?;
        }
        Err(e) => return fail(format!("what was saved does not load: {e}")),
    }
    let full = std::fs::read(&path).unwrap();
    let n = full.len();
    obs.count("tears", c.tears.len() as u64);
    obs.nontrivial = c.layout.pieces() > 0 && !c.tears.is_empty();
    for t in &c.tears {
        let torn = match t {
            Tear::Prefix(f) => full[..(*f as usize * n / 65536)].to_vec(),
            Tear::Short(k) => full[..n - (1 + *k as usize).min(n)].to_vec(),
            Tear::Zeros(f) => {
                let k = *f as usize * n / 65536;
                let mut b = full[..k].to_vec();
                b.resize(n, 0);
                b
            }
        };
        if torn == full {
            continue;
        }
        std::fs::write(&path, &torn).unwrap();
        match no_panic(&format!("loading a cache file torn at {} of {n} bytes", torn.len()), || Info::from_file(p))? {
            Ok(i) => {
                ensure!(i == info, "a torn cache file ({t:?}) loads as other metadata: {i:?}");
                return fail(format!("a torn cache file ({t:?}, {} of {n} bytes) loads", torn.len()));
            }
            Err(_) => {}
        }
    }
    Ok(())
}

fn super_same(info: &Info, l: &Layout) -> Outcome {
    ensure!(info.get_piece_length() as u64 == l.piece_length, "piece length differs after reloading");
    ensure!(info.get_total_length() as u64 == l.total(), "total length differs after reloading");
    let files: Vec<_> = info.get_files().unwrap_or_default().iter().map(|f| (f.get_path(), f.get_length() as u64)).collect();
    ensure!(files == l.file_list(), "files differ after reloading: {files:?}");
    for (i, h) in filler(l.seed, 20 * l.pieces() as usize).chunks(20).enumerate() {
        ensure!(info.get_piece(i) == h, "hash of piece {i} differs after reloading");
    }
    Ok(())
}

struct GoneFile(std::path::PathBuf);
impl Drop for GoneFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn tear() -> BoxedStrategy<Tear> {
    prop_oneof![4 => any::<u16>().prop_map(Tear::Prefix), 2 => any::<u8>().prop_map(|k| Tear::Short(k % 40)), 1 => any::<u16>().prop_map(Tear::Zeros)].boxed()
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Thorough { 200 } else { 40 };
    (big_layout(n), prop_oneof![3 => Just(None), 1 => big_layout(n).prop_map(Some)], vec(tear(), 0..12))
        .prop_map(|(layout, earlier, tears)| Case { layout, earlier, tears })
        .boxed()
}

/// Cache files of megabytes.
fn many(_t: Tier) -> BoxedStrategy<Case> {
    (big_layout(60_000), prop_oneof![3 => Just(None), 1 => big_layout(60_000).prop_map(Some)], vec(tear(), 0..2))
        .prop_map(|(layout, earlier, tears)| Case { layout, earlier, tears })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Files {
    many: Many,
    tears: Vec<Tear>,
}

fn check_files(c: &Files, obs: &mut Obs) -> Outcome {
    obs.label(c.many.label());
    check(&Case { layout: c.many.layout(), earlier: None, tears: c.tears.clone() }, obs)
}

/// Every prefix of a small cache file.
fn check_all(l: &Layout, obs: &mut Obs) -> Outcome {
    let path = work().join(unique());
    let _gone = GoneFile(path.clone());
    let p = path.to_str().unwrap();
    let info = info_of(l)?;
    if let Err(e) = no_panic("saving", || info.save(p))? {
        return fail(format!("saving failed: {e}"));
    }
    let full = std::fs::read(&path).unwrap();
    obs.nontrivial = true;
    obs.count("crash points", full.len() as u64);
    for k in 0..full.len() {
        std::fs::write(&path, &full[..k]).unwrap();
        if no_panic(&format!("loading a cache file torn at {k}"), || Info::from_file(p))?.is_ok() {
            return fail(format!("the first {k} of {} bytes of a cache file load as metadata", full.len()));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Junk {
    Missing,
    Empty,
    Directory,
    Text(String),
    Bytes(Vec<u8>),
    UnderFile,
}

fn check_junk(j: &Junk, obs: &mut Obs) -> Outcome {
    let path = work().join(unique());
    let _g1 = GoneFile(path.clone());
    let _g2 = Gone(path.clone());
    let mut target = path.clone();
    obs.nontrivial = true;
    match j {
        Junk::Missing => {}
        Junk::Empty => std::fs::write(&path, b"").unwrap(),
        Junk::Directory => std::fs::create_dir(&path).unwrap(),
        Junk::Text(s) => std::fs::write(&path, s).unwrap(),
        Junk::Bytes(b) => std::fs::write(&path, b).unwrap(),
        Junk::UnderFile => {
            std::fs::write(&path, b"x").unwrap();
            target = path.join("y");
        }
    }
    if no_panic("loading garbage", || Info::from_file(target.to_str().unwrap()))?.is_ok() {
        return fail(format!("{j:?} loads as metadata"));
    }
    // saving there either works, and loads, or reports an error
    let l = Layout { name: "n".into(), piece_length: 4, files: None, length: 9, seed: 3, extra: Default::default() };
    let info = info_of(&l)?;
    match no_panic("saving over garbage", || info.save(target.to_str().unwrap()))? {
        Ok(()) => match no_panic("loading", || Info::from_file(target.to_str().unwrap()))? {
            Ok(i) => ensure!(i == info, "loaded {i:?}, saved {info:?}"),
            Err(e) => return fail(format!("what was saved over {j:?} does not load: {e}")),
        },
        Err(_) => ensure!(matches!(j, Junk::Directory | Junk::UnderFile), "saving over {j:?} failed"),
    }
    Ok(())
}

fn junk(_t: Tier) -> BoxedStrategy<Junk> {
    let json = prop::sample::select(vec![
        "{}", "[]", "null", "0", "\"x\"", "{\"files\":null}", "{\"name\":\"x\"}", "[[[[[[[[", "{\"files\":null,\"length\":9,\"name\":\"n\",\"piece_length\":4}",
        "{\"files\":null,\"length\":null,\"name\":\"n\",\"piece_length\":4,\"pieces\":[]}",
        "{\"files\":null,\"length\":9,\"name\":\"n\",\"piece_length\":0,\"pieces\":[]}",
        "{\"files\":null,\"length\":9,\"name\":\"n\",\"piece_length\":4,\"pieces\":[1,2,3]}",
        "{\"files\":null,\"length\":-9,\"name\":\"n\",\"piece_length\":4,\"pieces\":[]}",
        "{\"files\":[],\"length\":9,\"name\":\"n\",\"piece_length\":4,\"pieces\":[300]}",
    ]);
    prop_oneof![
        1 => Just(Junk::Missing),
        1 => Just(Junk::Empty),
        1 => Just(Junk::Directory),
        1 => Just(Junk::UnderFile),
        4 => json.prop_map(|s| Junk::Text(s.into())),
        2 => "[\\[\\]{}\":,a-z0-9 ]{0,40}".prop_map(Junk::Text),
        2 => vec(any::<u8>(), 0..40).prop_map(Junk::Bytes),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Full {
    layout: Layout,
    at: u16,
}

/// The disk fills up while the cache is written.
fn check_full(c: &Full, obs: &mut Obs) -> Outcome {
    let path = work().join(unique());
    let _gone = GoneFile(path.clone());
    let p = path.to_str().unwrap();
    let info = info_of(&c.layout)?;
    if let Err(e) = no_panic("saving", || info.save(p))? {
        return fail(format!("saving failed: {e}"));
    }
    let n = std::fs::metadata(&path).unwrap().len();
    let limit = c.at as u64 * n / 65536;
    let r = {
        let _l = DiskLimit::set(limit);
        no_panic("saving to a full disk", || info.save(p))?
    };
    obs.nontrivial = true;
    match no_panic("loading", || Info::from_file(p))? {
        // an implementation that replaces the file only when it is complete still has the earlier one
        Ok(i) => ensure!(i == info, "a partly saved cache file loads as other metadata"),
        Err(_) => ensure!(r.is_err(), "saving reports success although the disk was full after {limit} of {n} bytes, and does not load"),
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "Random metadata is saved, loaded and compared; then the cache file is cut at random points, padded with zeros, or left a few \
               bytes short (part 'torn'; 'many-pieces' for up to 60,000 pieces, 'many-files' for up to 2,000 files), cut at every single byte ('every-prefix'), replaced by garbage ('garbage'), or saved while the disk \
               fills up ('full-disk', by a file size limit). Non-trivial: metadata with pieces and at least one tear, resp. every case. Part 'program' \
               downloads one or two torrents by the real program (as C29 does), kills it, keeps or damages the cache, and starts it again, up to \
               three times over: the download has to complete, and with a cache that was kept peers must not be asked for metadata.",
        assumptions: vec!["a crash leaves a prefix of the file, possibly padded with zeros"],
        parts: vec![
            part(Spec { name: "torn", quick: 36_000, thorough: 720_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: cases, check }),
            part(Spec { name: "many-pieces", quick: 120, thorough: 3_000, threads: 8, crumbs: true, confirm: 0, shrink: 60, strategy: many, check }),
            part(Spec { name: "many-files", quick: 600, thorough: 12_000, threads: 8, crumbs: true, confirm: 0, shrink: 60,
                strategy: |t| (many_files(if t == Tier::Thorough { 30_000 } else { 2_000 }), vec(tear(), 0..3)).prop_map(|(many, tears)| Files { many, tears }).boxed(), check: check_files }),
            part(Spec { name: "every-prefix", quick: 240, thorough: 4_800, threads: 8, crumbs: true, confirm: 0, shrink: 100, strategy: |_| big_layout(4), check: check_all }),
            part(Spec { name: "garbage", quick: 24_000, thorough: 480_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: junk, check: check_junk }),
            part(Spec { name: "full-disk", quick: 2_400, thorough: 48_000, threads: 1, crumbs: true, confirm: 0, shrink: 300,
                strategy: |_| (big_layout(30), any::<u16>()).prop_map(|(layout, at)| Full { layout, at }).boxed(), check: check_full }),
            part(Spec { name: "program", quick: 400, thorough: 8_000, threads: 48, crumbs: true, confirm: 2, shrink: 12, strategy: super::c29::cached_cases, check: super::c29::check_cached }),
        ],
        program: true,
    }
}
