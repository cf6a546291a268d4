//! C15: torrent metadata is interpreted exactly.
use super::engine::*;
use super::torrents::*;
use crate::bencode::decode::Decoder;
use crate::ensure;
use crate::torrent::info::Info;
use proptest::prelude::*;

fn check(l: &Layout, obs: &mut Obs) -> Outcome {
    let d = l.dict_unhashed();
    let bytes = d.enc();
    let hashes = filler(l.seed, 20 * l.pieces() as usize);
    obs.label(if l.files.is_some() { "multi-file" } else { "single-file" });
    obs.label(if l.extra.is_empty() { "standard keys only" } else { "additional keys" });
    if l.total() > u32::MAX as u64 {
        obs.label("more than 4 GiB");
    }
    if l.file_list().iter().any(|f| f.1 == 0) {
        obs.label("empty file");
    }
    obs.nontrivial = l.pieces() > 0;
    obs.count("pieces", l.pieces());
    no_panic("interpreting valid metadata", || {
        let info = match Info::from_bytes(bytes.clone()) {
            Ok(i) => i,
            Err(e) => return fail(format!("valid metadata refused: {e}")),
        };
        same_info(&info, l, &hashes)?;
        if l.extra.is_empty() {
            ensure!(info.compute_info_hash() == sha1(&bytes), "computed info hash is not that of the dictionary");
        }
        let m = Decoder::init(bytes.clone()).decode().map_err(|e| Fail { msg: format!("{e}"), soft: false, sig: None })?;
        match Info::from_metainfo(&m) {
            Ok(i) => ensure!(i == info, "from_metainfo and from_bytes differ"),
            Err(e) => return fail(format!("valid metadata refused: {e}")),
        }
        Ok(())
    })?
}

/// Layouts with real content: the piece hashes verify exactly the content's pieces.
fn check_verify(l: &Layout, obs: &mut Obs) -> Outcome {
    let bytes = l.dict().enc();
    let content = l.content();
    obs.nontrivial = l.pieces() > 1;
    obs.count("pieces", l.pieces());
    no_panic("verifying pieces", || {
        let info = match Info::from_bytes(bytes) {
            Ok(i) => i,
            Err(e) => return fail(format!("valid metadata refused: {e}")),
        };
        let mut p = Prng(l.seed);
        for i in 0..l.pieces() {
            let (a, b) = l.piece_range(i);
            let piece = &content[a as usize..b as usize];
            ensure!(info.verify_piece(piece, i as usize), "piece {i} does not verify");
            let mut bad = piece.to_vec();
            match p.below(3) {
                0 => {
                    let k = p.below(bad.len() as u64) as usize;
                    bad[k] ^= 1 << p.below(8);
                }
                1 => {
                    bad.pop();
                }
                _ => bad.push(0),
            }
            ensure!(!info.verify_piece(&bad, i as usize), "a corrupted piece {i} verifies");
            let j = p.below(l.pieces());
            let (a2, b2) = l.piece_range(j);
            if content[a as usize..b as usize] != content[a2 as usize..b2 as usize] {
                ensure!(!info.verify_piece(piece, j as usize), "piece {i} verifies as piece {j}");
            }
        }
        Ok(())
    })?
}

fn small(_t: Tier) -> BoxedStrategy<Layout> {
    piece_length(40_000)
        .prop_flat_map(|pl| (Just(pl), lengths(pl, (pl * 12).min(60_000), 5), name(), any::<u64>(), any::<bool>()))
        .prop_map(|(piece_length, lens, name, seed, single)| {
            if single {
                Layout { name, piece_length, files: None, length: lens.iter().sum(), seed, extra: Default::default() }
            } else {
                let files = lens.into_iter().enumerate().map(|(i, n)| (vec![format!("f{i}")], n)).collect();
                Layout { name, piece_length, files: Some(files), length: 0, seed, extra: Default::default() }
            }
        })
        .boxed()
}

fn check_many(m: &Many, obs: &mut Obs) -> Outcome {
    obs.label(m.label());
    check(&m.layout(), obs)
}

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "Random consistent info dictionaries (single- and multi-file, 0 to 400 pieces, piece lengths from 1 byte to 1 TiB, totals up to \
               2^50 bytes, unicode names, additional keys) are parsed and every accessor compared with the layout they were made from; the \
               info hash is compared with the SHA-1 of the bytes. Part 'many-files': up to 2,000 files. Part 'hashes' checks piece hashes against real content. Non-trivial: at least one (two) pieces.",
        assumptions: vec!["SHA-1 of the sha-1 crate"],
        parts: vec![
            part(Spec { name: "metadata", quick: 300_000, thorough: 6_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: |t| big_layout(if t == Tier::Thorough { 4000 } else { 400 }), check }),
            part(Spec { name: "many-files", quick: 4_000, thorough: 60_000, threads: 8, crumbs: true, confirm: 0, shrink: 200, strategy: |t| many_files(if t == Tier::Thorough { 30_000 } else { 2_000 }), check: check_many }),
            part(Spec { name: "hashes", quick: 20_000, thorough: 400_000, threads: 8, crumbs: true, confirm: 0, shrink: 1000, strategy: small, check: check_verify }),
        ],
        program: false,
    }
}
