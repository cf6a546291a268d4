//! C11: incoming peer messages are decoded faithfully.
use super::engine::*;
use super::refbenc::*;
use super::wire;
use crate::ensure;
use crate::messages::{ContentType, Message};
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Block { piece: u32, offset: u32, seed: u64, len: usize },
    Bitfield(Vec<u8>),
    /// of a torrent of up to millions of pieces
    LongBitfield { seed: u64, len: usize, shape: u8 },
    Handshake { reserved: [u8; 8], hash: [u8; 20], id: [u8; 20] },
    ExtHandshake { ids: BTreeMap<String, u8>, size: Option<u64>, more: BTreeMap<String, BV> },
    Metadata { id: u8, piece: u64, total: Option<u64>, seed: u64, len: usize, shape: u8, header: BTreeMap<String, BV> },
    MetadataOther { id: u8, msg_type: u64, piece: u64 },
    Plain { id: u8, seed: u64, len: usize },
}

fn data(seed: u64, len: usize, shape: u8) -> Vec<u8> {
    let mut d = filler(seed, len);
    // data that looks like more of the dictionary in front of it
    let head: &[u8] = match shape {
        1 => b"e",
        2 => b"d4:infod",
        3 => b"d8:msg_typei2ee",
        4 => b"5:hello",
        5 => b"i7e",
        _ => b"",
    };
    let n = head.len().min(d.len());
    d[..n].copy_from_slice(&head[..n]);
    d
}

fn raw(body: &[u8], id: u8) -> Result<Message, Fail> {
    let len = if id == 19 { 68 } else { body.len() as u32 };
    match Message::new_raw(body.to_vec(), len, id) {
        Ok(m) if m.get_id() == id => Ok(m),
        Ok(m) => fail(format!("message {id} is decoded as {}", m.get_id())),
        Err(e) => fail(format!("well-formed message {id} refused: {e}")),
    }
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    obs.nontrivial = true;
    no_panic("decoding a well-formed message", || {
        match c {
            Case::Block { piece, offset, seed, len } => {
                obs.label("block");
                let d = filler(*seed, *len);
                let body = wire::block(*piece, *offset, &d);
                let m = raw(&body, 7)?;
                ensure!(m.is_request_message(), "a block is not recognised");
                ensure!(!m.is_extension_data_message(), "a block is taken for metadata");
                ensure!(m.get_content_data() == d, "block of {len} bytes decoded as {} bytes", m.get_content_data().len());
                ensure!(m.as_bytes()[4..] == wire::msg(7, &body)[4..], "block is not re-encoded as received");
            }
            Case::Bitfield(b) => {
                obs.label("bitfield");
                let m = raw(b, 5)?;
                match m.get_content() {
                    ContentType::Bitfield(f) => {
                        let want: Vec<bool> = (0..b.len() * 8).map(|i| b[i / 8] & (0x80 >> (i % 8)) != 0).collect();
                        ensure!(f.get_bitfield_as_bit_vector() == want, "bitfield {b:?} decoded as {:?}", f.get_bitfield_as_bit_vector());
                        ensure!(&f.get_bitfield() == b, "bitfield {b:?} decoded as {:?}", f.get_bitfield());
                    }
                    x => return fail(format!("bitfield decoded as {x:?}")),
                }
                ensure!(m.as_bytes()[4..] == wire::msg(5, b)[4..], "bitfield is not re-encoded as received");
                ensure!(!m.is_request_message() && !m.is_extension_data_message(), "a bitfield is taken for data");
            }
            Case::LongBitfield { seed, len, shape } => {
                obs.label("long bitfield");
                let b = match shape {
                    0 => vec![0xff; *len],
                    1 => {
                        let mut b = vec![0; *len];
                        b[(*seed % *len as u64) as usize] = 0x10;
                        b[*len - 1] |= 0x80;
                        b
                    }
                    _ => filler(*seed, *len),
                };
                let m = raw(&b, 5)?;
                match m.get_content() {
                    ContentType::Bitfield(f) => {
                        let got = f.get_bitfield_as_bit_vector();
                        ensure!(got.len() == len * 8, "a bitfield of {len} bytes is decoded as one of {} pieces", got.len());
                        let bad = (0..len * 8).find(|i| got[*i] != (b[i / 8] & (0x80 >> (i % 8)) != 0));
                        ensure!(bad.is_none(), "piece {bad:?} of a bitfield of {len} bytes is wrong");
                        ensure!(f.get_bitfield() == b, "a bitfield of {len} bytes is decoded as another");
                    }
                    x => return fail(format!("bitfield decoded as {x:?}")),
                }
                ensure!(m.as_bytes()[4..] == wire::msg(5, &b)[4..], "bitfield is not re-encoded as received");
                ensure!(!m.is_request_message() && !m.is_extension_data_message(), "a bitfield is taken for data");
            }
            Case::Handshake { reserved, hash, id } => {
                obs.label("handshake");
                let b = wire::handshake(reserved, hash, id);
                let m = raw(&b, 19)?;
                match m.get_content() {
                    ContentType::Handshake(h) => ensure!(h.get_info_hash() == hash, "handshake of {hash:?} decoded as {:?}", h.get_info_hash()),
                    x => return fail(format!("handshake decoded as {x:?}")),
                }
                ensure!(m.as_bytes() == b, "handshake is not re-encoded as received");
            }
            Case::ExtHandshake { ids, size, more } => {
                obs.label(if size.is_some() { "extension handshake" } else { "extension handshake without metadata size" });
                let m = ids.iter().map(|(k, v)| (k.clone(), BV::I(*v as u64))).collect();
                let b = wire::ext_handshake(None, *size, &m, more);
                let m = raw(&b, 20)?;
                match m.get_content() {
                    ContentType::Extension(e) => {
                        ensure!(e.get_metadata_size() == size.map(|s| s as usize), "metadata size {size:?} decoded as {:?}", e.get_metadata_size());
                        ensure!(size.is_none() || e.is_handshake(), "extension handshake with metadata size {size:?} is not taken for one");
                        let got: BTreeMap<String, u8> = e.get_extensions().iter().map(|(k, v)| (k.clone(), *v)).collect();
                        ensure!(&got == ids, "extensions {ids:?} decoded as {got:?}");
                    }
                    x => return fail(format!("extension message decoded as {x:?}")),
                }
                ensure!(!m.is_extension_data_message(), "an extension handshake is taken for metadata");
            }
            Case::Metadata { id, piece, total, seed, len, shape, header } => {
                obs.label("metadata");
                let d = data(*seed, *len, *shape);
                let b = wire::metadata_piece_with(*id, *piece, *total, header, &d);
                let m = raw(&b, 20)?;
                ensure!(m.is_extension_data_message(), "metadata is not recognised");
                ensure!(m.get_content_data() == d, "metadata of {len} bytes decoded as {} bytes", m.get_content_data().len());
                ensure!(!m.is_request_message(), "metadata is taken for a block");
            }
            Case::MetadataOther { id, msg_type, piece } => {
                obs.label("metadata request or reject");
                let mut b = vec![*id];
                b.extend(BV::dict(vec![("msg_type", BV::I(*msg_type)), ("piece", BV::I(*piece))]).enc());
                let m = raw(&b, 20)?;
                ensure!(!m.is_extension_data_message(), "extension message of type {msg_type} is taken for metadata");
            }
            Case::Plain { id, seed, len } => {
                obs.label("other message");
                let m = raw(&filler(*seed, *len), *id)?;
                ensure!(!m.is_extension_data_message() && !m.is_request_message(), "message {id} is taken for data");
                ensure!(m.get_content_data().is_empty(), "message {id} carries data");
            }
        }
        Ok(())
    })?
}

fn word() -> BoxedStrategy<u32> {
    prop_oneof![any::<u32>(), 0u32..300, Just(u32::MAX), (0u32..32).prop_map(|e| 1 << e)].boxed()
}

fn len() -> BoxedStrategy<usize> {
    prop_oneof![2 => 0usize..40, 1 => Just(16384usize), 1 => 0usize..16384, 1 => 0usize..300].boxed()
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    let key = prop_oneof![3 => prop::sample::select(vec!["ut_metadata", "ut_pex", "lt_donthave", "upload_only"]).prop_map(String::from), 1 => "[a-z_é]{1,10}"];
    let size = prop_oneof![1 => Just(None), 4 => int().prop_map(Some)];
    let more = btree_map(prop::sample::select(vec!["v", "p", "reqq", "yourip", "e", "zz", "msg"]).prop_map(String::from), value(20), 0..5);
    prop_oneof![
        3 => (word(), word(), any::<u64>(), len()).prop_map(|(piece, offset, seed, len)| Case::Block { piece, offset, seed, len }),
        2 => vec(any::<u8>(), 0..400).prop_map(Case::Bitfield),
        2 => (any::<[u8; 8]>(), any::<[u8; 20]>(), any::<[u8; 20]>()).prop_map(|(reserved, hash, id)| Case::Handshake { reserved, hash, id }),
        4 => (btree_map(key, any::<u8>(), 0..5), size, more).prop_map(|(ids, size, more)| Case::ExtHandshake { ids, size, more }),
        4 => (any::<u8>(), int(), prop::option::of(int()), any::<u64>(), len(), 0u8..8, super::metas::header_keys()).prop_map(|(id, piece, total, seed, len, shape, header)| Case::Metadata { id, piece, total, seed, len, shape, header }),
        1 => (any::<u8>(), prop_oneof![Just(0u64), 2u64..300], int()).prop_map(|(id, msg_type, piece)| Case::MetadataOther { id, msg_type, piece }),
        1 => (prop_oneof![Just(0u8), Just(1), Just(2), Just(3), Just(4), Just(8), Just(9), 10u8..19, 21u8..=255], any::<u64>(), 0usize..30).prop_map(|(id, seed, len)| Case::Plain { id, seed, len }),
    ]
    .boxed()
}

fn long(_t: Tier) -> BoxedStrategy<Case> {
    let len = prop_oneof![2 => 1usize..10_000, 2 => 10_000usize..100_000, 1 => 100_000usize..400_000, 1 => (8u32..18, -2i64..3).prop_map(|(e, d)| ((1i64 << e) + d) as usize)];
    (any::<u64>(), len, 0u8..4).prop_map(|(seed, len, shape)| Case::LongBitfield { seed, len, shape }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "Well-formed messages of every kind with generated fields and bodies (blocks and metadata up to 16 KiB, metadata that \
               looks like bencode, bitfields of up to 400,000 bytes in part 'long', extension dictionaries with other keys in any order of nesting), built by a reference encoder. \
               Every case is non-trivial.",
        assumptions: vec!["the reference wire codec in wire.rs", "extension ids fit one byte"],
        parts: vec![
            part(Spec { name: "messages", quick: 1_200_000, thorough: 20_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: cases, check }),
            part(Spec { name: "long", quick: 2_500, thorough: 60_000, threads: 8, crumbs: true, confirm: 0, shrink: 1000, strategy: long, check }),
        ],
        program: false,
    }
}
