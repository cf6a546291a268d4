//! Reference encoder and parser of the peer wire protocol (BEP 3, 9, 10), independent of the program's.
use super::refbenc::*;
use std::collections::BTreeMap;

pub fn handshake(reserved: &[u8; 8], info_hash: &[u8], peer_id: &[u8]) -> Vec<u8> {
    let mut v = vec![19];
    v.extend_from_slice(b"BitTorrent protocol");
    v.extend_from_slice(reserved);
    v.extend_from_slice(info_hash);
    v.extend_from_slice(peer_id);
    v
}

pub const EXTENSION_BIT: [u8; 8] = [0, 0, 0, 0, 0, 0x10, 0, 0];

pub fn msg(id: u8, body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32 + 1).to_be_bytes().to_vec();
    v.push(id);
    v.extend_from_slice(body);
    v
}

pub fn block(piece: u32, offset: u32, data: &[u8]) -> Vec<u8> {
    let mut b = piece.to_be_bytes().to_vec();
    b.extend_from_slice(&offset.to_be_bytes());
    b.extend_from_slice(data);
    b
}

pub fn ext_handshake(ut_metadata: Option<u64>, size: Option<u64>, other: &BTreeMap<String, BV>, more: &BTreeMap<String, BV>) -> Vec<u8> {
    let mut m = other.clone();
    if let Some(i) = ut_metadata {
        m.insert("ut_metadata".into(), BV::I(i));
    }
    let mut d = more.clone();
    d.insert("m".into(), BV::D(m));
    if let Some(s) = size {
        d.insert("metadata_size".into(), BV::I(s));
    }
    let mut b = vec![0];
    b.extend_from_slice(&BV::D(d).enc());
    b
}

pub fn metadata_piece(id: u8, piece: u64, total: Option<u64>, data: &[u8]) -> Vec<u8> {
    metadata_piece_with(id, piece, total, &BTreeMap::new(), data)
}

/// With further keys in the header.
pub fn metadata_piece_with(id: u8, piece: u64, total: Option<u64>, more: &BTreeMap<String, BV>, data: &[u8]) -> Vec<u8> {
    let mut d = more.clone();
    d.insert("msg_type".to_string(), BV::I(1));
    d.insert("piece".to_string(), BV::I(piece));
    if let Some(t) = total {
        d.insert("total_size".into(), BV::I(t));
    }
    let mut b = vec![id];
    b.extend_from_slice(&BV::D(d).enc());
    b.extend_from_slice(data);
    b
}

#[derive(Clone, Debug, PartialEq)]
pub enum Heard {
    Handshake(Vec<u8>),
    KeepAlive,
    Interested,
    Request(u32, u32, u32),
    Extended(u8, Vec<u8>),
    Other(u8, Vec<u8>),
}

/// Takes one message off the front of `b`, when all of it is there.
pub fn take(b: &mut Vec<u8>) -> Option<Heard> {
    if b.first() == Some(&19) && b.len() < 68 && b"\x13BitTorrent protocol".starts_with(&b[..b.len().min(20)]) {
        return None;
    }
    if b.len() >= 68 && b.starts_with(b"\x13BitTorrent protocol") {
        return Some(Heard::Handshake(b.drain(..68).collect()));
    }
    if b.len() < 4 {
        return None;
    }
    let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
    if b.len() < 4 + n {
        return None;
    }
    let m: Vec<u8> = b.drain(..4 + n).skip(4).collect();
    if m.is_empty() {
        return Some(Heard::KeepAlive);
    }
    let word = |i: usize| u32::from_be_bytes(m[1 + 4 * i..5 + 4 * i].try_into().unwrap());
    Some(match (m[0], m.len()) {
        (2, 1) => Heard::Interested,
        (6, 13) => Heard::Request(word(0), word(1), word(2)),
        (20, n) if n >= 2 => Heard::Extended(m[1], m[2..].to_vec()),
        _ => Heard::Other(m[0], m[1..].to_vec()),
    })
}
