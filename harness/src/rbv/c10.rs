//! C10: outgoing peer messages follow the wire format.
use super::engine::*;
use super::refbenc::*;
use super::wire;
use crate::bencode::decode::Decoder;
use crate::bencode::metainfo::Metainfo;
use crate::common::mock_stream::MockStream;
use crate::ensure;
use crate::messages::*;
use crate::peer::stream::{write_stream, StreamInterface};
use crate::peer::Peer;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Handshake([u8; 20]),
    Interested,
    Request(u32, u32, u32),
    Metadata(u8, u64),
}

fn parse_dict(b: &[u8]) -> Option<Metainfo> {
    match classify(b) {
        Verdict::Valid(n) if n == b.len() => {}
        _ => return None,
    }
    Decoder::init(b.to_vec()).decode().ok()
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    obs.nontrivial = !matches!(c, Case::Interested);
    no_panic("building a message", || {
        match c {
            Case::Handshake(h) => {
                obs.label("handshake");
                // the same steps as when a connection is opened
                let peer = Peer::new(StreamInterface::Nothing(), h);
                ensure!(peer.get_info_hash() == h, "the peer has another info hash");
                let id = peer.get_peer_id();
                ensure!(id.len() == 20 && id.bytes().all(|b| b.is_ascii_alphanumeric()), "peer id {id:?}");
                let b = new_handshake(&peer.get_info_hash(), &id).as_bytes();
                ensure!(b == wire::handshake(&wire::EXTENSION_BIT, h, id.as_bytes()), "handshake {b:?}");
            }
            Case::Interested => {
                obs.label("interested");
                let b = new_interested().as_bytes();
                ensure!(b == [0, 0, 0, 1, 2], "interested {b:?}");
            }
            Case::Request(p, o, l) => {
                obs.label("request");
                let b = new_request(*p, *o, *l).as_bytes();
                let mut want = vec![0, 0, 0, 13, 6];
                for x in [p, o, l] {
                    want.extend_from_slice(&x.to_be_bytes());
                }
                ensure!(b == want, "request {b:?} instead of {want:?}");
                let mut s = b.clone();
                ensure!(wire::take(&mut s) == Some(wire::Heard::Request(*p, *o, *l)) && s.is_empty(), "request {b:?}");
            }
            Case::Metadata(id, n) => {
                obs.label("metadata request");
                let b = new_metadata(*id, *n as usize).as_bytes();
                let mut s = b.clone();
                let want = BV::dict(vec![("msg_type", BV::I(0)), ("piece", BV::I(*n))]);
                match wire::take(&mut s) {
                    Some(wire::Heard::Extended(i, d)) if s.is_empty() => {
                        ensure!(i == *id, "extension id {i} instead of {id}");
                        ensure!(d == want.enc(), "metadata request carries {:?}", String::from_utf8_lossy(&d));
                    }
                    x => return fail(format!("metadata request is framed as {x:?} with {} bytes left over", s.len())),
                }
            }
        }
        Ok(())
    })?
}

/// A sequence of messages written to one stream, with the extension handshake in between: what is on the wire is one
/// frame per message, in order.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conversation {
    hash: [u8; 20],
    msgs: Vec<(bool, Case)>,
}

fn check_conversation(c: &Conversation, obs: &mut Obs) -> Outcome {
    no_panic("writing messages", || {
        let mut stream = StreamInterface::Mocked(MockStream::new());
        let mut want = vec![];
        let mut handshakes = 0;
        for (ext, m) in &c.msgs {
            if *ext {
                if crate::peer::stream::send_metadata_handshake_request(&mut stream).is_err() {
                    return fail("the extension handshake was not sent");
                }
                want.push(None);
                handshakes += 1;
            }
            let message = match m {
                Case::Handshake(h) => {
                    want.push(Some(wire::Heard::Handshake(wire::handshake(&wire::EXTENSION_BIT, h, b"abcdefghij0123456789"))));
                    new_handshake(h, "abcdefghij0123456789")
                }
                Case::Interested => {
                    want.push(Some(wire::Heard::Interested));
                    new_interested()
                }
                Case::Request(p, o, l) => {
                    want.push(Some(wire::Heard::Request(*p, *o, *l)));
                    new_request(*p, *o, *l)
                }
                Case::Metadata(id, n) => {
                    let d = BV::dict(vec![("msg_type", BV::I(0)), ("piece", BV::I(*n))]);
                    want.push(Some(wire::Heard::Extended(*id, d.enc())));
                    new_metadata(*id, *n as usize)
                }
            };
            write_stream(&mut stream, &message.as_bytes());
        }
        let mut bytes = match stream {
            StreamInterface::Mocked(mut m) => m.peek_bytes_written().clone(),
            _ => return fail("the stream is gone"),
        };
        for (i, w) in want.iter().enumerate() {
            let got = match wire::take(&mut bytes) {
                Some(g) => g,
                None => return fail(format!("message {i} is missing or cut off on the wire")),
            };
            match w {
                Some(w) => ensure!(&got == w, "message {i} arrives as {got:?} instead of {w:?}"),
                None => match &got {
                    wire::Heard::Extended(0, d) => {
                        let m = match parse_dict(d) {
                            Some(m) => m,
                            None => return fail(format!("extension handshake carries {:?}", String::from_utf8_lossy(d))),
                        };
                        let id = m.get_value_from_dict("m").ok().and_then(|m| m.get_integer_from_dict("ut_metadata").ok());
                        ensure!(matches!(id, Some(1..=255)), "extension handshake announces ut_metadata as {id:?}");
                    }
                    _ => return fail(format!("extension handshake arrives as {got:?}")),
                },
            }
        }
        ensure!(bytes.is_empty(), "{} bytes left over on the wire", bytes.len());
        obs.nontrivial = handshakes > 0 && c.msgs.len() > 1;
        Ok(())
    })?
}

fn word() -> BoxedStrategy<u32> {
    prop_oneof![any::<u32>(), 0u32..300, Just(u32::MAX), (0u32..32).prop_map(|e| 1 << e), Just(16384u32)].boxed()
}

fn case() -> BoxedStrategy<Case> {
    prop_oneof![
        2 => any::<[u8; 20]>().prop_map(Case::Handshake),
        1 => Just(Case::Interested),
        3 => (word(), word(), word()).prop_map(|(a, b, c)| Case::Request(a, b, c)),
        3 => (any::<u8>(), prop_oneof![0u64..200, any::<u32>().prop_map(u64::from), Just(u64::MAX), (0u32..19).prop_map(|e| 10u64.pow(e)), (1u32..20).prop_map(|e| (10u128.pow(e) - 1) as u64)]).prop_map(|(a, b)| Case::Metadata(a, b)),
    ]
    .boxed()
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    case()
}

fn conversations(_t: Tier) -> BoxedStrategy<Conversation> {
    (any::<[u8; 20]>(), proptest::collection::vec((prop::bool::weighted(0.3), case()), 1..12))
        .prop_map(|(hash, msgs)| Conversation { hash, msgs })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "Single messages with generated parameters (extremes, powers of two and ten, random), compared byte for byte with a \
               reference encoder, and conversations of several messages and extension handshakes written to one stream and parsed back \
               by a reference parser. Non-trivial: the message has parameters; the conversation holds an extension handshake among others.",
        assumptions: vec!["the reference wire codec in wire.rs"],
        parts: vec![
            part(Spec { name: "messages", quick: 3_000_000, thorough: 30_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: cases, check }),
            part(Spec { name: "conversations", quick: 1_000_000, thorough: 15_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 2000, strategy: conversations, check: check_conversation }),
        ],
        program: false,
    }
}
