//! C05: only a peer of the same torrent is used.
use super::engine::*;
use super::peers::*;
use super::wire::{self, Heard};
use crate::ensure;
use crate::peer::manager;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Reply {
    Same,
    /// the info hash with one bit flipped
    Bit(u8),
    /// another info hash that agrees in the first, or the last, n bytes
    Agree(u8, bool, [u8; 20]),
    Other([u8; 20]),
    Reversed,
    /// our info hash where the peer id belongs
    InPeerId([u8; 20]),
    Zero,
    Silent,
    HangUp,
    /// only the first n bytes of the right handshake
    Part(u8),
    /// a message before a foreign handshake
    MessageFirst(u8),
    Garbage(u64, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    metadata: bool,
    /// the hash asked for; None: that of the metadata
    hash: Option<[u8; 20]>,
    reply: Reply,
    manner: Manner,
    geo: Geo,
}

fn other_hash(c: &Case, h: &[u8]) -> Option<Vec<u8>> {
    let mut x = h.to_vec();
    match &c.reply {
        Reply::Same => {}
        Reply::Bit(b) => x[*b as usize % 160 / 8] ^= 0x80 >> (b % 8),
        Reply::Agree(n, front, o) => {
            let n = *n as usize % 20;
            for i in 0..20 {
                if (i < n) != *front {
                    x[i] = o[i];
                }
            }
        }
        Reply::Other(o) => x = o.to_vec(),
        Reply::Reversed => x.reverse(),
        Reply::Zero => x = vec![0; 20],
        Reply::InPeerId(o) => x = o.to_vec(),
        _ => return None,
    }
    Some(x)
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let g = &c.geo;
    let (info, own) = g.info(g.hashes(&[]))?;
    let dict = g.dict(g.hashes(&[]));
    // a metadata fetch can only succeed with the metadata's own hash
    let hash = c.hash.map_or(own.clone(), |h| h.to_vec());
    let reply = other_hash(c, &hash);
    let same = reply.as_deref() == Some(&hash[..]);
    let data = g.data();
    let id: Vec<u8> = if let Reply::InPeerId(_) = c.reply { hash.clone() } else { c.manner.id.to_vec() };
    let (r, peer) = with_peer(
        |link| match (&reply, &c.reply) {
            (Some(h), _) => {
                let hs = wire::handshake(&c.manner.reserved, h, &id);
                if !same {
                    // everything a peer could say, so that a client that goes on would show it
                    let m = Manner { when: When::WithHandshake, ..c.manner.clone() };
                    m.open_with(link, &hs, g.pieces(), dict.len() as u64);
                    return;
                }
                if !c.manner.open_with(link, &hs, g.pieces(), dict.len() as u64) {
                    return;
                }
                while let Some(m) = link.recv() {
                    match &m {
                        Heard::Request(p, o, l) => {
                            let d: Vec<u8> = data.iter().skip(*o as usize).take(*l as usize).copied().collect();
                            link.send(&wire::msg(7, &wire::block(*p, *o, &d)));
                        }
                        Heard::Extended(i, _) if *i != 0 => {
                            let p = metadata_request(&m).and_then(|x| x.1).unwrap_or(0) as usize;
                            let d: Vec<u8> = dict.iter().skip(p * 16384).take(16384).copied().collect();
                            link.send(&wire::msg(20, &wire::metadata_piece(1, p as u64, None, &d)));
                        }
                        _ => {}
                    }
                }
            }
            (_, Reply::HangUp) => {
                link.recv();
                link.close_write();
            }
            (_, Reply::Part(n)) => {
                link.recv();
                let hs = wire::handshake(&wire::EXTENSION_BIT, &hash, &id);
                link.send(&hs[..*n as usize % 68]);
                link.close_write();
            }
            (_, Reply::MessageFirst(m)) => {
                link.recv();
                let mut b = wire::msg(*m % 10, &[]);
                if *m % 10 == 5 {
                    b = wire::msg(5, &[0xff]);
                }
                b.extend(wire::handshake(&wire::EXTENSION_BIT, &filler(*m as u64, 20), &id));
                b.extend(wire::msg(20, &wire::ext_handshake(Some(1), Some(900), &Default::default(), &Default::default())));
                b.extend(wire::msg(1, &[]));
                link.send(&b);
            }
            (_, Reply::Garbage(s, n)) => {
                link.recv();
                let mut b = filler(*s, *n as usize);
                // bounded: a frame that never ends costs seconds
                if b.len() >= 4 {
                    b[0] = 0;
                    b[1] = 0;
                    b[2] = 0;
                    b[3] = (b.len() as u8).saturating_sub(4);
                }
                link.send(&b);
                link.close_write();
            }
            _ => {
                link.recv();
            }
        },
        |addr| {
            no_panic("the fetch", || {
                if c.metadata {
                    manager::get_info(&hash, addr).map(|_| ()).map_err(|e| e.to_string())
                } else {
                    manager::download(addr.to_string(), &hash, &info, g.idx as usize).map(|_| ()).map_err(|e| e.to_string())
                }
            })
        },
    );
    let r = r?;
    let link = match peer {
        Some((_, l)) => l,
        None => return soft("the client did not connect"),
    };
    obs.label(if c.metadata { "metadata" } else { "block" });
    obs.label(format!("{:?}", c.reply).split('(').next().unwrap().to_string());
    obs.nontrivial = !matches!(c.reply, Reply::Same | Reply::Silent | Reply::HangUp);
    match link.heard.first() {
        Some(Heard::Handshake(h)) => {
            ensure!(h[..20] == *b"\x13BitTorrent protocol", "handshake {h:02x?}");
            ensure!(h[25] & 0x10 != 0, "the handshake does not announce the extension protocol");
            ensure!(h[28..48] == hash[..], "the handshake carries {:02x?} instead of {hash:02x?}", &h[28..48]);
        }
        x => return fail(format!("the client opens the connection with {x:?}")),
    }
    if !same {
        ensure!(r.is_err(), "a fetch for {hash:02x?} succeeded with a peer that answered {:?}", c.reply);
        ensure!(
            link.heard.len() == 1 && link.rest().is_empty(),
            "after the answer {:?} the client goes on with {:?} and {} bytes",
            c.reply,
            &link.heard[1..],
            link.rest().len()
        );
    } else {
        let went_on = link.heard.iter().any(|h| *h == Heard::Interested);
        ensure_soft!(went_on, "the client does not go on with a peer of the same torrent: {:?}", r);
        if !c.metadata || c.hash.is_none() {
            if let Err(e) = r {
                return soft(format!("a fetch from a peer of the same torrent failed: {e}"));
            }
        }
    }
    Ok(())
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    let h = || prop_oneof![3 => any::<[u8; 20]>().boxed(), 1 => any::<u8>().prop_map(|b| [b; 20]).boxed()];
    let reply = prop_oneof![
        6 => Just(Reply::Same),
        8 => (0u8..160).prop_map(Reply::Bit),
        3 => (1u8..20, any::<bool>(), any::<[u8; 20]>()).prop_map(|(a, b, c)| Reply::Agree(a, b, c)),
        2 => h().prop_map(Reply::Other),
        1 => Just(Reply::Reversed),
        1 => h().prop_map(Reply::InPeerId),
        1 => Just(Reply::Zero),
        1 => Just(Reply::Silent),
        1 => Just(Reply::HangUp),
        1 => any::<u8>().prop_map(Reply::Part),
        2 => any::<u8>().prop_map(Reply::MessageFirst),
        1 => (any::<u64>(), any::<u8>()).prop_map(|(a, b)| Reply::Garbage(a, b)),
    ];
    (prop::bool::weighted(0.4), prop::option::of(h()), reply, manner(), geo(2))
        .prop_map(|(metadata, hash, reply, manner, geo)| {
            // keep the metadata small when it has to be served
            let geo = if geo.pieces() > 2000 { Geo { piece_length: 100, total: 150, idx: 1, seed: geo.seed } } else { geo };
            Case { metadata, hash, reply, manner, geo }
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "Piece and metadata fetches for generated info hashes against peers that answer with the same info hash, one that differs in a \
               single bit (all 160), agrees in a part, is reversed, foreign, zero or stands where the peer id belongs, with a part of a \
               handshake, other messages, garbage, or not at all. Everything the client sends is recorded. Non-trivial: an answer other than \
               the same hash or silence.",
        assumptions: vec!["that a fetch from a peer with the same hash goes on counts only when its failure repeats"],
        parts: vec![part(Spec { name: "handshakes", quick: 8_000, thorough: 120_000, threads: 96, crumbs: true, confirm: 3, shrink: 300, strategy: cases, check })],
        program: false,
    }
}
