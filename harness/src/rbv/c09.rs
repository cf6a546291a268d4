//! C09: wire framing is independent of TCP segmentation.
use super::engine::*;
use super::peers::*;
use super::wire;
use crate::ensure;
use crate::peer::stream::{read_stream, StreamInterface};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum M {
    Handshake([u8; 8], [u8; 20], [u8; 20]),
    KeepAlive,
    Msg(u8, u64, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    msgs: Vec<M>,
    /// (bytes from the last cut, pause in ms before going on)
    cuts: Vec<(u16, u16)>,
    /// ms the reader takes before each read
    slow: u8,
}

fn frame(m: &M) -> Vec<u8> {
    match m {
        M::Handshake(r, h, p) => wire::handshake(r, h, p),
        M::KeepAlive => vec![0; 4],
        M::Msg(id, seed, len) => wire::msg(*id, &filler(*seed, *len as usize)),
    }
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    let stream: Vec<u8> = c.msgs.iter().flat_map(frame).collect();
    let want: Vec<(Vec<u8>, u8)> = c
        .msgs
        .iter()
        .filter_map(|m| match m {
            M::Handshake(..) => Some((frame(m), 19)),
            M::KeepAlive => None,
            M::Msg(id, seed, len) => Some((filler(*seed, *len as usize), *id)),
        })
        .collect();
    let keep_alives = c.msgs.len() - want.len();
    // where the cuts are, relative to the frames
    let mut ends = vec![];
    let mut at = 0;
    for m in &c.msgs {
        at += frame(m).len();
        ends.push(at);
    }
    let mut cuts_inside = 0;
    let mut at = 0;
    for (n, _) in &c.cuts {
        at += *n as usize;
        if at < stream.len() && !ends.contains(&at) {
            cuts_inside += 1;
        }
    }
    obs.nontrivial = want.len() > 1 && cuts_inside > 0;
    obs.count("cuts inside frames", cuts_inside);
    if keep_alives > 0 {
        obs.label("keep-alives");
    }
    if c.msgs.iter().any(|m| matches!(m, M::Handshake(..))) {
        obs.label("handshake");
    }
    if c.msgs.iter().any(|m| matches!(m, M::Msg(_, _, n) if *n > 16384)) {
        obs.label("body beyond 16 KiB");
    }
    let (r, _) = with_peer(
        |link| {
            let mut at = 0;
            for (n, pause) in &c.cuts {
                let e = (at + *n as usize).min(stream.len());
                if e > at {
                    link.send(&stream[at..e]);
                    if *pause > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(*pause as u64));
                    }
                }
                at = e;
            }
            link.send(&stream[at..]);
        },
        |addr| {
            no_panic("reading the stream", || {
                let mut s = match StreamInterface::connect(addr, false) {
                    Ok(s) => s,
                    Err(e) => return soft(format!("no connection: {e}")),
                };
                let mut got = 0;
                let mut nothing = 0;
                // a keep-alive may come back as nothing, and so does a pause
                while got < want.len() && nothing < 25 + keep_alives {
                    std::thread::sleep(std::time::Duration::from_millis(c.slow as u64));
                    match read_stream(&mut s) {
                        None => nothing += 1,
                        Some((body, id, _)) => {
                            let w = &want[got];
                            if (&body, id) != (&w.0, w.1) {
                                let n = body.iter().zip(&w.0).take_while(|(a, b)| a == b).count();
                                return fail(format!(
                                    "message {got} is (id {}, {} bytes) on the wire and (id {id}, {} bytes) when read; they agree in the first {n} bytes",
                                    w.1,
                                    w.0.len(),
                                    body.len()
                                ));
                            }
                            got += 1;
                        }
                    }
                }
                ensure_soft!(got == want.len(), "only {got} of {} messages were read", want.len());
                for _ in 0..keep_alives.min(3) + 1 {
                    if let Some((b, id, _)) = read_stream(&mut s) {
                        return fail(format!("a message more than was sent: id {id}, {} bytes", b.len()));
                    }
                }
                Ok(())
            })
        },
    );
    r?
}

fn id() -> BoxedStrategy<u8> {
    prop_oneof![4 => 0u8..10, 1 => Just(20u8), 1 => Just(19u8), 1 => any::<u8>()].boxed()
}

fn msg() -> BoxedStrategy<M> {
    let len = prop_oneof![
        3 => 0u32..20,
        2 => 0u32..300,
        1 => 16_380u32..16_400,
        1 => 0u32..50_000,
        1 => (1u32..4, -2i32..3).prop_map(|(n, d)| (n as i32 * 16384 + d) as u32),
    ];
    prop_oneof![
        1 => (any::<[u8; 8]>(), any::<[u8; 20]>(), any::<[u8; 20]>()).prop_map(|(a, b, c)| M::Handshake(a, b, c)),
        2 => Just(M::KeepAlive),
        6 => (id(), any::<u64>(), len).prop_map(|(i, s, l)| M::Msg(i, s, l)),
    ]
    .boxed()
}

fn fine(_t: Tier) -> BoxedStrategy<Case> {
    let cut = (prop_oneof![3 => 1u16..6, 2 => 1u16..80, 1 => 1u16..=20_000], prop_oneof![1 => Just(0u16), 3 => 1u16..6, 1 => 1u16..20]);
    (vec(msg(), 1..10), vec(cut, 0..16), prop_oneof![3 => Just(0u8), 1 => 1u8..10]).prop_map(|(msgs, cuts, slow)| Case { msgs, cuts, slow }).boxed()
}

/// Cuts at every byte near the start of each frame.
fn every(_t: Tier) -> BoxedStrategy<Case> {
    (vec(msg(), 1..5), 0u16..80, 1u8..6, 0u16..4)
        .prop_map(|(msgs, skip, n, pause)| {
            // one cut `skip` bytes in, then single bytes
            let mut cuts = vec![(skip, pause + 1)];
            cuts.extend(vec![(1, pause + 1); n as usize]);
            Case { msgs, cuts, slow: 0 }
        })
        .boxed()
}

/// Long pauses, anywhere.
fn slow(_t: Tier) -> BoxedStrategy<Case> {
    let cut = (prop_oneof![3 => 1u16..6, 2 => 1u16..80, 1 => 1u16..=20_000], prop_oneof![2 => 0u16..6, 2 => 90u16..420]);
    (vec(msg(), 1..6), vec(cut, 1..6)).prop_map(|(msgs, cuts)| Case { msgs, cuts, slow: 0 }).boxed()
}

/// Big frames and many small ones in one go.
fn bulk(_t: Tier) -> BoxedStrategy<Case> {
    let big = (id(), any::<u64>(), 100_000u32..1_500_000).prop_map(|(i, s, l)| M::Msg(i, s, l));
    let small = prop_oneof![2 => Just(M::KeepAlive), 3 => (id(), any::<u64>(), 0u32..6).prop_map(|(i, s, l)| M::Msg(i, s, l))];
    let msgs = prop_oneof![
        1 => (vec(small.clone(), 0..4), big, vec(small.clone(), 0..4)).prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a }),
        1 => vec(small, 100..600),
    ];
    (msgs, vec((1u16..=65535, 0u16..5), 0..10)).prop_map(|(msgs, cuts)| Case { msgs, cuts, slow: 0 }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "Sequences of handshakes, keep-alives and messages (bodies of 0 bytes to 1.5 MB, on and next to multiples of 16 KiB) written to a \
               TCP connection in generated segments with pauses, (part 'slow': up to 420 ms), down to single bytes and inside length prefixes and handshakes, read with \
               read_stream. What is read has to be the sequence that was sent. A missing message counts when it repeats on three more runs; \
               a wrong one at once. Non-trivial: at least two messages and a cut inside a frame.",
        assumptions: vec!["the peer does not pause for longer than the client's patience (4 s per message)"],
        parts: vec![
            part(Spec { name: "segments", quick: 12_000, thorough: 250_000, threads: 96, crumbs: true, confirm: 3, shrink: 300, strategy: fine, check }),
            part(Spec { name: "single-bytes", quick: 10_000, thorough: 150_000, threads: 96, crumbs: true, confirm: 3, shrink: 300, strategy: every, check }),
            part(Spec { name: "slow", quick: 2_000, thorough: 30_000, threads: 96, crumbs: true, confirm: 3, shrink: 60, strategy: slow, check }),
            part(Spec { name: "bulk", quick: 1_000, thorough: 15_000, threads: 16, crumbs: true, confirm: 3, shrink: 100, strategy: bulk, check }),
        ],
        program: false,
    }
}
