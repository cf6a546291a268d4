//! C25: bad UDP tracker answers give an error, never peers or a hang.
use super::engine::*;
use super::udp::*;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    announces: Vec<Conv>,
}

fn check(c: &Case, obs: &mut Obs) -> Outcome {
    for (i, (conv, (end, log))) in c.announces.iter().zip(run(&c.announces)).enumerate() {
        let sent: Vec<&Sent> = log.iter().filter_map(|e| if let Ev::Sent(s) = e { Some(s) } else { None }).collect();
        let answers: Vec<Vec<String>> = sent.iter().filter_map(|s| s.peers()).map(endpoints).collect();
        obs.count("bad packets", sent.iter().filter(|s| s.peers().is_none() && s.connection().is_none()).count() as u64);
        if !sent.is_empty() {
            obs.nontrivial = true;
        }
        obs.label(match (conv.dead, sent.is_empty(), sent.iter().any(|s| s.announce)) {
            (true, ..) => "nobody there",
            (_, true, _) => "silence",
            (.., true) => "bad announce answers",
            _ => "bad connect answers",
        });
        match end {
            End::Error(_) => obs.label("error"),
            End::Peers(p) => {
                let p = shown(&p);
                ensure!(
                    answers.contains(&p),
                    "announce {i}: {} peers ({:?}...), though the tracker sent {}",
                    p.len(),
                    p.first(),
                    if answers.is_empty() { "no announce response" } else { "others" }
                );
                obs.label("peers of a good answer");
            }
            End::Panic(m) => return fail(format!("announce {i}: panicked: {m}")),
            End::Hung => return soft(format!("announce {i}: no result after {BOUND:?}")),
        }
    }
    Ok(())
}

fn pkts(k: BoxedStrategy<K>) -> BoxedStrategy<Vec<Pkt>> {
    let one = (prop_oneof![3 => Just(0u16), 1 => 0u16..200], k).prop_map(|(wait, kind)| Pkt { wait, kind });
    prop_oneof![1 => Just(vec![]), 4 => vec(one.clone(), 1..2), 3 => vec(one, 1..6)].boxed()
}

fn conv(_t: Tier) -> BoxedStrategy<Conv> {
    let connect = || any::<u64>().prop_map(K::Connect).boxed();
    // nothing that could pass for the answer to the announce may be under way before it
    let early = prop_oneof![3 => connect(), 1 => (answer(60), 1u32..=u32::MAX).prop_map(|(k, x)| K::Foreign(Box::new(k), x))].boxed();
    let bad_connect = spoilt(early, 16);
    let bad_answer = spoilt(prop_oneof![4 => answer(300), 1 => connect()].boxed(), 20);
    let flood = |k: BoxedStrategy<K>| (k, any::<u8>()).prop_map(|(k, g)| K::Flood(Box::new(k), g)).boxed();
    let bad_connects = prop_oneof![
        5 => vec(pkts(bad_connect.clone()), 0..5),
        1 => flood(bad_connect).prop_map(|k| vec![vec![Pkt { wait: 0, kind: k }]]),
    ];
    let good_connects = (0usize..2, any::<u64>(), any::<bool>()).prop_map(|(lost, id, long)| {
        let mut v = vec![vec![]; if lost == 1 { 1 } else { 0 }];
        let k = K::Connect(id);
        v.push(vec![Pkt { wait: 0, kind: if long { K::Long(Box::new(k), 5) } else { k } }]);
        v
    });
    let bad_answers = prop_oneof![
        6 => pkts(bad_answer.clone()),
        1 => flood(bad_answer.clone()).prop_map(|k| vec![Pkt { wait: 0, kind: k }]),
        1 => (pkts(bad_answer), answer(20)).prop_map(|(mut v, a)| { v.push(Pkt { wait: 0, kind: a }); v }),
    ];
    prop_oneof![
        1 => (hash(), path()).prop_map(|(hash, path)| Conv { hash, dead: true, path, connects: vec![], announces: vec![] }),
        4 => (hash(), path(), bad_connects).prop_map(|(hash, path, connects)| Conv { hash, dead: false, path, connects, announces: vec![] }),
        10 => (hash(), path(), good_connects, bad_answers).prop_map(|(hash, path, connects, a)| Conv { hash, dead: false, path, connects, announces: vec![a] }),
    ]
    .boxed()
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    vec(conv(t), 1..10).prop_map(|announces| Case { announces }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C25",
        rule: "Up to nine announces at a time, each to a UDP tracker of its own that is absent, silent, or answers the connect or the \
               announce request with generated packets: truncated at every length, foreign transaction ids (down to one bit), wrong actions, \
               error messages, noise, empty packets, packets from another sender, once, in bursts or without end. Every announce has to end \
               within the bound, without a panic, and peers may be returned only if they are those of an announce response the tracker \
               really sent in answer. Non-trivial: the tracker sent something.",
        assumptions: vec!["an announce that takes more than 50 s hangs (it counts when it does on two more runs)"],
        parts: vec![part(Spec { name: "bad-answers", quick: 1_200, thorough: 40_000, threads: 200, crumbs: true, confirm: 2, shrink: 60, strategy: cases, check })],
        program: false,
    }
}
