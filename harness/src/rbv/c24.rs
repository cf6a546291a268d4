//! C24: UDP tracker announces follow BEP 15 and return all peers.
use super::engine::*;
use super::udp::*;
use crate::{ensure, ensure_soft};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    announces: Vec<Conv>,
}

/// What went over the wire has to be connect requests, then announces with the id just received.
fn wire_rules(i: usize, c: &Conv, log: &[Ev]) -> Outcome {
    let mut ids: Vec<[u8; 8]> = vec![];
    let mut connects = 0;
    for e in log {
        match e {
            Ev::Sent(s) => ids.extend(s.connection()),
            Ev::Got(b) if is_connect(b) => {
                connects += 1;
                ensure!(connects <= 4, "announce {i}: a fifth connect request");
                ensure!(b.len() == 16 && b[..8] == MAGIC, "announce {i}: connect request {b:02x?}");
            }
            Ev::Got(b) if is_announce(b) => {
                ensure!(b.len() == 98, "announce {i}: the announce request has {} bytes", b.len());
                ensure!(
                    ids.iter().any(|x| x == &b[..8]),
                    "announce {i}: the announce request carries connection id {:02x?}, the tracker gave out {ids:02x?}",
                    &b[..8]
                );
                ensure!(b[16..36] == c.hash, "announce {i}: info hash {:02x?} instead of {:02x?}", &b[16..36], c.hash);
            }
            Ev::Got(b) => return fail(format!("announce {i}: a packet that is neither request: {b:02x?}")),
        }
    }
    Ok(())
}

fn judge(i: usize, conv: &Conv, end: End, log: &[Ev], obs: &mut Obs) -> Outcome {
    let lost = conv.connects.iter().take_while(|x| x.is_empty()).count();
    obs.label(format!("{lost} connects lost"));
    wire_rules(i, conv, log)?;
    let want = log.iter().find_map(|e| if let Ev::Sent(s) = e { s.peers() } else { None });
    match (end, want) {
        (End::Panic(m), _) => return fail(format!("announce {i}: panicked: {m}")),
        (End::Peers(p), Some(w)) => {
            let (p, w) = (shown(&p), endpoints(w));
            let k = p.iter().zip(&w).take_while(|(a, b)| a == b).count();
            ensure!(p == w, "announce {i}: {} peers returned of {} in the answer; the first {k} agree", p.len(), w.len());
            if lost > 0 || w.len() > 1 {
                obs.nontrivial = true;
            }
            obs.count("peers", w.len() as u64);
        }
        (End::Peers(p), None) => return fail(format!("announce {i}: {} peers out of nowhere", p.len())),
        (End::Error(m), _) => return soft(format!("announce {i}: no peers but the error {m:?} ({lost} connect requests lost)")),
        (End::Hung, _) => return soft(format!("announce {i}: no result after {BOUND:?}")),
    }
    Ok(())
}

fn lossy(c: &Case, obs: &mut Obs) -> Outcome {
    for (i, (conv, (end, log))) in c.announces.iter().zip(run(&c.announces)).enumerate() {
        judge(i, conv, end, &log, obs)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    /// every round goes to the same trackers
    rounds: Vec<Vec<Conv>>,
}

fn again(c: &History, obs: &mut Obs) -> Outcome {
    let mut places = vec![];
    for (r, round) in c.rounds.iter().enumerate() {
        for (i, (conv, (end, log))) in round.iter().zip(run_at(round, &mut places)).enumerate() {
            judge(i, conv, end, &log, obs).map_err(|f| Fail { msg: format!("round {r}: {}", f.msg), ..f })?;
        }
    }
    obs.nontrivial = true;
    Ok(())
}

fn odd(c: &Case, obs: &mut Obs) -> Outcome {
    for (i, (conv, (_, log))) in c.announces.iter().zip(run(&c.announces)).enumerate() {
        if log.iter().any(|e| matches!(e, Ev::Got(b) if is_announce(b))) {
            obs.nontrivial = true;
            obs.label("announce reached");
        }
        wire_rules(i, conv, &log)?;
    }
    Ok(())
}

fn plain(wait: u16, kind: K) -> Pkt {
    Pkt { wait, kind }
}

fn conv(t: Tier) -> BoxedStrategy<Conv> {
    let max = if t == Tier::Thorough { 10_900 } else { 10_000 };
    let wait = || prop_oneof![3 => Just(0u16), 1 => 0u16..300];
    let lost = prop_oneof![5 => Just(0usize), 1 => Just(1usize), 1 => Just(2usize), 1 => Just(3usize)];
    (hash(), path(), lost, any::<u64>(), 0u8..6, wait(), wait(), answer(max))
        .prop_map(|(hash, path, lost, id, twice, w1, w2, a)| {
            let mut connects = vec![vec![]; lost];
            let mut good = vec![plain(w1, K::Connect(id))];
            if twice == 0 {
                good.push(plain(0, K::Connect(id)));
            }
            if twice == 1 {
                good[0].kind = K::Long(Box::new(K::Connect(id)), 7);
            }
            connects.push(good);
            let mut ans = vec![plain(w2, a.clone())];
            if twice == 2 {
                ans.push(plain(0, a));
            }
            Conv { hash, dead: false, path, connects, announces: vec![ans] }
        })
        .boxed()
}

fn cases(t: Tier) -> BoxedStrategy<Case> {
    vec(conv(t), 1..10).prop_map(|announces| Case { announces }).boxed()
}

fn histories(t: Tier) -> BoxedStrategy<History> {
    (1usize..6, 2usize..5)
        .prop_flat_map(move |(trackers, rounds)| {
            // now and then the same torrent again
            (vec(vec(conv(t), trackers), rounds), vec(any::<bool>(), trackers))
        })
        .prop_map(|(mut rounds, same)| {
            let first: Vec<[u8; 20]> = rounds[0].iter().map(|c| c.hash).collect();
            for r in &mut rounds {
                for (c, (h, s)) in r.iter_mut().zip(first.iter().zip(&same)) {
                    if *s {
                        c.hash = *h;
                    }
                }
            }
            History { rounds }
        })
        .boxed()
}

/// Packets that are no connect response, carrying ids the announce must not use, and then perhaps a good one.
fn odd_cases(_t: Tier) -> BoxedStrategy<Case> {
    let bad = || spoilt(any::<u64>().prop_map(K::Connect).boxed(), 16);
    let group = || (vec((0u16..30, bad()).prop_map(|(w, k)| plain(w, k)), 0..4), prop::option::weighted(0.5, any::<u64>())).prop_map(|(mut v, good)| {
        if let Some(g) = good {
            v.push(plain(0, K::Connect(g)));
        }
        v
    });
    let conv = (hash(), path(), vec(group(), 1..4), answer(50)).prop_map(|(hash, path, connects, a)| Conv { hash, dead: false, path, connects, announces: vec![vec![plain(0, a)]] });
    vec(conv, 1..10).prop_map(|announces| Case { announces }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C24",
        rule: "Up to nine announces at a time, each to a scripted UDP tracker of its own that loses the first 0-3 connect requests, delays \
               or repeats its answers and serves 1 to thousands of peers; in a second part the connect requests are answered by packets that \
               are no connect response before (or without) a good one. Everything the tracker hears is checked (16-byte connect requests, at \
               most four, then 98-byte announces with the id from a good connect response and the info hash), and the result has to be the \
               peers it served, in order. In a third part two to four announces follow each other to the same trackers, for the same or \
               other torrents, with new connection ids and peers. Non-trivial: a lost request or more than one peer (second part: an \
               announce was sent; third part: all).",
        assumptions: vec!["a tracker that answers does so within 300 ms; an error instead of peers counts when it repeats on two more runs"],
        parts: vec![
            part(Spec { name: "lossy", quick: 2_000, thorough: 60_000, threads: 200, crumbs: true, confirm: 2, shrink: 60, strategy: cases, check: lossy }),
            part(Spec { name: "odd-answers", quick: 500, thorough: 15_000, threads: 200, crumbs: true, confirm: 2, shrink: 60, strategy: odd_cases, check: odd }),
            part(Spec { name: "again", quick: 400, thorough: 12_000, threads: 200, crumbs: true, confirm: 2, shrink: 60, strategy: histories, check: again }),
        ],
        program: false,
    }
}
