//! C28: the piece pool hands out every piece exactly once.
use super::engine::*;
use crate::ensure;
use crate::peer::piece_pool::PiecePool;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::sync::Barrier;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    /// take through handle `h`
    Take(u8),
    /// put back the i-th of the pieces that are out
    Return(u8, u8),
    /// put in any of the pool's pieces, whether it is out or not, so many times
    Put(u8, u16, u8),
    /// a new handle, cloned from handle `h`
    Clone(u8),
    Drop(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seq {
    n: usize,
    ops: Vec<Op>,
}

fn check_seq(c: &Seq, obs: &mut Obs) -> Outcome {
    no_panic("the pool", || {
        let mut handles = vec![PiecePool::new(c.n)];
        let mut model: VecDeque<usize> = (0..c.n).collect();
        let mut out: Vec<usize> = vec![];
        let (mut returns, mut empty, mut again) = (0, 0, false);
        for (step, op) in c.ops.iter().enumerate() {
            match *op {
                Op::Take(h) => {
                    let got = handles[h as usize % handles.len()].pop();
                    let want = model.pop_front();
                    ensure!(got == want, "step {step}: take gives {got:?} instead of {want:?}");
                    match got {
                        Some(p) => {
                            again |= returns > 0;
                            out.push(p)
                        }
                        None => empty += 1,
                    }
                }
                Op::Return(h, i) => {
                    if !out.is_empty() {
                        let p = out.remove(i as usize % out.len());
                        handles[h as usize % handles.len()].insert(p);
                        model.push_back(p);
                        returns += 1;
                    }
                }
                Op::Put(h, p, times) => {
                    if c.n > 0 {
                        let p = p as usize % c.n;
                        for _ in 0..times {
                            handles[h as usize % handles.len()].insert(p);
                            model.push_back(p);
                            returns += 1;
                        }
                    }
                }
                Op::Clone(h) => {
                    let x = handles[h as usize % handles.len()].clone();
                    handles.push(x);
                }
                Op::Drop(h) => {
                    if handles.len() > 1 {
                        let i = h as usize % handles.len();
                        handles.remove(i);
                    }
                }
            }
        }
        // what is left comes out in order, and then nothing
        let last = handles.pop().unwrap();
        while let Some(want) = model.pop_front() {
            let got = last.pop();
            ensure!(got == Some(want), "draining gives {got:?} instead of {want}");
        }
        for _ in 0..3 {
            let got = last.pop();
            ensure!(got.is_none(), "an empty pool gives {got:?}");
        }
        obs.nontrivial = returns > 0 && again;
        obs.count("returns", returns);
        obs.count("takes from an empty pool", empty);
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    n: usize,
    /// per thread: after which takes (counted modulo the list's length) the piece goes back, at most `budget` times
    plans: Vec<(Vec<u8>, u32)>,
}

fn check_threads(c: &Threads, obs: &mut Obs) -> Outcome {
    let pool = PiecePool::new(c.n);
    let barrier = Barrier::new(c.plans.len());
    let logs: Vec<Result<(Vec<usize>, Vec<usize>), Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .plans
            .iter()
            .map(|(plan, budget)| {
                let pool = pool.clone();
                let barrier = &barrier;
                s.spawn(move || {
                    let mut taken = vec![];
                    let mut returned = vec![];
                    barrier.wait();
                    let r = no_panic("the pool", || {
                        while let Some(p) = pool.pop() {
                            taken.push(p);
                            if taken.len() > c.n + 8 * 300 {
                                break; // more than there can be: judged below
                            }
                            let k = plan.get((taken.len() - 1) % plan.len().max(1)).copied().unwrap_or(0);
                            if k & 1 == 1 && returned.len() < *budget as usize {
                                // counted before it can be seen by others
                                returned.push(p);
                                if k & 2 == 2 {
                                    std::thread::yield_now();
                                }
                                pool.insert(p);
                            }
                            if k & 4 == 4 {
                                std::thread::yield_now();
                            }
                        }
                    });
                    r.map(|_| (taken, returned))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // a thread that found the pool empty has stopped, so pieces returned later may be left
    let mut balance: BTreeMap<usize, i64> = (0..c.n).map(|p| (p, 1)).collect();
    let mut returned_total = 0;
    let mut movers = 0;
    for l in logs {
        let (taken, returned) = l?;
        movers += (!taken.is_empty()) as u64;
        returned_total += returned.len();
        for p in returned {
            *balance.entry(p).or_insert(0) += 1;
        }
        for p in taken {
            *balance.entry(p).or_insert(0) -= 1;
        }
    }
    for _ in 0..c.n + 8 * 300 + 1 {
        match pool.pop() {
            Some(p) => *balance.entry(p).or_insert(0) -= 1,
            None => break,
        }
    }
    for (p, b) in &balance {
        ensure!(*b == 0, "piece {p} of {}: handed out {} too {}", c.n, b.abs(), if *b < 0 { "often" } else { "seldom" });
    }
    obs.nontrivial = movers >= 2 && returned_total > 0;
    obs.label(format!("{movers} threads got pieces"));
    obs.count("returns", returned_total as u64);
    Ok(())
}

fn seqs(_t: Tier) -> BoxedStrategy<Seq> {
    let op = prop_oneof![
        5 => any::<u8>().prop_map(Op::Take),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Return(a, b)),
        1 => (any::<u8>(), any::<u16>(), 1u8..4).prop_map(|(h, p, n)| Op::Put(h, p, n)),
        1 => any::<u8>().prop_map(Op::Clone),
        1 => any::<u8>().prop_map(Op::Drop),
    ];
    let n = prop_oneof![Just(0usize), Just(1), 2usize..8, 8usize..200, Just(5000)];
    // seldom more pieces than 16 bits count
    let n = prop_oneof![300 => n, 1 => 65_530usize..200_000];
    (n, vec(op, 0..120)).prop_map(|(n, ops)| Seq { n, ops }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Steady {
    /// pieces beyond one per thread
    spare: usize,
    threads: usize,
    rounds: u16,
    /// how many pieces a thread holds at most while it takes another
    held: u8,
    pauses: u8,
}

/// As long as there are more pieces than the threads hold, a take always gets one.
fn check_steady(c: &Steady, obs: &mut Obs) -> Outcome {
    let n = c.threads * (c.held as usize + 1) + c.spare;
    let pool = PiecePool::new(n);
    let barrier = Barrier::new(c.threads);
    let results: Vec<Result<Option<u16>, Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads)
            .map(|k| {
                let (pool, barrier) = (pool.clone(), &barrier);
                s.spawn(move || {
                    barrier.wait();
                    no_panic("the pool", || {
                        let mut own = VecDeque::new();
                        let mut empty = None;
                        for round in 0..c.rounds {
                            match pool.pop() {
                                Some(p) => own.push_back(p),
                                None => {
                                    empty = Some(round);
                                    break;
                                }
                            }
                            if c.pauses > 0 && (round as usize + k) % c.pauses as usize == 0 {
                                std::thread::yield_now();
                            }
                            if own.len() > c.held as usize {
                                pool.insert(own.pop_front().unwrap());
                            }
                        }
                        own.into_iter().for_each(|p| pool.insert(p));
                        empty
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in results {
        if let Some(round) = r? {
            return fail(format!("take {round} of a thread found the pool empty, which has {n} pieces for {} threads that hold {} each at most", c.threads, c.held + 1));
        }
    }
    let mut left: Vec<usize> = std::iter::from_fn(|| pool.pop()).take(2 * n).collect();
    left.sort();
    ensure!(left == (0..n).collect::<Vec<_>>(), "{} of {n} pieces are left when all were put back", left.len());
    obs.nontrivial = c.rounds > c.held as u16;
    obs.count("takes", c.rounds as u64 * c.threads as u64);
    Ok(())
}

fn steady(_t: Tier) -> BoxedStrategy<Steady> {
    (prop_oneof![Just(0usize), 0usize..50], 2usize..=8, 1u16..2_000, 0u8..4, 0u8..5)
        .prop_map(|(spare, threads, rounds, held, pauses)| Steady { spare, threads, rounds, held, pauses })
        .boxed()
}

fn threads(t: Tier) -> BoxedStrategy<Threads> {
    let top: usize = if t == Tier::Thorough { 20_000 } else { 4_000 };
    let n = prop_oneof![1 => 0usize..4, 3 => 4usize..200, 2 => 200..top];
    let n = prop_oneof![300 => n, 1 => 65_530usize..140_000];
    (n, vec((vec(any::<u8>(), 1..16), 0u32..300), 2..=8)).prop_map(|(n, plans)| Threads { n, plans }).boxed()
}

pub fn property() -> Property {
    Property {
        id: "C28",
        rule: "Sequences of up to 120 takes and returns through any number of cloned handles, on pools of 0 to 5000 pieces, some of up to 200,000, compared \
               step by step with a queue; and 2-8 threads that take until the pool is empty and return some of what they took, judged \
               by counting: every piece is handed out once more than it was put back; and 2-8 threads that take and return in turn while \
               there are always more pieces than they hold, so that no take may find the pool empty. Non-trivial: a piece was put back and pieces \
               were taken after it; for threads, at least two of them got pieces and some were returned.",
        assumptions: vec!["interleavings of the threaded part are those the operating system happens to choose"],
        parts: vec![
            part(Spec { name: "sequences", quick: 400_000, thorough: 6_000_000, threads: 8, crumbs: true, confirm: 0, shrink: 3000, strategy: seqs, check: check_seq }),
            part(Spec { name: "threads", quick: 20_000, thorough: 300_000, threads: 2, crumbs: true, confirm: 0, shrink: 300, strategy: threads, check: check_threads }),
            part(Spec { name: "steady", quick: 4_000, thorough: 120_000, threads: 2, crumbs: true, confirm: 0, shrink: 200, strategy: steady, check: check_steady }),
        ],
        program: false,
    }
}
