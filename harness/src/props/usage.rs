//! C29 (histories of evaluations) and C30 (messages of errors).
use std::collections::BTreeMap;

use elinor::trec::{parse_pred_rels_in_trec, parse_true_rels_in_trec};
use elinor::relevance::{RelevanceStore, RelevanceStoreBuilder};
use elinor::{ElinorError, Metric, PredRelStore, Record, TrueRelStore};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::trec::{columns, int32, is_number, text};
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Collection};
use crate::oracle::{self, close, Query};
use crate::stat::Rng;

// ---------------------------------------------------------------- C29

/// One step of a history over several collections that use the same ids.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// Evaluate the predictions of one collection with the judgments of another (often the same).
    Eval { judged: usize, retrieved: usize, metric: usize, k: usize },
    /// Drop the stores of a collection and build them again in another order of insertion.
    Rebuild { which: usize, order: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Usage {
    collections: Vec<Collection>,
    steps: Vec<Step>,
    threads: bool,
}

fn usage() -> BoxedStrategy<Usage> {
    let sizes: fn() -> BoxedStrategy<usize> = || prop_oneof![6 => 1usize..6, 2 => 3usize..20].boxed();
    (gen::id_style(), 1usize..4)
        .prop_flat_map(move |(style, n)| {
            let one = move || {
                gen::collection(prop_oneof![5 => 1usize..4, 1 => 3usize..8].boxed(), sizes, false).prop_map(move |mut c| {
                    c.style = style;
                    // The same few documents everywhere.
                    for t in &mut c.topics {
                        t.style = style;
                    }
                    c
                })
            };
            let step = prop_oneof![
                12 => (0..n, any::<bool>(), 0..n, 0usize..13, prop_oneof![3 => Just(0usize), 2 => Just(2usize), 2 => Just(10usize), 2 => gen::any_k()])
                    .prop_map(|(a, own, b, metric, k)| Step::Eval { judged: if own { b } else { a }, retrieved: b, metric, k }),
                2 => (0..n, any::<u64>()).prop_map(|(which, order)| Step::Rebuild { which, order }),
            ];
            (vec(one(), n..=n), vec(step, 2..14), prop::bool::weighted(0.15))
        })
        .prop_map(|(collections, steps, threads)| Usage { collections, steps, threads })
        .boxed()
}

type Stores = (TrueRelStore<String>, PredRelStore<String>);

fn stores(c: &Collection, order: u64) -> Result<Stores, String> {
    let (mut t, mut p) = (c.true_records(), c.pred_records());
    if order != 0 {
        Rng(order).shuffle(&mut t);
        Rng(!order).shuffle(&mut p);
    }
    Ok((gen::true_store(&t)?, gen::pred_store(&p)?))
}

fn unchanged(c: &Collection, s: &Stores, at: usize) -> Res {
    let mut t: Vec<_> = s.0.records().into_iter().map(|r| (r.query_id, r.doc_id, r.score)).collect();
    let mut p: Vec<_> = s.1.records().into_iter().map(|r| (r.query_id, r.doc_id, r.score.0.to_bits())).collect();
    let mut wt = c.true_records();
    let mut wp: Vec<_> = c.pred_records().into_iter().map(|(q, d, s)| (q, d, s.to_bits())).collect();
    t.sort();
    p.sort();
    wt.sort();
    wp.sort();
    ensure!(t == wt && p == wp, "the stores of collection {at} changed while they were evaluated");
    Ok(())
}

/// Runs a history; the results by (judged, retrieved, metric) must not change along it.
fn run_history(u: &Usage, steps: &[Step]) -> Result<usize, String> {
    let models: Vec<BTreeMap<String, Query>> = u.collections.iter().map(Collection::model).collect();
    let mut built: Vec<Stores> = u.collections.iter().map(|c| stores(c, 0)).collect::<Result<_, _>>()?;
    let mut before: BTreeMap<(usize, usize, String), BTreeMap<String, f64>> = BTreeMap::new();
    let mut repeats = 0;
    for (i, step) in steps.iter().enumerate() {
        match *step {
            Step::Rebuild { which, order } => {
                let new = stores(&u.collections[which], order)?;
                built[which] = new;
            }
            Step::Eval { judged, retrieved, metric, k } => {
                let m: Metric = gen::all_metrics(k)[metric];
                let r = elinor::evaluate(&built[judged].0, &built[retrieved].1, m);
                let missing: Vec<&String> = models[retrieved].keys().filter(|q| !models[judged].contains_key(*q)).collect();
                if !missing.is_empty() {
                    match r {
                        Err(ElinorError::MissingEntry(_)) => continue,
                        r => return Err(format!("step {i}: {m} without judgments of {missing:?}: {:?}", r.map(|e| e.scores().clone()))),
                    }
                }
                let ev = r.map_err(|e| format!("step {i}: {m}: {e:?}"))?;
                let got = ev.scores().clone();
                for (q, x) in &models[retrieved] {
                    let mixed = Query { judged: models[judged][q].judged.clone(), retrieved: x.retrieved.clone() };
                    let want = oracle::metric(&mixed, m);
                    let Some(g) = got.get(q) else { return Err(format!("step {i}: {m} has no score of {q:?}")) };
                    ensure!(
                        close(*g, want, 1e-10) || (m == Metric::Bpref && (g - want).abs() < 1e-10),
                        "step {i}: {m} of {q:?} (judgments {judged}, predictions {retrieved}): {g} instead of {want}"
                    );
                }
                ensure!(got.len() == models[retrieved].len(), "step {i}: {m}: {} scores of {} queries", got.len(), models[retrieved].len());
                if let Some(old) = before.insert((judged, retrieved, m.to_string()), got.clone()) {
                    repeats += 1;
                    for (q, x) in &old {
                        ensure!(close(got[q], *x, 1e-12), "step {i}: {m} of {q:?} is {} now, and was {x}", got[q]);
                    }
                }
            }
        }
    }
    for (at, (c, s)) in u.collections.iter().zip(&built).enumerate() {
        unchanged(c, s, at)?;
    }
    Ok(repeats)
}

fn c29(u: &Usage, cx: &mut Cx) -> Res {
    let evals = u.steps.iter().filter(|s| matches!(s, Step::Eval { .. })).count();
    cx.nontrivial_if(evals >= 2);
    cx.label_if(u.collections.len() > 1, "several collections");
    cx.label_if(u.steps.iter().any(|s| matches!(s, Step::Rebuild { .. })), "stores rebuilt on the way");
    cx.label_if(u.steps.iter().any(|s| matches!(s, Step::Eval { judged, retrieved, .. } if judged != retrieved)), "judgments of another collection");
    let repeats = run_history(u, &u.steps)?;
    cx.label_if(repeats > 0, "an evaluation repeated");
    if !u.threads {
        return Ok(());
    }
    cx.label("in threads");
    // Every thread has its own stores and its own order of the steps.
    let results: Vec<Res> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..3u64)
            .map(|n| {
                let mut steps = u.steps.clone();
                Rng(n * 7 + 1).shuffle(&mut steps);
                s.spawn(move || run_history(u, &steps).map(|_| ()))
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("evaluating in several threads panicked".into())))
            .collect()
    });
    results.into_iter().collect()
}

/// Evaluations of long rankings at the same time, each thread with stores of its own.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    collections: Vec<Collection>,
    jobs: Vec<Vec<(usize, usize)>>,
    rounds: usize,
}

fn crowd() -> BoxedStrategy<Crowd> {
    let sizes: fn() -> BoxedStrategy<usize> = || prop_oneof![2 => 5usize..60, 3 => 40usize..150, 1 => 150usize..500].boxed();
    let k = || prop_oneof![4 => Just(0usize), 1 => 1usize..20, 1 => 20usize..300];
    (2usize..6)
        .prop_flat_map(move |n| {
            (
                vec(gen::collection((1usize..4).boxed(), sizes, false), n..=n),
                // The same metric in all threads, or any.
                prop_oneof![
                    2 => ((0usize..13, k()), 1usize..3).prop_map(move |(j, len)| vec![vec![j; len]; n]),
                    1 => vec(vec((0usize..13, k()), 1..5), n..=n),
                ],
                5usize..40,
            )
        })
        .prop_map(|(collections, jobs, rounds)| Crowd { collections, jobs, rounds })
        .boxed()
}

fn check_crowd(c: &Crowd, cx: &mut Cx) -> Res {
    cx.nontrivial_if(c.collections.len() >= 2);
    cx.label_if(c.jobs.windows(2).all(|w| w[0] == w[1]), "the same metrics in all threads");
    let start = std::sync::Barrier::new(c.collections.len());
    let results: Vec<Res> = std::thread::scope(|s| {
        let handles: Vec<_> = c
            .collections
            .iter()
            .zip(&c.jobs)
            .map(|(col, jobs)| {
                let start = &start;
                s.spawn(move || {
                    let stores = stores(col, 0);
                    let model = col.model();
                    let want: Vec<(Metric, Vec<f64>)> = jobs
                        .iter()
                        .map(|&(m, k)| {
                            let m = gen::all_metrics(k)[m];
                            (m, model.values().map(|q| oracle::metric(q, m)).collect())
                        })
                        .collect();
                    start.wait();
                    let (t, p) = stores?;
                    for round in 0..c.rounds {
                        for (m, want) in &want {
                            let ev = elinor::evaluate(&t, &p, *m).map_err(|e| format!("{m}: {e:?}"))?;
                            ensure!(ev.scores().keys().eq(model.keys()), "{m}: scores of {:?}", ev.scores().keys().collect::<Vec<_>>());
                            for ((q, g), w) in ev.scores().iter().zip(want) {
                                ensure!(close(*g, *w, 1e-10) || (g - w).abs() < 1e-10, "{m} of {q:?}, evaluated in a thread for the {}th time: {g} instead of {w}", round + 1);
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("evaluating in several threads panicked".into())))
            .collect()
    });
    results.into_iter().collect()
}

// ---------------------------------------------------------------- C30

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Repeat {
    style: u8,
    doc_style: u8,
    n: usize,
    /// Distinct pairs, then the position of the one that is repeated and where.
    pairs: Vec<(usize, usize)>,
    again: usize,
    at: usize,
}

fn repeat() -> BoxedStrategy<Repeat> {
    (gen::id_style(), gen::id_style(), prop::collection::btree_set((0usize..6, 0usize..12), 1..12), any::<usize>(), any::<usize>())
        .prop_map(|(style, doc_style, pairs, again, at)| {
            let pairs: Vec<_> = pairs.into_iter().collect();
            Repeat { style, doc_style, n: pairs.len(), pairs, again, at }
        })
        .boxed()
}

fn names(message: &str, parts: &[&str], what: &str) -> Res {
    for p in parts {
        ensure!(message.contains(p), "{what}: the message {message:?} does not name {p:?}");
    }
    Ok(())
}

fn check_repeat(r: &Repeat, cx: &mut Cx) -> Res {
    let again = r.again % r.n;
    let mut order: Vec<usize> = (0..r.n).collect();
    Rng(r.at as u64).shuffle(&mut order);
    // The repetition comes somewhere after the first one.
    let first = order.iter().position(|i| *i == again).unwrap_or(0);
    let at = first + 1 + r.at % (r.n - first);
    order.insert(at, again);
    // More repetitions after it, of other pairs as well.
    let mut rng = Rng(r.again as u64 ^ 0x9e37);
    let more = if r.at % 3 != 0 { 1 + rng.below(3) } else { 0 };
    for _ in 0..more {
        let from = order[rng.below(at + 1)];
        let to = at + 1 + rng.below(order.len() - at);
        order.insert(to, from);
        cx.label("several repeated pairs");
    }
    let id = |i: usize| (gen::id(r.style, r.pairs[i].0), gen::id(r.doc_style, r.pairs[i].1));
    let (q, d) = id(again);
    cx.nontrivial_if(r.n >= 2);
    let mut b = RelevanceStoreBuilder::new();
    let mut seen = std::collections::BTreeSet::new();
    for (x, i) in order.iter().enumerate() {
        let (qi, di) = id(*i);
        let fresh = seen.insert(*i);
        match b.add_record(qi.clone(), di.clone(), x as u32) {
            Ok(()) => ensure!(fresh, "the repeated pair ({qi:?}, {di:?}) was accepted"),
            Err(ElinorError::DuplicateEntry(m)) => {
                ensure!(!fresh, "record {x} was rejected although it repeats nothing: {m}");
                names(&m, &[&qi, &di], "repeated pair")?;
                names(&ElinorError::DuplicateEntry(m).to_string(), &[&qi, &di], "repeated pair, displayed")?;
            }
            Err(e) => return Err(format!("{e:?} for a repeated pair")),
        }
    }
    let records = order.iter().map(|i| {
        let (query_id, doc_id) = id(*i);
        Record { query_id, doc_id, score: 1u32 }
    });
    match RelevanceStore::from_records(records) {
        Err(ElinorError::DuplicateEntry(m)) => names(&m, &[&q, &d], "from_records")?,
        Err(e) => return Err(format!("from_records: {e:?} for a repeated pair")),
        Ok(_) => return Err("from_records accepted a repeated pair".into()),
    }
    // Predictions of two queries, judgments of one: the other one is named.
    let mut t = RelevanceStoreBuilder::new();
    let mut p = RelevanceStoreBuilder::new();
    let mut missing = vec![];
    for i in 0..r.n {
        let (qi, di) = id(i);
        let judged = (r.pairs[i].0 + r.at) % 3 != 0;
        if judged {
            t.add_record(qi.clone(), di.clone(), 1u32).map_err(|e| format!("{e:?}"))?;
        } else {
            missing.push(qi.clone());
        }
        p.add_record(qi, di, (i as f64).into()).map_err(|e| format!("{e:?}"))?;
    }
    let (t, p) = (t.build(), p.build());
    match elinor::evaluate(&t, &p, gen::all_metrics(r.at % 5)[r.again % 13]) {
        Ok(_) => ensure!(missing.is_empty(), "evaluated without judgments of {missing:?}"),
        Err(ElinorError::MissingEntry(m)) => {
            cx.label("missing judgments");
            ensure!(missing.iter().any(|q| m.contains(q.as_str())), "the message {m:?} names none of the queries without judgments {missing:?}");
        }
        Err(e) => return Err(format!("{e:?} for missing judgments")),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lines {
    run: bool,
    lines: Vec<String>,
}

fn lines() -> BoxedStrategy<Lines> {
    any::<bool>().prop_flat_map(|run| text(run).prop_map(move |t| Lines { run, lines: t.lines })).boxed()
}

fn check_lines(c: &Lines, cx: &mut Cx) -> Res {
    let r = if c.run {
        parse_pred_rels_in_trec(c.lines.iter()).map(|_| ())
    } else {
        parse_true_rels_in_trec(c.lines.iter()).map(|_| ())
    };
    let (min, at) = if c.run { (5, 4) } else { (4, 3) };
    // The first line that cannot be read.
    let mut seen = std::collections::BTreeSet::new();
    for l in &c.lines {
        let cols = columns(l);
        if cols.len() < min {
            cx.label("too few columns");
            cx.nontrivial();
            let Err(ElinorError::InvalidFormat(m)) = r else { return Err(format!("{r:?} for the line {l:?}")) };
            return names(&m, &[l], "line with too few columns");
        }
        let good = if c.run { is_number(&cols[at]) } else { Some(int32(&cols[at]).is_some()) };
        match good {
            None => return Ok(()),
            Some(false) => {
                cx.label("bad number");
                cx.nontrivial();
                let Err(ElinorError::InvalidFormat(m)) = r else { return Err(format!("{r:?} for the line {l:?}")) };
                return names(&m, &[&cols[at]], "column that is not a number");
            }
            Some(true) => {}
        }
        if !seen.insert((cols[0].clone(), cols[2].clone())) {
            cx.label("repeated pair");
            cx.nontrivial();
            let Err(ElinorError::DuplicateEntry(m)) = r else { return Err(format!("{r:?} for the line {l:?}")) };
            return names(&m, &[&cols[0], &cols[2]], "repeated pair");
        }
    }
    ensure!(r.is_ok(), "a readable text was rejected: {r:?}");
    Ok(())
}

fn check_name(s: &String, cx: &mut Cx) -> Res {
    if let Err(e) = s.parse::<Metric>() {
        cx.nontrivial_if(!s.is_empty());
        let ElinorError::InvalidFormat(m) = e else { return Err(format!("{e:?} for the metric {s:?}")) };
        names(&m, &[s], "metric name")?;
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C29",
            rule: "a history with two or more evaluations",
            assumptions: &["Threads share no store."],
            subs: vec![sub("history", 60_000, 3_000_000, usage, c29), sub("threads", 1_500, 60_000, crowd, check_crowd)],
            probes: vec![],
        },
        Property {
            id: "C30",
            rule: "an error is raised (with two or more records, or a text that is not empty)",
            assumptions: &[],
            subs: vec![
                sub("repeat", 200_000, 8_000_000, repeat, check_repeat),
                sub("trec", 40_000, 2_000_000, lines, check_lines),
                sub("metric", 200_000, 8_000_000, || super::metrics::name_text().prop_map(|n| n.text).boxed(), check_name),
            ],
            probes: vec![],
        },
    ]
}
