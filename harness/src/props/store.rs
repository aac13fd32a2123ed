//! C01 (store faithfulness) and C02 (ranking order).
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};

use elinor::relevance::{RelevanceStore, RelevanceStoreBuilder};
use elinor::{ElinorError, Record};
use ordered_float::OrderedFloat;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::stat::Rng;

/// A history of `add_record` calls; queries and documents come from small pools so that
/// duplicates are frequent.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    style: u8,
    doc_style: u8,
    ops: Vec<(usize, usize, F)>,
}

fn history() -> BoxedStrategy<History> {
    (gen::id_style(), gen::id_style(), 1usize..6, 1usize..30)
        .prop_flat_map(|(style, doc_style, nq, nd)| {
            (
                Just(style),
                Just(doc_style),
                prop_oneof![
                    6 => vec((0..nq, 0..nd, gen::score()), 0..30),
                    2 => vec((0..nq, 0..nd, gen::score()), 20..120),
                ],
            )
        })
        .prop_map(|(style, doc_style, ops)| History {
            style,
            doc_style,
            ops: ops.into_iter().map(|(q, d, s)| (q, d, F(s))).collect(),
        })
        .boxed()
}

fn wide_history() -> BoxedStrategy<History> {
    (0u8..8, 0u8..8, 30usize..300, 200usize..1500)
        .prop_flat_map(|(style, doc_style, nq, len)| {
            (Just(style), Just(doc_style), vec((0..nq, 0usize..40, gen::score()), len))
        })
        .prop_map(|(style, doc_style, ops)| History {
            style,
            doc_style,
            ops: ops.into_iter().map(|(q, d, s)| (q, d, F(s))).collect(),
        })
        .boxed()
}

fn bulk_history() -> BoxedStrategy<History> {
    (gen::bulk_shape(140_000), 0u8..8, 0u8..8, any::<u64>(), prop_oneof![1 => Just(0usize), 1 => 1usize..6])
        .prop_map(|((nq, nd), style, doc_style, seed, repeats)| {
            let mut rng = Rng(seed);
            let score = |rng: &mut Rng| F(rng.below(1 << 20) as f64 / 64.0);
            let mut ops: Vec<(usize, usize, F)> = (0..nq)
                .flat_map(|q| (0..nd).map(move |d| (q, d)))
                .map(|(q, d)| (q, d, score(&mut rng)))
                .collect();
            rng.shuffle(&mut ops);
            for _ in 0..repeats {
                let (q, d, s) = ops[rng.below(ops.len())];
                let at = rng.below(ops.len() + 1);
                let s = if rng.below(2) == 0 { s } else { score(&mut rng) };
                ops.insert(at, (q, d, s));
            }
            History { style, doc_style, ops }
        })
        .boxed()
}

fn drive<K, T>(ops: &[(K, K, T)], probe_q: &[K], probe_d: &[K]) -> Res
where
    K: Ord + Clone + Display + Debug,
    T: Ord + Clone + Debug,
{
    let mut model: BTreeMap<K, BTreeMap<K, T>> = BTreeMap::new();
    let mut b = RelevanceStoreBuilder::new();
    let mut duplicates = false;
    for (i, (q, d, s)) in ops.iter().enumerate() {
        let dup = model.get(q).is_some_and(|m| m.contains_key(d));
        match b.add_record(q.clone(), d.clone(), s.clone()) {
            Ok(()) => {
                ensure!(!dup, "op {i}: the pair ({q:?}, {d:?}) was accepted twice");
                model.entry(q.clone()).or_default().insert(d.clone(), s.clone());
            }
            Err(ElinorError::DuplicateEntry(_)) => {
                ensure!(dup, "op {i}: the fresh pair ({q:?}, {d:?}) was rejected as a duplicate");
                duplicates = true;
            }
            Err(e) => return Err(format!("op {i}: add_record({q:?}, {d:?}) gave {e:?}")),
        }
    }
    let store = b.build();
    check_store(store, &model, probe_q, probe_d, "builder")?;

    let records = ops.iter().map(|(q, d, s)| Record {
        query_id: q.clone(),
        doc_id: d.clone(),
        score: s.clone(),
    });
    match RelevanceStore::from_records(records) {
        Ok(store) => {
            ensure!(!duplicates, "from_records accepted records with a duplicate pair");
            check_store(store, &model, probe_q, probe_d, "from_records")?;
        }
        Err(ElinorError::DuplicateEntry(_)) => {
            ensure!(duplicates, "from_records rejected distinct pairs as duplicates")
        }
        Err(e) => return Err(format!("from_records gave {e:?}")),
    }
    Ok(())
}

pub(super) fn check_store<K, T>(
    store: RelevanceStore<K, T>,
    model: &BTreeMap<K, BTreeMap<K, T>>,
    probe_q: &[K],
    probe_d: &[K],
    how: &str,
) -> Res
where
    K: Ord + Clone + Display + Debug,
    T: Ord + Clone + Debug,
{
    let n: usize = model.values().map(|m| m.len()).sum();
    ensure!(store.n_queries() == model.len(), "{how}: n_queries() = {}, stored {}", store.n_queries(), model.len());
    ensure!(store.n_docs() == n, "{how}: n_docs() = {}, stored {n}", store.n_docs());
    let mut qs: Vec<K> = store.query_ids().cloned().collect();
    qs.sort();
    ensure!(qs.iter().eq(model.keys()), "{how}: query_ids() = {qs:?}, stored {:?}", model.keys());
    for q in probe_q {
        let want = model.get(q);
        ensure!(store.get_map(q) == want, "{how}: get_map({q:?}) = {:?}, stored {want:?}", store.get_map(q));
        ensure!(store.get_sorted(q).is_some() == want.is_some(), "{how}: get_sorted({q:?}) presence");
        for d in probe_d {
            let want = want.and_then(|m| m.get(d));
            let got = store.get_score(q, d);
            ensure!(got == want, "{how}: get_score({q:?}, {d:?}) = {got:?}, stored {want:?}");
        }
    }
    let mut want: Vec<(K, K, T)> = model
        .iter()
        .flat_map(|(q, m)| m.iter().map(move |(d, s)| (q.clone(), d.clone(), s.clone())))
        .collect();
    want.sort();
    let flat = |rs: Vec<Record<K, T>>| {
        let mut v: Vec<_> = rs.into_iter().map(|r| (r.query_id, r.doc_id, r.score)).collect();
        v.sort();
        v
    };
    let got = flat(store.records());
    ensure!(got == want, "{how}: records() = {got:?}, stored {want:?}");
    let again = store.into_records();
    // Exported records rebuild an equal store.
    let rebuilt = RelevanceStore::from_records(again.clone())
        .map_err(|e| format!("{how}: into_records() does not rebuild a store: {e:?}"))?;
    ensure!(rebuilt.n_docs() == n && rebuilt.n_queries() == model.len(), "{how}: rebuilt store differs in size");
    for (q, d, s) in &want {
        ensure!(rebuilt.get_score(q, d) == Some(s), "{how}: rebuilt store lost ({q:?}, {d:?})");
    }
    let got = flat(again);
    ensure!(got == want, "{how}: into_records() = {got:?}, stored {want:?}");
    Ok(())
}

/// A key type that different keys print alike: only equality and order identify a key.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Alike(u32);

impl Display for Alike {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "id-{}", self.0 / 16)
    }
}

fn c01(h: &History, cx: &mut Cx) -> Res {
    let qs: Vec<String> = (0..h.ops.iter().map(|o| o.0 + 2).max().unwrap_or(2)).map(|i| gen::id(h.style, i)).collect();
    let ds: Vec<String> = (0..h.ops.iter().map(|o| o.1 + 2).max().unwrap_or(2)).map(|i| gen::id(h.doc_style, i)).collect();
    let distinct: BTreeSet<_> = h.ops.iter().map(|o| (o.0, o.1)).collect();
    cx.label_if(h.ops.is_empty(), "empty");
    cx.label_if(distinct.len() < h.ops.len(), "with duplicates");
    cx.label_if(distinct.len() == h.ops.len(), "all distinct");
    cx.nontrivial_if(distinct.len() >= 2);
    // Predicted scores, string keys.
    let ops: Vec<_> = h.ops.iter().map(|(q, d, s)| (qs[*q].clone(), ds[*d].clone(), OrderedFloat(s.0))).collect();
    drive(&ops, &qs, &ds)?;
    // True scores: arbitrary u32 derived from the bits.
    let ops: Vec<_> = h.ops.iter().map(|(q, d, s)| (qs[*q].clone(), ds[*d].clone(), (s.0.to_bits() >> 20) as u32)).collect();
    drive(&ops, &qs, &ds)?;
    // Integer keys.
    let iq: Vec<u32> = (0..qs.len() as u32).collect();
    let ops: Vec<_> = h.ops.iter().map(|(q, d, s)| (*q as u32, *d as u32, OrderedFloat(s.0))).collect();
    let id: Vec<u32> = (0..ds.len() as u32).collect();
    drive(&ops, &iq, &id)?;
    // A key type of the user's own, whose printed form is not unique.
    let ops: Vec<_> = h.ops.iter().map(|(q, d, s)| (Alike(*q as u32), Alike(*d as u32), OrderedFloat(s.0))).collect();
    let iq: Vec<Alike> = iq.into_iter().map(Alike).collect();
    let id: Vec<Alike> = id.into_iter().map(Alike).collect();
    drive(&ops, &iq, &id)
}

/// A key type whose order is the reverse of its numbers, and of no help when printed.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Down(u32);

impl Ord for Down {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        other.0.cmp(&self.0)
    }
}

impl PartialOrd for Down {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Display for Down {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0 % 10)
    }
}

/// The ranking of documents whose ids are of another type.
fn typed<K: Ord + Clone + Display + Debug>(q: K, entries: &[(K, f64)]) -> Res {
    let mut b = RelevanceStoreBuilder::new();
    for (d, s) in entries {
        b.add_record(q.clone(), d.clone(), OrderedFloat(*s)).map_err(|e| format!("{e:?}"))?;
    }
    let store = b.build();
    let sorted = store.get_sorted(&q).unwrap_or(&[]);
    ensure!(sorted.len() == entries.len(), "{} documents ranked, {} stored", sorted.len(), entries.len());
    for w in sorted.windows(2) {
        let (x, y) = (w[0].score.0, w[1].score.0);
        ensure!(
            x > y || (x == y && w[0].doc_id < w[1].doc_id),
            "ids of type {}: {:?} ranked before {:?}", std::any::type_name::<K>(), w[0], w[1]
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ranked {
    style: u8,
    names: Vec<usize>,
    scores: Vec<F>,
    order: u64,
}

fn ranked(sizes: BoxedStrategy<usize>) -> BoxedStrategy<Ranked> {
    (sizes, gen::id_style(), any::<u64>(), any::<bool>())
        .prop_flat_map(|(n, style, order, few)| {
            let s = if few {
                // Few distinct values: many ties.
                vec(gen::score(), 1..5)
                    .prop_flat_map(move |pool| vec(proptest::sample::select(pool), n..=n))
                    .boxed()
            } else {
                vec(gen::score(), n..=n).boxed()
            };
            (Just(style), Just(order), s, Just((0..n + 2).collect::<Vec<_>>()).prop_shuffle())
        })
        .prop_map(|(style, order, scores, mut names)| {
            names.truncate(scores.len());
            Ranked { style, order, names, scores: scores.into_iter().map(F).collect() }
        })
        .boxed()
}

fn bulk_ranked() -> BoxedStrategy<Ranked> {
    (prop_oneof![2 => 1_500usize..20_000, 1 => 65_530usize..69_000], 0u8..8, any::<u64>(), prop_oneof![1 => 1u64..5, 1 => 100u64..3000, 1 => Just(u64::MAX)])
        .prop_map(|(n, style, order, levels)| {
            let mut rng = Rng(order);
            let mut names: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut names);
            let scores = (0..n).map(|_| F((rng.next() % levels) as f64 * 1e-3)).collect();
            Ranked { style, order, names, scores }
        })
        .boxed()
}

fn c02(r: &Ranked, cx: &mut Cx) -> Res {
    let n = r.scores.len();
    let entries: Vec<(String, f64)> = r.names.iter().zip(&r.scores).map(|(i, s)| (gen::id(r.style, *i), s.0)).collect();
    let mut distinct: Vec<f64> = r.scores.iter().map(|s| s.0).collect();
    distinct.sort_by(|a, b| a.partial_cmp(b).unwrap());
    distinct.dedup();
    cx.label_if(distinct.len() < n, "with ties");
    cx.label_if(distinct.windows(2).any(|w| w[0] as f32 == w[1] as f32), "distinct scores equal in f32");
    cx.label_if(n > 20, "more than 20 documents");
    cx.nontrivial_if(n >= 2);
    let mut seen: Option<Vec<(String, u64)>> = None;
    for round in 0..3u64 {
        let mut e = entries.clone();
        if round > 0 {
            Rng(r.order ^ round).shuffle(&mut e);
        }
        let mut b = RelevanceStoreBuilder::new();
        // A second query around it must not matter.
        for (i, (d, s)) in e.iter().enumerate() {
            if i % 2 == 0 && round == 2 {
                b.add_record("other".to_string(), d.clone(), OrderedFloat(-*s)).map_err(|e| format!("{e:?}"))?;
            }
            b.add_record("q".to_string(), d.clone(), OrderedFloat(*s)).map_err(|e| format!("{e:?}"))?;
        }
        let store = b.build();
        let Some(sorted) = store.get_sorted("q") else {
            ensure!(n == 0, "no ranking for a stored query");
            return Ok(());
        };
        let got: Vec<(String, u64)> = sorted.iter().map(|x| (x.doc_id.clone(), x.score.0.to_bits())).collect();
        let mut a: Vec<(String, u64)> = entries.iter().map(|(d, s)| (d.clone(), s.to_bits())).collect();
        let mut b2 = got.clone();
        a.sort();
        b2.sort();
        ensure!(a == b2, "the ranking is not a permutation of the stored documents: {got:?} vs {entries:?}");
        for w in sorted.windows(2) {
            let (x, y) = (w[0].score.0, w[1].score.0);
            ensure!(x >= y, "not in descending score order: {:?} before {:?}", w[0], w[1]);
            ensure!(x > y || w[0].doc_id < w[1].doc_id, "tied scores not in ascending document id order: {:?} before {:?}", w[0], w[1]);
        }
        match &seen {
            None => seen = Some(got),
            Some(s) => ensure!(*s == got, "the ranking depends on the insertion order: {s:?} vs {got:?}"),
        }
    }
    // Ids of other types rank by the order of that type, not by what they look like.
    let numbered: Vec<(u32, f64)> = r.names.iter().zip(&r.scores).map(|(i, s)| (*i as u32, s.0)).collect();
    typed(7, &numbered)?;
    typed(Down(7), &numbered.iter().map(|(i, s)| (Down(*i), *s)).collect::<Vec<_>>())?;
    typed(-7i64, &numbered.iter().map(|(i, s)| (*i as i64 - 3, *s)).collect::<Vec<_>>())?;
    // True relevance scores rank by the same rule.
    let mut b = RelevanceStoreBuilder::new();
    for (d, s) in &entries {
        b.add_record("q".to_string(), d.clone(), (s.to_bits() >> 44) as u32 & 7).map_err(|e| format!("{e:?}"))?;
    }
    let store = b.build();
    for w in store.get_sorted("q").unwrap_or(&[]).windows(2) {
        ensure!(
            w[0].score > w[1].score || (w[0].score == w[1].score && w[0].doc_id < w[1].doc_id),
            "true relevance ranking out of order: {:?} before {:?}", w[0], w[1]
        );
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "Histories of add_record calls over small pools of query and document ids (12 id spellings incl. empty, unicode, prefixes, leading zeros, integer keys) with scores of every double shape, replayed against a map-of-maps model through builder and from_records; non-trivial = at least two distinct pairs.",
            assumptions: &["Predicted scores are not NaN."],
            subs: vec![
                sub("history", 200_000, 6_000_000, history, c01),
                sub("wide", 2_400, 60_000, wide_history, c01),
                sub("bulk", 24, 600, bulk_history, c01),
            ],
            probes: vec![],
        },
        Property {
            id: "C02",
            rule: "Lists of scored documents (ties, neighbouring doubles, infinities, signed zeros, subnormals; 0 to 1500 documents) inserted in three orders; the ranking must be a permutation, descending, ties by document id; non-trivial = at least two documents.",
            assumptions: &["Predicted scores are not NaN (their rank is not documented)."],
            subs: vec![
                sub("small", 400_000, 15_000_000, || ranked(prop_oneof![4 => 0usize..12, 2 => 10usize..60].boxed()), c02),
                sub("large", 6_000, 200_000, || ranked(gen::big_doc_sizes()), c02),
                sub("bulk", 48, 1_500, bulk_ranked, c02),
            ],
            probes: vec![],
        },
    ]
}
