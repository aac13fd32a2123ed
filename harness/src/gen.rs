//! Structured generators shared by the properties.
use std::collections::{BTreeMap, BTreeSet};

use elinor::{Metric, PredRelStore, PredRelStoreBuilder, TrueRelStore, TrueRelStoreBuilder};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::engine::F;
use crate::oracle::Query;
use crate::stat::Rng;

/// How ids are spelt; `id(style, i)` is injective in `i` for every style.
pub fn id(style: u8, i: usize) -> String {
    match style % 9 {
        0 => format!("d{i}"),
        1 => format!("{i}"),
        2 => format!("q_{i:04}"),
        3 => format!("Doc-{}", 100_000 - i),
        4 => {
            // Ids that differ by case, by a prefix, by leading zeros, or by one character.
            let alphabet = ["a", "A", "b", "aa", "aA", "ab", "", "0", "00", "1", "01", "10", "1.0", "1.00", "é", "e", "e\u{301}", "日本", "日", "🦀", "Z", "z", "~", "a-b", "a_b"];
            let n = alphabet.len();
            if i < n {
                alphabet[i].to_string()
            } else {
                format!("{}{}", alphabet[i % n], i)
            }
        }
        5 => format!("{:016x}", (i as u64).wrapping_mul(0x9E3779B97F4A7C15)),
        6 => "x".repeat(i % 7) + &format!("{i}"),
        // Long ids that differ at the end only.
        8 => "é".repeat(300) + &format!("{i}"),
        _ => format!("clueweb12-{:04}wb-{:02}-{:05}", (i * 7919) % 1999, i % 89, i),
    }
}

/// A style of ids, seldom the long one.
pub fn id_style() -> BoxedStrategy<u8> {
    prop_oneof![60 => 0u8..8, 1 => Just(8u8)].boxed()
}

/// As `id`, restricted to tokens without whitespace that are not empty.
pub fn token(style: u8, i: usize) -> String {
    let s = id(style, i);
    if s.is_empty() {
        "_".to_string()
    } else {
        s
    }
}

/// Predicted scores: many shapes, never NaN.
pub fn score() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => (0i32..40).prop_map(|i| i as f64 / 4.0),
        2 => (-20i32..20).prop_map(|i| i as f64),
        3 => 0.0f64..1.0,
        2 => -1e3f64..1e3,
        // Neighbouring doubles that a detour through f32 would merge.
        3 => (0u64..6).prop_map(|i| f64::from_bits(0.7f64.to_bits() + i)),
        2 => (0u64..6).prop_map(|i| f64::from_bits((-1234.5f64).to_bits() + i)),
        1 => (0u64..4).prop_map(|i| 1e9 + i as f64 * 1e-6),
        1 => (0u64..4).prop_map(f64::from_bits),
        2 => select(vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN,
            f64::MIN_POSITIVE, 1e-300, -1e-300, 1e300, f64::EPSILON, 1.0, 1.0 + f64::EPSILON,
            16777216.0, 16777217.0, 9007199254740992.0, 9007199254740993.0, 0.1, 0.1f32 as f64]),
        1 => any::<f64>().prop_filter("no NaN", |x| !x.is_nan()),
    ]
    .boxed()
}

/// A family of score generators; one is chosen per query.
fn scores(style: u8) -> BoxedStrategy<f64> {
    match style % 5 {
        0 => (0.0f64..1.0).boxed(),
        1 => (0i32..4).prop_map(|i| i as f64).boxed(),
        2 => score(),
        3 => (0u64..64).prop_map(|i| f64::from_bits(0.5f64.to_bits() + i)).boxed(),
        _ => (-1000i32..1000).prop_map(|i| i as f64 / 8.0).boxed(),
    }
}

/// Grades. `max` bounds them (Burges gains overflow above about 1000).
fn grades(style: u8, big: bool) -> BoxedStrategy<u32> {
    match style % 6 {
        0 => (0u32..2).boxed(),
        1 => (0u32..5).boxed(),
        2 => Just(0u32).boxed(),
        3 => (1u32..4).boxed(),
        4 => prop_oneof![3 => Just(0u32), 1 => Just(1u32), 1 => Just(3u32)].boxed(),
        _ => {
            if big {
                select(vec![0u32, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000,
                    65535, 65536, 65537, 1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, u32::MAX]).boxed()
            } else {
                select(vec![0u32, 1, 2, 7, 8, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 300, 900]).boxed()
            }
        }
    }
}

/// One document of a query: judged or not, retrieved or not.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub n: usize,
    pub grade: Option<u32>,
    pub score: Option<F>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Topic {
    pub n: usize,
    pub style: u8,
    pub docs: Vec<Doc>,
}

/// A whole evaluation input. Records are inserted in an order given by `order`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Collection {
    pub style: u8,
    pub order: u64,
    pub topics: Vec<Topic>,
}

fn doc(gs: u8, ss: u8, big: bool, judged_pct: u32, ret_pct: u32) -> BoxedStrategy<(Option<u32>, Option<F>)> {
    (
        prop::option::weighted(judged_pct as f64 / 100.0, grades(gs, big)),
        prop::option::weighted(ret_pct as f64 / 100.0, scores(ss)),
    )
        .prop_map(|(g, s)| (g, s.map(F)))
        .boxed()
}

/// `sizes`: documents per query. With `valid`, every topic has at least one judged and one
/// retrieved document.
fn topic(n: usize, sizes: BoxedStrategy<usize>, big: bool, valid: bool) -> BoxedStrategy<Topic> {
    (sizes, id_style(), 0u8..6, 0u8..5, 0u8..4)
        .prop_flat_map(move |(len, style, gs, ss, mix)| {
            let (j, r) = [(60, 70), (90, 90), (30, 80), (80, 40)][mix as usize];
            (
                Just(style),
                vec(doc(gs, ss, big, j, r), len..=len),
                // Which names the documents get: a random subset of a slightly larger pool.
                Just((0..len + 3).collect::<Vec<_>>()).prop_shuffle(),
                (0usize..1000, grades(gs, big)),
                (0usize..1000, scores(ss)),
                prop::option::weighted(0.15, any::<u64>()),
            )
        })
        .prop_map(move |(style, docs, names, fg, fs, good)| {
            let mut docs: Vec<Doc> = docs
                .into_iter()
                .zip(names)
                .map(|((grade, score), n)| Doc { n, grade, score })
                .collect();
            if valid && !docs.is_empty() {
                let len = docs.len();
                if docs.iter().all(|d| d.grade.is_none()) {
                    docs[fg.0 % len].grade = Some(fg.1);
                }
                if docs.iter().all(|d| d.score.is_none()) {
                    docs[fs.0 % len].score = Some(F(fs.1));
                }
            }
            if let Some(seed) = good {
                good_ranking(&mut docs, style, seed);
            }
            Topic { n, style, docs }
        })
        .boxed()
}

/// Makes the ranking ideal down to some depth (often nearly to the end).
fn good_ranking(docs: &mut [Doc], style: u8, seed: u64) {
    let mut rng = Rng(seed);
    if rng.below(2) == 0 {
        // Exactly the judged documents are retrieved.
        for d in docs.iter_mut() {
            d.score = d.grade.map(|_| F(0.0));
        }
    }
    let mut order: Vec<usize> = (0..docs.len()).filter(|i| docs[*i].score.is_some()).collect();
    let name = |i: usize| id(style, docs[i].n);
    order.sort_by_key(|&i| (std::cmp::Reverse(docs[i].grade), name(i)));
    let len = order.len();
    let depth = match rng.below(4) {
        0 => len,
        1 => len.saturating_sub(2),
        2 => len - len / 4,
        _ => rng.below(len + 1),
    };
    rng.shuffle(&mut order[depth..]);
    for (rank, i) in order.into_iter().enumerate() {
        docs[i].score = Some(F(1000.0 - rank as f64 / 4.0));
    }
}

pub fn doc_sizes() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 1usize..8,
        6 => 4usize..25,
        2 => 20usize..70,
        1 => select(vec![63usize, 64, 65, 100, 127, 128, 129, 130]),
    ]
    .boxed()
}

/// Collections whose documents-per-query may reach several hundreds or thousands.
pub fn big_doc_sizes() -> BoxedStrategy<usize> {
    prop_oneof![3 => 200usize..600, 1 => select(vec![255usize, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 1100, 1500])].boxed()
}

pub fn collection(
    topics: BoxedStrategy<usize>,
    sizes: fn() -> BoxedStrategy<usize>,
    big: bool,
) -> BoxedStrategy<Collection> {
    (topics, id_style(), any::<u64>())
        .prop_flat_map(move |(n, style, order)| {
            let ts: Vec<_> = (0..n).map(|i| topic(i, sizes(), big, true)).collect();
            (Just(style), Just(order), ts)
        })
        .prop_map(|(style, order, topics)| Collection { style, order, topics })
        .boxed()
}

pub fn small_collection() -> BoxedStrategy<Collection> {
    collection(prop_oneof![5 => 1usize..4, 2 => 3usize..9].boxed(), doc_sizes, true)
}

pub fn small_collection_burges() -> BoxedStrategy<Collection> {
    collection(prop_oneof![5 => 1usize..4, 2 => 3usize..9].boxed(), doc_sizes, false)
}

/// Numbers of queries and of documents per query around the limits of 16-bit counters and beyond
/// every buffer and table size one might think of. `cap` bounds their product.
pub fn bulk_shape(cap: usize) -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        1 => (1usize..3, 65_530usize..69_000),
        1 => (65_530usize..69_000, 1usize..3),
        2 => (1_000usize..6_000, 1usize..7),
        2 => (1usize..5, 2_000usize..12_000),
        2 => (200usize..600, 20usize..60),
    ]
    .prop_map(move |(q, d)| if q > d { (q.min(cap / d), d) } else { (q, d.min(cap / q)) })
    .boxed()
}

/// Collections of many records, written down as a seed.
pub fn bulk_collection(cap: usize) -> BoxedStrategy<Collection> {
    (bulk_shape(cap), 0u8..8, 0u8..8, 0u8..5, 0u8..5, any::<u64>())
        .prop_map(|((nq, nd), style, doc_style, gs, ss, order)| {
            let mut rng = Rng(order);
            let grade = |rng: &mut Rng| match gs {
                0 => rng.below(2) as u32,
                1 => rng.below(5) as u32,
                2 => u32::from(rng.below(50) == 0),
                3 => 1 + rng.below(3) as u32,
                _ => [0, 1, 2, 31, 32, 63, 64, 255, 256][rng.below(9)],
            };
            let score = |rng: &mut Rng| match ss {
                0 => (rng.next() >> 11) as f64 / (1u64 << 53) as f64,
                1 => rng.below(4) as f64,
                2 => f64::from_bits(0.5f64.to_bits() + rng.below(64) as u64),
                3 => rng.below(2000) as f64 / 8.0 - 125.0,
                _ => -(rng.below(1 << 30) as f64) * 1e-6,
            };
            let topics = (0..nq)
                .map(|n| {
                    let docs = (0..nd)
                        .map(|d| {
                            let both = nd == 1 || d == n % nd;
                            Doc {
                                n: d,
                                grade: (both || rng.below(3) > 0).then(|| grade(&mut rng)),
                                score: (both || rng.below(4) > 0).then(|| F(score(&mut rng))),
                            }
                        })
                        .collect();
                    Topic { n, style: doc_style, docs }
                })
                .collect();
            Collection { style, order, topics }
        })
        .boxed()
}

impl Collection {
    pub fn qid(&self, t: &Topic) -> String {
        id(self.style, t.n)
    }

    /// The reference model, by query id.
    pub fn model(&self) -> BTreeMap<String, Query> {
        let mut out = BTreeMap::new();
        for t in &self.topics {
            let mut q = Query::default();
            for d in &t.docs {
                let name = id(t.style, d.n);
                if let Some(g) = d.grade {
                    q.judged.insert(name.clone(), g);
                }
                if let Some(s) = d.score {
                    q.retrieved.insert(name, s.0);
                }
            }
            out.insert(self.qid(t), q);
        }
        out
    }

    pub fn true_records(&self) -> Vec<(String, String, u32)> {
        let mut v = vec![];
        for t in &self.topics {
            for d in &t.docs {
                if let Some(g) = d.grade {
                    v.push((self.qid(t), id(t.style, d.n), g));
                }
            }
        }
        Rng(self.order).shuffle(&mut v);
        v
    }

    pub fn pred_records(&self) -> Vec<(String, String, f64)> {
        let mut v = vec![];
        for t in &self.topics {
            for d in &t.docs {
                if let Some(s) = d.score {
                    v.push((self.qid(t), id(t.style, d.n), s.0));
                }
            }
        }
        Rng(self.order ^ 0x5555).shuffle(&mut v);
        v
    }
}

pub fn true_store(records: &[(String, String, u32)]) -> Result<TrueRelStore<String>, String> {
    let mut b = TrueRelStoreBuilder::new();
    for (q, d, s) in records {
        b.add_record(q.clone(), d.clone(), *s)
            .map_err(|e| format!("add_record({q:?}, {d:?}, {s}) failed on distinct pairs: {e:?}"))?;
    }
    Ok(b.build())
}

pub fn pred_store(records: &[(String, String, f64)]) -> Result<PredRelStore<String>, String> {
    let mut b = PredRelStoreBuilder::new();
    for (q, d, s) in records {
        b.add_record(q.clone(), d.clone(), (*s).into())
            .map_err(|e| format!("add_record({q:?}, {d:?}, {s}) failed on distinct pairs: {e:?}"))?;
    }
    Ok(b.build())
}

/// Cutoffs around the interesting boundaries of lists of the given lengths.
pub fn cutoffs(lens: &[usize]) -> Vec<usize> {
    let mut ks = BTreeSet::from([0, 1, 2, 3, 5, 10]);
    for &l in lens {
        for k in [l.saturating_sub(1), l, l + 1, l / 2, 2 * l + 3] {
            ks.insert(k);
        }
    }
    ks.into_iter().collect()
}

pub fn any_k() -> BoxedStrategy<usize> {
    prop_oneof![
        2 => Just(0usize),
        6 => 1usize..12,
        3 => 1usize..80,
        1 => select(vec![100usize, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 32, usize::MAX - 1, usize::MAX]),
    ]
    .boxed()
}

pub fn all_metrics(k: usize) -> Vec<Metric> {
    vec![
        Metric::Hits { k },
        Metric::Success { k },
        Metric::Precision { k },
        Metric::Recall { k },
        Metric::F1 { k },
        Metric::RPrecision,
        Metric::AP { k },
        Metric::RR { k },
        Metric::Bpref,
        Metric::DCG { k },
        Metric::NDCG { k },
        Metric::DCGBurges { k },
        Metric::NDCGBurges { k },
    ]
}

/// A matrix of scores: rows are topics, columns are systems; integers on a lattice.
pub fn lattice_matrix(
    n: impl Strategy<Value = usize> + 'static,
    m: impl Strategy<Value = usize> + 'static,
    levels: std::ops::Range<i64>,
) -> BoxedStrategy<Vec<Vec<i64>>> {
    (n, m)
        .prop_flat_map(move |(n, m)| vec(vec(levels.clone(), m..=m), n..=n))
        .boxed()
}
