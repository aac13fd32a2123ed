//! C32: evaluation with ids of any type.
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{Debug, Display, Formatter};
use std::sync::Arc;

use elinor::relevance::{RelevanceStore, RelevanceStoreBuilder};
use elinor::statistical_tests::{pairs_from_maps, tuples_from_maps};
use elinor::{ElinorError, Metric, PredRelStore, Record, TrueRelStore};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Collection};
use crate::oracle::{self, close, Query};
use crate::stat::Rng;

/// Ids that are displayed alike though they differ.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Alike(u64);

impl Display for Alike {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", ["", "x"][usize::from(self.0 % 3 == 1)])
    }
}

/// Ids whose displayed forms are ordered the other way round.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Backwards(u64);

impl Display for Backwards {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:020}", u64::MAX - self.0)
    }
}

/// Ids with a part that does not count, and is displayed (a spelling, say).
#[derive(Clone, Debug)]
struct Spelt(u64, u8);

impl PartialEq for Spelt {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Spelt {}
impl PartialOrd for Spelt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Spelt {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Display for Spelt {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", ["a", "B", "", "é"][usize::from(self.1 % 4)], self.0 % 7)
    }
}

/// Ids of two parts.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Parts(String, i64);

impl Display for Parts {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", self.0, self.1)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Keys {
    collection: Collection,
    /// Distance and first value of the numbers that become ids.
    step: u64,
    base: u64,
    metrics: Vec<usize>,
    k: usize,
    /// A record that comes twice.
    again: usize,
    kind: u8,
}

fn keys() -> BoxedStrategy<Keys> {
    let sizes: fn() -> BoxedStrategy<usize> = || prop_oneof![4 => 1usize..8, 3 => 4usize..25, 1 => 20usize..60].boxed();
    (
        gen::collection(prop_oneof![4 => 1usize..5, 2 => 4usize..14].boxed(), sizes, false),
        prop_oneof![4 => Just(1u64), 2 => 2u64..12, 1 => Just(97u64), 1 => Just(1u64 << 32), 1 => Just(1u64 << 52)],
        prop_oneof![3 => 0u64..12, 2 => 90u64..102, 1 => Just(u64::from(u32::MAX) - 3), 1 => Just((1u64 << 53) - 2), 1 => Just(u64::MAX / 2 - 3)],
        vec(0usize..13, 1..4),
        prop_oneof![2 => Just(0usize), 3 => 1usize..12, 1 => gen::any_k()],
        any::<usize>(),
        0u8..10,
    )
        .prop_map(|(collection, step, base, metrics, k, again, kind)| Keys { collection, step, base, metrics, k, again, kind })
        .boxed()
}

/// The reference names ids by their rank.
fn name(n: usize) -> String {
    format!("{n:08}")
}

struct Plain {
    judged: Vec<(usize, usize, u32)>,
    retrieved: Vec<(usize, usize, f64)>,
    model: BTreeMap<String, Query>,
}

fn plain(c: &Collection) -> Plain {
    let mut p = Plain { judged: vec![], retrieved: vec![], model: BTreeMap::new() };
    for t in &c.topics {
        let q: &mut Query = p.model.entry(name(t.n)).or_default();
        for d in &t.docs {
            if let Some(g) = d.grade {
                p.judged.push((t.n, d.n, g));
                q.judged.insert(name(d.n), g);
            }
            if let Some(s) = d.score {
                p.retrieved.push((t.n, d.n, s.0));
                q.retrieved.insert(name(d.n), s.0);
            }
        }
    }
    Rng(c.order).shuffle(&mut p.judged);
    Rng(!c.order).shuffle(&mut p.retrieved);
    p
}

/// `key` gives the id of a rank; keys made with different second arguments are equal.
fn with_keys<K: Ord + Clone + Display + Debug>(c: &Keys, key: impl Fn(usize, u8) -> K) -> Res {
    let p = plain(&c.collection);
    let mut tag = 0u8;
    let mut id = |n: usize| {
        tag = tag.wrapping_mul(5).wrapping_add(3);
        key(n, tag >> 3)
    };
    let mut b = RelevanceStoreBuilder::default();
    for (q, d, g) in &p.judged {
        b.add_record(id(*q), id(*d), *g).map_err(|e| format!("judgment of distinct pairs ({q}, {d}): {e:?}"))?;
    }
    let t: TrueRelStore<K> = b.build();
    let records: Vec<_> = p.retrieved.iter().map(|(q, d, s)| Record { query_id: id(*q), doc_id: id(*d), score: (*s).into() }).collect();
    let r: PredRelStore<K> = RelevanceStore::from_records(records.clone()).map_err(|e| format!("predictions of distinct pairs: {e:?}"))?;
    ensure!(t.n_queries() == p.model.len() && t.n_docs() == p.judged.len(), "{} queries and {} judgments stored", t.n_queries(), t.n_docs());
    ensure!(r.n_queries() == p.model.len() && r.n_docs() == p.retrieved.len(), "{} queries and {} predictions stored", r.n_queries(), r.n_docs());

    // The lists of documents.
    for topic in &c.collection.topics {
        let q = &p.model[&name(topic.n)];
        let want = oracle::ranking(&q.retrieved);
        let list = r.get_sorted(&id(topic.n)).ok_or_else(|| format!("no ranking of query {}", topic.n))?;
        let by_id: BTreeMap<K, usize> = topic.docs.iter().map(|d| (id(d.n), d.n)).collect();
        let got: Vec<String> = list.iter().map(|x| by_id.get(&x.doc_id).map_or("?".into(), |n| name(*n))).collect();
        ensure!(got == want, "ranking of query {}: {got:?} instead of {want:?}", topic.n);
        for d in &topic.docs {
            let (q, x) = (id(topic.n), id(d.n));
            ensure!(t.get_score(&q, &x).copied() == d.grade, "grade of ({}, {}): {:?}", topic.n, d.n, t.get_score(&q, &x));
            ensure!(r.get_score(&q, &x).map(|s| s.0) == d.score.map(|s| s.0), "score of ({}, {}): {:?}", topic.n, d.n, r.get_score(&q, &x));
        }
    }

    // The metrics.
    let mut maps = vec![];
    let mut columns = vec![];
    for m in &c.metrics {
        let m: Metric = gen::all_metrics(c.k)[*m];
        let ev = elinor::evaluate(&t, &r, m).map_err(|e| format!("{m}: {e:?}"))?;
        let want: Vec<f64> = p.model.values().map(|q| oracle::metric(q, m)).collect();
        let tol = |a: f64, b: f64| close(a, b, 1e-9) || (a - b).abs() < 1e-12;
        let got: Vec<f64> = ev.scores().values().copied().collect();
        let ids: Vec<K> = p.model.keys().map(|q| id(q.parse().unwrap_or(0))).collect();
        ensure!(ev.scores().keys().eq(ids.iter()), "{m}: scores of {:?} instead of {ids:?}", ev.scores().keys().collect::<Vec<_>>());
        for ((g, w), q) in got.iter().zip(&want).zip(p.model.keys()) {
            ensure!(tol(*g, *w), "{m} of query {q}: {g} instead of {w}");
        }
        let n = got.len() as f64;
        let mean = got.iter().sum::<f64>() / n;
        let var = got.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n;
        ensure!(tol(ev.mean(), mean), "{m}: mean {} instead of {mean}", ev.mean());
        let room = 1e-12 * mean * mean;
        ensure!(tol(ev.variance(), var) || (ev.variance() - var).abs() <= room, "{m}: variance {} instead of {var}", ev.variance());
        maps.push(ev);
        columns.push(got);
    }

    // The tuples of scores for the tests.
    let tuples = tuples_from_maps(maps.iter().map(|e| e.scores())).map_err(|e| format!("tuples_from_maps: {e:?}"))?;
    let want: Vec<Vec<f64>> = (0..p.model.len()).map(|i| columns.iter().map(|x| x[i]).collect()).collect();
    ensure!(tuples == want, "tuples {tuples:?} instead of {want:?}");
    if let [a, b, ..] = &maps[..] {
        let pairs = pairs_from_maps(a.scores(), b.scores()).map_err(|e| format!("pairs_from_maps: {e:?}"))?;
        ensure!(pairs.iter().zip(&want).all(|(x, w)| x.0 == w[0] && x.1 == w[1]) && pairs.len() == want.len(), "pairs {pairs:?} instead of {want:?}");
    }
    // Maps of different keys are refused, however the keys are displayed.
    let scores = maps[0].scores();
    let mut other = scores.clone();
    if let Some((first, x)) = other.pop_first() {
        let strange = id(1_000 + c.again % 50);
        other.insert(strange.clone(), x);
        ensure!(
            matches!(pairs_from_maps(scores, &other), Err(ElinorError::InvalidArgument(_))),
            "maps were paired though one has {first:?} and the other {strange:?}"
        );
    }

    // A pair that comes twice.
    let (q, d, _) = p.retrieved[c.again % p.retrieved.len()];
    let mut twice = records;
    let at = Rng(c.again as u64).below(twice.len() + 1);
    twice.insert(at, Record { query_id: id(q), doc_id: id(d), score: 0.5.into() });
    match RelevanceStore::from_records(twice) {
        Err(ElinorError::DuplicateEntry(_)) => {}
        x => return Err(format!("pair ({q}, {d}) twice: {:?}", x.map(|_| ()))),
    }
    // A query without judgments.
    let mut b = RelevanceStoreBuilder::new();
    for (x, d, g) in p.judged.iter().filter(|x| x.0 != q) {
        b.add_record(id(*x), id(*d), *g).map_err(|e| format!("{e:?}"))?;
    }
    let m = gen::all_metrics(c.k)[c.metrics[0]];
    match elinor::evaluate(&b.build(), &r, m) {
        Err(ElinorError::MissingEntry(_)) => Ok(()),
        x => Err(format!("{m} without judgments of query {q}: {:?}", x.map(|e| e.scores().clone()))),
    }
}

fn c32(c: &Keys, cx: &mut Cx) -> Res {
    let docs: usize = c.collection.topics.iter().map(|t| t.docs.len()).sum();
    cx.nontrivial_if(docs >= 3);
    // At most about 100 ranks in a collection, and 1050 for ids that are not in it.
    let number = |n: usize| c.base + (n as u64) * (c.step.min(1 << 48));
    let text = |n: usize| format!("{:020}", number(n));
    let what = ["u64", "i64", "char", "&str", "Arc<str>", "alike", "backwards", "spelt", "parts", "u128"][usize::from(c.kind % 10)];
    cx.label(what);
    match c.kind % 10 {
        0 => with_keys(c, |n, _| number(n)),
        1 => with_keys(c, |n, _| (n as i64 - 5) * c.step.min(1 << 48) as i64),
        2 => with_keys(c, |n, _| char::from_u32([1, 0x30, 0x3f0, 0x10000][(c.base % 4) as usize] + n as u32).unwrap_or('?')),
        3 => {
            let all: Vec<String> = (0..1_100).map(text).collect();
            with_keys(c, |n, _| all[n].as_str())
        }
        4 => with_keys(c, |n, _| Arc::<str>::from(text(n))),
        5 => with_keys(c, |n, _| Alike(number(n))),
        6 => with_keys(c, |n, _| Backwards(number(n))),
        7 => with_keys(c, |n, tag| Spelt(number(n), tag)),
        8 => with_keys(c, |n, _| Parts(format!("{:04}", n / 3), n as i64 % 3 * 10 - 10)),
        _ => with_keys(c, |n, _| u128::from(number(n)) << 60),
    }
    .map_err(|e| format!("ids of the type {what}: {e}"))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "three or more documents",
        assumptions: &["The order and the equality of the type of ids are lawful."],
        subs: vec![sub("types", 60_000, 3_000_000, keys, c32)],
        probes: vec![],
    }]
}
