//! C03-C09: metrics, their laws, aggregation and names.
use std::collections::BTreeMap;

use elinor::metrics::compute_metric;
use elinor::{ElinorError, Metric, PredRelStore, TrueRelStore};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Collection};
use crate::oracle::{self, close, Query};
use crate::stat;

/// A collection and some extra cutoffs.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: Collection,
    ks: Vec<usize>,
}

fn case(c: BoxedStrategy<Collection>) -> BoxedStrategy<Case> {
    (c, vec(gen::any_k(), 0..3)).prop_map(|(c, ks)| Case { c, ks }).boxed()
}

fn small() -> BoxedStrategy<Case> {
    case(gen::small_collection())
}
fn small_burges() -> BoxedStrategy<Case> {
    case(gen::small_collection_burges())
}
fn deep() -> BoxedStrategy<Case> {
    case(gen::collection((1usize..3).boxed(), gen::big_doc_sizes, true))
}
fn deep_burges() -> BoxedStrategy<Case> {
    case(gen::collection((1usize..3).boxed(), gen::big_doc_sizes, false))
}
fn wide() -> BoxedStrategy<Case> {
    case(gen::collection((40usize..200).boxed(), || (1usize..8).boxed(), true))
}
fn wide_burges() -> BoxedStrategy<Case> {
    case(gen::collection((40usize..200).boxed(), || (1usize..8).boxed(), false))
}

fn stores(c: &Collection) -> Result<(TrueRelStore<String>, PredRelStore<String>), String> {
    Ok((gen::true_store(&c.true_records())?, gen::pred_store(&c.pred_records())?))
}

fn n_rel(q: &Query) -> usize {
    q.judged.values().filter(|g| **g > 0).count()
}

fn lens(model: &BTreeMap<String, Query>) -> Vec<usize> {
    let mut v: Vec<usize> = model
        .values()
        .take(3)
        .flat_map(|q| [q.retrieved.len(), q.judged.len(), n_rel(q)])
        .collect();
    v.dedup();
    v
}

/// Labels and non-triviality of a collection.
fn classify(model: &BTreeMap<String, Query>, cx: &mut Cx) {
    for q in model.values() {
        let rel_ret = q.retrieved.keys().filter(|d| q.judged.get(*d).is_some_and(|g| *g > 0)).count();
        let non_ret = q.retrieved.keys().filter(|d| q.judged.get(*d) == Some(&0)).count();
        let unjudged = q.retrieved.keys().filter(|d| !q.judged.contains_key(*d)).count();
        cx.label_if(n_rel(q) == 0, "a query without relevant documents");
        cx.label_if(n_rel(q) == q.judged.len(), "a query without judged non-relevant documents");
        cx.label_if(rel_ret == 0, "a query without retrieved relevant documents");
        cx.label_if(unjudged > 0, "an unjudged document is retrieved");
        cx.label_if(rel_ret < n_rel(q), "a relevant document is not retrieved");
        cx.label_if(q.retrieved.len() < n_rel(q), "fewer retrieved than relevant");
        cx.label_if(q.judged.values().any(|g| *g > 255), "grade above 255");
        let mut s: Vec<_> = q.retrieved.values().copied().collect();
        s.sort_by(|a, b| a.total_cmp(b));
        cx.label_if(s.windows(2).any(|w| w[0] == w[1]), "tied scores");
        cx.nontrivial_if(rel_ret > 0 && non_ret + unjudged > 0);
    }
}

fn against_definition(case: &Case, cx: &mut Cx, which: fn(usize) -> Vec<Metric>, tol: f64) -> Res {
    let model = case.c.model();
    classify(&model, cx);
    let (t, p) = stores(&case.c)?;
    let mut ks = gen::cutoffs(&lens(&model));
    ks.extend(&case.ks);
    for k in ks {
        for m in which(k) {
            let got = compute_metric(&t, &p, m).map_err(|e| format!("{m}: {e:?}"))?;
            ensure!(got.len() == model.len(), "{m}: {} scores for {} queries", got.len(), model.len());
            for (qid, q) in &model {
                let want = oracle::metric(q, m);
                let Some(&g) = got.get(qid) else {
                    return Err(format!("{m}: no score for query {qid:?}"));
                };
                ensure!(
                    close(g, want, tol),
                    "{m} of query {qid:?} is {g:?}, by definition {want:?}; ranking {:?}, judged {:?}",
                    oracle::ranking(&q.retrieved), q.judged
                );
            }
        }
    }
    Ok(())
}

fn set_metrics(k: usize) -> Vec<Metric> {
    vec![
        Metric::Hits { k },
        Metric::Success { k },
        Metric::Precision { k },
        Metric::Recall { k },
        Metric::F1 { k },
        Metric::RPrecision,
    ]
}
fn rank_metrics(k: usize) -> Vec<Metric> {
    vec![Metric::AP { k }, Metric::RR { k }]
}
fn bpref(_: usize) -> Vec<Metric> {
    vec![Metric::Bpref]
}
fn dcg(k: usize) -> Vec<Metric> {
    vec![Metric::DCG { k }, Metric::NDCG { k }]
}
fn dcg_burges(k: usize) -> Vec<Metric> {
    vec![Metric::DCGBurges { k }, Metric::NDCGBurges { k }]
}

fn c03(c: &Case, cx: &mut Cx) -> Res {
    against_definition(c, cx, set_metrics, 1e-12)
}
fn c04(c: &Case, cx: &mut Cx) -> Res {
    against_definition(c, cx, rank_metrics, 1e-11)
}
fn c05(c: &Case, cx: &mut Cx) -> Res {
    let c = Case { c: c.c.clone(), ks: vec![] };
    let model = c.c.model();
    classify(&model, cx);
    let (t, p) = stores(&c.c)?;
    let got = compute_metric(&t, &p, Metric::Bpref).map_err(|e| format!("{e:?}"))?;
    ensure!(got.len() == model.len(), "{} scores for {} queries", got.len(), model.len());
    for (qid, q) in &model {
        let want = oracle::metric(q, Metric::Bpref);
        let g = got.get(qid).copied().unwrap_or(f64::NAN);
        ensure!(
            (g - want).abs() <= 1e-11,
            "bpref of query {qid:?} is {g:?}, by definition {want:?}; ranking {:?}, judged {:?}",
            oracle::ranking(&q.retrieved), q.judged
        );
    }
    let _ = bpref;
    Ok(())
}
fn c06(c: &Case, cx: &mut Cx) -> Res {
    against_definition(c, cx, dcg, 1e-11)
}
fn c06b(c: &Case, cx: &mut Cx) -> Res {
    against_definition(c, cx, dcg_burges, 1e-11)
}

/// Grades whose Burges gain overflows: DCG is infinite, an ideal DCG that is not retrieved
/// leaves nothing, and only the ratio of two infinities is the listed finding.
fn c06o(case: &Case, cx: &mut Cx) -> Res {
    let model = case.c.model();
    classify(&model, cx);
    let (t, p) = stores(&case.c)?;
    let mut ks = gen::cutoffs(&lens(&model));
    ks.extend(&case.ks);
    for k in ks {
        let run = |m: Metric| compute_metric(&t, &p, m).map_err(|e| format!("{m}: {e:?}"));
        let (dcg, ndcg) = (run(Metric::DCGBurges { k })?, run(Metric::NDCGBurges { k })?);
        for (qid, q) in &model {
            let over = |g: &u32| *g >= 1024;
            if !q.judged.values().any(over) {
                continue;
            }
            let order = oracle::ranking(&q.retrieved);
            let seen = |d: &String| q.judged.get(d).is_some_and(over);
            let retrieved = order.iter().take(if k == 0 { usize::MAX } else { k }).any(|d| seen(d));
            let (Some(&dcg), Some(&ndcg)) = (dcg.get(qid), ndcg.get(qid)) else {
                return Err(format!("no score for query {qid:?}"));
            };
            cx.label(if retrieved { "listed: an infinite DCG" } else { "an infinite ideal DCG only" });
            let what = || format!("of query {qid:?} at {k}; ranking {order:?}, judged {:?}", q.judged);
            if retrieved {
                ensure!(dcg > 1e300, "dcg_burges is {dcg:?}, less than the gain of a grade above 1023, {}", what());
            } else {
                let want = oracle::metric(q, Metric::DCGBurges { k });
                ensure!(close(dcg, want, 1e-11), "dcg_burges is {dcg:?}, by definition {want:?}, {}", what());
                ensure!((0.0..1e-9).contains(&ndcg), "ndcg_burges is {ndcg:?}, by definition 0, {}", what());
            }
        }
    }
    Ok(())
}

/// One long ranking, given by the judged documents: their ranks (from 1) and grades, and
/// the grades of the judged documents that were not retrieved.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    n: usize,
    judged: Vec<(usize, u32)>,
    missing: Vec<u32>,
    /// Documents per score value; 0 = all scores differ.
    tied: usize,
    ks: Vec<usize>,
}

fn long() -> BoxedStrategy<Long> {
    let edges = vec![99usize, 100, 101, 255, 256, 257, 500, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 32769, 65535, 65536, 65537];
    let n = prop_oneof![
        4 => 800usize..3000,
        2 => 3000usize..20_000,
        1 => 20_000usize..80_000,
        2 => proptest::sample::select(edges.clone()).prop_map(|n| n.max(255)),
    ];
    (n, 0u8..4)
        .prop_flat_map(move |(n, style)| {
            let near: Vec<usize> = edges.iter().copied().filter(|e| *e <= n).chain([1, n - 1, n]).collect();
            let rank = prop_oneof![3 => 1..=n, 3 => proptest::sample::select(near.clone()), 1 => (1usize..=20).prop_map(move |r| n + 1 - r)];
            let grade = prop_oneof![2 => Just(1u32), 2 => 0u32..4, 1 => proptest::sample::select(vec![20u32, 300])];
            let many = [0..3usize, 1..8, 5..60, 200..600][style as usize].clone();
            (
                Just(n),
                vec((rank.clone(), grade.clone()), many.clone()),
                prop_oneof![3 => vec(grade.clone(), 0..5), 1 => vec(grade, 50..1500)],
                prop_oneof![2 => Just(0usize), 1 => Just(1000usize), 1 => 2usize..50],
                vec(prop_oneof![3 => rank, 1 => n..2 * n, 1 => proptest::sample::select(near)], 2..6),
            )
        })
        .prop_map(|(n, judged, missing, tied, ks)| {
            let mut judged: BTreeMap<usize, u32> = judged.into_iter().collect();
            if judged.is_empty() && missing.is_empty() {
                judged.insert(n, 1);
            }
            Long { n, judged: judged.into_iter().collect(), missing, tied, ks }
        })
        .boxed()
}

impl Long {
    fn stores(&self) -> Result<(TrueRelStore<u32>, PredRelStore<u32>), String> {
        let e = |e| format!("{e:?}");
        let n = self.n as u32;
        let p = PredRelStore::from_records((0..n).map(|i| {
            // Back to front, and with the ranks as ids for the ties.
            let i = n - 1 - i;
            let score = if self.tied == 0 { -(i as f64) } else { -((i as usize / self.tied) as f64) };
            elinor::PredRecord { query_id: 1, doc_id: i + 1, score: score.into() }
        }));
        let judged = self.judged.iter().map(|(r, g)| (*r as u32, *g));
        let missing = self.missing.iter().enumerate().map(|(i, g)| (n + 1 + i as u32, *g));
        let t = TrueRelStore::from_records(judged.chain(missing).map(|(d, g)| elinor::TrueRecord { query_id: 1, doc_id: d, score: g }));
        Ok((t.map_err(e)?, p.map_err(e)?))
    }
    fn n_rel(&self) -> f64 {
        (self.judged.iter().filter(|x| x.1 > 0).count() + self.missing.iter().filter(|g| **g > 0).count()) as f64
    }
    /// The definitions, over the judged ranks only.
    fn metric(&self, m: Metric) -> f64 {
        let k = oracle::k_of(m);
        let depth = if k == 0 { self.n } else { k };
        let n_rel = self.n_rel();
        let rel = |top: usize| self.judged.iter().filter(move |x| x.0 <= top && x.1 > 0).map(|x| x.0);
        let hits = rel(depth).count() as f64;
        let dcg = |v: &mut dyn Iterator<Item = (usize, u32)>, burges: bool| {
            stat::sum(v.filter(|x| k == 0 || x.0 <= k).map(|(r, g)| {
                (if burges { 2f64.powi(g as i32) - 1.0 } else { g as f64 }) / ((r + 1) as f64).log2()
            }))
        };
        match m {
            Metric::Hits { .. } => hits,
            Metric::Success { .. } => if hits > 0.0 { 1.0 } else { 0.0 },
            Metric::Precision { .. } => hits / depth as f64,
            _ if n_rel == 0.0 && !matches!(m, Metric::DCG { .. } | Metric::DCGBurges { .. } | Metric::NDCG { .. } | Metric::NDCGBurges { .. }) => 0.0,
            Metric::Recall { .. } => hits / n_rel,
            Metric::F1 { .. } => if hits == 0.0 { 0.0 } else { 2.0 * hits / (depth as f64 + n_rel) },
            Metric::RPrecision => rel(n_rel as usize).count() as f64 / n_rel,
            Metric::AP { .. } => stat::sum(rel(depth).enumerate().map(|(i, r)| (i + 1) as f64 / r as f64)) / n_rel,
            Metric::RR { .. } => rel(depth).next().map_or(0.0, |r| 1.0 / r as f64),
            Metric::Bpref => {
                let n_non = (self.judged.len() + self.missing.len()) as f64 - n_rel;
                let mut above = 0.0;
                let mut s = 0.0;
                for (_, g) in &self.judged {
                    if *g == 0 {
                        above += 1.0;
                    } else if above == 0.0 {
                        s += 1.0;
                    } else {
                        s += 1.0 - n_rel.min(above) / n_rel.min(n_non);
                    }
                }
                s / n_rel
            }
            Metric::DCG { .. } => dcg(&mut self.judged.iter().copied(), false),
            Metric::DCGBurges { .. } => dcg(&mut self.judged.iter().copied(), true),
            Metric::NDCG { .. } | Metric::NDCGBurges { .. } => {
                let burges = matches!(m, Metric::NDCGBurges { .. });
                let mut g: Vec<u32> = self.judged.iter().map(|x| x.1).chain(self.missing.iter().copied()).collect();
                g.sort_unstable();
                let ideal = dcg(&mut g.iter().rev().enumerate().map(|(i, g)| (i + 1, *g)), burges);
                if ideal == 0.0 {
                    1.0
                } else {
                    dcg(&mut self.judged.iter().copied(), burges) / ideal
                }
            }
        }
    }
}

fn one(t: &TrueRelStore<u32>, p: &PredRelStore<u32>, m: Metric) -> Result<f64, String> {
    let got = compute_metric(t, p, m).map_err(|e| format!("{m}: {e:?}"))?;
    ensure!(got.len() == 1, "{m}: {} scores for one query", got.len());
    got.get(&1).copied().ok_or_else(|| format!("{m}: no score for the query"))
}

fn long_check(l: &Long, cx: &mut Cx, which: fn(usize) -> Vec<Metric>) -> Res {
    let (t, p) = l.stores()?;
    cx.label_if(l.n > 1000, "more than 1000 retrieved documents");
    cx.label_if(l.n > 10_000, "more than 10000 retrieved documents");
    cx.label_if(l.n > 65_535, "more than 65535 retrieved documents");
    cx.label_if(l.missing.len() >= 50, "50 or more judged documents are not retrieved");
    cx.nontrivial_if(l.judged.iter().any(|x| x.1 > 0));
    for k in l.ks.iter().copied().chain([0]) {
        for m in which(k) {
            if k != 0 && oracle::k_of(m) == 0 {
                continue;
            }
            let (got, want) = (one(&t, &p, m)?, l.metric(m));
            ensure!(
                close(got, want, 1e-9) || (m == Metric::Bpref && (got - want).abs() < 1e-10),
                "{m} of a ranking of {} documents is {got:?}, by definition {want:?}; judged ranks {:?}, {} judged documents not retrieved",
                l.n, l.judged, l.missing.len()
            );
        }
    }
    Ok(())
}
fn long03(l: &Long, cx: &mut Cx) -> Res {
    long_check(l, cx, set_metrics)
}
fn long04(l: &Long, cx: &mut Cx) -> Res {
    long_check(l, cx, rank_metrics)
}
fn long05(l: &Long, cx: &mut Cx) -> Res {
    long_check(l, cx, |_| vec![Metric::Bpref])
}
fn long06(l: &Long, cx: &mut Cx) -> Res {
    long_check(l, cx, |k| [dcg(k), dcg_burges(k)].concat())
}

/// The laws between metrics and cutoffs on long rankings.
fn long07(l: &Long, cx: &mut Cx) -> Res {
    let (t, p) = l.stores()?;
    let n_rel = l.n_rel();
    cx.label_if(l.n > 1000, "more than 1000 retrieved documents");
    cx.nontrivial_if(l.judged.iter().any(|x| x.1 > 0));
    let mut ks = l.ks.clone();
    ks.push(l.n);
    ks.sort_unstable();
    ks.dedup();
    let mut prev: Option<(usize, Vec<f64>)> = None;
    for &k in &ks {
        let get = |m: Metric| one(&t, &p, m);
        let h = get(Metric::Hits { k })?;
        let s = get(Metric::Success { k })?;
        let (pr, r) = (get(Metric::Precision { k })?, get(Metric::Recall { k })?);
        ensure!((s == 1.0) == (h > 0.0) && (s == 0.0 || s == 1.0), "success@{k} = {s} but hits@{k} = {h}");
        ensure!(close(pr * k as f64, h, 1e-12), "precision@{k} * k = {} but hits@{k} = {h}", pr * k as f64);
        ensure!(close(r * n_rel, h, 1e-12), "recall@{k} * |Rel| = {} but hits@{k} = {h}", r * n_rel);
        let (rr, ap, dcg, ndcg) = (get(Metric::RR { k })?, get(Metric::AP { k })?, get(Metric::DCG { k })?, get(Metric::NDCG { k })?);
        ensure!((rr > 0.0) == (h > 0.0) && (ap > 0.0) == (h > 0.0) && (dcg > 0.0) == (h > 0.0), "rr@{k} = {rr}, ap@{k} = {ap}, dcg@{k} = {dcg} but hits@{k} = {h}");
        for (name, v) in [("rr", rr), ("ap", ap), ("ndcg", ndcg), ("precision", pr), ("recall", r)] {
            ensure!((0.0..=1.0 + 1e-12).contains(&v), "{name}@{k} is {v:?}, not in [0, 1]");
        }
        let now = vec![h, s, r, rr, ap, dcg];
        if let Some((b, before)) = &prev {
            for (i, name) in ["hits", "success", "recall", "rr", "ap", "dcg"].iter().enumerate() {
                ensure!(now[i] >= before[i] * (1.0 - 1e-12), "{name} falls from {} at cutoff {b} to {} at cutoff {k}", before[i], now[i]);
            }
        }
        prev = Some((k, now));
    }
    let far = l.n.max(l.judged.len() + l.missing.len());
    for (a, b) in gen::all_metrics(0).into_iter().zip(gen::all_metrics(far)) {
        if matches!(a, Metric::Precision { .. } | Metric::F1 { .. }) && far != l.n {
            continue;
        }
        let (x, y) = (one(&t, &p, a)?, one(&t, &p, b)?);
        ensure!(close(x, y, 1e-12), "{a} = {x} and {b} = {y} differ although no list is longer than {far}");
    }
    Ok(())
}

fn scores(c: &Collection, m: Metric) -> Result<BTreeMap<String, f64>, String> {
    let (t, p) = stores(c)?;
    compute_metric(&t, &p, m).map_err(|e| format!("{m}: {e:?}"))
}

fn same(a: &BTreeMap<String, f64>, b: &BTreeMap<String, f64>, tol: f64) -> Option<String> {
    if a.keys().ne(b.keys()) {
        return Some(format!("queries {:?} vs {:?}", a.keys(), b.keys()));
    }
    a.iter()
        .find(|(q, x)| !close(**x, b[*q], tol))
        .map(|(q, x)| format!("query {q:?}: {x:?} vs {:?}", b[q]))
}

/// Metamorphic laws. Exact equality is demanded only where the documents and their order
/// are the same, up to 1e-12.
fn c07(case: &Case, cx: &mut Cx) -> Res {
    let c = &case.c;
    let model = c.model();
    classify(&model, cx);
    let (t, p) = stores(c)?;
    let get = |m: Metric| compute_metric(&t, &p, m).map_err(|e| format!("{m}: {e:?}"));
    let max_len = model.values().map(|q| q.retrieved.len().max(q.judged.len())).max().unwrap_or(0);
    let mut ks: Vec<usize> = (1..=max_len.min(6)).collect();
    ks.extend(case.ks.iter().copied().filter(|k| *k > 0));
    ks.extend([max_len.max(1), max_len + 1]);
    ks.sort_unstable();
    ks.dedup();

    let mut prev: Option<(usize, BTreeMap<&str, BTreeMap<String, f64>>)> = None;
    for &k in &ks {
        let hits = get(Metric::Hits { k })?;
        let succ = get(Metric::Success { k })?;
        let prec = get(Metric::Precision { k })?;
        let rec = get(Metric::Recall { k })?;
        let f1 = get(Metric::F1 { k })?;
        let rr = get(Metric::RR { k })?;
        let ap = get(Metric::AP { k })?;
        let dcg = get(Metric::DCG { k })?;
        let ndcg = get(Metric::NDCG { k })?;
        let ndcgb = get(Metric::NDCGBurges { k })?;
        for (qid, q) in &model {
            let e = 1e-12;
            let (h, s, pr, r, f) = (hits[qid], succ[qid], prec[qid], rec[qid], f1[qid]);
            let n = n_rel(q) as f64;
            for (name, v) in [("success", s), ("precision", pr), ("recall", r), ("f1", f), ("rr", rr[qid]), ("ap", ap[qid]), ("ndcg", ndcg[qid]), ("ndcg_burges", ndcgb[qid])] {
                ensure!((0.0..=1.0 + e).contains(&v), "{name}@{k} of {qid:?} is {v:?}, not in [0, 1]");
            }
            ensure!(h >= 0.0 && h.fract() == 0.0 && h <= n && h <= k as f64 && h <= q.retrieved.len() as f64, "hits@{k} of {qid:?} is {h}");
            ensure!((s == 1.0) == (h > 0.0) && (s == 0.0 || s == 1.0), "success@{k} = {s} but hits@{k} = {h}");
            ensure!(close(pr * k as f64, h, e), "precision@{k} * k = {} but hits@{k} = {h}", pr * k as f64);
            ensure!(close(r * n, h, e), "recall@{k} * |Rel| = {} but hits@{k} = {h}", r * n);
            ensure!(f <= pr.max(r) * (1.0 + e) && f >= pr.min(r) * (1.0 - e), "f1@{k} = {f} is not between precision {pr} and recall {r}");
            ensure!((rr[qid] > 0.0) == (h > 0.0) && (ap[qid] > 0.0) == (h > 0.0), "rr@{k} = {}, ap@{k} = {} but hits@{k} = {h}", rr[qid], ap[qid]);
            ensure!(ap[qid] <= r * (1.0 + e), "ap@{k} = {} exceeds recall@{k} = {r}", ap[qid]);
            ensure!((dcg[qid] > 0.0) == (h > 0.0), "dcg@{k} = {} but hits@{k} = {h}", dcg[qid]);
        }
        let now: BTreeMap<&str, _> = [("hits", hits), ("success", succ), ("recall", rec), ("rr", rr), ("ap", ap), ("dcg", dcg)].into();
        if let Some((pk, before)) = &prev {
            for (name, m) in &now {
                for (qid, v) in m {
                    let b = before[name][qid];
                    ensure!(*v >= b * (1.0 - 1e-12), "{name} of {qid:?} falls from {b} at cutoff {pk} to {v} at cutoff {k}");
                }
            }
        }
        prev = Some((k, now));
    }

    // Cutoff 0 means no cutoff: the same as one beyond every list.
    let far = max_len + 1;
    for (a, b) in gen::all_metrics(0).into_iter().zip(gen::all_metrics(far)) {
        if matches!(a, Metric::Precision { .. } | Metric::F1 { .. }) {
            continue;
        }
        if let Some(d) = same(&get(a)?, &get(b)?, 1e-12) {
            return Err(format!("{a} and {b} differ although no list is longer than {max_len}: {d}"));
        }
    }
    for k in [0usize, 3] {
        for m in gen::all_metrics(k) {
            let base = get(m)?;
            // bpref and r-precision bounds.
            for (qid, v) in &base {
                if matches!(m, Metric::Bpref | Metric::RPrecision) {
                    ensure!((-1e-12..=1.0 + 1e-12).contains(v), "{m} of {qid:?} is {v:?}, not in [0, 1]");
                }
            }
            // Only the order of scores matters.
            let mut c2 = c.clone();
            for topic in &mut c2.topics {
                let mut vals: Vec<f64> = topic.docs.iter().filter_map(|d| d.score.map(|s| s.0)).collect();
                vals.sort_by(|a, b| a.partial_cmp(b).unwrap());
                vals.dedup();
                for d in &mut topic.docs {
                    if let Some(s) = &mut d.score {
                        s.0 = vals.iter().position(|v| *v == s.0).unwrap() as f64 * 3.5 - 7.0;
                    }
                }
            }
            if let Some(d) = same(&base, &scores(&c2, m)?, 1e-12) {
                return Err(format!("{m} changes under an order-preserving rescoring: {d}"));
            }
            // The order of insertion does not matter.
            let c3 = Collection { order: !c.order, ..c.clone() };
            if let Some(d) = same(&base, &scores(&c3, m)?, 1e-12) {
                return Err(format!("{m} depends on the insertion order: {d}"));
            }
            // Queries do not influence each other.
            for topic in &c.topics {
                let one = Collection { topics: vec![topic.clone()], ..c.clone() };
                let alone = scores(&one, m)?;
                let qid = c.qid(topic);
                ensure!(
                    alone.len() == 1 && alone.get(&qid).is_some_and(|x| close(*x, base[&qid], 1e-12)),
                    "{m} of {qid:?} is {:?} among {} queries but {alone:?} alone", base[&qid], c.topics.len()
                );
            }
            // A judged grade-0 document is like an unjudged one, except for bpref.
            if m != Metric::Bpref {
                let mut c4 = c.clone();
                for topic in &mut c4.topics {
                    for d in &mut topic.docs {
                        if d.grade.is_none() {
                            d.grade = Some(0);
                        }
                    }
                }
                if let Some(d) = same(&base, &scores(&c4, m)?, 1e-12) {
                    return Err(format!("{m} distinguishes unjudged from non-relevant documents: {d}"));
                }
            }
            // Grades above zero are all relevant to the binary metrics.
            if !matches!(m, Metric::DCG { .. } | Metric::NDCG { .. } | Metric::DCGBurges { .. } | Metric::NDCGBurges { .. }) {
                let mut c5 = c.clone();
                for topic in &mut c5.topics {
                    for d in &mut topic.docs {
                        d.grade = d.grade.map(|g| u32::from(g > 0));
                    }
                }
                if let Some(d) = same(&base, &scores(&c5, m)?, 1e-12) {
                    return Err(format!("{m} distinguishes relevant grades: {d}"));
                }
            }
        }
    }

    // The ideal ranking (all judged documents in order of grade) is perfect.
    let mut ideal = c.clone();
    for topic in &mut ideal.topics {
        for d in &mut topic.docs {
            d.score = d.grade.map(|g| F(g as f64));
        }
    }
    let im = ideal.model();
    for m in [
        Metric::NDCG { k: 0 }, Metric::NDCG { k: 1 }, Metric::NDCG { k: 4 }, Metric::NDCGBurges { k: 0 }, Metric::NDCGBurges { k: 2 },
        Metric::AP { k: 0 }, Metric::RR { k: 0 }, Metric::Recall { k: 0 }, Metric::RPrecision, Metric::Bpref, Metric::Success { k: 1 }, Metric::Precision { k: 1 },
    ] {
        let got = scores(&ideal, m)?;
        for (qid, q) in &im {
            let ndcg = matches!(m, Metric::NDCG { .. } | Metric::NDCGBurges { .. });
            let want = if n_rel(q) > 0 || ndcg { 1.0 } else { 0.0 };
            ensure!(close(got[qid], want, 1e-11), "{m} of an ideal ranking for {qid:?} is {}, not {want}; judged {:?}", got[qid], q.judged);
        }
    }
    // Moving a more relevant judged document above the one just before it never hurts.
    let mut better = c.clone();
    let mut moved = false;
    for topic in &mut better.topics {
        let names: BTreeMap<String, usize> = topic.docs.iter().enumerate().map(|(i, d)| (gen::id(topic.style, d.n), i)).collect();
        let q = &model[&gen::id(c.style, topic.n)];
        let order = oracle::ranking(&q.retrieved);
        for (i, d) in order.iter().enumerate() {
            topic.docs[names[d]].score = Some(F(-(i as f64)));
        }
        let grade = |d: &String| q.judged.get(d).copied();
        if let Some(i) = (1..order.len()).find(|&i| {
            matches!((grade(&order[i - 1]), grade(&order[i])), (Some(a), Some(b)) if a < b)
        }) {
            let (a, b) = (names[&order[i - 1]], names[&order[i]]);
            let (x, y) = (topic.docs[a].score, topic.docs[b].score);
            topic.docs[a].score = y;
            topic.docs[b].score = x;
            moved = true;
        }
    }
    cx.label_if(moved, "a better document moved up");
    if moved {
        for k in [0usize, 1, 2, 5] {
            for m in gen::all_metrics(k) {
                let (a, b) = (get(m)?, scores(&better, m)?);
                for (qid, x) in &a {
                    ensure!(b[qid] >= x * (1.0 - 1e-12), "{m} of {qid:?} falls from {x} to {} when a more relevant document moves up", b[qid]);
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EvalCase {
    c: Collection,
    /// Queries judged but not retrieved.
    judged_only: Vec<usize>,
    /// Queries retrieved but not judged.
    retrieved_only: Vec<usize>,
    k: usize,
}

fn eval_case(topics: BoxedStrategy<usize>) -> BoxedStrategy<EvalCase> {
    (
        gen::collection(topics, || prop_oneof![3 => 1usize..6, 1 => 4usize..20].boxed(), false),
        vec(1000usize..1100, 0..4),
        prop_oneof![3 => Just(vec![]), 1 => vec(2000usize..2100, 1..3)],
        gen::any_k(),
    )
        .prop_map(|(c, judged_only, retrieved_only, k)| EvalCase { c, judged_only, retrieved_only, k })
        .boxed()
}

fn bulk_eval_case() -> BoxedStrategy<EvalCase> {
    (
        gen::bulk_collection(140_000),
        vec(71_000usize..72_000, 0..3),
        prop_oneof![4 => Just(vec![]), 1 => vec(73_000usize..74_000, 1..3)],
        prop_oneof![gen::any_k(), 100usize..70_000],
    )
        .prop_map(|(c, judged_only, retrieved_only, k)| EvalCase { c, judged_only, retrieved_only, k })
        .boxed()
}

fn c08(case: &EvalCase, cx: &mut Cx) -> Res {
    let c = &case.c;
    let model = c.model();
    let mut t = c.true_records();
    let mut p = c.pred_records();
    // Extra queries are spread through the id order.
    for (i, q) in case.judged_only.iter().enumerate() {
        let r = (gen::id(c.style, *q), format!("x{i}"), 1u32);
        t.insert(i % (t.len() + 1), r);
    }
    for (i, q) in case.retrieved_only.iter().enumerate() {
        let r = (gen::id(c.style, *q), format!("x{i}"), 0.5);
        p.insert(i % (p.len() + 1), r);
    }
    let (t, p) = (gen::true_store(&t)?, gen::pred_store(&p)?);
    cx.label_if(!case.judged_only.is_empty(), "judged queries that are not retrieved");
    cx.label_if(!case.retrieved_only.is_empty(), "retrieved queries that are not judged");
    for (i, m) in gen::all_metrics(case.k).into_iter().enumerate() {
        // Large collections: some of the metrics, to save time.
        if model.len() + t.n_docs() > 10_000 && i % 4 != (c.order % 4) as usize {
            continue;
        }
        let r = elinor::evaluate(&t, &p, m);
        if !case.retrieved_only.is_empty() {
            match r {
                Err(ElinorError::MissingEntry(text)) => {
                    right_direction(&text)?;
                    continue;
                }
                Err(e) => return Err(format!("{m}: {e:?} instead of a missing entry")),
                Ok(_) => return Err(format!("{m}: evaluated although a retrieved query has no judgments")),
            }
        }
        let ev = r.map_err(|e| format!("{m}: {e:?}"))?;
        ensure!(ev.metric() == m, "metric() is {:?}, evaluated {m:?}", ev.metric());
        let keys: Vec<_> = ev.scores().keys().collect();
        ensure!(keys.iter().copied().eq(model.keys()), "{m}: scores for queries {keys:?}, retrieved queries {:?}", model.keys());
        let mut xs = vec![];
        for (qid, q) in &model {
            let (got, want) = (ev.scores()[qid], oracle::metric(q, m));
            ensure!(close(got, want, 1e-10) || (m == Metric::Bpref && (got - want).abs() < 1e-10), "{m} of {qid:?}: {got} instead of {want}");
            xs.push(got);
        }
        let n = xs.len() as f64;
        let mean = stat::sum(xs.iter().copied()) / n;
        ensure!(close(ev.mean(), mean, 1e-10), "{m}: mean() is {} but the scores average {mean}: {xs:?}", ev.mean());
        let scale = xs.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        let var = stat::sum(xs.iter().map(|x| (x - mean) * (x - mean))) / n;
        if scale < 1e140 {
            ensure!((ev.variance() - var).abs() <= 1e-9 * var + 1e-20 * scale * scale, "{m}: variance() is {} but the scores have (population) variance {var}: {xs:?}", ev.variance());
            ensure!(close(ev.std_dev(), ev.variance().sqrt(), 1e-12), "{m}: std_dev() is {} but variance() is {}", ev.std_dev(), ev.variance());
        }
        cx.nontrivial_if(xs.iter().any(|x| *x != xs[0]));
        let direct = compute_metric(&t, &p, m).map_err(|e| format!("{m}: {e:?}"))?;
        if let Some(d) = same(&direct, ev.scores(), 1e-12) {
            return Err(format!("{m}: evaluate and compute_metric disagree: {d}"));
        }
    }
    Ok(())
}

/// A metric name with an optional cutoff, possibly damaged.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Name {
    pub(super) text: String,
}

const NAMES: [&str; 13] = [
    "hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges",
];

fn make(name: &str, k: usize) -> Option<Metric> {
    Some(match name {
        "hits" => Metric::Hits { k },
        "success" => Metric::Success { k },
        "precision" => Metric::Precision { k },
        "recall" => Metric::Recall { k },
        "f1" => Metric::F1 { k },
        "r_precision" => Metric::RPrecision,
        "ap" => Metric::AP { k },
        "rr" => Metric::RR { k },
        "bpref" => Metric::Bpref,
        "dcg" => Metric::DCG { k },
        "ndcg" => Metric::NDCG { k },
        "dcg_burges" => Metric::DCGBurges { k },
        "ndcg_burges" => Metric::NDCGBurges { k },
        _ => return None,
    })
}

pub(super) fn name_text() -> BoxedStrategy<Name> {
    let name = proptest::sample::select(NAMES.to_vec()).prop_map(str::to_string);
    let suffix = prop_oneof![
        3 => Just(String::new()),
        4 => gen::any_k().prop_map(|k| format!("@{k}")),
        1 => (0usize..4, gen::any_k()).prop_map(|(z, k)| format!("@{}{k}", "0".repeat(z))),
        2 => proptest::sample::select(vec!["@", "@-1", "@+1", "@1.0", "@ 1", "@1 ", "@1@2", "@@1", "@x", "@0x10", "@18446744073709551615",
            "@18446744073709551616", "@99999999999999999999999", "@1\n", "\n", " ", "@１", "@1_000", "@1,000", "_", "1", "@1k", "k", "@٣", "@1e3", "@∞"]).prop_map(str::to_string),
    ];
    let whole = (name, suffix).prop_map(|(a, b)| a + &b);
    let damage = (whole.clone(), 0usize..4, any::<prop::sample::Index>(), "[a-z0-9_@ A-Z\\n\u{e9}-]").prop_map(|(s, how, i, c)| {
        let mut cs: Vec<char> = s.chars().collect();
        let i = i.index(cs.len().max(1));
        match how {
            0 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            1 => cs.insert(i.min(cs.len()), c.chars().next().unwrap()),
            2 => {
                if i < cs.len() {
                    cs[i] = cs[i].to_ascii_uppercase();
                }
            }
            _ => cs.reverse(),
        }
        cs.into_iter().collect::<String>()
    });
    prop_oneof![
        6 => whole,
        4 => damage,
        1 => "[a-z0-9_]{0,12}(@[0-9]{0,22})?",
        1 => "\\PC{0,10}",
        1 => any::<String>(),
        1 => proptest::sample::select(vec!["map", "mrr", "MAP", "p", "P", "p@1", "ndcg_cut", "ndcg_cut_10", "recip_rank", "Hits", "nDCG", "NDCG@10", "average_precision",
            "reciprocal_rank", "f2", "f_1", "rprecision", "r-precision", "dcgburges", "dcg-burges", "", "@", "@1", "hit", "hitss", "f1f1", "f10", "ndcg_burgess", "num_rel"]).prop_map(str::to_string),
    ]
    .prop_map(|text| Name { text })
    .boxed()
}

fn c09(n: &Name, cx: &mut Cx) -> Res {
    let s = n.text.as_str();
    let got = s.parse::<Metric>();
    // The documented grammar, read by hand: name, then optionally '@' and ASCII digits.
    let (name, k) = match s.split_once('@') {
        None => (s, Some(0usize)),
        Some((a, b)) if !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()) => (a, b.parse().ok()),
        Some((a, _)) => (a, None),
    };
    let want = k.and_then(|k| make(name, k));
    let no_cutoff = matches!(name, "bpref" | "r_precision") && s.contains('@');
    cx.label_if(want.is_some(), "valid");
    cx.label_if(want.is_none(), "invalid");
    cx.label_if(no_cutoff, "cutoff on a metric without one");
    cx.nontrivial();
    match (&want, &got) {
        (Some(w), Ok(g)) => ensure!(w == g, "{s:?} parses as {g:?}, not {w:?}"),
        (Some(_), Err(ElinorError::InvalidFormat(_))) if no_cutoff => {}
        (Some(w), Err(e)) => return Err(format!("{s:?} is rejected ({e:?}) but names {w:?}")),
        (None, Ok(g)) => return Err(format!("{s:?} is accepted as {g:?}")),
        (None, Err(ElinorError::InvalidFormat(_))) => {}
        (None, Err(e)) => return Err(format!("{s:?} is rejected with {e:?}, not as an invalid format")),
    }
    if let Ok(m) = got {
        let text = m.to_string();
        ensure!(format!("{m:#}") == text, "alternate form {:?} differs from {text:?}", format!("{m:#}"));
        let shown = match oracle::k_of(m) {
            0 => name.to_string(),
            k => format!("{name}@{k}"),
        };
        ensure!(text == shown, "{m:?} is displayed as {text:?}, not {shown:?}");
        ensure!(text.parse::<Metric>() == Ok(m), "{m:?} is displayed as {text:?}, which parses as {:?}", text.parse::<Metric>());
    }
    Ok(())
}

fn probe_burges(_: &Env) -> Probe {
    // A grade of 1024: the Burges gain overflows, so the ideal ranking scores inf/inf.
    let f = || {
        let t = gen::true_store(&[("q".into(), "d".into(), 1024)])?;
        let p = gen::pred_store(&[("q".into(), "d".into(), 1.0)])?;
        compute_metric(&t, &p, Metric::NDCGBurges { k: 0 }).map_err(|e| format!("{e:?}"))
    };
    match no_panic("ndcg_burges", f) {
        Ok(Ok(m)) if m.get("q").is_some_and(|x| x.is_nan()) => Probe::Listed(
            "ndcg_burges of an ideal ranking is NaN, not 1, when a relevance grade is 1024 or more (the gain 2^grade - 1 overflows)".into(),
        ),
        Ok(Ok(m)) if m.get("q") == Some(&1.0) => Probe::Fixed,
        other => Probe::Different(format!("ndcg_burges with a grade of 1024 gives {other:?}")),
    }
}

/// A message that explains which store has to cover the other one must not have it backwards.
fn right_direction(text: &str) -> Res {
    let Some((before, after)) = text.split_once("subset of") else { return Ok(()) };
    let subject = match (before.rfind("true_rels"), before.rfind("pred_rels")) {
        (Some(t), p) if p.is_none_or(|p| p < t) => "true_rels",
        (_, Some(_)) => "pred_rels",
        _ => return Ok(()),
    };
    ensure!(
        subject == "pred_rels" || !after.contains("pred_rels"),
        "every retrieved query needs judgments, but the error says the reverse: {text:?}"
    );
    Ok(())
}

pub fn properties() -> Vec<Property> {
    const COLL: &str = "Collections of 1-200 queries with 1-1500 documents each (up to 80000 in the 'long' cases), judged and/or retrieved independently; binary, graded, all-zero, all-relevant and extreme grades; distinct, heavily tied, neighbouring-double and extreme scores; 12 id spellings; shuffled insertion; cutoffs at 0, around every list length, and extreme. ";
    let rule = |s: &str| -> &'static str { Box::leak(format!("{COLL}{s}").into_boxed_str()) };
    let nt = "Non-trivial = some query retrieves a relevant and a not relevant document.";
    vec![
        Property {
            id: "C03",
            rule: rule(nt),
            assumptions: &["Predicted scores are not NaN."],
            subs: vec![
                sub("small", 60_000, 2_000_000, small, c03),
                sub("deep", 800, 25_000, deep, c03),
                sub("wide", 800, 25_000, wide, c03),
                sub("long", 2_000, 60_000, long, long03),
            ],
            probes: vec![],
        },
        Property {
            id: "C04",
            rule: rule(nt),
            assumptions: &["Predicted scores are not NaN."],
            subs: vec![
                sub("small", 80_000, 2_500_000, small, c04),
                sub("deep", 800, 20_000, deep, c04),
                sub("wide", 1_000, 25_000, wide, c04),
                sub("long", 2_000, 60_000, long, long04),
            ],
            probes: vec![],
        },
        Property {
            id: "C05",
            rule: rule(nt),
            assumptions: &["Predicted scores are not NaN."],
            subs: vec![
                sub("small", 200_000, 7_500_000, small, c05),
                sub("deep", 3_000, 100_000, deep, c05),
                sub("wide", 3_000, 100_000, wide, c05),
                sub("long", 2_000, 60_000, long, long05),
            ],
            probes: vec![],
        },
        Property {
            id: "C06",
            rule: rule(nt),
            assumptions: &["Predicted scores are not NaN.", "Burges metrics: grades up to 900; above 1023, where the gain overflows a double, an infinite DCG, and NDCG only where it is not infinite by infinite (the known finding)."],
            subs: vec![
                sub("jarvelin", 50_000, 1_500_000, small, c06),
                sub("burges", 50_000, 1_500_000, small_burges, c06b),
                sub("deep-jarvelin", 600, 20_000, deep, c06),
                sub("deep-burges", 600, 20_000, deep_burges, c06b),
                sub("wide-jarvelin", 600, 20_000, wide, c06),
                sub("wide-burges", 600, 20_000, wide_burges, c06b),
                sub("overflow", 20_000, 600_000, small, c06o),
                sub("long", 1_500, 45_000, long, long06),
            ],
            probes: vec![("ndcg-burges-overflow", Box::new(probe_burges))],
        },
        Property {
            id: "C07",
            rule: rule(nt),
            assumptions: &["Predicted scores are not NaN.", "Grades up to 900 (see C06)."],
            subs: vec![sub("laws", 9_000, 300_000, small_burges, c07), sub("long", 1_500, 45_000, long, long07)],
            probes: vec![],
        },
        Property {
            id: "C08",
            rule: rule("Extra queries only judged or only retrieved; all 13 metrics at a random cutoff. Non-trivial = the per-query scores differ."),
            assumptions: &["At least one query is retrieved (the mean of no scores is undefined).", "Grades up to 900."],
            subs: vec![
                sub("few", 120_000, 4_000_000, || eval_case((1usize..8).boxed()), c08),
                sub("many", 3_000, 100_000, || eval_case((30usize..300).boxed()), c08),
                sub("bulk", 40, 1_200, bulk_eval_case, c08),
            ],
            probes: vec![],
        },
        Property {
            id: "C09",
            rule: "Metric names with and without cutoffs, one-character damage of them, near-miss names, digit look-alikes, overflowing cutoffs and arbitrary strings, against a hand-written reader of the documented grammar; every case counts.",
            assumptions: &["Whether a cutoff on bpref or r_precision is ignored or rejected is not documented; both are accepted."],
            subs: vec![sub("names", 200_000, 7_500_000, name_text, c09)],
            probes: vec![],
        },
    ]
}
