//! Reference model of rankings and metrics, written from the definitions in the
//! documentation (no code shared with the library).
use std::collections::{BTreeMap, BTreeSet};

use elinor::Metric;

/// A query of the reference model: judgments and retrieved scores.
#[derive(Clone, Debug, Default)]
pub struct Query {
    pub judged: BTreeMap<String, u32>,
    pub retrieved: BTreeMap<String, f64>,
}

/// Descending score, ties by ascending document id.
pub fn ranking(retrieved: &BTreeMap<String, f64>) -> Vec<String> {
    let mut left: Vec<(&String, f64)> = retrieved.iter().map(|(d, s)| (d, *s)).collect();
    left.sort_by(|a, b| {
        if a.1 > b.1 {
            std::cmp::Ordering::Less
        } else if a.1 < b.1 {
            std::cmp::Ordering::Greater
        } else {
            a.0.cmp(b.0)
        }
    });
    left.into_iter().map(|(d, _)| d.clone()).collect()
}

pub fn k_of(m: Metric) -> usize {
    match m {
        Metric::Hits { k }
        | Metric::Success { k }
        | Metric::Precision { k }
        | Metric::Recall { k }
        | Metric::F1 { k }
        | Metric::AP { k }
        | Metric::RR { k }
        | Metric::DCG { k }
        | Metric::NDCG { k }
        | Metric::DCGBurges { k }
        | Metric::NDCGBurges { k } => k,
        Metric::RPrecision | Metric::Bpref => 0,
    }
}

fn dcg(grades: impl Iterator<Item = u32>, k: usize, burges: bool) -> f64 {
    let mut s = crate::stat::Sum::default();
    for (i, g) in grades.enumerate() {
        if k != 0 && i >= k {
            break;
        }
        let gain = if burges {
            (g as f64).exp2() - 1.0
        } else {
            g as f64
        };
        s.add(gain * std::f64::consts::LN_2 / ((i + 2) as f64).ln());
    }
    s.value()
}

/// The value of a metric for one query, from its definition.
pub fn metric(q: &Query, m: Metric) -> f64 {
    let order = ranking(&q.retrieved);
    let k = k_of(m);
    let top: Vec<&String> = if k == 0 {
        order.iter().collect()
    } else {
        order.iter().take(k).collect()
    };
    let rel: BTreeSet<&String> = q.judged.iter().filter(|(_, g)| **g > 0).map(|(d, _)| d).collect();
    let n_rel = rel.len() as f64;
    let hits = top.iter().filter(|d| rel.contains(**d)).count() as f64;
    let depth = if k == 0 { order.len() as f64 } else { k as f64 };
    match m {
        Metric::Hits { .. } => hits,
        Metric::Success { .. } => f64::from(hits > 0.0),
        Metric::Precision { .. } => {
            if depth == 0.0 {
                0.0
            } else {
                hits / depth
            }
        }
        Metric::Recall { .. } => {
            if n_rel == 0.0 {
                0.0
            } else {
                hits / n_rel
            }
        }
        // 2PR/(P+R) = 2 hits / (depth + n_rel)
        Metric::F1 { .. } => {
            if hits == 0.0 {
                0.0
            } else {
                2.0 * hits / (depth + n_rel)
            }
        }
        Metric::RPrecision => {
            if n_rel == 0.0 {
                0.0
            } else {
                order.iter().take(rel.len()).filter(|d| rel.contains(d)).count() as f64 / n_rel
            }
        }
        Metric::AP { .. } => {
            if n_rel == 0.0 {
                return 0.0;
            }
            let mut found = 0.0;
            let mut s = crate::stat::Sum::default();
            for (i, d) in top.iter().enumerate() {
                if rel.contains(*d) {
                    found += 1.0;
                    s.add(found / (i + 1) as f64);
                }
            }
            s.value() / n_rel
        }
        Metric::RR { .. } => top
            .iter()
            .position(|d| rel.contains(*d))
            .map_or(0.0, |i| 1.0 / (i + 1) as f64),
        Metric::Bpref => {
            if n_rel == 0.0 {
                return 0.0;
            }
            let n_non = q.judged.len() as f64 - n_rel;
            let mut s = crate::stat::Sum::default();
            // Judged non-relevant documents above.
            let mut above = 0.0f64;
            for d in &order {
                if q.judged.get(d) == Some(&0) {
                    above += 1.0;
                }
                if !rel.contains(d) {
                    continue;
                }
                s.add(if above == 0.0 {
                    1.0
                } else {
                    1.0 - above.min(n_rel) / n_non.min(n_rel)
                });
            }
            s.value() / n_rel
        }
        Metric::DCG { .. } | Metric::DCGBurges { .. } => {
            let burges = matches!(m, Metric::DCGBurges { .. });
            dcg(
                order.iter().map(|d| q.judged.get(d).copied().unwrap_or(0)),
                k,
                burges,
            )
        }
        Metric::NDCG { .. } | Metric::NDCGBurges { .. } => {
            let burges = matches!(m, Metric::NDCGBurges { .. });
            let mut ideal: Vec<u32> = q.judged.values().copied().collect();
            ideal.sort_unstable_by(|a, b| b.cmp(a));
            let idcg = dcg(ideal.into_iter(), k, burges);
            if idcg == 0.0 {
                return 1.0;
            }
            dcg(
                order.iter().map(|d| q.judged.get(d).copied().unwrap_or(0)),
                k,
                burges,
            ) / idcg
        }
    }
}

/// Equality up to a relative tolerance; exact for zeros, infinities and NaN.
pub fn close(a: f64, b: f64, rel: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= rel * a.abs().max(b.abs())
}
