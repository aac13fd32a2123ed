//! C13-C22: alignment and the statistical tests.
use std::collections::BTreeMap;

use elinor::statistical_tests::bootstrap_test::{BootstrapTest, BootstrapTester};
use elinor::statistical_tests::randomized_tukey_hsd_test::{RandomizedTukeyHsdTest, RandomizedTukeyHsdTester};
use elinor::statistical_tests::{
    pairs_from_maps, tuples_from_maps, StudentTTest, TukeyHsdTest, TwoWayAnovaWithoutReplication,
};
use elinor::ElinorError;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::stat::{self, Rng};

// ---------------------------------------------------------------- generators

type PairsF = Vec<(F, F)>;

fn raw(pairs: &PairsF) -> Vec<(f64, f64)> {
    pairs.iter().map(|p| (p.0 .0, p.1 .0)).collect()
}

fn diffs(pairs: &PairsF) -> Vec<f64> {
    pairs.iter().map(|p| p.0 .0 - p.1 .0).collect()
}

fn max_abs(xs: &[f64]) -> f64 {
    xs.iter().fold(0.0, |m, x| m.max(x.abs()))
}

pub fn sizes() -> BoxedStrategy<usize> {
    prop_oneof![
        5 => 2usize..8,
        6 => 2usize..32,
        2 => 20usize..130,
        1 => select(vec![2usize, 3, 29, 30, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101]),
    ]
    .boxed()
}

fn pairs_of(n: BoxedStrategy<usize>) -> BoxedStrategy<PairsF> {
    (n, 0u8..9, -6i32..7, -50i32..50)
        .prop_flat_map(|(n, family, e, shift)| {
            let one: BoxedStrategy<(f64, f64)> = match family {
                0 => (0i32..11, 0i32..11).prop_map(|(a, b)| (a as f64 / 10.0, b as f64 / 10.0)).boxed(),
                1 => (0.0f64..1.0, 0.0f64..1.0).boxed(),
                2 => (-5i32..6, -5i32..6).prop_map(|(a, b)| (a as f64, b as f64)).boxed(),
                3 => {
                    let s = 10f64.powi(e);
                    (0.0f64..1.0, 0.0f64..1.0).prop_map(move |(a, b)| (a * s, b * s)).boxed()
                }
                4 => (0.0f64..1.0, 0.0f64..1.0).prop_map(move |(a, b)| (a + b * 0.02 * shift as f64 + shift as f64 * 0.1, a)).boxed(),
                5 => {
                    let v = select(vec![0.0, 0.5, 1.0, 1.0 / 3.0, 0.25, 0.2, 2.0 / 3.0, 0.7]);
                    (v.clone(), v).boxed()
                }
                6 => (-16i32..17, -16i32..17).prop_map(|(a, b)| (a as f64 / 8.0, b as f64 / 8.0)).boxed(),
                7 => (0.0f64..1.0, -1.0f64..1.0).prop_map(move |(a, b)| (a + b + 0.02 * shift as f64, a)).boxed(),
                _ => (0.0f64..1.0, 0.0f64..1.0).prop_map(move |(a, b)| (1000.0 + a, 1000.0 + b)).boxed(),
            };
            vec(one, n)
        })
        .prop_map(|v| v.into_iter().map(|(a, b)| (F(a), F(b))).collect())
        .boxed()
}

/// The differences spread enough that every sensible way of computing their moments agrees.
fn well_conditioned(d: &[f64]) -> bool {
    d.len() >= 2 && {
        let v = stat::variance(d);
        v.is_finite() && v > 0.0 && v.sqrt() >= 1e-2 * max_abs(d) && v > 1e-200 && v < 1e200
    }
}

/// Tables: rows are topics, columns are systems.
type Table = Vec<Vec<F>>;

fn rawt(t: &Table) -> Vec<Vec<f64>> {
    t.iter().map(|r| r.iter().map(|x| x.0).collect()).collect()
}

fn table_of(n: BoxedStrategy<usize>, m: BoxedStrategy<usize>) -> BoxedStrategy<Table> {
    (n, m, 0u8..6, -5i32..6)
        .prop_flat_map(|(n, m, family, e)| {
            let cell: BoxedStrategy<f64> = match family {
                0 => (0i32..11).prop_map(|a| a as f64 / 10.0).boxed(),
                1 => (0.0f64..1.0).boxed(),
                2 => (-5i32..6).prop_map(|a| a as f64).boxed(),
                3 => (-1.0f64..1.0).prop_map(move |a| a * 10f64.powi(e)).boxed(),
                4 => select(vec![0.0, 0.5, 1.0, 1.0 / 3.0, 0.25, 0.2]).boxed(),
                _ => (0.0f64..0.3).boxed(),
            };
            let effects = matches!(family, 1 | 5);
            (
                vec(vec(cell, m..=m), n..=n),
                if effects { vec(0.0f64..1.0, n).boxed() } else { Just(vec![0.0; n]).boxed() },
                if effects { vec(0.0f64..0.5, m).boxed() } else { Just(vec![0.0; m]).boxed() },
            )
        })
        .prop_map(|(cells, rows, cols)| {
            cells
                .iter()
                .zip(&rows)
                .map(|(r, a)| r.iter().zip(&cols).map(|(x, b)| F(x + a + b)).collect())
                .collect()
        })
        .boxed()
}

/// Tables with hundreds of topics or dozens of systems.
fn big_table() -> BoxedStrategy<Table> {
    prop_oneof![
        3 => table_of(prop_oneof![2 => 100usize..400, 1 => 400usize..1500].boxed(), (2usize..6).boxed()),
        2 => table_of((2usize..60).boxed(), (20usize..120).boxed()),
    ]
    .boxed()
}

fn table() -> BoxedStrategy<Table> {
    table_of(
        prop_oneof![5 => 2usize..8, 4 => 2usize..31, 1 => 30usize..120].boxed(),
        prop_oneof![4 => Just(2usize), 6 => 2usize..7, 1 => 6usize..26].boxed(),
    )
}

/// Sums of squares by definition, with compensated sums.
struct Anova {
    sys: Vec<f64>,
    top: Vec<f64>,
    sa: f64,
    sb: f64,
    se: f64,
    st: f64,
    /// Rounding allowance of a sum of squares.
    slack: f64,
    /// The residual variation is clearly not rounding noise.
    clear: bool,
}

fn anova(t: &[Vec<f64>]) -> Anova {
    let (n, m) = (t.len(), t[0].len());
    let all: Vec<f64> = t.iter().flatten().copied().collect();
    let g = stat::mean(&all);
    let sys: Vec<f64> = (0..m).map(|i| stat::mean(&t.iter().map(|r| r[i]).collect::<Vec<_>>())).collect();
    let top: Vec<f64> = t.iter().map(|r| stat::mean(r)).collect();
    let sq = |x: f64| x * x;
    let sa = n as f64 * stat::sum(sys.iter().map(|x| sq(x - g)));
    let sb = m as f64 * stat::sum(top.iter().map(|x| sq(x - g)));
    let se = stat::sum((0..n).flat_map(|j| {
        let (t, sys, top) = (&t, &sys, &top);
        (0..m).map(move |i| sq(t[j][i] - sys[i] - top[j] + g))
    }));
    let st = stat::sum(all.iter().map(|x| sq(x - g)));
    let mx = max_abs(&all);
    let slack = 1e-12 * mx * mx * (n * m) as f64;
    Anova { sys, top, sa, sb, se, st, slack, clear: se > 1e5 * slack }
}

fn near(got: f64, want: f64, rel: f64, abs: f64) -> bool {
    (got - want).abs() <= rel * want.abs() + abs
}

macro_rules! ensure_near {
    ($what:expr, $got:expr, $want:expr, $rel:expr, $abs:expr) => {{
        let (g, w) = ($got, $want);
        ensure!(near(g, w, $rel, $abs), "{} = {g:?}, expected {w:?}", $what);
    }};
}

fn is_invalid<T: std::fmt::Debug>(what: &str, r: Result<T, ElinorError>) -> Res {
    match r {
        Err(ElinorError::InvalidArgument(_)) => Ok(()),
        r => Err(format!("{what}: expected an invalid-argument error, got {r:?}")),
    }
}

fn is_uncomputable<T: std::fmt::Debug>(what: &str, r: Result<T, ElinorError>) -> Res {
    match r {
        Err(ElinorError::Uncomputable(_)) => Ok(()),
        r => Err(format!("{what}: expected an uncomputable error, got {r:?}")),
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Maps {
    style: u8,
    maps: Vec<BTreeMap<usize, F>>,
}

fn bulk_maps() -> BoxedStrategy<Maps> {
    (prop_oneof![1_000usize..9_000, 65_530usize..69_000], 1usize..4, 0u8..8, any::<u64>(), 0u8..6)
        .prop_map(|(n, m, style, seed, damage)| {
            let mut rng = Rng(seed);
            let mut maps: Vec<BTreeMap<usize, F>> =
                (0..m).map(|_| (0..n).map(|i| (i, F(rng.below(1 << 20) as f64 / 64.0))).collect()).collect();
            let (at, key) = (rng.below(m), rng.below(n));
            if damage & 1 == 1 {
                maps[at].remove(&key);
            }
            if damage == 3 || damage == 4 {
                maps[at].insert(70_000 + rng.below(3), F(0.5));
            }
            Maps { style, maps }
        })
        .boxed()
}

fn maps() -> BoxedStrategy<Maps> {
    maps_of((0usize..7).boxed(), 20)
}

fn many_maps() -> BoxedStrategy<Maps> {
    maps_of(prop_oneof![4 => 7usize..40, 1 => select(vec![63usize, 64, 65, 127, 128, 255, 256, 257, 300])].boxed(), 6)
}

fn maps_of(count: BoxedStrategy<usize>, keys: usize) -> BoxedStrategy<Maps> {
    (gen::id_style(), count, prop::collection::btree_set(0usize..60, 0..keys))
        .prop_flat_map(|(style, m, keys)| {
            let keys: Vec<usize> = keys.into_iter().collect();
            let n = keys.len();
            (
                Just(style),
                Just(keys),
                vec(vec(gen::score(), n..=n), m..=m),
                // One map may be damaged: a key removed, added, or replaced.
                prop::option::weighted(0.5, (any::<usize>(), 0u8..3, 0usize..20, 60usize..64, gen::score())),
            )
        })
        .prop_map(|(style, keys, values, damage)| {
            let mut maps: Vec<BTreeMap<usize, F>> = values
                .into_iter()
                .map(|v| keys.iter().copied().zip(v.into_iter().map(F)).collect())
                .collect();
            if let (Some((at, how, key, fresh, score)), false) = (damage, maps.is_empty()) {
                let len = maps.len();
                let m = &mut maps[at % len];
                if how != 1 && !keys.is_empty() {
                    m.remove(&keys[key % keys.len()]);
                }
                if how != 0 {
                    m.insert(fresh, F(score));
                }
            }
            Maps { style, maps }
        })
        .boxed()
}

fn check_maps(c: &Maps, cx: &mut Cx) -> Res {
    let maps: Vec<BTreeMap<String, f64>> = c
        .maps
        .iter()
        .map(|m| m.iter().map(|(k, v)| (gen::id(c.style, *k), v.0)).collect())
        .collect();
    let same = maps.windows(2).all(|w| w[0].keys().eq(w[1].keys()));
    cx.label(if same { "same keys" } else { "different keys" });
    cx.nontrivial_if(maps.len() >= 2 && !maps[0].is_empty());
    let want: Vec<Vec<f64>> = match maps.first() {
        None => vec![],
        Some(first) => first
            .keys()
            .map(|k| maps.iter().map(|m| m.get(k).copied().unwrap_or(f64::NAN)).collect())
            .collect(),
    };
    let eq = |a: &[f64], b: &[f64]| a.iter().map(|x| x.to_bits()).eq(b.iter().map(|x| x.to_bits()));
    match tuples_from_maps(&maps) {
        Ok(got) => {
            ensure!(same, "maps with different keys were accepted: {got:?}");
            ensure!(
                got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| eq(a, b)),
                "tuples {got:?}, expected {want:?}"
            );
        }
        Err(ElinorError::InvalidArgument(_)) => ensure!(!same, "maps with the same keys were rejected"),
        Err(e) => return Err(format!("tuples_from_maps gave {e:?}")),
    }
    // Every adjacent pair, also of the numeric keys themselves.
    for (i, w) in maps.windows(2).enumerate() {
        let same = w[0].keys().eq(w[1].keys());
        for numeric in [false, true] {
            let got = if numeric {
                let conv = |m: &BTreeMap<usize, F>| m.iter().map(|(k, v)| (*k, v.0)).collect::<BTreeMap<usize, f64>>();
                pairs_from_maps(&conv(&c.maps[i]), &conv(&c.maps[i + 1]))
            } else {
                pairs_from_maps(&w[0], &w[1])
            };
            match got {
                Ok(got) => {
                    ensure!(same, "pairs: maps with different keys were accepted");
                    let (a, b): (Vec<f64>, Vec<f64>) = got.into_iter().unzip();
                    let (wa, wb): (Vec<f64>, Vec<f64>) = if numeric {
                        (
                            c.maps[i].values().map(|v| v.0).collect(),
                            c.maps[i + 1].values().map(|v| v.0).collect(),
                        )
                    } else {
                        (w[0].values().copied().collect(), w[1].values().copied().collect())
                    };
                    ensure!(eq(&a, &wa) && eq(&b, &wb), "pairs {a:?} {b:?}, expected {wa:?} {wb:?}");
                }
                Err(ElinorError::InvalidArgument(_)) => ensure!(!same, "pairs: maps with the same keys were rejected"),
                Err(e) => return Err(format!("pairs_from_maps gave {e:?}")),
            }
        }
    }
    Ok(())
}

/// The variance of identical differences is not zero but rounding noise when their running
/// sum is inexact: the listed finding on identical differences. Whichever way the variance is
/// computed, it is zero when all the multiples of the difference are exact.
fn noisy_constant(d: &[f64]) -> bool {
    (1..=d.len()).any(|k| {
        let k = k as f64;
        k.mul_add(d[0], -(k * d[0])) != 0.0
    })
}

/// Identical differences have no variance.
fn constant_error<T: std::fmt::Debug>(d: &[f64], r: Result<T, ElinorError>, cx: &mut Cx) -> Res {
    if r.is_ok() && noisy_constant(d) {
        cx.label("listed: noise of identical differences");
        return Ok(());
    }
    is_uncomputable("identical differences", r)
}

// ---------------------------------------------------------------- C14

fn p_close(what: &str, got: f64, want: f64, df: f64) -> Res {
    // The distribution functions of statrs are accurate to about 1e-8 * sqrt(df) near the
    // centre, and relatively in the tails.
    let ok = if want < 1e-3 {
        near(got, want, 1e-4, 1e-290)
    } else {
        near(got, want, 0.0, 2e-8 * df.sqrt())
    };
    ensure!(ok, "{what} = {got:e}, expected {want:e}");
    Ok(())
}

fn check_t(c: &PairsF, cx: &mut Cx) -> Res {
    let d = diffs(c);
    let n = d.len();
    if d.iter().all(|x| *x == d[0]) {
        cx.label("identical differences");
        cx.nontrivial();
        return constant_error(&d, StudentTTest::from_paired_samples(raw(c)), cx);
    }
    if !well_conditioned(&d) {
        cx.label("not well-conditioned");
        let _ = StudentTTest::from_paired_samples(raw(c));
        return Ok(());
    }
    cx.nontrivial();
    let mx = max_abs(&d);
    let mean = stat::mean(&d);
    let var = stat::variance(&d);
    let se = (var / n as f64).sqrt();
    let t = mean / se;
    let p = stat::t_two_sided(t, n as u64 - 1);
    cx.label_if(p < 1e-3, "p < 0.001");
    cx.label_if(p > 0.5, "p > 0.5");
    cx.label_if(n == 2, "n = 2");
    cx.label_if(n > 30, "n > 30");
    cx.label_if(mean == 0.0, "mean 0");
    let got = StudentTTest::from_paired_samples(raw(c)).map_err(|e| format!("rejected: {e:?}"))?;
    let swapped: Vec<(f64, f64)> = raw(c).into_iter().map(|(a, b)| (b, a)).collect();
    let swap = StudentTTest::from_paired_samples(swapped).map_err(|e| format!("swapped: rejected: {e:?}"))?;
    for (how, r, sign) in [("", &got, 1.0), ("swapped: ", &swap, -1.0)] {
        ensure!(r.n_topics() == n, "{how}n_topics = {}, expected {n}", r.n_topics());
        ensure_near!(format!("{how}mean"), r.mean(), sign * mean, 1e-12, 1e-12 * mx);
        ensure_near!(format!("{how}variance"), r.variance(), var, 1e-9, 0.0);
        ensure_near!(format!("{how}t_stat"), r.t_stat(), sign * t, 1e-9, 1e-12 * mx / se);
        ensure_near!(format!("{how}effect_size"), r.effect_size(), sign * mean / var.sqrt(), 1e-9, 1e-12 * mx / var.sqrt());
        // The p-value of the reported t-statistic, which is right by the check above.
        p_close(&format!("{how}p_value"), r.p_value(), stat::t_two_sided(r.t_stat(), n as u64 - 1), n as f64 - 1.0)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Constant {
    a: F,
    b: F,
    n: usize,
    shifts: Vec<i32>,
}

fn constant() -> BoxedStrategy<Constant> {
    let v = prop_oneof![
        2 => (0i32..11).prop_map(|i| i as f64 / 10.0),
        1 => 0.0f64..1.0,
        1 => -1e6f64..1e6,
        1 => (1i32..10).prop_map(|i| 1.0 / i as f64),
    ];
    (v.clone(), v, 0usize..40, vec(-1000i32..1000, 40))
        .prop_map(|(a, b, n, shifts)| Constant { a: F(a), b: F(b), n, shifts })
        .boxed()
}

fn constant_pairs(c: &Constant) -> [Vec<(f64, f64)>; 2] {
    // The same pair again and again, and different pairs with one exact difference.
    let same = vec![(c.a.0, c.b.0); c.n];
    let moved = c.shifts[..c.n].iter().map(|&s| (s as f64 + 0.25 * (c.n as f64), s as f64)).collect();
    [same, moved]
}

fn check_constant_t(c: &Constant, cx: &mut Cx) -> Res {
    cx.nontrivial();
    cx.label(if c.n < 2 { "too few" } else { "identical differences" });
    for pairs in constant_pairs(c) {
        let d: Vec<f64> = pairs.iter().map(|p| p.0 - p.1).collect();
        let r = StudentTTest::from_paired_samples(pairs);
        if c.n < 2 {
            is_invalid("fewer than two pairs", r)?;
        } else {
            constant_error(&d, r, cx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Margin {
    pairs: PairsF,
    table: Table,
    alpha: F,
    /// Also a level close to the p-value: p * (1 + rel).
    rel: F,
    bad: F,
}

fn margin() -> BoxedStrategy<Margin> {
    let alpha = prop_oneof![
        3 => select(vec![0.05, 0.01, 0.1, 0.001, 0.5, 0.2, 0.9, 0.99, 0.999, 1.0, 1e-4, 1e-5]),
        4 => 1e-5f64..0.999,
        2 => (-5.0f64..-0.01).prop_map(|e| 10f64.powf(e)),
    ];
    let bad = prop_oneof![
        2 => select(vec![0.0, -0.0, -1.0, 1.0 + f64::EPSILON, 2.0, 5.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN,
            -f64::MIN_POSITIVE, -f64::from_bits(1), 1.5, 95.0, f64::MAX, f64::MIN]),
        1 => 1.000001f64..1e6,
        1 => -1e6f64..-1e-300,
    ];
    (
        pairs_of(sizes()),
        table(),
        alpha,
        (-0.5f64..0.5).prop_map(|x| x * x.abs()),
        bad,
    )
        .prop_map(|(pairs, table, alpha, rel, bad)| Margin { pairs, table, alpha: F(alpha), rel: F(rel), bad: F(bad) })
        .boxed()
}

fn check_quantile(what: &str, moe: f64, se: f64, df: u64, alpha: f64) -> Res {
    ensure!(moe >= -1e-9 * se, "{what} = {moe:?} is negative");
    let back = stat::t_two_sided(moe / se, df);
    ensure!(
        (back - alpha).abs() <= 2e-5 * alpha.min(1.0 - alpha) + 2e-8,
        "{what} = {moe:?} at level {alpha:?} has tail probability {back:?} (df {df}, scale {se:?})"
    );
    Ok(())
}

/// A level outside (0, 1] is an invalid argument. A NaN panics: a listed finding.
fn bad_level<T: std::fmt::Debug>(
    what: &str,
    level: f64,
    f: impl FnOnce() -> Result<T, ElinorError>,
    cx: &mut Cx,
) -> Res {
    match no_panic(what, f) {
        Err(_) if level.is_nan() => {
            cx.label("listed: NaN level");
            Ok(())
        }
        r => is_invalid(&format!("{what}({level:?})"), r?),
    }
}

fn check_margin(c: &Margin, cx: &mut Cx) -> Res {
    let d = diffs(&c.pairs);
    let n = d.len();
    if well_conditioned(&d) {
        cx.nontrivial();
        let r = StudentTTest::from_paired_samples(raw(&c.pairs)).map_err(|e| format!("rejected: {e:?}"))?;
        let (mean, se) = (stat::mean(&d), (stat::variance(&d) / n as f64).sqrt());
        let p = stat::t_two_sided(mean / se, n as u64 - 1);
        let close = p * (1.0 + c.rel.0);
        for alpha in [c.alpha.0, close] {
            if !(1e-5..=1.0).contains(&alpha) || (alpha > 0.999 && alpha != 1.0) {
                continue;
            }
            cx.label_if(alpha == close, "level close to the p-value");
            let moe = r.margin_of_error(alpha).map_err(|e| format!("margin_of_error({alpha:?}): {e:?}"))?;
            check_quantile("margin of error", moe, se, n as u64 - 1, alpha)?;
            let (lo, hi) = r.confidence_interval(alpha).map_err(|e| format!("confidence_interval({alpha:?}): {e:?}"))?;
            let slack = 1e-12 * max_abs(&d);
            ensure_near!("lower limit", lo, mean - moe, 1e-12, slack + 1e-12 * moe);
            ensure_near!("upper limit", hi, mean + moe, 1e-12, slack + 1e-12 * moe);
            if (p - alpha).abs() > 1e-4 * alpha.min(1.0 - alpha) + 1e-7 {
                let excludes = lo > 0.0 || hi < 0.0;
                cx.label(if excludes { "interval excludes 0" } else { "interval contains 0" });
                ensure!(
                    excludes == (r.p_value() < alpha),
                    "p = {:?}, level {alpha:?}, but the interval is [{lo:?}, {hi:?}]",
                    r.p_value()
                );
            }
        }
        bad_level("margin_of_error", c.bad.0, || r.margin_of_error(c.bad.0), cx)?;
        bad_level("confidence_interval", c.bad.0, || r.confidence_interval(c.bad.0), cx)?;
    }
    let t = rawt(&c.table);
    let a = anova(&t);
    if a.clear {
        let (n, m) = (t.len(), t[0].len());
        let df = ((n - 1) * (m - 1)) as u64;
        let se = (a.se / df as f64 / n as f64).sqrt();
        if let Ok(r) = TwoWayAnovaWithoutReplication::from_tupled_samples(&t, m) {
            let alpha = c.alpha.0;
            let moe = r.margin_of_error(alpha).map_err(|e| format!("ANOVA margin_of_error({alpha:?}): {e:?}"))?;
            check_quantile("ANOVA margin of error", moe, se, df, alpha)?;
            bad_level("ANOVA margin_of_error", c.bad.0, || r.margin_of_error(c.bad.0), cx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Boot {
    pairs: PairsF,
    resamples: usize,
    seed: u64,
    power: i32,
}

fn seeds() -> BoxedStrategy<u64> {
    prop_oneof![2 => any::<u64>(), 1 => 0u64..100, 1 => select(vec![0, 1, 42, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX])].boxed()
}

fn counts() -> BoxedStrategy<usize> {
    prop_oneof![4 => 1usize..60, 3 => 50usize..400, 1 => select(vec![0usize, 1, 2, 3, 99, 100, 1000, 1024])].boxed()
}

fn boot() -> BoxedStrategy<Boot> {
    let n = prop_oneof![4 => 2usize..10, 3 => 5usize..40, 1 => select(vec![50usize, 64, 100, 128])].boxed();
    (pairs_of(n), counts(), seeds(), -12i32..13)
        .prop_map(|(pairs, resamples, seed, power)| Boot { pairs, resamples, seed, power })
        .boxed()
}

fn multiple(what: &str, p: f64, n: usize) -> Res {
    let c = (p * n as f64).round();
    ensure!(
        (0.0..=1.0).contains(&p) && (p * n as f64 - c).abs() < 1e-6,
        "{what} = {p:?} is not a multiple of 1/{n} in [0, 1]"
    );
    Ok(())
}

fn check_boot(c: &Boot, cx: &mut Cx) -> Res {
    let d = diffs(&c.pairs);
    let pairs = raw(&c.pairs);
    let tester = BootstrapTester::new().with_n_resamples(c.resamples).with_random_state(c.seed);
    if d.iter().all(|x| *x == d[0]) {
        return constant_error(&d, tester.test(pairs), cx);
    }
    if !well_conditioned(&d) {
        return Ok(());
    }
    let used = c.resamples.max(1);
    let run = |t: &BootstrapTester, p: Vec<(f64, f64)>| t.test(p).map_err(|e| format!("rejected: {e:?}"));
    let r = run(&tester, pairs.clone())?;
    cx.nontrivial_if(r.p_value() > 0.0 && r.p_value() < 1.0);
    cx.label_if(r.p_value() == 0.0, "p = 0");
    cx.label_if(c.resamples == 0, "0 resamples requested");
    ensure!(r.n_topics() == d.len(), "n_topics = {}, expected {}", r.n_topics(), d.len());
    ensure!(r.n_resamples() == used, "n_resamples = {}, expected {used}", r.n_resamples());
    ensure!(r.random_state() == c.seed, "random_state = {}, expected {}", r.random_state(), c.seed);
    multiple("p-value", r.p_value(), used)?;
    // The builder calls commute, and a tester can be used again.
    let other = BootstrapTester::default().with_random_state(c.seed).with_n_resamples(c.resamples);
    for (how, t) in [("again", &tester), ("builder calls swapped", &other)] {
        let again = run(t, pairs.clone())?;
        ensure!(again.p_value() == r.p_value(), "{how}: p = {:?}, before {:?}", again.p_value(), r.p_value());
    }
    let s = 2f64.powi(c.power);
    for (how, ps) in [
        ("systems swapped", pairs.iter().map(|&(a, b)| (b, a)).collect::<Vec<_>>()),
        ("scaled by a power of two", pairs.iter().map(|&(a, b)| (a * s, b * s)).collect()),
        ("second system moved to 0", d.iter().map(|&d| (d, 0.0)).collect()),
    ] {
        let q = run(&tester, ps)?.p_value();
        ensure!(q == r.p_value(), "{how}: p = {q:?}, before {:?}", r.p_value());
    }
    // Without a random state one is drawn; it reproduces the run.
    let free = BootstrapTester::new().with_n_resamples(c.resamples);
    let (a, b) = (run(&free, pairs.clone())?, run(&free, pairs.clone())?);
    ensure!(
        a.random_state() != b.random_state(),
        "two runs without a given random state both used {}",
        a.random_state()
    );
    let replay = run(&free.with_random_state(a.random_state()), pairs.clone())?;
    ensure!(
        replay.p_value() == a.p_value(),
        "random state {} drawn for p = {:?} gives p = {:?}",
        a.random_state(), a.p_value(), replay.p_value()
    );
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BootSeeds {
    pairs: PairsF,
    seed: u64,
    step: u64,
}

fn boot_seeds() -> BoxedStrategy<BootSeeds> {
    (
        pairs_of((4usize..30).boxed()),
        seeds(),
        prop_oneof![Just(1u64), Just(1 << 32), Just(1 << 63), any::<u64>()].prop_filter("step", |s| *s != 0),
    )
        .prop_map(|(pairs, seed, step)| BootSeeds { pairs, seed, step })
        .boxed()
}

/// Seeds `seed + i * step`, all distinct.
fn seed_series(seed: u64, step: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..24).map(|i| seed.wrapping_add(step.wrapping_mul(i))).collect();
    v.sort_unstable();
    v.dedup();
    v
}

fn check_boot_seeds(c: &BootSeeds, cx: &mut Cx) -> Res {
    let d = diffs(&c.pairs);
    if !well_conditioned(&d) {
        return Ok(());
    }
    let ps: Vec<(u64, f64)> = seed_series(c.seed, c.step)
        .into_iter()
        .map(|s| {
            let t = BootstrapTester::new().with_n_resamples(400).with_random_state(s);
            t.test(raw(&c.pairs)).map(|r| (s, r.p_value())).map_err(|e| format!("rejected: {e:?}"))
        })
        .collect::<Result<_, String>>()?;
    vary(&ps, cx)
}

/// Different random states must not resample alike. Each p-value is binomial with 400
/// trials; if it is of medium size, two independent ones coincide with probability below 0.05.
fn vary(ps: &[(u64, f64)], cx: &mut Cx) -> Res {
    let mean = stat::mean(&ps.iter().map(|p| p.1).collect::<Vec<_>>());
    if ps.len() < 12 {
        // Only steps of 2^63 repeat that quickly.
        cx.label("too few distinct seeds");
        return Ok(());
    }
    if (0.15..0.85).contains(&mean) {
        cx.nontrivial();
        let mut values: Vec<f64> = ps.iter().map(|p| p.1).collect();
        values.sort_by(f64::total_cmp);
        values.dedup();
        ensure!(values.len() > 3, "{} random states give only the p-values {values:?}: {ps:?}", ps.len());
    }
    Ok(())
}

fn check_boot_default(c: &PairsF, cx: &mut Cx) -> Res {
    let d = diffs(c);
    if !well_conditioned(&d) {
        return Ok(());
    }
    cx.nontrivial();
    let r = BootstrapTest::from_paired_samples(raw(c)).map_err(|e| format!("rejected: {e:?}"))?;
    ensure!(r.n_resamples() == 10000, "default n_resamples = {}", r.n_resamples());
    multiple("p-value", r.p_value(), 10000)?;
    let again = BootstrapTester::new()
        .with_random_state(r.random_state())
        .test(raw(c))
        .map_err(|e| format!("rejected: {e:?}"))?;
    ensure!(
        again.n_resamples() == 10000 && again.p_value() == r.p_value(),
        "random state {} drawn for p = {:?} gives p = {:?}", r.random_state(), r.p_value(), again.p_value()
    );
    Ok(())
}

fn check_constant_boot(c: &Constant, cx: &mut Cx) -> Res {
    cx.nontrivial();
    cx.label(if c.n < 2 { "too few" } else { "identical differences" });
    for pairs in constant_pairs(c) {
        let d: Vec<f64> = pairs.iter().map(|p| p.0 - p.1).collect();
        let r = BootstrapTester::new().with_n_resamples(20).test(pairs);
        if c.n < 2 {
            is_invalid("fewer than two pairs", r)?;
        } else {
            constant_error(&d, r, cx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn check_boot_exact(c: &Boot, cx: &mut Cx) -> Res {
    let d = diffs(&c.pairs);
    if !well_conditioned(&d) {
        return Ok(());
    }
    let (lo, hi) = stat::exact_bootstrap(&d);
    let n = c.resamples;
    let r = BootstrapTester::new()
        .with_n_resamples(n)
        .with_random_state(c.seed)
        .test(raw(&c.pairs))
        .map_err(|e| format!("rejected: {e:?}"))?;
    cx.nontrivial_if(lo > 0.005 && hi < 0.995);
    cx.label_if(hi - lo > 1e-9, "ties");
    ensure!(
        stat::plausible(r.p_value(), n, lo, hi),
        "p = {:?} from {n} resamples; the exact probability is between {lo:?} and {hi:?}",
        r.p_value()
    );
    Ok(())
}

fn boot_exact() -> BoxedStrategy<Boot> {
    (pairs_of((2usize..8).boxed()), 3000usize..6000, seeds())
        .prop_map(|(pairs, resamples, seed)| Boot { pairs, resamples, seed, power: 0 })
        .boxed()
}

fn boot_huge() -> BoxedStrategy<Boot> {
    (pairs_of((100usize..1200).boxed()), 500usize..1500, seeds())
        .prop_map(|(pairs, resamples, seed)| Boot { pairs, resamples, seed, power: 0 })
        .boxed()
}

fn boot_large() -> BoxedStrategy<Boot> {
    (
        pairs_of(prop_oneof![3 => 8usize..30, 1 => 30usize..110].boxed()),
        2000usize..4000,
        seeds(),
    )
        .prop_map(|(pairs, resamples, seed)| Boot { pairs, resamples, seed, power: 0 })
        .boxed()
}

fn check_boot_large(c: &Boot, cx: &mut Cx) -> Res {
    let d = diffs(&c.pairs);
    if !well_conditioned(&d) {
        return Ok(());
    }
    let n = c.resamples;
    let r = BootstrapTester::new()
        .with_n_resamples(n)
        .with_random_state(c.seed)
        .test(raw(&c.pairs))
        .map_err(|e| format!("rejected: {e:?}"))?;
    let p = r.p_value();
    let (lo, hi) = stat::simulate_bootstrap(&d, n, &mut Rng(!c.seed));
    cx.nontrivial_if(lo > 0.005 && hi < 0.995);
    let ok = (p >= lo && p <= hi) || {
        let q = if p < lo { lo } else { hi };
        stat::plausible_pair(p, n, q, n)
    };
    ensure!(ok, "p = {p:?} from {n} resamples; an independent simulation gives {lo:?} to {hi:?}");
    Ok(())
}

/// Integer differences, `scale * n` apart, whose sums, means and squares are all exact doubles:
/// ties are then decided exactly by any evaluation order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BootTies {
    ks: Vec<i64>,
    resamples: usize,
    seed: u64,
    centred: bool,
    level: i64,
}

fn boot_ties() -> BoxedStrategy<BootTies> {
    (vec(-3i64..4, 2..9), 2000usize..5000, seeds(), prop::bool::weighted(0.25), -3i64..4)
        .prop_map(|(ks, resamples, seed, centred, level)| BootTies { ks, resamples, seed, centred, level })
        .boxed()
}

fn check_boot_ties(c: &BootTies, cx: &mut Cx) -> Res {
    let n = c.ks.len();
    let mut ks = c.ks.clone();
    if c.centred {
        let s: i64 = ks.iter().sum();
        *ks.last_mut().unwrap() -= s;
    }
    if ks.iter().all(|k| *k == ks[0]) {
        return Ok(());
    }
    let unit = 840 * n as i64;
    let pairs: Vec<(f64, f64)> = ks
        .iter()
        .map(|k| ((k * unit + c.level * 840) as f64, (c.level * 840) as f64))
        .collect();
    let r = BootstrapTester::new()
        .with_n_resamples(c.resamples)
        .with_random_state(c.seed)
        .test(pairs)
        .map_err(|e| format!("rejected: {e:?}"))?;
    let p = r.p_value();
    if ks.iter().sum::<i64>() == 0 {
        cx.label("mean difference 0");
        cx.nontrivial();
        ensure!(p == 1.0, "the mean difference is 0, but p = {p:?}");
        return Ok(());
    }
    let (lo, hi, ties) = stat::exact_bootstrap_int(&ks);
    cx.nontrivial_if(lo > 0.005 && hi < 0.995);
    cx.label_if(ties > 0.01, "exact ties");
    ensure!(
        stat::plausible(p, c.resamples, lo, hi),
        "p = {p:?} from {} resamples; the exact probability is between {lo:?} and {hi:?}",
        c.resamples
    );
    Ok(())
}

// ---------------------------------------------------------------- C18, C19

/// The class of the listed findings on the analysis of variance: a rectangular table whose
/// residual variation is zero or rounding noise, or whose sums of squares leave the range of
/// doubles, or of less than two systems.
fn listed_anova(t: &[Vec<f64>], m: usize) -> bool {
    if m < 2 || t.len() < 2 || t.iter().any(|r| r.len() != m) {
        return m < 2;
    }
    let mx = max_abs(&t.iter().flatten().copied().collect::<Vec<_>>());
    let tame = t.iter().flatten().all(|x| x.is_finite()) && mx < 1e145 && mx > 1e-130;
    !tame || !anova(t).clear
}

fn check_anova(c: &Table, cx: &mut Cx) -> Res {
    let t = rawt(c);
    let (n, m) = (t.len(), t[0].len());
    let a = anova(&t);
    if !a.clear {
        cx.label("not well-conditioned");
        return Ok(());
    }
    cx.nontrivial();
    cx.label_if(m == 2, "m = 2");
    cx.label_if(n == 2, "n = 2");
    cx.label_if(n != m, "n != m");
    let r = TwoWayAnovaWithoutReplication::from_tupled_samples(&t, m).map_err(|e| format!("rejected: {e:?}"))?;
    let mx = max_abs(&t.iter().flatten().copied().collect::<Vec<_>>());
    ensure!(r.n_systems() == m && r.n_topics() == n, "{} systems and {} topics, expected {m} and {n}", r.n_systems(), r.n_topics());
    let (sys, top) = (r.system_means(), r.topic_means());
    ensure!(sys.len() == m && top.len() == n, "{} system means, {} topic means", sys.len(), top.len());
    for i in 0..m {
        ensure_near!(format!("mean of system {i}"), sys[i], a.sys[i], 0.0, 1e-12 * mx);
    }
    for j in 0..n {
        ensure_near!(format!("mean of topic {j}"), top[j], a.top[j], 0.0, 1e-12 * mx);
    }
    let (fa, fb) = ((m - 1) as f64, (n - 1) as f64);
    let fe = fa * fb;
    for (what, s, v, want, f) in [
        ("between-system", r.between_system_variation(), r.between_system_variance(), a.sa, fa),
        ("between-topic", r.between_topic_variation(), r.between_topic_variance(), a.sb, fb),
        ("residual", r.residual_variation(), r.residual_variance(), a.se, fe),
    ] {
        ensure_near!(format!("{what} variation"), s, want, 1e-9, a.slack);
        ensure_near!(format!("{what} variance"), v, want / f, 1e-9, a.slack / f);
    }
    let total = r.between_system_variation() + r.between_topic_variation() + r.residual_variation();
    ensure_near!("sum of the variations", total, a.st, 1e-9, 3.0 * a.slack);
    let ve = a.se / fe;
    for (what, f_stat, p, v, df) in [
        ("between-system", r.between_system_f_stat(), r.between_system_p_value(), a.sa / fa, fa),
        ("between-topic", r.between_topic_f_stat(), r.between_topic_p_value(), a.sb / fb, fb),
    ] {
        let slack = a.slack / df / ve + v / ve * (2.0 * a.slack / a.se);
        ensure_near!(format!("{what} F"), f_stat, v / ve, 1e-8, slack);
        let want = stat::f_sf(f_stat, df as u64, fe as u64);
        ensure!(near(p, want, 0.0, 1e-8), "{what} p-value = {p:e} for F = {f_stat:?}, expected {want:e}");
    }
    if m == 2 {
        let d: Vec<f64> = t.iter().map(|r| r[0] - r[1]).collect();
        if well_conditioned(&d) {
            let s = StudentTTest::from_paired_samples(t.iter().map(|r| (r[0], r[1]))).map_err(|e| format!("t-test: {e:?}"))?;
            let t2 = s.t_stat() * s.t_stat();
            let f = r.between_system_f_stat();
            let slack = a.slack / ve + f * (2.0 * a.slack / a.se) + 1e-12 * t2;
            ensure_near!("F for two systems", f, t2, 1e-7, slack);
            ensure_near!("p-value for two systems", r.between_system_p_value(), s.p_value(), 0.0, 1e-5);
        }
    }
    Ok(())
}

/// Tables that must be rejected, made of integers so that all arithmetic is exact.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadTable {
    rows: Vec<i64>,
    cols: Vec<i64>,
    damage: Option<(usize, bool)>,
    declared: usize,
}

fn bad_table() -> BoxedStrategy<BadTable> {
    (
        vec(-4i64..5, 0..5),
        vec(-4i64..5, 0..5),
        prop::option::weighted(0.4, (0usize..5, any::<bool>())),
        prop_oneof![3 => Just(usize::MAX), 1 => 0usize..6],
    )
        .prop_map(|(rows, cols, damage, declared)| BadTable { rows, cols, damage, declared })
        .boxed()
}

/// The table (additive, hence without residual variance), the declared number of systems,
/// and whether its shape is wrong.
fn bad_cells(c: &BadTable) -> (Vec<Vec<f64>>, usize, bool) {
    const UNIT: i64 = 720_720; // divisible by every number up to 16
    let mut t: Vec<Vec<f64>> = c
        .rows
        .iter()
        .map(|a| c.cols.iter().map(|b| ((a + b) * UNIT) as f64).collect())
        .collect();
    let m = if c.declared == usize::MAX { c.cols.len() } else { c.declared };
    let mut ragged = !t.is_empty() && m != c.cols.len();
    if let (Some((at, longer)), false) = (c.damage, t.is_empty()) {
        let len = t.len();
        let row = &mut t[at % len];
        if longer {
            row.push(0.0);
        } else if row.pop().is_none() {
            row.push(0.0);
        }
        ragged = t.iter().any(|r| r.len() != m);
    }
    (t, m, ragged)
}

fn check_bad_anova(c: &BadTable, cx: &mut Cx) -> Res {
    cx.nontrivial();
    let (t, m, ragged) = bad_cells(c);
    let wrong = ragged || t.len() < 2 || m < 2;
    let a = no_panic("ANOVA", || TwoWayAnovaWithoutReplication::from_tupled_samples(&t, m));
    let h = no_panic("Tukey HSD", || TukeyHsdTest::from_tupled_samples(&t, m));
    // Listed findings: both panic, or give meaningless numbers, for a rectangular table of two or
    // more topics and less than two systems, or without residual variance.
    if !ragged && t.len() >= 2 && (m < 2 || listed_anova(&t, m)) && !matches!((&a, &h), (Ok(Err(_)), Ok(Err(_)))) {
        cx.label(if m < 2 { "listed: less than two systems" } else { "listed: no residual variance" });
        return Ok(());
    }
    let (a, h) = (a?, h?);
    let what = format!("{} topics, {m} systems declared, row lengths {:?}", t.len(), t.iter().map(Vec::len).collect::<Vec<_>>());
    if wrong {
        cx.label(if ragged { "wrong row length" } else { "too few" });
        is_invalid(&format!("ANOVA of {what}"), a)?;
        is_invalid(&format!("Tukey HSD of {what}"), h)
    } else {
        cx.label("no residual variance");
        is_uncomputable("ANOVA without residual variance", a)?;
        is_uncomputable("Tukey HSD without residual variance", h)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Effects {
    table: Table,
    shifts: Vec<i32>,
    perm: u64,
}

fn effects() -> BoxedStrategy<Effects> {
    effects_of(table())
}

fn effects_of(table: BoxedStrategy<Table>) -> BoxedStrategy<Effects> {
    (table, vec(-16i32..17, 120), any::<u64>())
        .prop_map(|(table, shifts, perm)| Effects { table, shifts, perm })
        .boxed()
}

fn check_effects(c: &Effects, cx: &mut Cx) -> Res {
    let t = rawt(&c.table);
    let m = t[0].len();
    let a = anova(&t);
    if !a.clear {
        return Ok(());
    }
    cx.nontrivial();
    let mx = max_abs(&t.iter().flatten().copied().collect::<Vec<_>>());
    let sd = (a.se / ((m - 1) * (t.len() - 1)) as f64).sqrt();
    let slack = 1e-11 * mx / sd;
    let rel = 1e-8 + 2.0 * a.slack / a.se;
    let run = |t: &[Vec<f64>]| TukeyHsdTest::from_tupled_samples(t, m).map_err(|e| format!("rejected: {e:?}"));
    let r = run(&t)?;
    ensure!(r.n_systems() == m && r.n_topics() == t.len(), "{} systems and {} topics", r.n_systems(), r.n_topics());
    let es = r.effect_sizes();
    ensure!(es.len() == m && es.iter().all(|r| r.len() == m), "the matrix is not {m} by {m}");
    for i in 0..m {
        ensure!(es[i][i] == 0.0, "diagonal entry {i} = {:?}", es[i][i]);
        for j in 0..m {
            ensure_near!(format!("effect size of systems {i} and {j}"), es[i][j], (a.sys[i] - a.sys[j]) / sd, rel, slack);
            ensure!(es[i][j] == -es[j][i], "effect sizes {:?} and {:?} of systems {i}, {j}", es[i][j], es[j][i]);
            let k = (i + j + 1) % m;
            ensure_near!(format!("effect sizes {i}-{k} plus {k}-{j}"), es[i][k] + es[k][j], es[i][j], 1e-9, 2.0 * slack);
        }
    }
    // A constant per topic changes nothing.
    let scale = if mx > 0.0 { 2f64.powi(mx.log2().round() as i32) } else { 1.0 };
    let moved: Vec<Vec<f64>> = t
        .iter()
        .enumerate()
        .map(|(j, r)| r.iter().map(|x| x + c.shifts[j % c.shifts.len()] as f64 / 8.0 * scale).collect())
        .collect();
    let am = anova(&moved);
    if am.clear {
        let em = run(&moved)?.effect_sizes();
        for i in 0..m {
            for j in 0..m {
                ensure_near!(format!("effect size {i}, {j} with a constant per topic"), em[i][j], es[i][j], rel + 2.0 * am.slack / am.se, 8.0 * slack);
            }
        }
    }
    // Renaming the systems.
    let mut perm: Vec<usize> = (0..m).collect();
    Rng(c.perm).shuffle(&mut perm);
    let renamed: Vec<Vec<f64>> = t.iter().map(|r| perm.iter().map(|&i| r[i]).collect()).collect();
    let ep = run(&renamed)?.effect_sizes();
    for i in 0..m {
        for j in 0..m {
            ensure_near!(format!("effect size {i}, {j} after permuting the systems"), ep[i][j], es[perm[i]][perm[j]], 2.0 * rel, 2.0 * slack);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rand {
    table: Table,
    iters: usize,
    seed: u64,
    power: i32,
    /// Copy this column over another one.
    copy: Option<(usize, usize)>,
}

fn randomized() -> BoxedStrategy<Rand> {
    (
        table_of(
            prop_oneof![1 => Just(1usize), 5 => 2usize..10, 2 => 5usize..40].boxed(),
            prop_oneof![1 => Just(1usize), 3 => Just(2usize), 5 => 2usize..7, 1 => 7usize..15].boxed(),
        ),
        counts(),
        seeds(),
        -12i32..13,
        prop::option::weighted(0.3, (0usize..15, 0usize..15)),
    )
        .prop_map(|(table, iters, seed, power, copy)| Rand { table, iters, seed, power, copy })
        .boxed()
}

fn check_rand(c: &Rand, cx: &mut Cx) -> Res {
    let mut t = rawt(&c.table);
    let m = t[0].len();
    if let Some((a, b)) = c.copy {
        for r in t.iter_mut() {
            r[a % m] = r[b % m];
        }
    }
    let n = t.len();
    let used = c.iters.max(1);
    let tester = RandomizedTukeyHsdTester::new(m).with_n_iters(c.iters).with_random_state(c.seed);
    let run = |t: &RandomizedTukeyHsdTester, s: &[Vec<f64>]| t.test(s).map_err(|e| format!("rejected: {e:?}"));
    let r = run(&tester, &t)?;
    ensure!(r.n_systems() == m && r.n_topics() == n, "{} systems, {} topics, expected {m} and {n}", r.n_systems(), r.n_topics());
    ensure!(r.n_iters() == used, "n_iters = {}, expected {used}", r.n_iters());
    ensure!(r.random_state() == c.seed, "random_state = {}, expected {}", r.random_state(), c.seed);
    let p = r.p_values();
    ensure!(p.len() == m && p.iter().all(|r| r.len() == m), "the matrix is not {m} by {m}");
    let means: Vec<f64> = (0..m).map(|i| stat::mean(&t.iter().map(|r| r[i]).collect::<Vec<_>>())).collect();
    let mx = max_abs(&t.iter().flatten().copied().collect::<Vec<_>>());
    let eps = 1e-11 * mx;
    let mut pairs = vec![];
    for i in 0..m {
        ensure!(p[i][i] == 1.0, "diagonal entry {i} = {:?}", p[i][i]);
        for j in 0..m {
            ensure!(p[i][j] == p[j][i], "p-values {:?} and {:?} of systems {i}, {j}", p[i][j], p[j][i]);
            multiple("p-value", p[i][j], used)?;
            let same = t.iter().all(|r| r[i] == r[j]);
            cx.label_if(same && i != j, "equal systems");
            ensure!(!same || p[i][j] == 1.0, "systems {i} and {j} have equal scores, but p = {:?}", p[i][j]);
            cx.nontrivial_if(p[i][j] > 0.0 && p[i][j] < 1.0);
            if i < j {
                pairs.push(((means[i] - means[j]).abs(), p[i][j]));
            }
        }
    }
    for x in &pairs {
        for y in &pairs {
            ensure!(
                x.0 <= y.0 + eps || x.1 <= y.1,
                "mean difference {:?} has p = {:?}, the smaller one {:?} has p = {:?}", x.0, x.1, y.0, y.1
            );
        }
    }
    // Reproducible, and blind to exact rescaling.
    let other = RandomizedTukeyHsdTester::new(m).with_random_state(c.seed).with_n_iters(c.iters);
    let s = 2f64.powi(c.power);
    let scaled: Vec<Vec<f64>> = t.iter().map(|r| r.iter().map(|x| x * s).collect()).collect();
    for (how, tester, t) in [("again", &tester, &t), ("builder calls swapped", &other, &t), ("scaled by a power of two", &tester, &scaled)] {
        let q = run(tester, t)?.p_values();
        ensure!(q == p, "{how}: p-values {q:?}, before {p:?}");
    }
    let free = RandomizedTukeyHsdTester::new(m).with_n_iters(c.iters);
    let (a, b) = (run(&free, &t)?, run(&free, &t)?);
    ensure!(
        a.random_state() != b.random_state(),
        "two runs without a given random state both used {}",
        a.random_state()
    );
    let replay = run(&free.with_random_state(a.random_state()), &t)?;
    ensure!(
        replay.p_values() == a.p_values(),
        "random state {} drawn for {:?} gives {:?}", a.random_state(), a.p_values(), replay.p_values()
    );
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RandSeeds {
    table: Table,
    seed: u64,
    step: u64,
}

fn rand_seeds() -> BoxedStrategy<RandSeeds> {
    (
        table_of((5usize..25).boxed(), (2usize..5).boxed()),
        seeds(),
        prop_oneof![Just(1u64), Just(1 << 32), any::<u64>()].prop_filter("step", |s| *s != 0),
    )
        .prop_map(|(table, seed, step)| RandSeeds { table, seed, step })
        .boxed()
}

fn check_rand_seeds(c: &RandSeeds, cx: &mut Cx) -> Res {
    let t = rawt(&c.table);
    let m = t[0].len();
    let mut series: Vec<Vec<(u64, f64)>> = vec![vec![]; m];
    for s in seed_series(c.seed, c.step) {
        let r = RandomizedTukeyHsdTester::new(m)
            .with_n_iters(400)
            .with_random_state(s)
            .test(&t)
            .map_err(|e| format!("rejected: {e:?}"))?;
        let p = r.p_values();
        for i in 1..m {
            series[i].push((s, p[0][i]));
        }
    }
    series[1..].iter().try_for_each(|ps| vary(ps, cx))
}

fn check_rand_default(c: &Table, cx: &mut Cx) -> Res {
    let t = rawt(c);
    let m = t[0].len();
    cx.nontrivial();
    let r = RandomizedTukeyHsdTest::from_tupled_samples(&t, m).map_err(|e| format!("rejected: {e:?}"))?;
    ensure!(r.n_iters() == 10000, "default n_iters = {}", r.n_iters());
    let again = RandomizedTukeyHsdTester::new(m)
        .with_random_state(r.random_state())
        .test(&t)
        .map_err(|e| format!("rejected: {e:?}"))?;
    ensure!(
        again.n_iters() == 10000 && again.p_values() == r.p_values(),
        "random state {} drawn for {:?} gives {:?}", r.random_state(), r.p_values(), again.p_values()
    );
    Ok(())
}

fn check_bad_rand(c: &BadTable, cx: &mut Cx) -> Res {
    let (t, m, ragged) = bad_cells(c);
    cx.nontrivial();
    let r = RandomizedTukeyHsdTester::new(m).with_n_iters(20).with_random_state(1).test(&t);
    if t.is_empty() || ragged {
        cx.label(if ragged { "wrong row length" } else { "no topics" });
        return is_invalid(&format!("{} topics, {m} systems declared, row lengths {:?}", t.len(), t.iter().map(Vec::len).collect::<Vec<_>>()), r);
    }
    if m >= 1 {
        cx.label("accepted");
        r.map_err(|e| format!("a table of {} topics and {m} systems is rejected: {e:?}", t.len()))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

/// An integer table and an affine way to write it in doubles.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lattice {
    cells: Vec<Vec<i64>>,
    divide: bool,
    scale: F,
    offset: F,
    /// Integers whose means are exact, so that ties are certain.
    exact: bool,
    iters: usize,
    seed: u64,
}

impl Lattice {
    fn factor(&self) -> Option<i64> {
        stat::exact_factor(self.cells.len()).filter(|_| self.exact)
    }

    fn doubles(&self) -> Vec<Vec<f64>> {
        if let Some(f) = self.factor() {
            return self.cells.iter().map(|r| r.iter().map(|&k| (k * f) as f64 - 2.0 * self.offset.0.round()).collect()).collect();
        }
        self.cells
            .iter()
            .map(|r| {
                r.iter()
                    .map(|&k| {
                        let x = if self.divide { k as f64 / self.scale.0 } else { k as f64 * self.scale.0 };
                        x + self.offset.0
                    })
                    .collect()
            })
            .collect()
    }
}

fn lattice(n: BoxedStrategy<usize>, m: BoxedStrategy<usize>, levels: i64) -> BoxedStrategy<Lattice> {
    (
        gen::lattice_matrix(n, m, 0..levels),
        any::<(bool, bool)>(),
        select(vec![1.0, 10.0, 0.1, 3.0, 7.0, 100.0, 0.01, 5.0, 0.3, 1e-6]),
        prop_oneof![4 => Just(0.0), 1 => select(vec![0.1, -0.3, 1.0, 1.0 / 3.0, -10.0])],
        2000usize..4000,
        seeds(),
        prop::option::weighted(0.4, vec(0i64..3, 12)),
    )
        .prop_map(|(mut cells, (divide, exact), scale, offset, iters, seed, effects)| {
            if let Some(e) = effects {
                for r in cells.iter_mut() {
                    for (x, e) in r.iter_mut().zip(&e) {
                        *x += e;
                    }
                }
            }
            Lattice { cells, divide, scale: F(scale), offset: F(offset), exact, iters, seed }
        })
        .boxed()
}

fn run_lattice(c: &Lattice) -> Result<Vec<Vec<f64>>, String> {
    let m = c.cells[0].len();
    let r = RandomizedTukeyHsdTester::new(m)
        .with_n_iters(c.iters)
        .with_random_state(c.seed)
        .test(c.doubles())
        .map_err(|e| format!("rejected: {e:?}"))?;
    Ok(r.p_values())
}

fn check_rand_exact(c: &Lattice, cx: &mut Cx) -> Res {
    let m = c.cells[0].len();
    let Some(want) = stat::exact_tukey(&c.cells, m, 30_000) else {
        cx.label("too many states");
        return Ok(());
    };
    let got = run_lattice(c)?;
    cx.label(["m = 2", "m = 3", "m = 4", "m > 4"][(m - 2).min(3)]);
    cx.label_if(c.factor().is_some(), "exact ties");
    for i in 0..m {
        for j in 0..m {
            if i == j {
                continue;
            }
            let (lo, hi) = want[i][j];
            let lo = if c.factor().is_some() { hi } else { lo };
            cx.nontrivial_if(lo > 0.005 && hi < 0.995);
            ensure!(
                stat::plausible(got[i][j], c.iters, lo, hi),
                "p = {:?} of systems {i} and {j} from {} iterations; the exact probability is {lo:?} to {hi:?}",
                got[i][j], c.iters
            );
        }
    }
    Ok(())
}

fn check_rand_large(c: &Lattice, cx: &mut Cx) -> Res {
    let m = c.cells[0].len();
    let got = run_lattice(c)?;
    let want = stat::simulate_tukey(&c.cells, m, c.iters, &mut Rng(!c.seed));
    for i in 0..m {
        for j in 0..m {
            if i == j {
                continue;
            }
            let (lo, hi) = want[i][j];
            let lo = if c.factor().is_some() { hi } else { lo };
            cx.nontrivial_if(lo > 0.005 && hi < 0.995);
            let p = got[i][j];
            ensure!(
                (p >= lo && p <= hi) || stat::plausible_pair(p, c.iters, if p < lo { lo } else { hi }, c.iters),
                "p = {p:?} of systems {i} and {j} from {} iterations; an independent simulation gives {lo:?} to {hi:?}",
                c.iters
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn extreme() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => select(vec![0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN,
            f64::MIN_POSITIVE, f64::from_bits(1), -f64::from_bits(1), f64::EPSILON, 1.0 + f64::EPSILON, 1e154, 1e155, -1e155, 1e-154, 1e-155,
            1e-160, 1e-162, 1e-170, 1e200, 1e300, -1e300, 1e308, 0.1, 0.2, 0.3, 1e16, 9007199254740993.0]),
        2 => any::<f64>(),
        1 => any::<u64>().prop_map(f64::from_bits),
        1 => 0.0f64..1.0,
    ]
    .boxed()
}

/// Doubles of one flavour: all extreme, all finite, all tiny, all huge, all alike, ordinary.
fn flavour(k: u8) -> BoxedStrategy<f64> {
    match k {
        0 => extreme(),
        1 => extreme().prop_filter("finite", |x| x.is_finite()).boxed(),
        2 => (1u64..1 << 52).prop_map(f64::from_bits).boxed(),
        3 => (0u64..1 << 40).prop_map(|b| f64::from_bits(f64::MAX.to_bits() - b)).boxed(),
        4 => select(vec![0.1, 0.2]).boxed(),
        5 => (-170i32..-140, 1i32..20).prop_map(|(e, k)| k as f64 * 10f64.powi(e)).boxed(),
        6 => (140i32..170, -20i32..20).prop_map(|(e, k)| k as f64 * 10f64.powi(e)).boxed(),
        7 => (0u64..3).prop_map(|b| f64::from_bits(0.3f64.to_bits() + b)).boxed(),
        8 => Just(0.7).boxed(),
        _ => (0.0f64..1.0).boxed(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wild {
    pairs: PairsF,
    rows: Vec<Vec<F>>,
    m: usize,
    n: usize,
    seed: Option<u64>,
    levels: Vec<F>,
}

fn wild() -> BoxedStrategy<Wild> {
    (0u8..11, 0usize..16, 0usize..6, 0usize..9)
        .prop_flat_map(|(k, n, m, nt)| {
            let ragged = vec(vec(flavour(k), 0..6), 0..6);
            let square = vec(vec(flavour(k), m..=m), nt..=nt);
            (
                vec((flavour(k), if k % 3 == 0 { flavour(k) } else { prop_oneof![1 => Just(0.0), 1 => flavour(k)].boxed() }), n..=n),
                prop_oneof![1 => ragged, 5 => square],
                prop_oneof![8 => Just(m), 1 => 0usize..6],
                prop_oneof![1 => Just(0usize), 4 => 1usize..30],
                prop::option::of(any::<u64>()),
                vec(prop_oneof![2 => extreme(), 2 => 0.0f64..1.0, 1 => select(vec![0.05, 1.0, 1e-16, 1e-10, 1e-300, 0.9999999999, 1.0 - f64::EPSILON])], 3),
            )
        })
        .prop_map(|(pairs, rows, m, n, seed, levels)| Wild {
            pairs: pairs.into_iter().map(|(a, b)| (F(a), F(b))).collect(),
            rows: rows.into_iter().map(|r| r.into_iter().map(F).collect()).collect(),
            m,
            n,
            seed,
            levels: levels.into_iter().map(F).collect(),
        })
        .boxed()
}

fn is_p(what: &str, p: f64) -> Res {
    ensure!((0.0..=1.0).contains(&p), "{what} = {p:?} is outside [0, 1]");
    Ok(())
}

fn level_ok(what: &str, level: f64, moe: Result<f64, ElinorError>, finite: bool) -> Res {
    if level > 0.0 && level <= 1.0 {
        let moe = moe.map_err(|e| format!("{what}: level {level:?} rejected: {e:?}"))?;
        ensure!(!finite || moe >= 0.0, "{what} at level {level:?} is {moe:?}");
        Ok(())
    } else {
        is_invalid(&format!("{what} at level {level:?}"), moe)
    }
}

/// The class of the listed findings on the t-test: differences whose moments leave the range of
/// doubles (or are not finite), so that the t-statistic or its standard error is not a positive number.
fn listed_t(d: &[f64]) -> bool {
    let mx = max_abs(d);
    let v = stat::variance(d);
    // (The maximum ignores NaN, the variance does not.)
    !(v.is_finite() && mx < 1e145) || v < 1e-290 || v.sqrt() < 1e-150 * mx || v <= 1e-30 * mx * mx
}

fn check_wild(c: &Wild, cx: &mut Cx) -> Res {
    let pairs = raw(&c.pairs);
    let finite = pairs.iter().all(|p| p.0.is_finite() && p.1.is_finite());
    let wild_d = listed_t(&pairs.iter().map(|p| p.0 - p.1).collect::<Vec<_>>());
    let r = no_panic("t-test", || StudentTTest::from_paired_samples(pairs.clone()));
    if r.is_err() && wild_d {
        cx.label("listed: t-test panics");
    } else if let Ok(r) = r? {
        cx.label("t-test result");
        cx.label_if(wild_d, "listed: t-test result of extreme differences");
        let finite = finite && !wild_d;
        cx.nontrivial_if(!wild_d);
        let _ = (r.mean(), r.t_stat(), r.effect_size(), r.n_topics());
        if finite {
            is_p("t-test p-value", r.p_value())?;
            ensure!(r.variance() >= 0.0, "t-test variance = {:?}", r.variance());
        }
        for l in &c.levels {
            if l.0.is_nan() {
                bad_level("margin_of_error", l.0, || r.margin_of_error(l.0), cx)?;
                bad_level("confidence_interval", l.0, || r.confidence_interval(l.0), cx)?;
                continue;
            }
            level_ok("t-test margin of error", l.0, no_panic("margin_of_error", || r.margin_of_error(l.0))?, finite)?;
            let _ = no_panic("confidence_interval", || r.confidence_interval(l.0))?;
        }
    }
    let mut tester = BootstrapTester::new().with_n_resamples(c.n);
    let mut rand = RandomizedTukeyHsdTester::new(c.m).with_n_iters(c.n);
    if let Some(s) = c.seed {
        tester = tester.with_random_state(s);
        rand = rand.with_random_state(s);
    }
    if let Ok(r) = no_panic("bootstrap test", || tester.test(pairs.clone()))? {
        cx.label("bootstrap result");
        if finite {
            is_p("bootstrap p-value", r.p_value())?;
        }
    }
    let rows = rawt(&c.rows);
    let finite = rows.iter().flatten().all(|x| x.is_finite());
    let wild_t = listed_anova(&rows, c.m);
    let r = no_panic("ANOVA", || TwoWayAnovaWithoutReplication::from_tupled_samples(&rows, c.m));
    if wild_t && !matches!(r, Ok(Err(_))) {
        cx.label("listed: ANOVA panics or gives noise");
    } else if let Ok(r) = r? {
        cx.label("ANOVA result");
        cx.nontrivial();
        let _ = (r.system_means(), r.topic_means(), r.between_system_f_stat(), r.between_topic_f_stat());
        if finite {
            is_p("between-system p-value", r.between_system_p_value())?;
            is_p("between-topic p-value", r.between_topic_p_value())?;
            for (what, v) in [
                ("between-system variance", r.between_system_variance()),
                ("between-topic variance", r.between_topic_variance()),
                ("residual variance", r.residual_variance()),
                ("between-system variation", r.between_system_variation()),
                ("between-topic variation", r.between_topic_variation()),
                ("residual variation", r.residual_variation()),
            ] {
                ensure!(v >= 0.0, "{what} = {v:?}");
            }
        }
        for l in &c.levels {
            if l.0.is_nan() {
                bad_level("ANOVA margin_of_error", l.0, || r.margin_of_error(l.0), cx)?;
                continue;
            }
            level_ok("ANOVA margin of error", l.0, no_panic("margin_of_error", || r.margin_of_error(l.0))?, finite)?;
        }
    }
    let r = no_panic("Tukey HSD", || TukeyHsdTest::from_tupled_samples(&rows, c.m));
    if wild_t && !matches!(r, Ok(Err(_))) {
        cx.label("listed: Tukey HSD panics or gives noise");
    } else if let Ok(r) = r? {
        let _ = no_panic("effect_sizes", || r.effect_sizes())?;
    }
    if let Ok(r) = no_panic("randomized Tukey HSD", || rand.test(&rows))? {
        cx.label("randomized Tukey HSD result");
        if finite {
            for p in r.p_values().into_iter().flatten() {
                is_p("randomized Tukey HSD p-value", p)?;
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------------

fn moe_extreme(_: &Env) -> Probe {
    // Differences 0 and 2: mean 1, variance 2, standard error 1; the quantile itself is reported.
    let r = match StudentTTest::from_paired_samples([(0.0, 0.0), (2.0, 0.0)]) {
        Ok(r) => r,
        Err(e) => return Probe::Different(format!("t-test of the differences 0 and 2: {e:?}")),
    };
    match r.margin_of_error(1e-10) {
        Ok(q) if (q / 6366197723.6758 - 1.0).abs() < 1e-4 => Probe::Fixed,
        // The quantile search of statrs stops early: far too small, but finite and positive.
        Ok(q) if q > 1e6 && q < 1e9 => {
            Probe::Listed(format!("the margin of error of the differences 0 and 2 at level 1e-10 is {q} instead of 6366197723.68"))
        }
        q => Probe::Different(format!("margin of error at level 1e-10 with one degree of freedom is {q:?}")),
    }
}

/// A listed input on which the library panics instead of returning an error.
fn panics<T: std::fmt::Debug>(what: &'static str, f: impl Fn() -> Result<T, ElinorError>) -> Probe {
    match no_panic(what, f) {
        Ok(Err(_)) => Probe::Fixed,
        Ok(Ok(r)) => Probe::Different(format!("{what} gives {r:?}")),
        Err(m) => Probe::Listed(m),
    }
}

fn same_six() -> Vec<(f64, f64)> {
    vec![(0.3, 0.0); 6]
}

fn noise_t(_: &Env) -> Probe {
    match StudentTTest::from_paired_samples(same_six()) {
        Err(ElinorError::Uncomputable(_)) => Probe::Fixed,
        Ok(r) if r.variance() > 0.0 && r.variance() < 1e-15 => Probe::Listed(format!(
            "six differences of 0.3 give the variance {:e}, t = {:e} and p = {} instead of an uncomputable error",
            r.variance(), r.t_stat(), r.p_value()
        )),
        r => Probe::Different(format!("six differences of 0.3 give {r:?}")),
    }
}

fn noise_boot(_: &Env) -> Probe {
    match BootstrapTester::new().with_n_resamples(20).with_random_state(1).test(same_six()) {
        Err(ElinorError::Uncomputable(_)) => Probe::Fixed,
        Ok(r) => Probe::Listed(format!("the bootstrap test of six differences of 0.3 gives p = {} instead of an uncomputable error", r.p_value())),
        r => Probe::Different(format!("six differences of 0.3 give {r:?}")),
    }
}

fn noise_resample(_: &Env) -> Probe {
    let pairs = [(1.0, 1.0), (1.0, 1.0), (0.5, 2.0 / 3.0), (0.7, 0.7), (0.25, 0.25), (1.0, 0.0)];
    match BootstrapTester::new().with_n_resamples(3000).with_random_state(524972560922809244).test(pairs) {
        Ok(r) if (0.43..0.52).contains(&r.p_value()) => Probe::Listed(format!(
            "the bootstrap p-value of the differences 0, 0, -1/6, 0, 0, 1 is {} instead of 0.39 (resamples of identical differences count as extreme)",
            r.p_value()
        )),
        Ok(r) if (0.35..0.43).contains(&r.p_value()) => Probe::Fixed,
        r => Probe::Different(format!("the bootstrap test of 0, 0, -1/6, 0, 0, 1 gives {r:?}")),
    }
}

fn nan_level(_: &Env) -> Probe {
    match StudentTTest::from_paired_samples([(0.0, 0.0), (2.0, 0.0)]) {
        Ok(r) => panics("margin_of_error(NaN) of a t-test", || r.margin_of_error(f64::NAN)),
        Err(e) => Probe::Different(format!("t-test of the differences 0 and 2: {e:?}")),
    }
}

fn nan_level_anova(_: &Env) -> Probe {
    match TwoWayAnovaWithoutReplication::from_tupled_samples([[1.0, 2.0], [2.0, 5.0], [4.0, 3.0]], 2) {
        Ok(r) => panics("margin_of_error(NaN) of an ANOVA", || r.margin_of_error(f64::NAN)),
        Err(e) => Probe::Different(format!("{e:?}")),
    }
}

fn t_overflow(_: &Env) -> Probe {
    panics("t-test of the differences 1e-162 and 4e-162", || {
        StudentTTest::from_paired_samples([(1e-162, 0.0), (4e-162, 0.0)])
    })
}

fn anova_additive(_: &Env) -> Probe {
    let what = "ANOVA of the additive table [[1, 2], [2, 3], [3, 4]]";
    match no_panic(what, || TwoWayAnovaWithoutReplication::from_tupled_samples([[1.0, 2.0], [2.0, 3.0], [3.0, 4.0]], 2)) {
        Ok(Err(_)) => Probe::Fixed,
        // The same defect in an implementation whose sums round.
        Ok(Ok(r)) if r.residual_variance() < 1e-15 => Probe::Listed(format!("{what} gives a residual variance of {:e}", r.residual_variance())),
        Ok(Ok(r)) => Probe::Different(format!("{what} gives {r:?}")),
        Err(m) => Probe::Listed(m),
    }
}

fn tukey_additive(_: &Env) -> Probe {
    let what = "Tukey HSD test of the additive table [[1, 2], [2, 3], [3, 4]]";
    match no_panic(what, || TukeyHsdTest::from_tupled_samples([[1.0, 2.0], [2.0, 3.0], [3.0, 4.0]], 2)) {
        Ok(Err(_)) => Probe::Fixed,
        // The same defect in an implementation whose sums round.
        Ok(Ok(r)) if r.effect_sizes()[0][1].abs() > 1e7 => Probe::Listed(format!("{what} gives the effect sizes {:?}", r.effect_sizes())),
        Ok(Ok(r)) => Probe::Different(format!("{what} gives {r:?}")),
        Err(m) => Probe::Listed(m),
    }
}

fn anova_one_system(_: &Env) -> Probe {
    panics("ANOVA of three topics and one system", || {
        TwoWayAnovaWithoutReplication::from_tupled_samples([[1.0], [2.0], [3.0]], 1)
    })
}

fn tukey_one_system(_: &Env) -> Probe {
    panics("Tukey HSD test of three topics and one system", || TukeyHsdTest::from_tupled_samples([[1.0], [2.0], [3.0]], 1))
}

/// Two topics prefer one system by 0.2, one the other: every permutation is as extreme.
fn rounding_ties(_: &Env) -> Probe {
    let table = ROUNDING_TIES.map(|(a, b)| [a, b]);
    match RandomizedTukeyHsdTester::new(2).with_n_iters(20000).with_random_state(7).test(table) {
        Ok(r) => {
            let p = r.p_values()[0][1];
            if (p - ROUNDING_TIES_P).abs() < 0.03 {
                Probe::Fixed
            } else if p < ROUNDING_TIES_P {
                Probe::Listed(format!("the randomized Tukey HSD p-value of {table:?} is {p} instead of {ROUNDING_TIES_P} (equal differences are missed by rounding)"))
            } else {
                Probe::Different(format!("p = {p} of {table:?}"))
            }
        }
        r => Probe::Different(format!("{r:?}")),
    }
}

pub const ROUNDING_TIES: [(f64, f64); 3] = [(0.0, 0.2), (0.3, 0.1), (0.0, 0.2)];
pub const ROUNDING_TIES_P: f64 = 1.0;

pub fn properties() -> Vec<Property> {
    const EXACT_SEED: &str = "Random states are generated, and the tests' own generator (StdRng) is taken to be sound.";
    vec![
        Property {
            id: "C13",
            rule: "at least two maps, the first of them not empty",
            assumptions: &[],
            subs: vec![sub("maps", 900_000, 30_000_000, maps, check_maps), sub("many", 20_000, 600_000, many_maps, check_maps),
                sub("bulk", 48, 1_500, bulk_maps, check_maps)],
            probes: vec![],
        },
        Property {
            id: "C14",
            rule: "well-conditioned (standard deviation at least 1% of the largest difference) or identical differences",
            assumptions: &["Independent t distribution, compared once with scipy."],
            subs: vec![
                sub("textbook", 900_000, 45_000_000, || pairs_of(sizes()), check_t),
                sub("long", 9_000, 300_000, || pairs_of((200usize..2500).boxed()), check_t),
                sub("huge", 150, 5_000, || pairs_of((2500usize..80_000).boxed()), check_t),
                sub("constant", 300_000, 7_500_000, constant, check_constant_t),
            ],
            probes: vec![("identical-differences", Box::new(noise_t))],
        },
        Property {
            id: "C15",
            rule: "well-conditioned differences (standard deviation at least 1% of the largest one)",
            assumptions: &["Independent t distribution, compared once with scipy.", "Accuracy is judged for levels in [1e-5, 0.999] and 1."],
            subs: vec![sub("margin", 450_000, 22_500_000, margin, check_margin)],
            probes: vec![("moe-extreme-level", Box::new(moe_extreme)), ("nan-level", Box::new(nan_level)), ("nan-level-anova", Box::new(nan_level_anova))],
        },
        Property {
            id: "C16",
            rule: "a p-value strictly between 0 and 1 (or a case of the error contract)",
            assumptions: &[EXACT_SEED],
            subs: vec![
                sub("reproduce", 300_000, 9_000_000, boot, check_boot),
                sub("seeds", 15_000, 450_000, boot_seeds, check_boot_seeds),
                sub("defaults", 1_500, 45_000, || pairs_of((2usize..20).boxed()), check_boot_default),
                sub("errors", 150_000, 4_500_000, constant, check_constant_boot),
            ],
            probes: vec![("identical-differences", Box::new(noise_boot))],
        },
        Property {
            id: "C17",
            rule: "an exact (or simulated) probability strictly between 0.005 and 0.995, or a mean difference of 0",
            assumptions: &[EXACT_SEED, "Resamples whose statistic ties with the observed one up to rounding may count either way, unless all arithmetic is exact."],
            subs: vec![
                sub("exact", 45_000, 1_500_000, boot_exact, check_boot_exact),
                sub("ties", 45_000, 1_500_000, boot_ties, check_boot_ties),
                sub("large", 22_500, 750_000, boot_large, check_boot_large),
                sub("huge", 800, 25_000, boot_huge, check_boot_large),
            ],
            probes: vec![("identical-resample", Box::new(noise_resample))],
        },
        Property {
            id: "C18",
            rule: "a table with a residual variation well above rounding noise, or a case of the error contract",
            assumptions: &["Independent F distribution, compared once with scipy."],
            subs: vec![
                sub("textbook", 450_000, 22_500_000, table, check_anova),
                sub("big", 2_000, 60_000, big_table, check_anova),
                sub("errors", 300_000, 7_500_000, bad_table, check_bad_anova),
            ],
            probes: vec![("additive-table", Box::new(anova_additive)), ("one-system", Box::new(anova_one_system))],
        },
        Property {
            id: "C19",
            rule: "a table with a residual variation well above rounding noise, or a case of the error contract",
            assumptions: &[],
            subs: vec![
                sub("effects", 450_000, 22_500_000, effects, check_effects),
                sub("big", 1_000, 30_000, || effects_of(big_table()), check_effects),
                sub("errors", 300_000, 7_500_000, bad_table, check_bad_anova),
            ],
            probes: vec![("additive-table", Box::new(tukey_additive)), ("one-system", Box::new(tukey_one_system))],
        },
        Property {
            id: "C20",
            rule: "some p-value strictly between 0 and 1 (or a case of the error contract)",
            assumptions: &[EXACT_SEED],
            subs: vec![
                sub("reproduce", 180_000, 6_000_000, randomized, check_rand),
                sub("seeds", 12_000, 375_000, rand_seeds, check_rand_seeds),
                sub("defaults", 900, 30_000, || table_of((1usize..12).boxed(), (2usize..5).boxed()), check_rand_default),
                sub("errors", 300_000, 7_500_000, bad_table, check_bad_rand),
            ],
            probes: vec![],
        },
        Property {
            id: "C21",
            rule: "some pair of systems whose exact (or simulated) probability is strictly between 0.005 and 0.995",
            assumptions: &[EXACT_SEED],
            subs: vec![
                sub("two", 37_500, 1_200_000, || lattice(prop_oneof![4 => 1usize..12, 1 => 10usize..40].boxed(), Just(2usize).boxed(), 11), check_rand_exact),
                sub("exact", 30_000, 900_000, || lattice((1usize..9).boxed(), (3usize..5).boxed(), 6), check_rand_exact),
                sub("large", 9_000, 300_000, || lattice((5usize..40).boxed(), (3usize..11).boxed(), 11), check_rand_large),
                sub("huge", 400, 12_000, || lattice((60usize..500).boxed(), (2usize..6).boxed(), 11), check_rand_large),
                sub("systems", 400, 12_000, || lattice((2usize..20).boxed(), (11usize..40).boxed(), 11), check_rand_large),
            ],
            probes: vec![("rounding-ties", Box::new(rounding_ties))],
        },
        Property {
            id: "C22",
            rule: "at least one of the analytic tests (t-test, ANOVA) returned a result",
            assumptions: &[],
            subs: vec![sub("wild", 1_500_000, 75_000_000, wild, check_wild)],
            probes: vec![("tiny-differences", Box::new(t_overflow)), ("additive-table", Box::new(anova_additive)), ("one-system", Box::new(anova_one_system)), ("nan-level", Box::new(nan_level))],
        },
    ]
}
