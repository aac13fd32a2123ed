//! Independent statistical oracles (no statrs): Student's t, Fisher's F,
//! compensated sums, and confidence bounds for Monte-Carlo p-values.
use std::collections::BTreeMap;

/// ln Gamma(h / 2) for a positive integer h, by the recurrence from 1/2 or 1.
pub fn ln_gamma_half(h: u64) -> f64 {
    if h > 400 {
        // Stirling series, far into its accurate range (x > 200).
        let x = h as f64 / 2.0;
        let r = 1.0 / x;
        let r2 = r * r;
        return (x - 0.5) * x.ln() - x
            + 0.5 * (2.0 * std::f64::consts::PI).ln()
            + r * (1.0 / 12.0 - r2 * (1.0 / 360.0 - r2 * (1.0 / 1260.0 - r2 / 1680.0)));
    }
    let mut acc = Sum::default();
    let mut k = if h % 2 == 1 {
        acc.add(0.5 * std::f64::consts::PI.ln());
        1
    } else {
        2
    };
    while k < h {
        acc.add((k as f64 / 2.0).ln());
        k += 2;
    }
    acc.value()
}

/// Regularised incomplete beta I_x(a/2, b/2) for integers a, b; `y` = 1 - x given separately.
pub fn inc_beta_half(a2: u64, b2: u64, x: f64, y: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if y <= 0.0 {
        return 1.0;
    }
    let (a, b) = (a2 as f64 / 2.0, b2 as f64 / 2.0);
    if x > (a + 1.0) / (a + b + 2.0) && y < (b + 1.0) / (a + b + 2.0) {
        return 1.0 - inc_beta_half(b2, a2, y, x);
    }
    let ln_front = a * x.ln() + b * y.ln() + ln_gamma_half(a2 + b2) - ln_gamma_half(a2) - ln_gamma_half(b2);
    // Lentz's algorithm for the continued fraction.
    let tiny = 1e-300;
    let mut c = 1.0;
    let mut d = 1.0 - (a + b) * x / (a + 1.0);
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..20000 {
        let m = m as f64;
        let num = m * (b - m) * x / ((a + 2.0 * m - 1.0) * (a + 2.0 * m));
        d = 1.0 + num * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + num / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        h *= d * c;
        let num = -(a + m) * (a + b + m) * x / ((a + 2.0 * m) * (a + 2.0 * m + 1.0));
        d = 1.0 + num * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + num / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let delta = d * c;
        h *= delta;
        if (delta - 1.0).abs() < 1e-15 {
            break;
        }
    }
    ln_front.exp() * h / a
}

/// P(|T_df| >= |t|).
pub fn t_two_sided(t: f64, df: u64) -> f64 {
    let t2 = t * t;
    if t2.is_infinite() {
        return 0.0;
    }
    let n = df as f64;
    inc_beta_half(df, 1, n / (n + t2), t2 / (n + t2))
}

/// P(F_{d1,d2} >= f).
pub fn f_sf(f: f64, d1: u64, d2: u64) -> f64 {
    if f <= 0.0 {
        return 1.0;
    }
    let num = d1 as f64 * f;
    if num.is_infinite() {
        return 0.0;
    }
    let n2 = d2 as f64;
    inc_beta_half(d2, d1, n2 / (n2 + num), num / (n2 + num))
}

/// Neumaier-compensated sum.
#[derive(Default, Clone, Copy)]
pub struct Sum {
    s: f64,
    c: f64,
}

impl Sum {
    pub fn add(&mut self, x: f64) {
        let t = self.s + x;
        if self.s.abs() >= x.abs() {
            self.c += (self.s - t) + x;
        } else {
            self.c += (x - t) + self.s;
        }
        self.s = t;
    }
    pub fn value(&self) -> f64 {
        self.s + self.c
    }
}

pub fn sum(xs: impl IntoIterator<Item = f64>) -> f64 {
    let mut s = Sum::default();
    for x in xs {
        s.add(x);
    }
    s.value()
}

pub fn mean(xs: &[f64]) -> f64 {
    sum(xs.iter().copied()) / xs.len() as f64
}

/// Unbiased sample variance.
pub fn variance(xs: &[f64]) -> f64 {
    let m = mean(xs);
    sum(xs.iter().map(|x| (x - m) * (x - m))) / (xs.len() as f64 - 1.0)
}

/// Kullback-Leibler divergence of Bernoulli(q) from Bernoulli(p), in nats.
fn kl(q: f64, p: f64) -> f64 {
    let term = |a: f64, b: f64| {
        if a <= 0.0 {
            0.0
        } else if b <= 0.0 {
            f64::INFINITY
        } else {
            a * (a / b).ln()
        }
    };
    term(q, p) + term(1.0 - q, 1.0 - p)
}

/// Chernoff exponent above which a Monte-Carlo estimate is rejected:
/// a correct implementation exceeds it with probability below 2e-14 per comparison.
pub const REJECT: f64 = 32.0;

/// Is the frequency `q` of `n` independent trials plausible for a success
/// probability anywhere in `[lo, hi]`?
pub fn plausible(q: f64, n: usize, lo: f64, hi: f64) -> bool {
    let lo = (lo - 1e-12).max(0.0);
    let hi = (hi + 1e-12).min(1.0);
    if q >= lo && q <= hi {
        return true;
    }
    let p = if q < lo { lo } else { hi };
    n as f64 * kl(q, p) <= REJECT
}

/// Are two independent frequencies (of n1 and n2 trials) plausibly from one probability?
/// Uses the generalised likelihood ratio against the pooled frequency, with a wide margin.
pub fn plausible_pair(q1: f64, n1: usize, q2: f64, n2: usize) -> bool {
    let (a, b) = (n1 as f64, n2 as f64);
    let pooled = (q1 * a + q2 * b) / (a + b);
    a * kl(q1, pooled) + b * kl(q2, pooled) <= REJECT + 8.0
}

/// Small deterministic generator for reference simulations (SplitMix64), seeded from the case.
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// A resample whose values agree up to rounding. Its variance may come out as zero or not
/// (see the listed finding on identical differences), so it may count either way.
fn blurred<'a>(values: impl Iterator<Item = &'a f64> + Clone, scale: f64) -> bool {
    let max = values.clone().fold(f64::NEG_INFINITY, |a, &b| a.max(b));
    let min = values.fold(f64::INFINITY, |a, &b| a.min(b));
    max - min <= 1e-12 * scale
}

/// The bootstrap statistic |t*| of a resample given by counts, or None when it has zero variance.
fn t_of_counts(values: &[f64], counts: &[usize], n: usize) -> Option<f64> {
    if counts.iter().filter(|&&c| c > 0).count() <= 1 {
        return None;
    }
    let m = sum(values.iter().zip(counts).map(|(v, &c)| v * c as f64)) / n as f64;
    let ss = sum(values.iter().zip(counts).map(|(v, &c)| c as f64 * (v - m) * (v - m)));
    if ss <= 0.0 {
        return None;
    }
    Some(m.abs() / (ss / (n as f64 - 1.0) / n as f64).sqrt())
}

/// Exact bootstrap p-value as an interval `(P(|t*| clearly >= |t|), P(|t*| >= |t| up to ties))`,
/// by enumerating all multisets of n draws from the n shifted differences.
pub fn exact_bootstrap(diffs: &[f64]) -> (f64, f64) {
    let n = diffs.len();
    let m = mean(diffs);
    let t = m.abs() / (variance(diffs) / n as f64).sqrt();
    // Merge equal differences so that zero-variance resamples are exactly recognised.
    let mut groups: Vec<(f64, usize)> = vec![];
    for &d in diffs {
        match groups.iter_mut().find(|g| g.0 == d) {
            Some(g) => g.1 += 1,
            None => groups.push((d, 1)),
        }
    }
    let values: Vec<f64> = groups.iter().map(|g| g.0 - m).collect();
    let weights: Vec<f64> = groups.iter().map(|g| g.1 as f64 / n as f64).collect();
    let mut ln_fact = vec![0.0; n + 1];
    for i in 1..=n {
        ln_fact[i] = ln_fact[i - 1] + (i as f64).ln();
    }
    let mut counts = vec![0usize; values.len()];
    let scale = diffs.iter().fold(0.0f64, |a, d| a.max(d.abs()));
    let (mut lo, mut hi) = (Sum::default(), Sum::default());
    fn rec(
        i: usize,
        left: usize,
        counts: &mut Vec<usize>,
        f: &mut dyn FnMut(&[usize]),
    ) {
        if i + 1 == counts.len() {
            counts[i] = left;
            f(counts);
            return;
        }
        for c in 0..=left {
            counts[i] = c;
            rec(i + 1, left - c, counts, f);
        }
    }
    rec(0, n, &mut counts, &mut |counts| {
        let mut lp = ln_fact[n];
        for (w, &c) in weights.iter().zip(counts) {
            lp += c as f64 * w.ln() - ln_fact[c];
        }
        let p = lp.exp();
        let ts = t_of_counts(&values, counts, n);
        let drawn = values.iter().zip(counts).filter(|v| *v.1 > 0).map(|v| v.0);
        if blurred(drawn, scale) {
            hi.add(p);
            return;
        }
        let ts = ts.unwrap_or(0.0);
        let tol = 1e-9 * (1.0 + t);
        if ts >= t + tol {
            lo.add(p);
        }
        if ts >= t - tol {
            hi.add(p);
        }
    });
    (lo.value().clamp(0.0, 1.0), hi.value().clamp(0.0, 1.0))
}

/// Exact randomised Tukey HSD p-values on integer scores: for every pair of systems,
/// P(max - min of the permuted system totals >= |difference of the observed totals|),
/// as `(without ties, with ties)`. None when the state space exceeds `cap`.
pub fn exact_tukey(scores: &[Vec<i64>], m: usize, cap: usize) -> Option<Vec<Vec<(f64, f64)>>> {
    if m > 6 {
        return None; // too many permutations
    }
    let mut states: BTreeMap<Vec<i64>, f64> = BTreeMap::new();
    states.insert(vec![0; m], 1.0);
    for row in scores {
        let mut perms: BTreeMap<Vec<i64>, usize> = BTreeMap::new();
        let mut total = 0usize;
        permutations(row, &mut |p| {
            *perms.entry(p.to_vec()).or_default() += 1;
            total += 1;
        });
        let mut next: BTreeMap<Vec<i64>, f64> = BTreeMap::new();
        for (s, p) in &states {
            for (perm, c) in &perms {
                let mut t: Vec<i64> = s.iter().zip(perm).map(|(a, b)| a + b).collect();
                // Only differences and the multiset of totals matter: later rows are
                // permuted uniformly, so totals may be kept sorted and shifted to zero.
                t.sort_unstable();
                let base = t[0];
                t.iter_mut().for_each(|x| *x -= base);
                *next.entry(t).or_default() += p * *c as f64 / total as f64;
            }
        }
        states = next;
        if states.len() > cap {
            return None;
        }
    }
    let totals: Vec<i64> = (0..m).map(|i| scores.iter().map(|r| r[i]).sum()).collect();
    let mut out = vec![vec![(1.0, 1.0); m]; m];
    for i in 0..m {
        for j in 0..m {
            if i != j {
                let d = (totals[i] - totals[j]).abs();
                let p = |least: i64| {
                    sum(states.iter().filter(|(s, _)| s[m - 1] - s[0] >= least).map(|(_, &p)| p)).clamp(0.0, 1.0)
                };
                out[i][j] = (p(d + 1), p(d));
            }
        }
    }
    Some(out)
}

pub fn permutations(row: &[i64], f: &mut dyn FnMut(&[i64])) {
    fn rec(a: &mut Vec<i64>, i: usize, f: &mut dyn FnMut(&[i64])) {
        if i == a.len() {
            f(a);
            return;
        }
        for j in i..a.len() {
            a.swap(i, j);
            rec(a, i + 1, f);
            a.swap(i, j);
        }
    }
    let mut a = row.to_vec();
    rec(&mut a, 0, f);
}

/// Reference simulation of the randomised Tukey HSD test on integer scores;
/// `(without ties, with ties)` frequencies.
pub fn simulate_tukey(scores: &[Vec<i64>], m: usize, iters: usize, rng: &mut Rng) -> Vec<Vec<(f64, f64)>> {
    let totals: Vec<i64> = (0..m).map(|i| scores.iter().map(|r| r[i]).sum()).collect();
    let mut counts = vec![vec![(0usize, 0usize); m]; m];
    let mut row = vec![];
    for _ in 0..iters {
        let mut t = vec![0i64; m];
        for r in scores {
            row.clear();
            row.extend_from_slice(r);
            rng.shuffle(&mut row);
            for (a, b) in t.iter_mut().zip(&row) {
                *a += b;
            }
        }
        let range = t.iter().max().unwrap() - t.iter().min().unwrap();
        for i in 0..m {
            for j in 0..m {
                let d = (totals[i] - totals[j]).abs();
                counts[i][j].0 += usize::from(range > d);
                counts[i][j].1 += usize::from(range >= d);
            }
        }
    }
    let mut out = vec![vec![(1.0, 1.0); m]; m];
    for i in 0..m {
        for j in 0..m {
            if i != j {
                let (a, b) = counts[i][j];
                out[i][j] = (a as f64 / iters as f64, b as f64 / iters as f64);
            }
        }
    }
    out
}

/// A factor for integers whose running means over up to `n` values are exact integers,
/// whatever their order; None when there is no usable one.
pub fn exact_factor(n: usize) -> Option<i64> {
    let gcd = |mut a: i64, mut b: i64| {
        while b != 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    (n <= 22).then(|| (1..=n as i64).fold(1, |l, k| l / gcd(l, k) * k))
}

/// Reference simulation of the bootstrap test; `(strict, with ties)` frequencies.
pub fn simulate_bootstrap(diffs: &[f64], resamples: usize, rng: &mut Rng) -> (f64, f64) {
    let n = diffs.len();
    let m = mean(diffs);
    let t = m.abs() / (variance(diffs) / n as f64).sqrt();
    let shifted: Vec<f64> = diffs.iter().map(|d| d - m).collect();
    let tol = 1e-9 * (1.0 + t);
    let scale = diffs.iter().fold(0.0f64, |a, d| a.max(d.abs()));
    let (mut lo, mut hi) = (0usize, 0usize);
    let mut xs = vec![0.0; n];
    for _ in 0..resamples {
        let first = rng.below(n);
        xs[0] = shifted[first];
        for x in &mut xs[1..] {
            *x = shifted[rng.below(n)];
        }
        if blurred(xs.iter(), scale) {
            hi += 1;
            continue;
        }
        let ts = mean(&xs).abs() / (variance(&xs) / n as f64).sqrt();
        lo += usize::from(ts >= t + tol);
        hi += usize::from(ts >= t - tol);
    }
    (lo as f64 / resamples as f64, hi as f64 / resamples as f64)
}

/// A table for comparing these functions with scipy once (see DESIGN.md).
pub fn print_table() {
    for df in [1u64, 2, 3, 5, 9, 29, 30, 31, 99, 200, 399, 400, 401, 999, 4999] {
        for t in [1e-9, 1e-4, 0.01, 0.5, 1.0, 1.96, 3.0, 8.0, 40.0, 1e3] {
            println!("t {df} 0 {t:e} {:e}", t_two_sided(t, df));
        }
    }
    for d1 in [1u64, 2, 3, 7, 20, 99, 250] {
        for d2 in [1u64, 2, 4, 18, 99, 198, 1000] {
            for f in [1e-6, 0.01, 0.3, 1.0, 1.5, 3.0, 10.0, 200.0] {
                println!("f {d1} {d2} {f:e} {:e}", f_sf(f, d1, d2));
            }
        }
    }
}

/// As `exact_bootstrap` for integer differences (all arithmetic exact): `(lo, hi, exact ties)`.
/// Ties in which mean and variance both agree up to a power of two (of four) are decided by
/// exact arithmetic and belong to `lo`; other ties only to `hi`.
pub fn exact_bootstrap_int(ks: &[i64]) -> (f64, f64, f64) {
    let n = ks.len();
    let ni = n as i128;
    let m: i128 = ks.iter().map(|&k| k as i128).sum();
    let s_obs = ni * m;
    let q_obs: i128 = ks.iter().map(|&k| (ni * k as i128).pow(2)).sum();
    let v_obs = ni * q_obs - s_obs * s_obs;
    let shifted: Vec<i128> = ks.iter().map(|&k| ni * k as i128 - m).collect();
    let mut groups: BTreeMap<i128, usize> = BTreeMap::new();
    for s in shifted {
        *groups.entry(s).or_default() += 1;
    }
    let groups: Vec<(i128, f64)> = groups.into_iter().map(|(s, c)| (s, c as f64 / n as f64)).collect();
    let (mut lo, mut hi, mut tied) = (Sum::default(), Sum::default(), Sum::default());
    // All sequences, by counts.
    fn rec(i: usize, left: usize, p: f64, s: i128, q: i128, groups: &[(i128, f64)], f: &mut dyn FnMut(f64, i128, i128)) {
        if left == 0 {
            return f(p, s, q);
        }
        if i == groups.len() {
            return;
        }
        let (v, w) = groups[i];
        let mut p = p;
        for c in 0..=left {
            if c > 0 {
                // Multinomial weights: choose positions one group at a time.
                p *= w * (left - c + 1) as f64 / c as f64;
            }
            rec(i + 1, left - c, p, s + v * c as i128, q + v * v * c as i128, groups, f);
        }
    }
    rec(0, n, 1.0, 0, 0, &groups, &mut |p, s, q| {
        let v = ni * q - s * s;
        if v == 0 {
            if s_obs == 0 {
                lo.add(p);
                hi.add(p);
            }
            return;
        }
        let (a, b) = (s * s * v_obs, s_obs * s_obs * v);
        if a > b {
            lo.add(p);
            hi.add(p);
        } else if a == b {
            hi.add(p);
            // s^2 / s_obs^2 == v / v_obs; exact in doubles when that ratio is a power of four.
            let (mut x, mut y) = (v, v_obs);
            while x > y && x % 4 == 0 {
                x /= 4;
            }
            while y > x && y % 4 == 0 {
                y /= 4;
            }
            if x == y {
                lo.add(p);
                tied.add(p);
            }
        }
    });
    (lo.value().clamp(0.0, 1.0), hi.value().clamp(0.0, 1.0), tied.value())
}
