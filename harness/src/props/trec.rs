//! C10 (qrels), C11 (runs) and C12 (JSON records).
use std::collections::BTreeMap;

use elinor::trec::{parse_pred_rels_in_trec, parse_true_rels_in_trec};
use elinor::{ElinorError, PredRecord, Record, TrueRecord};
use ordered_float::OrderedFloat;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use super::store::check_store;
use crate::engine::*;
use crate::ensure;
use crate::gen;

/// Unicode White_Space, written out.
pub fn is_space(c: char) -> bool {
    matches!(c as u32,
        9..=13 | 32 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000)
}

/// Reference column splitter.
pub fn columns(line: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in line.chars() {
        if is_space(c) {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// Reference reader of a 32-bit decimal integer; None when it is not one.
pub fn int32(s: &str) -> Option<i64> {
    let (neg, digits) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: i64 = 0;
    for b in digits.bytes() {
        v = v * 10 + (b - b'0') as i64;
        if v > 1 << 40 {
            return None;
        }
    }
    let v = if neg { -v } else { v };
    (-(1 << 31)..1 << 31).contains(&v).then_some(v)
}

/// Is this a decimal floating-point number? None: left open (a NaN literal).
pub fn is_number(s: &str) -> Option<bool> {
    let body = s.strip_prefix(['+', '-']).unwrap_or(s);
    if body.eq_ignore_ascii_case("nan") {
        return None;
    }
    if body.eq_ignore_ascii_case("inf") || body.eq_ignore_ascii_case("infinity") {
        return Some(true);
    }
    let (mantissa, exponent) = match body.find(['e', 'E']) {
        Some(i) => (&body[..i], Some(&body[i + 1..])),
        None => (body, None),
    };
    if let Some(e) = exponent {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        if e.is_empty() || !e.bytes().all(|b| b.is_ascii_digit()) {
            return Some(false);
        }
    }
    let digits = mantissa.replacen('.', "", 1);
    Some(!digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()))
}

/// What the reference reader expects of a text.
pub enum Want<T> {
    Store(BTreeMap<String, BTreeMap<String, T>>),
    Format(usize),
    Duplicate(usize),
    /// The outcome depends on something left open.
    Open,
}

pub fn read_qrels(lines: &[String]) -> Want<u32> {
    let mut m: BTreeMap<String, BTreeMap<String, u32>> = BTreeMap::new();
    for (i, l) in lines.iter().enumerate() {
        let c = columns(l);
        if c.len() < 4 {
            return Want::Format(i);
        }
        let Some(g) = int32(&c[3]) else { return Want::Format(i) };
        if m.entry(c[0].clone()).or_default().insert(c[2].clone(), g.max(0) as u32).is_some() {
            return Want::Duplicate(i);
        }
    }
    Want::Store(m)
}

pub fn read_run(lines: &[String]) -> Want<OrderedFloat<f64>> {
    let mut m: BTreeMap<String, BTreeMap<String, OrderedFloat<f64>>> = BTreeMap::new();
    for (i, l) in lines.iter().enumerate() {
        let c = columns(l);
        if c.len() < 5 {
            return Want::Format(i);
        }
        match is_number(&c[4]) {
            Some(true) => {}
            Some(false) => return Want::Format(i),
            None => return Want::Open,
        }
        let s: f64 = match c[4].parse() {
            Ok(s) => s,
            Err(e) => harness_error(format!("reference grammar accepts {:?}: {e}", c[4])),
        };
        if m.entry(c[0].clone()).or_default().insert(c[2].clone(), OrderedFloat(s)).is_some() {
            return Want::Duplicate(i);
        }
    }
    Want::Store(m)
}

fn compare<T>(
    want: Want<T>,
    got: Result<elinor::relevance::RelevanceStore<String, T>, ElinorError>,
    cx: &mut Cx,
) -> Res
where
    T: Ord + Clone + std::fmt::Debug,
{
    match (want, got) {
        (Want::Open, _) => cx.label("open"),
        (Want::Store(m), Ok(store)) => {
            cx.label("accepted");
            let qs: Vec<String> = m.keys().cloned().collect();
            let mut ds: Vec<String> = m.values().flat_map(|m| m.keys().cloned()).collect();
            ds.sort();
            ds.dedup();
            let (some, step) = (qs.len() * ds.len() > 3_000_000, qs.len() * ds.len() / 1_000_000 + 1);
            let qs: Vec<String> = if some && qs.len() > 100 { qs.into_iter().step_by(step).collect() } else { qs };
            check_store(store, &m, &qs, &ds, "parsed")?;
        }
        (Want::Format(_), Err(ElinorError::InvalidFormat(_))) => cx.label("malformed"),
        (Want::Duplicate(_), Err(ElinorError::DuplicateEntry(_))) => cx.label("duplicate"),
        (Want::Store(_), Err(e)) => return Err(format!("valid text rejected: {e:?}")),
        (Want::Format(i), r) => {
            return Err(format!("line {i} is malformed, but got {:?}", r.map(|s| s.into_records())))
        }
        (Want::Duplicate(i), r) => {
            return Err(format!("line {i} repeats a pair, but got {:?}", r.map(|s| s.into_records())))
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    pub lines: Vec<String>,
}

fn space() -> BoxedStrategy<String> {
    prop_oneof![
        10 => Just(" ".to_string()),
        4 => Just("\t".to_string()),
        2 => Just("  ".to_string()),
        1 => select(vec!["\u{a0}", "\u{3000}", "\u{2009}", "\u{85}", "\u{b}", "\u{c}", "\r", "\n", " \t ", "\u{2028}", "\u{1680}", "\u{205f}"]).prop_map(String::from),
    ]
    .boxed()
}

/// Columns that look odd but are ordinary tokens.
fn odd_token() -> BoxedStrategy<String> {
    prop_oneof![
        240 => select(vec!["0", "Q0", "-", "_", "#", "//", "\"q\"", "a,b", "'", "\\t", "\u{feff}", "\u{200b}", "\u{180e}", "日本", "\u{1f}", "\0", "--", "null", "q_1", "1e5", "NaN", "0x1"]).prop_map(String::from),
        80 => "[!-~]{1,6}",
        80 => "\\PC{1,4}".prop_map(|s: String| { let t: String = s.chars().filter(|c| !is_space(*c)).collect(); if t.is_empty() { "x".into() } else { t } }),
        // Longer than any buffer one might think of.
        1 => (select(vec![255usize, 256, 1_023, 1_024, 4_096, 8_191, 8_192, 70_000]), select(vec!["x", "é"]), 0usize..3).prop_map(|(n, c, i)| c.repeat(n) + &i.to_string()),
    ]
    .boxed()
}

fn id_token(pool: usize) -> BoxedStrategy<String> {
    if pool <= 4 {
        return (0..pool).prop_map(|i| gen::token(4, i)).boxed();
    }
    prop_oneof![8 => (gen::id_style(), 0..pool).prop_map(|(s, i)| gen::token(s, i)), 2 => odd_token()].boxed()
}

fn good_grade() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (0i32..5).prop_map(|i| i.to_string()),
        2 => (-3i32..300).prop_map(|i| i.to_string()),
        1 => any::<i32>().prop_map(|i| i.to_string()),
        1 => any::<i16>().prop_map(|i| format!("{i:+}")),
        1 => (0i32..100).prop_map(|i| format!("{i:05}")),
        1 => select(vec!["-0", "+0", "-1", "-2147483648", "2147483647", "+2147483647", "00000000000000000000001", "-00000000000000000002"]).prop_map(String::from),
    ]
    .boxed()
}

fn bad_grade() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["2147483648", "-2147483649", "4294967296", "99999999999999999999", "1.0", "1.", ".5", "1e1", "abc", "+", "-", "--1", "+-1", "1-", "0x1", "1_0", "１", "٣", "true", "1,", "NaN", "inf", "²"]).prop_map(String::from),
        1 => odd_token(),
    ]
    .boxed()
}

pub fn good_score() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0.0f64..1.0).prop_map(|x| format!("{x}")),
        2 => (-1e4f64..1e4).prop_map(|x| format!("{x:.3}")),
        2 => any::<f64>().prop_filter("finite", |x| x.is_finite()).prop_map(|x| format!("{x:?}")),
        1 => any::<f64>().prop_filter("finite", |x| x.is_finite()).prop_map(|x| format!("{x:e}")),
        1 => any::<i64>().prop_map(|i| i.to_string()),
        2 => (0u64..4).prop_map(|i| format!("{}", f64::from_bits(0.7f64.to_bits() + i))),
        2 => select(vec![".5", "5.", "+.5", "-5.", "1E5", "1e+5", "1e-05", "+1.5E+2", "-0", "-0.0", "007", "inf", "-inf", "Infinity", "+INF",
            "1e400", "-1e400", "1e-400", "4.9406564584124654e-324", "2.4703282292062328e-324", "1.7976931348623157e308",
            "1.7976931348623159e308", "0.1000000000000000055511151231257827021181583404541015625",
            "9007199254740993", "9007199254740992.9999999999999999999", "16777217", "0.30000000000000004", "123456789012345678901234567890"]).prop_map(String::from),
    ]
    .boxed()
}

fn bad_score() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["abc", "", "1..0", "1.0.0", ".", "+", "-", "e5", "1e", "1e+", "--1", "1,5", "0x1p3", "1_000", "1.0f", "１.0", "infin", "in", "1e5.0", "+-1", "1-", "٣", "∞", "½"]).prop_map(String::from),
        1 => odd_token(),
    ]
    .boxed()
}

/// Joins columns with generated white space; `bad` lines lose columns or get a bad score.
fn line(run: bool, pool: usize, bad: f64) -> BoxedStrategy<String> {
    let good = if run { good_score() } else { good_grade() };
    let wrong = if run { bad_score() } else { bad_grade() };
    let ncols = if run { 5usize } else { 4 };
    (
        (id_token(pool), odd_token(), id_token(pool), odd_token(), good, wrong),
        vec(odd_token(), 0..4),
        vec(space(), 12),
        (any::<bool>(), any::<bool>()),
        if bad > 0.0 { prop::option::weighted(bad, 0usize..8).boxed() } else { Just(None).boxed() },
    )
        .prop_map(move |((q, x, d, r, s, w), extra, spaces, (lead, trail), bad)| {
            let mut cols = if run { vec![q, x, d, r, s] } else { vec![q, x, d, s] };
            cols.extend(extra);
            match bad {
                Some(n) if n < 5 => cols.truncate(n % ncols),
                Some(_) => cols[ncols - 1] = w,
                None => {}
            }
            let mut out = String::new();
            if lead {
                out += &spaces[10];
            }
            for (i, c) in cols.iter().enumerate() {
                if i > 0 {
                    out += &spaces[i % 10];
                }
                out += c;
            }
            if trail {
                out += &spaces[11];
            }
            out
        })
        .boxed()
}

/// Texts whose lines are all well-formed, up to one in `bad`, with or without repeated pairs.
pub fn text(run: bool) -> BoxedStrategy<Text> {
    prop_oneof![
        // Mostly distinct ids.
        6 => vec(line(run, 2000, 0.0), 0..25),
        2 => vec(line(run, 2000, 0.05), 0..25),
        // A small pool: repeated pairs.
        2 => vec(line(run, 4, 0.02), 0..12),
        1 => vec(line(run, 100_000, 0.0), 100..400),
    ]
    .prop_map(|lines| Text { lines })
    .boxed()
}

/// The lines of many records, with at most one fault anywhere.
pub fn bulk_text(run: bool, cap: usize) -> BoxedStrategy<Text> {
    (gen::bulk_collection(cap), prop_oneof![3 => Just(0u8), 1 => 1u8..4], any::<usize>())
        .prop_map(move |(c, fault, at)| {
            let id = |s: &str| if s.is_empty() { "_".to_string() } else { s.to_string() };
            let mut lines: Vec<String> = if run {
                c.pred_records().iter().enumerate().map(|(i, (q, d, s))| format!("{} Q0 {} {i} {s} run", id(q), id(d))).collect()
            } else {
                c.true_records().iter().map(|(q, d, g)| format!("{} 0 {} {g}", id(q), id(d))).collect()
            };
            let at = at % lines.len();
            match fault {
                1 => {
                    let l = lines[0].clone();
                    lines.insert(at + 1, l);
                }
                2 => lines[at] = "q 0 d".into(),
                3 => lines[at] = "q 0 d x y".into(),
                _ => {}
            }
            Text { lines }
        })
        .boxed()
}

/// Anything at all, with digits, signs and blanks more likely.
fn noise() -> BoxedStrategy<Text> {
    let soup = prop_oneof![
        2 => "[0-9a-c+\\-.eE \t\u{a0}]{0,24}",
        1 => "[0-9 ]{0,16}",
        1 => "(q[12] 0 d[123] [0-9.+\\-eE]{1,5}( [0-9.+\\-eEinfa]{1,6})? ?)",
        1 => any::<String>(),
    ];
    vec(soup, 0..4).prop_map(|lines| Text { lines }).boxed()
}

fn check_qrels(t: &Text, cx: &mut Cx) -> Res {
    let want = read_qrels(&t.lines);
    cx.nontrivial_if(t.lines.len() >= 2 && matches!(want, Want::Store(_) | Want::Duplicate(_)));
    if let Want::Format(i) | Want::Duplicate(i) = want {
        cx.nontrivial_if(i > 0);
        cx.label_if(i > 0, "error after valid lines");
    }
    compare(want, parse_true_rels_in_trec(&t.lines), cx)
}

fn check_run(t: &Text, cx: &mut Cx) -> Res {
    let want = read_run(&t.lines);
    cx.nontrivial_if(t.lines.len() >= 2 && matches!(want, Want::Store(_) | Want::Duplicate(_)));
    if let Want::Format(i) | Want::Duplicate(i) = want {
        cx.nontrivial_if(i > 0);
        cx.label_if(i > 0, "error after valid lines");
    }
    compare(want, parse_pred_rels_in_trec(&t.lines), cx)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rec {
    q: String,
    d: String,
    grade: u32,
    score: F,
    order: u8,
    spaces: u8,
    escape: bool,
}

fn any_id() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (gen::id_style(), 0usize..200).prop_map(|(s, i)| gen::id(s, i)),
        2 => any::<String>(),
        2 => "[\u{0}-\u{40}\"\\\\\u{7f}-\u{a0}\u{2028}/]{0,8}",
        1 => vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

fn rec() -> BoxedStrategy<Rec> {
    (
        any_id(),
        any_id(),
        prop_oneof![3 => 0u32..10, 1 => any::<u32>(), 1 => select(vec![0, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1])],
        prop_oneof![3 => gen::score(), 2 => any::<f64>(), 1 => -1.0f64..1.0].prop_filter("finite", |x| x.is_finite()),
        0u8..6,
        0u8..4,
        any::<bool>(),
    )
        .prop_map(|(q, d, grade, score, order, spaces, escape)| Rec { q, d, grade, score: F(score), order, spaces, escape })
        .boxed()
}

/// A JSON string literal written by hand.
pub fn json_string(s: &str, escape: bool) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            out.push('\\');
            out.push(c);
        } else if (c as u32) < 0x20 || (escape && !c.is_ascii_alphanumeric()) {
            let mut buf = [0u16; 2];
            for u in c.encode_utf16(&mut buf) {
                out += &format!("\\u{u:04x}");
            }
        } else {
            out.push(c);
        }
    }
    out + "\""
}

const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

fn object(q: &str, d: &str, score: &str, order: u8, spaces: u8, escape: bool, skip: Option<usize>) -> String {
    let s = [" ", "", "\t", "  "][spaces as usize % 4];
    let fields = [
        format!("\"query_id\"{s}:{s}{}", json_string(q, escape)),
        format!("\"doc_id\"{s}:{s}{}", json_string(d, escape)),
        format!("\"score\"{s}:{s}{score}"),
    ];
    let body: Vec<&str> = ORDERS[order as usize % 6]
        .iter()
        .filter(|&&i| Some(i) != skip)
        .map(|&i| fields[i].as_str())
        .collect();
    format!("{{{s}{}{s}}}", body.join(&format!("{s},{s}")))
}

fn check_object(text: &str, r: &Rec) -> Result<Value, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {text}: {e}"))?;
    let o = v.as_object().ok_or_else(|| format!("not an object: {text}"))?;
    let mut keys: Vec<&str> = o.keys().map(String::as_str).collect();
    keys.sort();
    ensure!(keys == ["doc_id", "query_id", "score"], "fields {keys:?} in {text}");
    ensure!(o["query_id"].as_str() == Some(&r.q), "query_id of {text} is not {:?}", r.q);
    ensure!(o["doc_id"].as_str() == Some(&r.d), "doc_id of {text} is not {:?}", r.d);
    Ok(o["score"].clone())
}

fn check_rec(r: &Rec, cx: &mut Cx) -> Res {
    cx.nontrivial();
    cx.label_if(r.score.0.fract() != 0.0, "fractional score");
    cx.label_if(r.q.chars().chain(r.d.chars()).any(|c| !c.is_ascii_graphic()), "unusual characters");
    cx.label_if(r.grade > i32::MAX as u32, "grade above 2^31");

    let t = TrueRecord { query_id: r.q.clone(), doc_id: r.d.clone(), score: r.grade };
    let text = serde_json::to_string(&t).map_err(|e| format!("serialising {t:?}: {e}"))?;
    let v = check_object(&text, r)?;
    ensure!(v.as_u64() == Some(r.grade as u64), "score of {text} is not {}", r.grade);
    ensure!(!text.contains('\n'), "{text:?} spans lines");
    let own = object(&r.q, &r.d, &r.grade.to_string(), r.order, r.spaces, r.escape, None);
    for text in [&text, &own] {
        let back: TrueRecord<String> = serde_json::from_str(text).map_err(|e| format!("deserialising {text}: {e}"))?;
        ensure!(back == t, "{text} gives {back:?}");
    }

    let p: PredRecord<String> = Record { query_id: r.q.clone(), doc_id: r.d.clone(), score: OrderedFloat(r.score.0) };
    let text = serde_json::to_string(&p).map_err(|e| format!("serialising {p:?}: {e}"))?;
    let v = check_object(&text, r)?;
    ensure!(v.as_f64() == Some(r.score.0), "score of {text} is not {:?}", r.score);
    ensure!(!text.contains('\n'), "{text:?} spans lines");
    let forms = [format!("{:?}", r.score.0), format!("{:e}", r.score.0)];
    let mut texts = vec![text];
    for f in forms {
        texts.push(object(&r.q, &r.d, &f, r.order, r.spaces, r.escape, None));
    }
    for text in &texts {
        let back: PredRecord<String> = serde_json::from_str(text).map_err(|e| format!("deserialising {text}: {e}"))?;
        ensure!(back == p, "{text} gives {back:?}");
    }
    // Whole numbers are scores, too.
    let whole = object(&r.q, &r.d, &r.grade.to_string(), r.order, r.spaces, r.escape, None);
    let back: PredRecord<String> = serde_json::from_str(&whole).map_err(|e| format!("deserialising {whole}: {e}"))?;
    ensure!(back.score.0 == r.grade as f64 && back.query_id == r.q && back.doc_id == r.d, "{whole} gives {back:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadRec {
    q: String,
    d: String,
    order: u8,
    spaces: u8,
    skip: Option<usize>,
    grade: String,
}

fn bad_rec() -> BoxedStrategy<BadRec> {
    (
        any_id(),
        any_id(),
        0u8..6,
        0u8..4,
        prop_oneof![
            (0usize..3).prop_map(|i| (Some(i), "1".to_string())),
            prop_oneof![
                (1i64..1 << 33).prop_map(|i| format!("-{i}")),
                ((1u64 << 32)..1 << 34).prop_map(|i| i.to_string()),
                (0u32..5, 1u32..10).prop_map(|(a, b)| format!("{a}.{b}")),
                select(vec!["-1", "-2147483648", "4294967296", "18446744073709551615", "18446744073709551616", "0.5", "1e-1", "1.5e0"]).prop_map(String::from),
            ]
            .prop_map(|g| (None, g)),
        ],
    )
        .prop_map(|(q, d, order, spaces, (skip, grade))| BadRec { q, d, order, spaces, skip, grade })
        .boxed()
}

fn check_bad_rec(r: &BadRec, cx: &mut Cx) -> Res {
    cx.nontrivial();
    cx.label(if r.skip.is_some() { "missing field" } else { "bad grade" });
    let text = object(&r.q, &r.d, &r.grade, r.order, r.spaces, false, r.skip);
    let got = serde_json::from_str::<TrueRecord<String>>(&text);
    ensure!(got.is_err(), "{text} is accepted as a true record: {got:?}");
    if r.skip.is_some() {
        let got = serde_json::from_str::<PredRecord<String>>(&text);
        ensure!(got.is_err(), "{text} is accepted as a predicted record: {got:?}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "a text of at least two lines that is accepted or repeats a pair, or whose first bad line comes after a valid one",
            assumptions: &["White space is the Unicode White_Space property."],
            subs: vec![
                sub("structured", 80_000, 3_000_000, || text(false), check_qrels),
                sub("noise", 80_000, 4_000_000, noise, check_qrels),
                sub("bulk", 40, 1_200, || bulk_text(false, 140_000), check_qrels),
            ],
            probes: vec![],
        },
        Property {
            id: "C11",
            rule: "a text of at least two lines that is accepted or repeats a pair, or whose first bad line comes after a valid one",
            assumptions: &[
                "White space is the Unicode White_Space property.",
                "Decimal-to-double conversion of the Rust standard library is correctly rounded.",
                "Texts with a NaN literal as a score are not judged.",
            ],
            subs: vec![
                sub("structured", 80_000, 3_000_000, || text(true), check_run),
                sub("noise", 80_000, 4_000_000, noise, check_run),
                sub("bulk", 40, 1_200, || bulk_text(true, 140_000), check_run),
            ],
            probes: vec![],
        },
        Property {
            id: "C12",
            rule: "every case: a record with generated ids and scores, or a damaged one",
            assumptions: &["The JSON library is serde_json with exact float parsing."],
            subs: vec![
                sub("roundtrip", 900_000, 30_000_000, rec, check_rec),
                sub("reject", 300_000, 7_500_000, bad_rec, check_bad_rec),
            ],
            probes: vec![],
        },
    ]
}
