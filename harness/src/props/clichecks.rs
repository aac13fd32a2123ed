//! C23-C27: the command-line tools, run as built.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use elinor::Metric;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

use super::trec::{bulk_text, json_string, read_qrels, read_run, text, Want};
use crate::cli::{self, csv_field, fresh_dir, parse_csv, sections, strings, Section};
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Collection};
use crate::oracle::{self, Query};
use crate::stat::{self, Rng};

const CONVERT: &str = "elinor-convert";
const EVALUATE: &str = "elinor-evaluate";
const COMPARE: &str = "elinor-compare";

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Convert {
    run: bool,
    content: String,
    /// 0-5: plain; 6: full device; 7: missing directory; 8: output is a directory;
    /// 9: missing input; 10: not UTF-8; 11: unknown relevance type.
    fault: u8,
    stale: bool,
}

fn convert() -> BoxedStrategy<Convert> {
    any::<bool>()
        .prop_flat_map(|run| {
            (
                Just(run),
                text(run),
                prop_oneof![12 => Just(0u8), 6 => 6u8..12],
                any::<bool>(),
                any::<bool>(),
                any::<bool>(),
            )
        })
        .prop_map(|(run, t, fault, crlf, last, stale)| {
            let sep = if crlf { "\r\n" } else { "\n" };
            let mut content = t.lines.join(sep);
            if last && !t.lines.is_empty() {
                content += sep;
            }
            Convert { run, content, fault, stale }
        })
        .boxed()
}

fn bulk_convert() -> BoxedStrategy<Convert> {
    any::<bool>()
        .prop_flat_map(|run| (Just(run), bulk_text(run, 70_000), any::<bool>()))
        .prop_map(|(run, t, last)| {
            let mut content = t.lines.join("\n");
            if last {
                content += "\n";
            }
            Convert { run, content, fault: 0, stale: false }
        })
        .boxed()
}

/// The lines of a file.
fn file_lines(content: &str) -> Vec<String> {
    let mut v: Vec<String> = content.split('\n').map(String::from).collect();
    if v.last().is_some_and(String::is_empty) {
        v.pop();
    }
    v
}

fn check_convert(c: &Convert, cx: &mut Cx) -> Res {
    let dir = fresh_dir(cx);
    let lines = file_lines(&c.content);
    // What must come out: None for a failure.
    let mut want: Option<BTreeMap<(String, String), f64>> = if c.run {
        match read_run(&lines) {
            Want::Store(m) if m.values().flat_map(|m| m.values()).all(|s| s.0.is_finite()) => Some(
                m.into_iter()
                    .flat_map(|(q, m)| m.into_iter().map(move |(d, s)| ((q.clone(), d), s.0)))
                    .collect(),
            ),
            // A NaN literal is malformed or cannot be represented: a failure either way.
            _ => None,
        }
    } else {
        match read_qrels(&lines) {
            Want::Store(m) => Some(
                m.into_iter()
                    .flat_map(|(q, m)| m.into_iter().map(move |(d, s)| ((q.clone(), d), s as f64)))
                    .collect(),
            ),
            _ => None,
        }
    };
    cx.label(if want.is_some() { "valid content" } else { "invalid content" });
    cli::set_environment(c.content.len());
    let mut input = cli::write(&dir, "in.trec", &c.content);
    let mut output = "out.jsonl".to_string();
    let mut kind = if c.run { "pred" } else { "true" };
    match c.fault {
        6 => {
            cx.label("full device");
            output = "/dev/full".into();
            if want.as_ref().is_some_and(|w| !w.is_empty()) {
                want = None;
            }
        }
        7 => {
            cx.label("missing output directory");
            output = "none/out.jsonl".into();
            want = None;
        }
        8 => {
            cx.label("output is a directory");
            output = ".".into();
            want = None;
        }
        9 => {
            cx.label("missing input");
            input = "absent.trec".into();
            want = None;
        }
        10 => {
            cx.label("input is not UTF-8");
            let mut bytes = c.content.clone().into_bytes();
            if bytes.last().is_some_and(|b| *b != b'\n') {
                bytes.push(b'\n');
            }
            bytes.extend_from_slice(b"q 0 d\xff\xfe 1 1 r\n");
            cli::write(&dir, "in.trec", bytes);
            want = None;
        }
        11 => {
            cx.label("unknown relevance type");
            kind = "both";
            want = None;
        }
        _ => {}
    }
    if c.stale {
        cli::write(&dir, "out.jsonl", "{\"stale\": true}\n".repeat(2000));
    }
    let (i, o) = if c.content.len() % 2 == 0 { ("--input-trec", "--output-jsonl") } else { ("-i", "-o") };
    let out = cli::run(CONVERT, &strings(&[i, &input, o, &output, "--rel-type", kind]), &dir);
    let Some(want) = want else {
        cx.nontrivial_if(lines.len() >= 2);
        ensure!(!out.ok(), "exit status 0 although the conversion is impossible: {}", out.show());
        ensure!(!out.stderr.trim().is_empty(), "failed without a message: {}", out.show());
        return Ok(());
    };
    cx.nontrivial_if(want.len() >= 2);
    ensure!(out.ok(), "a valid file was not converted: {}", out.show());
    if c.fault == 6 {
        return Ok(());
    }
    let text = cli::read(&dir, &output)?;
    let mut got: BTreeMap<(String, String), f64> = BTreeMap::new();
    for l in file_lines(&text) {
        let v: serde_json::Value = serde_json::from_str(&l).map_err(|e| format!("output line {l:?} is not JSON: {e}"))?;
        let Some(obj) = v.as_object() else { return Err(format!("output line {l:?} is not an object")) };
        ensure!(obj.len() == 3, "output line {l:?} has {} fields", obj.len());
        let (Some(q), Some(d), Some(s)) = (
            v["query_id"].as_str(),
            v["doc_id"].as_str(),
            v["score"].as_f64(),
        ) else {
            return Err(format!("output line {l:?} lacks a field or has one of a wrong type"));
        };
        ensure!(c.run || v["score"].as_u64().is_some(), "the grade in {l:?} is not a non-negative integer");
        ensure!(
            got.insert((q.to_string(), d.to_string()), s).is_none(),
            "the pair ({q:?}, {d:?}) is written twice"
        );
    }
    for (k, s) in &want {
        match got.get(k) {
            Some(g) if g == s => {}
            g => return Err(format!("the pair {k:?} has score {s:?} in the input, and {g:?} in the output")),
        }
    }
    ensure!(got.len() == want.len(), "{} pairs in the output, {} in the input", got.len(), want.len());
    Ok(())
}

// ---------------------------------------------------------------- C24

/// JSONL evaluation.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Eval {
    c: Collection,
    /// How ids are decorated (characters that matter in JSON and CSV).
    deco: u8,
    spell: u8,
    metrics: Vec<(usize, usize)>,
    tab: bool,
    csv: u8,
    shuffle: u64,
    /// Damage: 0-9 none.
    damage: u8,
    at: usize,
    unretrieved: usize,
}

const N_METRICS: usize = 13;

fn metric_list() -> BoxedStrategy<Vec<(usize, usize)>> {
    prop_oneof![
        20 => vec((0..N_METRICS, gen::any_k()), 1..6),
        4 => Just(vec![]),
        1 => vec((0..N_METRICS, gen::any_k()), 10..40),
    ]
    .prop_map(|v| {
        let mut seen = BTreeSet::new();
        v.into_iter()
            .map(|(i, k)| (i, gen::all_metrics(k)[i]))
            .map(|(i, m)| (i, oracle::k_of(m)))
            .filter(|x| seen.insert(*x))
            .collect()
    })
    .boxed()
}

const NAMES: [&str; N_METRICS] = [
    "hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges",
];

fn metric_name(i: usize, k: usize) -> String {
    if k == 0 {
        NAMES[i].to_string()
    } else {
        format!("{}@{k}", NAMES[i])
    }
}

/// The documented default metrics.
fn default_metrics() -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    v.extend([1, 5, 10].map(|k| (1, k)));
    v.extend([5, 10, 15, 20].map(|k| (3, k)));
    v.extend([5, 10, 15, 20].map(|k| (2, k)));
    v.extend([5, 10, 15, 20, 0].map(|k| (6, k)));
    v.push((7, 0));
    v.extend([5, 10, 15, 20].map(|k| (10, k)));
    v
}

fn deco(s: &str, how: u8) -> String {
    match how {
        1 => format!("{s},x"),
        2 => format!("\"{s}\""),
        3 => format!("a {s}"),
        4 => format!("{s}\tz"),
        5 => format!("{s}\nz"),
        6 => format!("{s}'|\\"),
        7 => format!("é{s}\u{1F980}"),
        8 => format!("#{s}"),
        _ => s.to_string(),
    }
}

/// Scores JSON can carry, at least a few ulps apart when different.
fn tame(x: f64) -> f64 {
    if x.abs() < 1e-280 {
        return 0.0;
    }
    let x = x.clamp(-1e300, 1e300);
    format!("{x:.11e}").parse().unwrap_or(0.0)
}

fn tame_collection(mut c: Collection) -> Collection {
    for d in c.topics.iter_mut().flat_map(|t| t.docs.iter_mut()) {
        if let Some(s) = &mut d.score {
            s.0 = tame(s.0);
        }
    }
    c
}

fn eval_case() -> BoxedStrategy<Eval> {
    let sizes: fn() -> BoxedStrategy<usize> = || prop_oneof![6 => 1usize..8, 4 => 4usize..25, 1 => 20usize..130].boxed();
    (
        gen::collection(prop_oneof![5 => 1usize..5, 3 => 3usize..20].boxed(), sizes, false),
        0u8..12,
        0u8..4,
        metric_list(),
        any::<bool>(),
        prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => 2u8..5],
        any::<u64>(),
        prop_oneof![10 => Just(0u8), 6 => 10u8..20],
        any::<usize>(),
        0usize..3,
    )
        .prop_map(|(c, deco, spell, metrics, tab, csv, shuffle, damage, at, unretrieved)| Eval {
            c: tame_collection(c),
            deco,
            spell,
            metrics,
            tab,
            csv,
            shuffle,
            damage,
            at,
            unretrieved,
        })
        .boxed()
}

/// Average precision takes quadratic time, minutes in a debug build for the longest rankings.
/// Leaves out what would take too long.
fn affordable(metrics: Vec<(usize, usize)>, c: &Collection) -> Vec<(usize, usize)> {
    let (given, mut spent) = (metrics.len(), 0usize);
    let all = if given == 0 { default_metrics() } else { metrics };
    let n = all.len();
    let mut kept: Vec<(usize, usize)> = all
        .into_iter()
        .filter(|&(i, k)| {
            let depth = |len: usize| if k == 0 { len } else { k.min(len) };
            let cost: usize = c.topics.iter().map(|t| depth(t.docs.len()).pow(2) / 2).sum();
            let ok = NAMES[i] != "ap" || spent + cost <= 50_000_000;
            spent += if ok && NAMES[i] == "ap" { cost } else { 0 };
            ok
        })
        .collect();
    if given == 0 && kept.len() == n {
        return vec![];
    }
    if kept.is_empty() {
        kept.push((7, 0));
    }
    kept
}

fn bulk_eval() -> BoxedStrategy<Eval> {
    (gen::bulk_collection(70_000), 0u8..12, 0u8..4, metric_list(), any::<bool>(), any::<u64>(), prop_oneof![4 => Just(0u8), 1 => 10u8..16])
        .prop_map(|(c, deco, spell, metrics, tab, shuffle, damage)| Eval {
            metrics: affordable(metrics, &c),
            c: tame_collection(c),
            deco,
            spell,
            tab,
            csv: 0,
            shuffle,
            damage,
            at: (shuffle >> 7) as usize,
            unretrieved: (shuffle % 3) as usize,
        })
        .boxed()
}

/// One JSON line; the spelling varies.
fn json_line(q: &str, d: &str, score: &str, spell: u8, i: usize) -> String {
    let f = [
        format!("\"query_id\":{}", json_string(q, spell == 3)),
        format!("\"doc_id\":{}", json_string(d, spell == 3)),
        format!("\"score\":{score}"),
    ];
    match (spell, i % 3) {
        (0, _) => format!("{{{},{},{}}}", f[0], f[1], f[2]),
        (1, _) => format!("{{ {} , {} , {} }}", f[2], f[1], f[0]),
        (_, 0) => format!("{{{}, {}, {}}}", f[1], f[0], f[2]),
        (_, 1) => format!("{{{},\t{},{}}}", f[0], f[2], f[1]),
        _ => format!(" {{{},{},{}}} ", f[1], f[2], f[0]),
    }
}

struct Files {
    true_lines: Vec<String>,
    pred_lines: Vec<String>,
    model: BTreeMap<String, Query>,
}

fn jsonl(e: &Eval) -> Files {
    let qd = |s: &str| deco(s, e.deco);
    let mut true_lines: Vec<String> = e
        .c
        .true_records()
        .iter()
        .enumerate()
        .map(|(i, (q, d, s))| json_line(&qd(q), d, &s.to_string(), e.spell, i))
        .collect();
    // Judged queries that are not retrieved.
    for i in 0..e.unretrieved {
        true_lines.push(json_line(&format!("unretrieved {i}"), "d", &i.to_string(), e.spell, i));
    }
    let pred_lines = e
        .c
        .pred_records()
        .iter()
        .enumerate()
        .map(|(i, (q, d, s))| json_line(&qd(q), d, &format!("{s:?}"), e.spell, i))
        .collect();
    let model = e.c.model().into_iter().map(|(q, m)| (qd(&q), m)).collect();
    Files { true_lines, pred_lines, model }
}

/// Does a number printed to four decimals show `want`, itself known up to `tol`?
fn shows(printed: &str, want: f64, tol: f64) -> bool {
    let Ok(x) = printed.parse::<f64>() else { return false };
    // Four decimals exactly.
    let decimals = printed.split_once('.').map_or(0, |(_, d)| d.len());
    decimals == 4 && (x - want).abs() <= 0.5e-4 + tol + 1e-12 * want.abs()
}

fn check_eval(e: &Eval, cx: &mut Cx) -> Res {
    let dir = fresh_dir(cx);
    let mut f = jsonl(e);
    let mut fails = true;
    let pick = |v: &[String]| e.at % v.len();
    match e.damage {
        10 | 11 => {
            // Not a record any more.
            let v = if e.damage == 10 { &mut f.true_lines } else { &mut f.pred_lines };
            let joined = e.at % 11 >= 9 && v.len() >= 2;
            let i = e.at % (v.len() - joined as usize);
            let l = v[i].trim_end().to_string();
            v[i] = match e.at % 11 {
                0 => l[..l.len() - 1].to_string(),
                1 => l.replacen("query_id", "query", 1),
                2 => format!("{l}{l}"),
                3 => l.replacen(':', " ", 1),
                4 => "x".to_string(),
                // One line per record and nothing else on it.
                5 => format!("{l}{}", [",", " x", "]", "\\n"][e.at / 11 % 4]),
                6 => format!("[{l}]"),
                7 => l.replacen(':', ":\n", 1),
                8 => l.replacen('{', "{\n", 1),
                n if joined => format!("{l}{}{}", if n == 9 { "" } else { " " }, v[i + 1].trim_start()),
                _ => format!("[{l}"),
            };
            if joined {
                v.remove(i + 1);
            }
            cx.label("malformed line");
        }
        12 | 13 => {
            let v = if e.damage == 12 { &mut f.true_lines } else { &mut f.pred_lines };
            let l = v[pick(v)].clone();
            v.push(l);
            cx.label("duplicate record");
        }
        14 => {
            f.pred_lines.push(json_line("unjudged query", "d", "1.0", e.spell, 0));
            cx.label("retrieved query without judgments");
        }
        15 => {
            f.true_lines.push(json_line("other", "d", ["-1", "0.5", "4294967296", "\"1\""][e.at % 4], e.spell, 0));
            cx.label("bad grade");
        }
        _ => fails = false,
    }
    Rng(e.shuffle).shuffle(&mut f.true_lines);
    Rng(!e.shuffle).shuffle(&mut f.pred_lines);
    let body = |v: &[String]| v.join("\n") + if e.at % 2 == 0 { "\n" } else { "" };
    cli::write(&dir, "true.jsonl", body(&f.true_lines));
    cli::write(&dir, "pred.jsonl", body(&f.pred_lines));
    let mut args = strings(&["--true-jsonl", "true.jsonl", "--pred-jsonl", "pred.jsonl"]);
    let mut out_csv = None;
    match e.csv {
        0 => out_csv = Some("out.csv"),
        2 => {
            out_csv = Some("none/out.csv");
            fails = true;
            cx.label("missing output directory");
        }
        3 => {
            out_csv = Some("/dev/full");
            fails = true;
            cx.label("full device");
        }
        4 => {
            args[if e.at % 2 == 0 { 1 } else { 3 }] = "absent.jsonl".into();
            fails = true;
            cx.label("missing input");
        }
        _ => {}
    }
    if let Some(o) = out_csv {
        args.extend(strings(&["--output-csv", o]));
        if o == "out.csv" {
            cli::write(&dir, o, "stale\n".repeat(3000));
        }
    }
    if e.tab {
        args.push("--tab-separator".into());
    }
    let metrics = if e.metrics.is_empty() { default_metrics() } else { e.metrics.clone() };
    cx.label_if(e.metrics.is_empty(), "default metrics");
    if !e.metrics.is_empty() {
        args.push("--metrics".into());
        args.extend(e.metrics.iter().map(|&(i, k)| metric_name(i, k)));
    }
    cli::set_environment(e.at);
    let out = cli::run(EVALUATE, &args, &dir);
    if fails {
        cx.nontrivial();
        ensure!(!out.ok(), "exit status 0 although the evaluation is impossible: {}", out.show());
        ensure!(!out.stderr.trim().is_empty(), "failed without a message: {}", out.show());
        return Ok(());
    }
    cx.nontrivial_if(f.model.len() >= 2);
    cx.label_if(e.deco > 0 && e.deco < 9, "decorated ids");
    ensure!(out.ok(), "evaluation failed: {}", out.show());
    let scores: Vec<(String, BTreeMap<&String, f64>)> = metrics
        .iter()
        .map(|&(i, k)| {
            let m: Metric = gen::all_metrics(k)[i];
            (metric_name(i, k), f.model.iter().map(|(q, v)| (q, oracle::metric(v, m))).collect())
        })
        .collect();
    // What is printed.
    let n_rel = f.model.values().flat_map(|q| q.judged.values()).filter(|g| **g > 0).count();
    let head = [
        ("n_queries_in_true", f.model.len() + e.unretrieved),
        ("n_queries_in_pred", f.model.len()),
        ("n_docs_in_true", f.true_lines.len()),
        ("n_docs_in_pred", f.pred_lines.len()),
        ("n_relevant_docs", n_rel + (1..e.unretrieved).len()),
    ];
    let printed: Vec<Vec<&str>> = out.stdout.lines().map(|l| l.split('\t').collect()).collect();
    ensure!(printed.len() == head.len() + metrics.len(), "{} lines printed, expected {}: {}", printed.len(), head.len() + metrics.len(), out.stdout);
    for (row, (name, n)) in printed.iter().zip(head) {
        ensure!(row == &[name, n.to_string().as_str()], "printed {row:?}, expected {name} {n}");
    }
    for (row, (name, by_query)) in printed[head.len()..].iter().zip(&scores) {
        let mean = stat::mean(&by_query.values().copied().collect::<Vec<_>>());
        ensure!(
            row.len() == 2 && row[0] == name && shows(row[1], mean, 1e-10 * mean.abs() + 1e-10),
            "printed {row:?}, expected {name} {mean:.6}"
        );
    }
    // What is written.
    let csv = match out_csv {
        Some(o) => Some(cli::read(&dir, o)?),
        None => None,
    };
    if e.at % 7 == 3 && f.pred_lines.len() < 1000 {
        cx.label("standard output that fills up");
        fills_up(EVALUATE, &args, &dir, &out.stdout, e.at / 7)?;
    }
    let Some(text) = csv else { return Ok(()) };
    let rows = parse_csv(&text, if e.tab { '\t' } else { ',' })?;
    let mut header = vec!["query_id".to_string()];
    header.extend(scores.iter().map(|s| s.0.clone()));
    ensure!(rows.first() == Some(&header), "header {:?}, expected {header:?}", rows.first());
    let mut seen = BTreeSet::new();
    for row in &rows[1..] {
        ensure!(row.len() == header.len(), "row {row:?} has {} fields", row.len());
        ensure!(seen.insert(&row[0]), "query {:?} has two rows", row[0]);
        ensure!(f.model.contains_key(&row[0]), "row for the unknown query {:?}", row[0]);
        for (cell, (name, by_query)) in row[1..].iter().zip(&scores) {
            let want = by_query[&row[0]];
            let got: f64 = cell.parse().map_err(|_| format!("{name} of {:?} is {cell:?}", row[0]))?;
            ensure!(oracle::close(got, want, 1e-11), "{name} of query {:?} is {got:?}, expected {want:?}", row[0]);
        }
    }
    ensure!(seen.len() == f.model.len(), "{} rows for {} queries", seen.len(), f.model.len());
    Ok(())
}

/// Without room for all it prints, a tool must not report success.
fn fills_up(bin: &str, args: &[String], dir: &Path, stdout: &str, at: usize) -> Res {
    let room = if at % 5 == 0 { stdout.len() - 1 } else { at / 5 % stdout.len() };
    let out = cli::run_cramped(bin, args, dir, room);
    ensure!(!out.ok(), "exit status 0 although only {} of the {} bytes could be printed: {}", out.stdout.len(), stdout.len(), out.show());
    ensure!(out.code != Some(124), "did not end when the standard output was full: {}", out.show());
    let out = cli::run_cramped(bin, args, dir, stdout.len() + at % 2000);
    ensure!(out.ok(), "with room enough for the standard output: {}", out.show());
    Ok(())
}

fn json_last_bit(env: &Env) -> Probe {
    let mut cx = Cx::default();
    cx.scratch = Some(env.scratch.join("probe"));
    let dir = fresh_dir(&cx);
    cli::write(&dir, "t", "{\"query_id\":\"q\",\"doc_id\":\"b\",\"score\":1}\n");
    cli::write(
        &dir,
        "p",
        "{\"query_id\":\"q\",\"doc_id\":\"a\",\"score\":0.10957860598549463}\n{\"query_id\":\"q\",\"doc_id\":\"b\",\"score\":0.10957860598549464}\n",
    );
    let out = cli::run(EVALUATE, &strings(&["-t", "t", "-p", "p", "-m", "rr"]), &dir);
    match out.stdout.lines().last() {
        Some("rr\t1.0000") if out.ok() => Probe::Fixed,
        Some("rr\t0.5000") if out.ok() => Probe::Listed(
            "elinor-evaluate ranks a document of score 0.10957860598549463 above one of score 0.10957860598549464 (the JSON numbers are read as equal)".into(),
        ),
        _ => Probe::Different(format!("ranking of two documents with neighbouring scores: {}", out.show())),
    }
}

// ---------------------------------------------------------------- C25, C26

/// Score files for elinor-compare.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compare {
    ids: Vec<String>,
    header: String,
    /// Values by metric, topic and system; written as `value / divisor`.
    values: Vec<Vec<Vec<i64>>>,
    divisor: i64,
    names: Vec<String>,
    /// Per system: order of rows, order of columns, number of extra columns.
    orders: Vec<(u64, u64, usize)>,
    tab: bool,
    pretty: bool,
    n: Option<(usize, usize)>,
    spell: u8,
    /// How the files are written: line ends, quotes and the like; see `separated`.
    text: u8,
    /// Subtracted from every value.
    lower: i64,
    /// How the files are called.
    paths: u8,
}

fn topic_ids(n: usize) -> BoxedStrategy<Vec<String>> {
    let special = vec![
        "1", "01", "001", "1.0", "1e0", "+1", "-1", "0", "00", "0x1", "q1", "Q1", "true", "false", "null", "NaN", "nan", "inf", "NA", "None",
        "2020-01-01", "2020-01-01T00:00:00", "10:30", "9007199254740993", "9007199254740992", "18446744073709551616", "1_000", "a,b", "a\tb",
        "a\"b", "\"q\"", "é", "e\u{301}", "日本", "a b", "#1", "'1'", "-", "1.10", "1.1", "0.10", ".1", "1.", "99999999999999999999", "5-1", "1/2",
        // Told apart by space only, and fields of several lines.
        "q1 ", " q1", " ", "  ", "q1\u{a0}", "a b ", " a b", "\tq1", "a\nb", "a\r\nb", "a,b ", "q2", "Q2", "q2;x",
    ];
    prop_oneof![
        3 => gen::id_style().prop_map(move |style| (0..n).map(|i| gen::token(style, i)).collect::<Vec<String>>()),
        3 => Just(special).prop_shuffle().prop_map(move |v| {
            // Whether long files may have line breaks in fields is up to the reader of CSV files.
            let mut v: Vec<String> = v.into_iter().filter(|s| n < 100 || !s.contains('\n')).map(String::from).collect();
            for i in v.len()..n {
                v.push(format!("t{i}"));
            }
            v.truncate(n);
            v
        }),
        2 => (1i64..1000).prop_map(move |b| (0..n as i64).map(|i| (b + i).to_string()).collect()),
        1 => Just((0..n).map(|i| format!("{i:03}")).collect::<Vec<String>>()),
        // Many numbers, then a text.
        1 => Just((0..n).map(|i| if i + 1 == n { "q".to_string() } else { i.to_string() }).collect::<Vec<String>>()),
    ]
    .boxed()
}

fn metric_names(n: usize) -> BoxedStrategy<Vec<String>> {
    let pool = vec![
        "ap", "ndcg@5", "ndcg@10", "precision@3", "rr", "recall@1000", "my metric", "MRR", "f1", "score", "1", "P_5", "value", "Mean", "nDCG (Burges)",
        "system_0", "p-value", "x,y", "ap@10", "AP",
    ];
    Just(pool)
        .prop_shuffle()
        .prop_map(move |v| v.into_iter().take(n).map(String::from).collect())
        .boxed()
}

fn compare_case(systems: BoxedStrategy<usize>, topics: BoxedStrategy<usize>, levels: i64) -> BoxedStrategy<Compare> {
    (systems, topics, prop_oneof![14 => 1usize..4, 1 => 4usize..18])
        .prop_flat_map(move |(m, n, k)| {
            (
                topic_ids(n),
                select(vec!["query_id", "topic", "id", "qid", "", "topic id", "query_id", "query\tid", "query,id", "id ", " id", "numéro"]).prop_map(|s: &str| if s.is_empty() { "t".into() } else { s.to_string() }),
                vec(vec(vec(0..levels, m..=m), n..=n), k..=k),
                metric_names(k),
                vec((any::<u64>(), any::<u64>(), 0usize..3), m..=m),
                vec(0i64..levels / 2 + 1, m..=m),
                (
                    any::<bool>(),
                    any::<bool>(),
                    0u8..5,
                    prop_oneof![5 => Just(0u8), 5 => 1u8..8],
                    prop_oneof![3 => Just(0), 1 => 1..levels, 1 => Just(2 * levels)],
                    prop_oneof![2 => Just(0u8), 1 => 1u8..9],
                ),
                select(vec![1i64, 10, 8, 1000, 3, 7, 0, 0, 1_000_000, -1_000]),
            )
        })
        .prop_map(|(ids, header, mut values, names, orders, effects, (tab, pretty, spell, text, lower, paths), divisor)| {
            for row in values.iter_mut().flatten() {
                for (x, e) in row.iter_mut().zip(&effects) {
                    *x += e;
                }
            }
            Compare { ids, header, values, divisor, names, orders, tab, pretty, n: None, spell, text, lower, paths }
        })
        .boxed()
}

/// The text of a file. Bit 0 of `how`: lines end in CRLF, bit 1: every field is quoted, bit 2: no line end
/// after the last row.
fn separated(rows: &[Vec<String>], sep: char, how: u8) -> String {
    let end = if how & 1 == 1 { "\r\n" } else { "\n" };
    let mut text = String::new();
    for row in rows {
        let fields: Vec<String> = row
            .iter()
            .map(|f| if how & 2 == 2 { format!("\"{}\"", f.replace('"', "\"\"")) } else { csv_field(f, sep) })
            .collect();
        text += &fields.join(&sep.to_string());
        text += end;
    }
    if how & 4 == 4 {
        text.truncate(text.len().saturating_sub(end.len()));
    }
    text
}

impl Compare {
    fn systems(&self) -> usize {
        self.orders.len()
    }
    fn value(&self, k: usize, j: usize, i: usize) -> f64 {
        let x = self.values[k][j][i] - self.lower;
        match self.factor() {
            Some(f) => (x * f) as f64,
            None if self.divisor < 0 => (x * -self.divisor) as f64,
            None => x as f64 / self.divisor.max(1) as f64,
        }
    }
    /// With divisor 0 the values are integers whose means are exact, if possible.
    fn factor(&self) -> Option<i64> {
        stat::exact_factor(self.ids.len()).filter(|_| self.divisor == 0)
    }
    /// Topics by systems.
    fn table(&self, k: usize) -> Vec<Vec<f64>> {
        (0..self.ids.len()).map(|j| (0..self.systems()).map(|i| self.value(k, j, i)).collect()).collect()
    }
    fn spelt(&self, x: f64) -> String {
        match self.spell {
            0 if x.fract() == 0.0 => format!("{x:.1}"),
            1 if x != 0.0 => format!("{x:e}"),
            2 if x > 0.0 && x < 1e3 => format!("{x:?}"),
            4 => format!("{x}").replacen("0.", ".", usize::from(x.abs() < 1.0)),
            _ => format!("{x}"),
        }
    }
    /// The fields of the file of system `i`, the header first.
    fn rows(&self, i: usize) -> Vec<Vec<String>> {
        let m = self.systems();
        let (rows, cols, extra) = self.orders[i];
        // Columns: the metrics and some that only this system has.
        let mut names: Vec<(String, Option<usize>)> = self.names.iter().enumerate().map(|(k, n)| (n.clone(), Some(k))).collect();
        if m > 1 {
            for x in 0..extra {
                // Shared by two of the systems where there are more.
                names.push((format!("only_{}_{x}", if m > 2 { i / 2 } else { i }), None));
            }
        }
        Rng(cols).shuffle(&mut names);
        let mut topics: Vec<usize> = (0..self.ids.len()).collect();
        Rng(rows).shuffle(&mut topics);
        let mut out = vec![std::iter::once(self.header.clone()).chain(names.iter().map(|n| n.0.clone())).collect()];
        for j in topics {
            let mut row = vec![self.ids[j].clone()];
            for (x, (_, k)) in names.iter().enumerate() {
                row.push(match k {
                    Some(k) => self.spelt(self.value(*k, j, i)),
                    None => format!("{}.5", (j * 7 + x) % 11),
                });
            }
            out.push(row);
        }
        out
    }
    fn path(&self, dir: &Path, i: usize) -> String {
        match self.paths {
            1 => format!("my runs/system {i}.csv"),
            2 => format!("run[{i}].csv"),
            3 => format!("réseau-{i}.tsv"),
            4 => format!("{i}"),
            5 => format!("./-{i}.txt"),
            6 => dir.join(format!("scores.{i}.csv")).to_string_lossy().into_owned(),
            7 => format!("~{i}.csv"),
            8 => format!("{i}/scores.csv"),
            _ => format!("sys_{i}.csv"),
        }
    }
    fn write(&self, dir: &Path) -> Vec<String> {
        let sep = if self.tab { '\t' } else { ',' };
        (0..self.systems())
            .map(|i| cli::write(dir, &self.path(dir, i + 1), separated(&self.rows(i), sep, self.text.rotate_left(i as u32) & 7)))
            .collect()
    }
    /// All statistics of all metrics can be computed reliably.
    fn regular(&self) -> bool {
        let m = self.systems();
        (0..self.names.len()).all(|k| {
            let t = self.table(k);
            if m == 1 {
                return true;
            }
            if m == 2 {
                let d: Vec<f64> = t.iter().map(|r| r[0] - r[1]).collect();
                let v = stat::variance(&d);
                let mx = d.iter().fold(0.0f64, |a, x| a.max(x.abs()));
                return v > 0.0 && v.sqrt() > 1e-2 * mx;
            }
            let a = anova(&t);
            let st = a.sa + a.sb + a.se;
            a.se > 1e-6 * st
        })
    }
}

struct Anova {
    sys: Vec<f64>,
    sa: f64,
    sb: f64,
    se: f64,
}

fn anova(t: &[Vec<f64>]) -> Anova {
    let (n, m) = (t.len(), t[0].len());
    let all: Vec<f64> = t.iter().flatten().copied().collect();
    let g = stat::mean(&all);
    let sys: Vec<f64> = (0..m).map(|i| stat::mean(&t.iter().map(|r| r[i]).collect::<Vec<_>>())).collect();
    let top: Vec<f64> = t.iter().map(|r| stat::mean(r)).collect();
    let sq = |x: f64| x * x;
    Anova {
        sa: n as f64 * stat::sum(sys.iter().map(|x| sq(x - g))),
        sb: m as f64 * stat::sum(top.iter().map(|x| sq(x - g))),
        se: stat::sum(t.iter().zip(&top).flat_map(|(r, tj)| {
            let sys = &sys;
            r.iter().zip(sys).map(move |(x, s)| sq(x - s - tj + g))
        })),
        sys,
    }
}

/// The two-sided quantile of Student's t, by bisection on the independent tail function.
fn t_quantile(alpha: f64, df: u64) -> f64 {
    let (mut lo, mut hi) = (0.0f64, 1e9f64);
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if stat::t_two_sided(mid, df) > alpha {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    0.5 * (lo + hi)
}

fn find<'a>(secs: &'a [Section], heading: &str) -> Result<&'a Section, String> {
    let mut it = secs.iter().filter(|s| s.heading.contains(heading));
    match (it.next(), it.next()) {
        (Some(s), None) => Ok(s),
        (None, _) => Err(format!("no section {heading:?} in the report")),
        _ => Err(format!("several sections {heading:?} in the report")),
    }
}

/// A table as a map from (row label, column header) to the printed cell.
fn cells(s: &Section) -> Result<BTreeMap<(String, String), String>, String> {
    let Some(header) = s.rows.first() else { return Err(format!("{} is empty", s.heading)) };
    let mut out = BTreeMap::new();
    for row in &s.rows[1..] {
        ensure!(row.len() == header.len(), "{}: row {row:?} under header {header:?}", s.heading);
        for (h, c) in header.iter().zip(row).skip(1) {
            let old = out.insert((row[0].clone(), h.clone()), c.clone());
            ensure!(old.is_none(), "{}: two cells for {:?} {h:?}", s.heading, row[0]);
        }
    }
    Ok(out)
}

fn labels(s: &Section) -> BTreeSet<String> {
    s.rows.iter().skip(1).map(|r| r[0].clone()).collect()
}

fn cell<'a>(t: &'a BTreeMap<(String, String), String>, row: &str, col: &str) -> Result<&'a str, String> {
    t.get(&(row.to_string(), col.to_string()))
        .map(String::as_str)
        .ok_or_else(|| format!("no cell {row:?} / {col:?} in the report"))
}

fn expect(t: &BTreeMap<(String, String), String>, row: &str, col: &str, want: f64, tol: f64, what: &str) -> Res {
    let got = cell(t, row, col)?;
    ensure!(shows(got, want, tol), "{what}: {row} / {col} is {got}, expected {want:.7}");
    Ok(())
}

fn run_compare(c: &Compare, cx: &Cx) -> Result<(cli::Out, Vec<String>), String> {
    let dir = fresh_dir(cx);
    let files = c.write(&dir);
    cli::set_environment((c.orders[0].0 >> 8) as usize % 8);
    let mut args = vec![];
    if c.orders[0].0 % 2 == 0 {
        args.push("--input-csvs".to_string());
        args.extend(files.iter().cloned());
    } else {
        for f in &files {
            args.extend(strings(&["-i", f]));
        }
    }
    if c.tab {
        args.push("--tab-separator".into());
    }
    if !c.pretty || c.orders[0].1 % 2 == 0 {
        args.extend(strings(&["--print-mode", if c.pretty { "pretty" } else { "raw" }]));
    }
    if let Some((r, i)) = c.n {
        args.extend(strings(&["--n-resamples", &r.to_string(), "--n-iters", &i.to_string()]));
    }
    Ok((cli::run(COMPARE, &args, &dir), files))
}

fn basics(c: &Compare, secs: &[Section], files: &[String]) -> Res {
    let m = c.systems();
    let basic = cells(find(secs, "# Basic statistics")?)?;
    let mut counts = vec![("n_systems", m), ("n_topics", c.ids.len())];
    // Which metrics count when only some files have them is not documented.
    if m == 1 || c.orders.iter().all(|o| o.2 == 0) {
        counts.push(("n_metrics", c.names.len()));
    }
    for (key, want) in counts {
        let got = cell(&basic, key, "Value")?;
        ensure!(got == want.to_string(), "{key} is {got}, expected {want}");
    }
    if m > 1 {
        let alias = cells(find(secs, "# Alias")?)?;
        for (i, f) in files.iter().enumerate() {
            let got = cell(&alias, &format!("System_{}", i + 1), "Path")?;
            ensure!(got == f, "System_{} is {got}, expected {f}", i + 1);
        }
    }
    Ok(())
}

/// The sections of one metric in a comparison of three or more systems.
fn metric_part<'a>(secs: &'a [Section], name: &str) -> Result<&'a [Section], String> {
    let start = secs
        .iter()
        .position(|s| s.heading == format!("# {name}"))
        .ok_or_else(|| format!("no section of the metric {name:?}"))?;
    let len = secs[start + 1..].iter().take_while(|s| s.heading.starts_with("## ")).count();
    Ok(&secs[start..=start + len])
}

fn check_compare(c: &Compare, cx: &mut Cx) -> Res {
    let (m, n) = (c.systems(), c.ids.len());
    if !c.regular() {
        cx.label("degenerate");
        return Ok(());
    }
    let mut c = c.clone();
    if c.n.is_none() {
        c.n = Some((10, 10));
    }
    let (out, files) = run_compare(&c, cx)?;
    ensure!(out.ok(), "comparison failed: {}", out.show());
    cx.nontrivial_if(n >= 3);
    cx.label(["1 system", "2 systems", "3 systems", "4 systems or more"][(m - 1).min(3)]);
    cx.label_if(n > 100, "more than 100 topics");
    cx.label_if(m >= 10, "10 systems or more");
    cx.label_if(c.orders.iter().any(|o| o.2 > 0), "extra columns");
    let secs = sections(&out.stdout, c.pretty);
    basics(&c, &secs, &files)?;
    let names: BTreeSet<String> = c.names.iter().cloned().collect();
    let mean_of = |k: usize, i: usize| stat::mean(&c.table(k).iter().map(|r| r[i]).collect::<Vec<_>>());
    if m <= 2 {
        let means = find(&secs, "# Means")?;
        ensure!(labels(means) == names, "means of {:?}, expected {names:?}", labels(means));
        let t = cells(means)?;
        for (k, name) in c.names.iter().enumerate() {
            for i in 0..m {
                let col = if m == 1 { "Score".to_string() } else { format!("System_{}", i + 1) };
                let want = mean_of(k, i);
                expect(&t, name, &col, want, 1e-11 * want.abs() + 1e-12, "means")?;
            }
        }
    }
    if m == 2 {
        let sec = find(&secs, "Student's t-test")?;
        ensure!(sec.heading.contains("System_1 - System_2"), "the t-test is {:?}", sec.heading);
        ensure!(labels(sec) == names, "t-tests of {:?}, expected {names:?}", labels(sec));
        let t = cells(sec)?;
        for (k, name) in c.names.iter().enumerate() {
            let d: Vec<f64> = c.table(k).iter().map(|r| r[0] - r[1]).collect();
            let (mean, var) = (stat::mean(&d), stat::variance(&d));
            let se = (var / n as f64).sqrt();
            let ts = mean / se;
            let p = stat::t_two_sided(ts, n as u64 - 1);
            let moe = t_quantile(0.05, n as u64 - 1) * se;
            for (col, want, tol) in [
                ("Mean", mean, 1e-11 * d.iter().fold(1.0, |m: f64, x| m.max(x.abs()))),
                ("Var", var, 1e-9 * var),
                ("ES", mean / var.sqrt(), 1e-9 * (1.0 + (mean / var.sqrt()).abs())),
                ("t-stat", ts, 1e-8 * (1.0 + ts.abs())),
                ("p-value", p, 1e-6),
                ("95% MOE", moe, 1e-5 * moe),
            ] {
                expect(&t, name, col, want, tol, "t-test")?;
            }
        }
        for heading in ["Bootstrap test", "Fisher's randomized test"] {
            let sec = find(&secs, heading)?;
            ensure!(labels(sec) == names, "{heading} of {:?}, expected {names:?}", labels(sec));
        }
    }
    if m >= 3 {
        let (fa, fb) = ((m - 1) as f64, (n - 1) as f64);
        let fe = fa * fb;
        let shown: BTreeSet<String> =
            secs.iter().filter_map(|s| s.heading.strip_prefix("# ")).filter(|h| !["Basic statistics", "Alias"].contains(h)).map(String::from).collect();
        ensure!(shown == names, "metrics {shown:?}, expected {names:?}");
        for (k, name) in c.names.iter().enumerate() {
            let part = metric_part(&secs, name)?;
            let a = anova(&c.table(k));
            let mx = c.table(k).iter().flatten().fold(0.0f64, |s, x| s.max(x.abs()));
            let slack = 1e-11 * mx * mx * (n * m) as f64;
            let ve = a.se / fe;
            let moe = t_quantile(0.05, fe as u64) * (ve / n as f64).sqrt();
            let t = cells(find(part, "System means")?)?;
            for i in 0..m {
                let row = format!("System_{}", i + 1);
                expect(&t, &row, "Mean", a.sys[i], 1e-11 * mx, "system means")?;
                expect(&t, &row, "95% MOE", moe, 1e-5 * moe + 1e-9, "system means")?;
            }
            let t = cells(find(part, "ANOVA")?)?;
            for (row, s, f) in [("Between-systems", a.sa, fa), ("Between-topics", a.sb, fb), ("Residual", a.se, fe)] {
                expect(&t, row, "Variation", s, 1e-9 * s + slack, "ANOVA")?;
                expect(&t, row, "Variance", s / f, 1e-9 * s / f + slack, "ANOVA")?;
                let df = cell(&t, row, "DF")?;
                ensure!(df == format!("{f}"), "ANOVA: degrees of freedom of {row} are {df}, expected {f}");
                if row != "Residual" {
                    let fs = s / f / ve;
                    let tol = 1e-7 * (1.0 + fs) + slack / f / ve + fs * 2.0 * slack / a.se;
                    expect(&t, row, "F-stat", fs, tol, "ANOVA")?;
                    expect(&t, row, "p-value", stat::f_sf(fs, f as u64, fe as u64), 1e-6 + tol, "ANOVA")?;
                }
            }
            let t = cells(find(part, "Effect sizes")?)?;
            for i in 0..m {
                for j in 0..m {
                    let want = (a.sys[i] - a.sys[j]) / ve.sqrt();
                    expect(&t, &format!("System_{}", i + 1), &format!("System_{}", j + 1), want, 1e-7 * (1.0 + want.abs()), "effect sizes")?;
                }
            }
            find(part, "randomized Tukey HSD")?;
        }
    }
    Ok(())
}

/// Both print modes and both separators give the same values (the random parts aside).
fn check_modes(c: &Compare, cx: &mut Cx) -> Res {
    if !c.regular() {
        return Ok(());
    }
    let strip = |v: Vec<Section>| -> Vec<Section> {
        v.into_iter()
            .filter(|s| !["Bootstrap", "Fisher", "randomized", "Alias"].iter().any(|r| s.heading.contains(r)))
            .collect()
    };
    let mut all: Vec<(bool, bool, Vec<Section>)> = vec![];
    for (tab, pretty) in [(false, false), (true, true), (c.tab, !c.pretty)] {
        let mut v = c.clone();
        v.tab = tab;
        v.pretty = pretty;
        v.n = Some((5, 5));
        let (out, _) = run_compare(&v, cx)?;
        ensure!(out.ok(), "comparison failed: {}", out.show());
        all.push((tab, pretty, strip(sections(&out.stdout, pretty))));
    }
    cx.nontrivial();
    for w in all.windows(2) {
        if w[0].2 != w[1].2 {
            let diff = w[0].2.iter().zip(&w[1].2).find(|(a, b)| a != b);
            return Err(format!(
                "tab {} pretty {} and tab {} pretty {} differ: {diff:?}",
                w[0].0, w[0].1, w[1].0, w[1].1
            ));
        }
    }
    Ok(())
}

fn check_random(c: &Compare, cx: &mut Cx) -> Res {
    let (m, n) = (c.systems(), c.ids.len());
    if !c.regular() {
        cx.label("degenerate");
        return Ok(());
    }
    let (out, _) = run_compare(c, cx)?;
    ensure!(out.ok(), "comparison failed: {}", out.show());
    let secs = sections(&out.stdout, c.pretty);
    let (nr, ni) = c.n.unwrap_or((10000, 10000));
    cx.label(["", "", "2 systems", "3 systems", "4 systems or more"][m.min(4)]);
    cx.label_if(c.n.is_none(), "default numbers");
    cx.label_if(m >= 10, "10 systems or more");
    cx.label_if(n >= 100, "100 topics or more");
    // A printed value, four decimals: a frequency of `trials`.
    let check = |what: String, printed: &str, trials: usize, lo: f64, hi: f64, pair: bool| -> Res {
        let Ok(p) = printed.parse::<f64>() else { return Err(format!("{what}: p-value {printed:?}")) };
        let count = (p * trials as f64).round();
        ensure!(
            printed == format!("{:.4}", count / trials as f64) || trials > 5000,
            "{what}: {printed} is no frequency of {trials} trials"
        );
        let p = if trials > 5000 { p } else { count / trials as f64 };
        let (lo, hi) = if trials > 5000 { (lo - 5.1e-5, hi + 5.1e-5) } else { (lo, hi) };
        let ok = if pair {
            (p >= lo && p <= hi) || stat::plausible_pair(p, trials, if p < lo { lo.clamp(0.0, 1.0) } else { hi.clamp(0.0, 1.0) }, 4000)
        } else {
            stat::plausible(p, trials, lo, hi)
        };
        ensure!(ok, "{what}: p-value {printed} from {trials} trials, expected {lo:.4} to {hi:.4}");
        Ok(())
    };
    if m == 2 {
        let boot = find(&secs, "Bootstrap test")?;
        ensure!(boot.heading.contains(&format!("n_resamples = {nr}")), "heading {:?}, {nr} resamples requested", boot.heading);
        let fisher = find(&secs, "Fisher's randomized test")?;
        ensure!(fisher.heading.contains(&format!("n_iters = {ni}")), "heading {:?}, {ni} iterations requested", fisher.heading);
        let (boot, fisher) = (cells(boot)?, cells(fisher)?);
        for (k, name) in c.names.iter().enumerate() {
            let d: Vec<f64> = c.table(k).iter().map(|r| r[0] - r[1]).collect();
            let (lo, hi, pair) = if n <= 7 {
                let (lo, hi) = stat::exact_bootstrap(&d);
                (lo, hi, false)
            } else {
                let (lo, hi) = stat::simulate_bootstrap(&d, 4000, &mut Rng(c.orders[0].0));
                (lo, hi, true)
            };
            cx.nontrivial_if(lo > 0.005 && hi < 0.995);
            check(format!("bootstrap test of {name}"), cell(&boot, name, "p-value")?, nr, lo, hi, pair)?;
            let (want, pair) = tukey(&c.values[k], 2, c.orders[0].1);
            let (lo, hi) = want[0][1];
            let lo = if c.factor().is_some() { hi } else { lo };
            cx.nontrivial_if(lo > 0.005 && hi < 0.995);
            check(format!("Fisher's test of {name}"), cell(&fisher, name, "p-value")?, ni, lo, hi, pair)?;
        }
    } else {
        for (k, name) in c.names.iter().enumerate() {
            let sec = find(metric_part(&secs, name)?, "randomized Tukey HSD")?;
            ensure!(sec.heading.contains(&format!("n_iters = {ni}")), "heading {:?}, {ni} iterations requested", sec.heading);
            let t = cells(sec)?;
            let (want, pair) = tukey(&c.values[k], m, c.orders[0].1);
            for i in 0..m {
                for j in 0..m {
                    let got = cell(&t, &format!("System_{}", i + 1), &format!("System_{}", j + 1))?;
                    if i == j {
                        ensure!(got == "1.0000", "p-value of System_{} with itself is {got}", i + 1);
                        continue;
                    }
                    let (lo, hi) = want[i][j];
                    let lo = if c.factor().is_some() { hi } else { lo };
                    cx.nontrivial_if(lo > 0.005 && hi < 0.995);
                    check(format!("randomized Tukey HSD test of {name}, systems {} and {}", i + 1, j + 1), got, ni, lo, hi, pair)?;
                }
            }
        }
    }
    Ok(())
}

fn tukey(values: &[Vec<i64>], m: usize, seed: u64) -> (Vec<Vec<(f64, f64)>>, bool) {
    match stat::exact_tukey(values, m, 20_000) {
        Some(t) => (t, false),
        None => (stat::simulate_tukey(values, m, 4000, &mut Rng(seed)), true),
    }
}

fn random_case() -> BoxedStrategy<Compare> {
    (
        compare_case(
            prop_oneof![16 => Just(2usize), 8 => Just(3usize), 4 => Just(4usize), 1 => 5usize..13].boxed(),
            prop_oneof![20 => 3usize..8, 14 => 6usize..20, 2 => 20usize..60, 1 => 100usize..260].boxed(),
            10,
        ),
        prop_oneof![
            5 => (500usize..3000, 500usize..3000).prop_map(Some),
            1 => (1usize..5, 1usize..5).prop_map(Some),
            1 => Just(None),
        ],
    )
        .prop_map(|(mut c, n)| {
            // The debug build of the tool is slow on large tables.
            if c.ids.len() * c.systems() > 50 {
                c.names.truncate(3);
                c.values.truncate(3);
            }
            let cells = c.ids.len() * c.systems() * c.names.len();
            c.n = if cells > 200 { Some(n.map_or((900, 900), |(r, i)| (r.min(900), i.min(900)))) } else { n };
            c
        })
        .boxed()
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pipeline {
    qrels: Collection,
    /// One score list per run, over the documents of `qrels`; every query has a result.
    runs: Vec<Vec<Vec<Option<F>>>>,
    deco: u8,
    metrics: Vec<(usize, usize)>,
    tab: bool,
    pretty: bool,
    order: u64,
}

fn pipeline() -> BoxedStrategy<Pipeline> {
    let sizes: fn() -> BoxedStrategy<usize> = || prop_oneof![5 => 2usize..8, 2 => 5usize..25].boxed();
    (
        gen::collection(prop_oneof![4 => 3usize..10, 1 => 10usize..40].boxed(), sizes, false),
        prop_oneof![2 => Just(1usize), 3 => Just(2usize), 3 => Just(3usize)],
        0u8..10,
        vec((0..11usize, prop_oneof![1 => Just(0usize), 3 => 1usize..12]), 1..4),
        any::<bool>(),
        any::<bool>(),
        any::<u64>(),
    )
        .prop_flat_map(|(qrels, m, deco, metrics, tab, pretty, order)| {
            let one: Vec<_> = qrels
                .topics
                .iter()
                .map(|t| vec(prop::option::weighted(0.8, prop_oneof![(-100i32..100).prop_map(|x| x as f64 / 4.0), 0.0f64..1.0].prop_map(F)), t.docs.len()))
                .collect();
            (Just(qrels), vec(one, m..=m), Just((deco, metrics, tab, pretty, order)))
        })
        .prop_map(|(qrels, mut runs, (deco, metrics, tab, pretty, order))| {
            for s in runs.iter_mut().flatten() {
                for x in s.iter_mut().flatten() {
                    x.0 = tame(x.0);
                }
                if s.iter().all(Option::is_none) {
                    s[0] = Some(F(0.5));
                }
            }
            let mut seen = BTreeSet::new();
            let metrics = metrics
                .into_iter()
                .map(|(i, k)| (i, oracle::k_of(gen::all_metrics(k)[i])))
                .filter(|x| seen.insert(*x))
                .collect();
            Pipeline { qrels, runs, deco, metrics, tab, pretty, order }
        })
        .boxed()
}

fn bulk_pipeline() -> BoxedStrategy<Pipeline> {
    (gen::bulk_collection(20_000), 1usize..4, vec((0..11usize, prop_oneof![1 => Just(0usize), 3 => 1usize..2000]), 1..4), any::<bool>(), any::<u64>())
        .prop_map(|(qrels, m, metrics, tab, order)| {
            let mut rng = Rng(order);
            let runs = (0..m)
                .map(|_| {
                    qrels
                        .topics
                        .iter()
                        .map(|t| {
                            (0..t.docs.len())
                                .map(|d| (d == 0 || rng.below(5) > 0).then(|| F(rng.below(1 << 20) as f64 / 1024.0)))
                                .collect()
                        })
                        .collect()
                })
                .collect();
            let mut seen = BTreeSet::new();
            let metrics = metrics
                .into_iter()
                .map(|(i, k)| (i, oracle::k_of(gen::all_metrics(k)[i])))
                .filter(|x| seen.insert(*x))
                .collect();
            let metrics = affordable(metrics, &qrels);
            Pipeline { qrels, runs, deco: 0, metrics, tab, pretty: !tab, order }
        })
        .boxed()
}

/// Ids without white space.
fn solid(s: &str, how: u8) -> String {
    let s = if s.is_empty() { "_" } else { s };
    match how {
        1 => format!("{s},x"),
        2 => format!("\"{s}\""),
        3 => format!("\"{s}"),
        4 => format!("{s}\u{301}"),
        5 => format!("#{s}"),
        6 => format!("{s}'|\\"),
        7 => format!("0{s}"),
        _ => s.to_string(),
    }
}

fn check_pipeline(p: &Pipeline, cx: &mut Cx) -> Res {
    let dir = fresh_dir(cx);
    let m = p.runs.len();
    // The TREC files, and the model.
    let mut qrels: Vec<String> = vec![];
    let mut runs: Vec<Vec<String>> = vec![vec![]; m];
    let mut models: Vec<BTreeMap<String, Query>> = vec![BTreeMap::new(); m];
    let mut names = BTreeSet::new();
    for (ti, t) in p.qrels.topics.iter().enumerate() {
        let qid = solid(&p.qrels.qid(t), p.deco);
        if !names.insert(qid.clone()) {
            // Two spellings of the empty id.
            return Ok(());
        }
        let mut judged = BTreeMap::new();
        let mut docs = BTreeSet::new();
        for d in &t.docs {
            let did = solid(&gen::id(t.style, d.n), 0);
            if !docs.insert(did.clone()) {
                return Ok(());
            }
            if let Some(g) = d.grade {
                // The TREC grade is a signed 32-bit integer.
                let g = g.min(i32::MAX as u32);
                qrels.push(if g == 0 && d.n % 2 == 0 { format!("{qid} 0 {did} -1") } else { format!("{qid}\t0\t{did}\t{g}") });
                judged.insert(did, g);
            }
        }
        for (r, (lines, model)) in runs.iter_mut().zip(&mut models).enumerate() {
            let mut retrieved = BTreeMap::new();
            for (d, s) in t.docs.iter().zip(&p.runs[r][ti]) {
                if let Some(s) = s {
                    let did = solid(&gen::id(t.style, d.n), 0);
                    lines.push(format!("{qid} Q0 {did} {} {} run{r}", d.n, s.0));
                    retrieved.insert(did, s.0);
                }
            }
            model.insert(qid.clone(), Query { judged: judged.clone(), retrieved });
        }
    }
    Rng(p.order).shuffle(&mut qrels);
    for (r, l) in runs.iter_mut().enumerate() {
        Rng(p.order ^ (r as u64 + 1)).shuffle(l);
    }
    cli::write(&dir, "qrels.trec", qrels.join("\n") + "\n");
    for (r, l) in runs.iter().enumerate() {
        cli::write(&dir, &format!("run_{r}.trec"), l.join("\n") + "\n");
    }
    // The expected values.
    let score = |r: usize, (i, k): (usize, usize)| -> Vec<f64> {
        models[r].values().map(|q| oracle::metric(q, gen::all_metrics(k)[i])).collect()
    };
    let metric_names: Vec<String> = p.metrics.iter().map(|&(i, k)| metric_name(i, k)).collect();

    let step = |what: &str, out: cli::Out| -> Res {
        ensure!(out.ok(), "{what} failed: {}", out.show());
        Ok(())
    };
    cli::set_environment((p.order >> 8) as usize % 8);
    step("converting the qrels", cli::run(CONVERT, &strings(&["-i", "qrels.trec", "-o", "qrels.jsonl", "-r", "true"]), &dir))?;
    let mut csvs = vec![];
    for r in 0..m {
        let (trec, jsonl, csv) = (format!("run_{r}.trec"), format!("run_{r}.jsonl"), format!("run_{r}.csv"));
        step("converting a run", cli::run(CONVERT, &strings(&["-i", &trec, "-o", &jsonl, "-r", "pred"]), &dir))?;
        let mut args = strings(&["-t", "qrels.jsonl", "-p", &jsonl, "-o", &csv]);
        if p.tab {
            args.push("--tab-separator".into());
        }
        args.push("-m".into());
        args.extend(metric_names.iter().cloned());
        step("evaluating a run", cli::run(EVALUATE, &args, &dir))?;
        csvs.push(csv);
    }
    let compare = |files: &[String]| {
        let mut args = strings(&["--n-iters", "5", "--n-resamples", "5", "-p", if p.pretty { "pretty" } else { "raw" }]);
        if p.tab {
            args.push("--tab-separator".into());
        }
        args.push("-i".into());
        args.extend(files.iter().cloned());
        cli::run(COMPARE, &args, &dir)
    };
    cx.nontrivial_if(p.qrels.topics.len() >= 3);
    // Each run by itself: only means.
    for (r, csv) in csvs.iter().enumerate() {
        if m > 1 && r > 0 {
            break;
        }
        let out = compare(std::slice::from_ref(csv));
        ensure!(out.ok(), "comparing one file failed: {}", out.show());
        let secs = sections(&out.stdout, p.pretty);
        let basic = cells(find(&secs, "# Basic statistics")?)?;
        ensure!(cell(&basic, "n_topics", "Value")? == names.len().to_string(), "n_topics is {}, expected {}", cell(&basic, "n_topics", "Value")?, names.len());
        let t = cells(find(&secs, "# Means")?)?;
        for (&ik, name) in p.metrics.iter().zip(&metric_names) {
            let want = stat::mean(&score(r, ik));
            expect(&t, name, "Score", want, 1e-10 * (1.0 + want.abs()), "means of one run")?;
        }
    }
    if m == 1 {
        return Ok(());
    }
    // All runs, if the statistics exist.
    let regular = p.metrics.iter().all(|&ik| {
        let cols: Vec<Vec<f64>> = (0..m).map(|r| score(r, ik)).collect();
        let t: Vec<Vec<f64>> = (0..names.len()).map(|j| cols.iter().map(|c| c[j]).collect()).collect();
        if m == 2 {
            let d: Vec<f64> = t.iter().map(|r| r[0] - r[1]).collect();
            stat::variance(&d).sqrt() > 1e-4 * d.iter().fold(0.0f64, |a, x| a.max(x.abs()))
        } else {
            let a = anova(&t);
            a.se > 1e-6 * (a.sa + a.sb + a.se)
        }
    });
    if !regular {
        cx.label("runs too alike");
        return Ok(());
    }
    cx.label(if m == 2 { "two runs compared" } else { "three runs compared" });
    let out = compare(&csvs);
    ensure!(out.ok(), "comparison failed: {}", out.show());
    let secs = sections(&out.stdout, p.pretty);
    for (&ik, name) in p.metrics.iter().zip(&metric_names) {
        for r in 0..m {
            let want = stat::mean(&score(r, ik));
            let sys = format!("System_{}", r + 1);
            let tol = 1e-10 * (1.0 + want.abs());
            if m == 2 {
                expect(&cells(find(&secs, "# Means")?)?, name, &sys, want, tol, "means")?;
            } else {
                expect(&cells(find(metric_part(&secs, name)?, "System means")?)?, &sys, "Mean", want, tol, "system means")?;
            }
        }
        if m == 2 {
            let d: Vec<f64> = score(0, ik).iter().zip(score(1, ik)).map(|(a, b)| a - b).collect();
            let (mean, var) = (stat::mean(&d), stat::variance(&d));
            let t = cells(find(&secs, "Student's t-test")?)?;
            expect(&t, name, "Mean", mean, 1e-9 * (1.0 + mean.abs()), "t-test")?;
            expect(&t, name, "Var", var, 1e-7 * (1e-6 + var), "t-test")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

/// Input that elinor-compare cannot analyse.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse {
    c: Compare,
    /// What is wrong; see `check_refuse`. Out of range: nothing.
    damage: u8,
    at: usize,
    how: usize,
}

fn refuse() -> BoxedStrategy<Refuse> {
    (
        compare_case(prop_oneof![1 => Just(1usize), 4 => Just(2usize), 3 => 3usize..6].boxed(), prop_oneof![6 => 2usize..9, 1 => 9usize..40].boxed(), 30),
        prop_oneof![1 => Just(99u8), 12 => 0u8..22],
        any::<usize>(),
        any::<usize>(),
    )
        .prop_map(|(mut c, damage, at, how)| {
            c.n = Some((5, 5));
            Refuse { c, damage, at, how }
        })
        .boxed()
}

fn check_refuse(r: &Refuse, cx: &mut Cx) -> Res {
    let mut c = r.c.clone();
    if !c.regular() {
        return Ok(());
    }
    let (m, n) = (c.systems(), c.ids.len());
    let dir = fresh_dir(cx);
    let at = r.at % m;
    let sep = if c.tab { '\t' } else { ',' };
    let mut files: Vec<Vec<Vec<String>>> = (0..m).map(|i| c.rows(i)).collect();
    // A data row, and a column all files have.
    let row = 1 + r.how / 64 % n;
    let name = c.names[r.how / 8 % c.names.len()].clone();
    let column = |f: &Vec<Vec<String>>| f[0].iter().skip(1).position(|h| *h == name).map_or(1, |x| x + 1);
    let mut paths: Vec<String> = (0..m).map(|i| format!("sys_{}.csv", i + 1)).collect();
    let mut extra: Vec<String> = vec![];
    let mut tab_flag = c.tab;
    let mut raw_end: &[u8] = b"";
    let needs_two = matches!(r.damage, 5 | 6 | 7 | 8 | 9 | 10 | 11 | 15 | 18 | 19 | 20);
    if needs_two && m < 2 {
        return Ok(());
    }
    let label = match r.damage {
        0 => {
            paths[at] = "absent.csv".into();
            "missing file"
        }
        1 => {
            files[at].clear();
            "empty file"
        }
        2 => {
            files[at][row].push("1.0".into());
            "row with a field too many"
        }
        3 => {
            let col = column(&files[at]);
            let bad = ["x", "0.5x", "--1", "n/a", "1 2", "1.2.3", "0,5", "1e", "0x10", "½", "-", "1_000", "$1", "5%"];
            files[at][row][col] = bad[r.how % bad.len()].into();
            "cell that is not a number"
        }
        4 => {
            let col = column(&files[at]);
            files[at][row][col] = if r.how % 2 == 0 { String::new() } else { "BLANK".into() };
            "cell without a value"
        }
        5 => {
            files[at][0][0] += ["2", "_", "s", "Q"][r.how % 4];
            "different topic headers"
        }
        6 => {
            for (k, h) in files[at][0].iter_mut().enumerate().skip(1) {
                *h = format!("none_{k}");
            }
            "no common metric"
        }
        7 => {
            files[at].remove(row);
            "topic missing from one file"
        }
        8 => {
            let mut new = files[at][row].clone();
            new[0] = "one more".into();
            files[at].insert(row, new);
            "topic only in one file"
        }
        9 => {
            let old = files[at][row][0].clone();
            let new = [format!("0{old}"), format!("{old} "), format!("{old}.0"), "other".into(), format!("{old}{old}_")][r.how % 5].clone();
            if c.ids.contains(&new) {
                return Ok(());
            }
            files[at][row][0] = new;
            "topic under another name in one file"
        }
        10 => {
            let mut new = files[at][row].clone();
            if r.how % 2 == 0 {
                let col = column(&files[at]);
                new[col] = "0.125".into();
            }
            let end = files[at].len();
            files[at].insert(if r.how % 3 == 0 { end } else { row }, new);
            "topic repeated in one file"
        }
        11 => {
            for f in &mut files {
                f.sort_by_key(|l| l[0] != c.header);
                f.truncate(1);
                let mut l = vec![c.ids[0].clone()];
                l.extend((1..f[0].len()).map(|x| format!("0.{x}")));
                f.push(l);
            }
            "a single topic"
        }
        12 => {
            paths.clear();
            "no input"
        }
        13 => {
            extra = strings(&["--print-mode", ["fancy", "Pretty ", "", "0", "pretty,raw"][r.how % 5]]);
            "unknown print mode"
        }
        14 => {
            let opt = ["--n-iters", "--n-resamples"][r.at % 2];
            extra = vec![format!("{opt}={}", ["ten", "-5", "1.5", "1e3", "", "99999999999999999999999"][r.how % 6])];
            "count that is not an integer"
        }
        15 => {
            tab_flag = !c.tab;
            "wrong separator"
        }
        16 => {
            paths[at] = ".".into();
            "directory as input"
        }
        17 => {
            raw_end = if c.tab { b"\xff\xfe\t1\n" } else { b"\xff\xfe,1\n" };
            "input that is not UTF-8"
        }
        18 => {
            for f in &mut files {
                f.truncate(1);
            }
            "no topic"
        }
        19 => {
            // A topic repeated everywhere cannot be paired either.
            for f in &mut files {
                if let Some(l) = f.iter().skip(1).find(|l| l[0] == c.ids[r.how % n]).cloned() {
                    f.push(l);
                }
            }
            "topic repeated in every file"
        }
        20 => {
            // The same difference (with three or more systems: score) for every topic.
            for (i, f) in files.iter_mut().enumerate() {
                let col = column(f);
                for l in f.iter_mut().skip(1) {
                    let topic = c.ids.iter().position(|t| *t == l[0]).unwrap_or(0);
                    l[col] = if m == 2 { (topic * (r.how % 2) + i * (r.how / 2 % 4)).to_string() } else { (r.how % 3).to_string() };
                }
            }
            "no variance under one metric"
        }
        21 => "standard output that fills up",
        _ => "nothing wrong",
    };
    cx.label(label);
    let headers: Vec<String> = files.iter().filter_map(|f| f.first().map(|l| l[0].clone())).collect();
    for (i, f) in files.iter().enumerate() {
        let mut bytes = separated(f, sep, if r.damage == 4 || r.damage == 17 { 0 } else { c.text }).replace("BLANK", "").into_bytes();
        if i == at {
            bytes.extend_from_slice(raw_end);
        }
        cli::write(&dir, &format!("sys_{}.csv", i + 1), bytes);
    }
    c.tab = tab_flag;
    let mut args = extra;
    if !paths.is_empty() {
        args.push("-i".into());
        args.extend(paths);
    }
    if c.tab {
        args.push("--tab-separator".into());
    }
    if r.damage != 13 {
        args.extend(strings(&["-p", if c.pretty { "pretty" } else { "raw" }]));
    }
    if r.damage != 14 {
        args.extend(strings(&["--n-resamples", "5", "--n-iters", "5"]));
    }
    let out = cli::run(COMPARE, &args, &dir);
    if r.damage == 21 {
        ensure!(out.ok(), "a comparison of sound files failed: {}", out.show());
        cx.nontrivial();
        return fills_up(COMPARE, &args, &dir, &out.stdout, r.how);
    }
    if r.damage > 20 {
        ensure!(out.ok(), "a comparison of sound files failed: {}", out.show());
        return Ok(());
    }
    cx.nontrivial();
    ensure!(!out.ok(), "exit status 0 in spite of: {label}: {}", out.show());
    ensure!(!out.stderr.trim().is_empty(), "{label}: failed without a message: {}", out.show());
    ensure!(out.code != Some(124), "{label}: did not end: {}", out.show());
    if r.damage == 5 {
        for h in headers {
            // Other characters may be escaped.
            let plain = h.chars().all(|c| c.is_alphanumeric() || c == '_');
            ensure!(!plain || out.stderr.contains(&h), "{label}: the message does not show the header {h:?}: {}", out.show());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C31

/// A command line: which tool, how each option is written, and what is wrong with it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forms {
    tool: u8,
    styles: Vec<u8>,
    order: u64,
    /// Out of range: nothing is wrong.
    bad: u8,
    how: usize,
    metrics: Vec<(usize, usize)>,
    grades: Vec<u32>,
    files: u8,
}

fn forms() -> BoxedStrategy<Forms> {
    (
        0u8..3,
        vec(0u8..5, 8),
        any::<u64>(),
        prop_oneof![3 => Just(99u8), 2 => 0u8..9],
        any::<usize>(),
        metric_list(),
        vec(0u32..4, 6..12),
        0u8..4,
    )
        .prop_map(|(tool, styles, order, bad, how, metrics, grades, files)| Forms { tool, styles, order, bad, how, metrics, grades, files })
        .boxed()
}

/// An option: short name, long name, values; none for a flag.
struct Opt(&'static str, &'static str, Vec<String>);

fn spell_option(o: &Opt, style: u8) -> Vec<String> {
    let Opt(short, long, values) = o;
    if values.is_empty() {
        return vec![long.to_string()];
    }
    let style = if short.is_empty() { 2 + style % 2 } else { style };
    if values.len() > 1 && style == 4 {
        // All the values after one name.
        return std::iter::once(if short.is_empty() { long } else { short }.to_string()).chain(values.iter().cloned()).collect();
    }
    let mut out = vec![];
    for v in values {
        match style {
            0 => out.extend([short.to_string(), v.clone()]),
            1 => out.push(format!("{short}{v}")),
            2 => out.extend([long.to_string(), v.clone()]),
            3 => out.push(format!("{long}={v}")),
            _ => out.push(format!("{short}={v}")),
        }
    }
    out
}

fn check_forms(f: &Forms, cx: &mut Cx) -> Res {
    let dir = fresh_dir(cx);
    let name = |stem: &str| match f.files {
        0 => stem.to_string(),
        1 => format!("./{stem}"),
        2 => format!("a b,{stem}"),
        _ => format!("é=\"{stem}\""),
    };
    let (mut qrels, mut t, mut p) = (String::new(), String::new(), String::new());
    let mut csv = [String::from("query_id,ap,rr\n"), String::from("query_id,ap,rr\n"), String::from("query_id,ap,rr\n")];
    for (i, g) in f.grades.iter().enumerate() {
        let (q, d) = (i % 3, i);
        qrels += &format!("q{q} 0 d{d} {g}\n");
        t += &format!("{{\"query_id\":\"q{q}\",\"doc_id\":\"d{d}\",\"score\":{g}}}\n");
        p += &format!("{{\"query_id\":\"q{q}\",\"doc_id\":\"d{}\",\"score\":{}.5}}\n", d, (i * 5) % 7);
        for (s, c) in csv.iter_mut().enumerate() {
            // The difference of two systems is not the same for all topics.
            let v = |k: usize| (i * 7 % (5 + k) + s * (i * i % 3) + *g as usize) as f64 / 10.0;
            *c += &format!("t{i},{},{}\n", v(0), v(1));
        }
    }
    let (bin, opts) = match f.tool {
        0 => {
            let input = cli::write(&dir, &name("in.trec"), &qrels);
            (CONVERT, vec![Opt("-i", "--input-trec", vec![input]), Opt("-r", "--rel-type", vec!["true".into()])])
        }
        1 => {
            let ti = cli::write(&dir, &name("t.jsonl"), &t);
            let pi = cli::write(&dir, &name("p.jsonl"), &p);
            let mut v = vec![Opt("-t", "--true-jsonl", vec![ti]), Opt("-p", "--pred-jsonl", vec![pi])];
            if !f.metrics.is_empty() {
                v.push(Opt("-m", "--metrics", f.metrics.iter().map(|&(i, k)| metric_name(i, k)).collect()));
            }
            if f.how % 2 == 0 {
                v.push(Opt("", "--tab-separator", vec![]));
            }
            (EVALUATE, v)
        }
        _ => {
            let m = 1 + f.how % 3;
            let paths = (0..m).map(|i| cli::write(&dir, &name(&format!("s{i}.csv")), &csv[i])).collect();
            let mut v = vec![
                Opt("-i", "--input-csvs", paths),
                Opt("", "--n-iters", vec!["20".into()]),
                Opt("", "--n-resamples", vec!["30".into()]),
            ];
            if f.how / 3 % 3 > 0 {
                v.push(Opt("-p", "--print-mode", vec![["pretty", "raw"][f.how / 9 % 2].into()]));
            }
            (COMPARE, v)
        }
    };
    let output = |stem: &str| match f.tool {
        0 => Some(Opt("-o", "--output-jsonl", vec![name(stem)])),
        1 => Some(Opt("-o", "--output-csv", vec![name(stem)])),
        _ => None,
    };
    // The plain form: long names, separate values, in the order of the help text.
    let plain: Vec<String> = opts.iter().chain(&output("plain")).flat_map(|o| spell_option(o, 2)).collect();
    let want = cli::run(bin, &plain, &dir);
    // Another form of the same command line.
    let mut parts: Vec<Vec<String>> = opts
        .iter()
        .chain(&output("form"))
        .zip(f.styles.iter().cycle())
        .map(|(o, s)| spell_option(o, *s))
        .collect();
    Rng(f.order).shuffle(&mut parts);
    let single = |o: &Opt| o.2.len() == 1 && !["--metrics", "--input-csvs"].contains(&o.1);
    let label = match f.bad {
        0 => {
            parts.push(vec![["--none", "-x", "--output", "--input", "--metric-s"][f.how % 5].to_string() + ["", "=1"][f.how / 5 % 2]]);
            "unknown option"
        }
        1 => {
            // All but elinor-compare need each of these.
            let name = [["-i", "--input-trec"], ["-t", "--true-jsonl"], ["-i", "--input-csvs"]][f.tool as usize];
            parts.retain(|p| !p[0].starts_with(name[1]) && (p[0].starts_with("--") || !p[0].starts_with(name[0])));
            "required option left out"
        }
        2 => {
            let Some(o) = opts.iter().find(|o| single(o)) else { return Ok(()) };
            parts.push(spell_option(o, 2));
            "option given twice"
        }
        3 => {
            let last = opts.iter().filter(|o| !o.2.is_empty()).nth(f.how % 2).map_or("--n-iters", |o| o.1);
            let short = opts.iter().find(|o| o.1 == last).map_or("-i", |o| if o.0.is_empty() { "--none-" } else { o.0 });
            parts.retain(|p| !p[0].starts_with(last) && (p[0].starts_with("--") || !p[0].starts_with(short)));
            parts.push(vec![last.to_string()]);
            "option without its value"
        }
        4 => {
            // In front, where no option takes it as one more value.
            parts.insert(0, vec!["stray".into()]);
            "stray argument"
        }
        5 if f.tool == 1 => {
            let m = ["map", "ndcg@", "precision@x", "ndcg@-1", "AP", "ndcg@5.0", "", "recall@99999999999999999999", "ap@@5"][f.how % 9];
            parts.push(vec![format!("--metrics={m}")]);
            "unknown metric"
        }
        5 if f.tool == 0 => {
            let o = ["both", "True", "", "predicted", "t"][f.how % 5];
            parts.retain(|p| !p[0].starts_with("--rel-type") && (p[0].starts_with("--") || !p[0].starts_with("-r")));
            parts.push(vec![format!("--rel-type={o}")]);
            "unknown relevance type"
        }
        5 => {
            let o = ["fancy", "Raw", "", "PRETTY", "pretty,raw", "r", "0"][f.how % 7];
            parts.retain(|p| !p[0].starts_with("--print-mode") && (p[0].starts_with("--") || !p[0].starts_with("-p")));
            parts.push(vec![format!("--print-mode={o}")]);
            "unknown print mode"
        }
        6 => {
            let out = cli::run(bin, &strings(&[["--help", "-h"][f.how % 2]]), &dir);
            ensure!(out.ok(), "{bin} does not print its help: {}", out.show());
            for o in opts.iter().chain(&output("form")) {
                ensure!(out.stdout.contains(o.1), "the help of {bin} does not mention {}", o.1);
            }
            cx.label("help");
            cx.nontrivial();
            return Ok(());
        }
        _ => "nothing wrong",
    };
    cx.label(label);
    let args: Vec<String> = parts.into_iter().flatten().collect();
    let out = cli::run(bin, &args, &dir);
    cx.nontrivial();
    if label != "nothing wrong" {
        ensure!(!out.ok(), "{label}: {bin} {args:?} succeeded: {}", out.show());
        ensure!(!out.stderr.trim().is_empty(), "{label}: {bin} {args:?} failed without a message");
        if f.tool < 2 {
            ensure!(!dir.join(name("form")).exists(), "{label}: {bin} {args:?} failed, but left an output file");
        }
        return Ok(());
    }
    ensure!(want.ok(), "{bin} {plain:?} failed: {}", want.show());
    ensure!(out.ok(), "{bin} {args:?} failed: {}, but {plain:?} does not", out.show());
    if f.tool < 2 {
        ensure!(out.stdout == want.stdout, "{bin} {args:?} and {plain:?} print different things: {} and {}", out.show(), want.show());
        let sorted = |file: &str| -> Result<Vec<String>, String> {
            let mut v = file_lines(&cli::read(&dir, &name(file))?);
            // The order of lines is not promised, except for a header.
            let head = usize::from(f.tool == 1).min(v.len());
            v[head..].sort();
            Ok(v)
        };
        let (a, b) = (sorted("form")?, sorted("plain")?);
        ensure!(a == b, "{bin} {args:?} and {plain:?} write different things: {a:?} and {b:?}");
    } else {
        let pretty = !(f.how / 3 % 3 > 0 && f.how / 9 % 2 == 1);
        let strip = |o: &cli::Out| -> Vec<Section> {
            let mut v = sections(&o.stdout, pretty);
            for s in &mut v {
                if ["Bootstrap", "Fisher", "randomized"].iter().any(|r| s.heading.contains(r)) {
                    s.rows.clear();
                }
            }
            v
        };
        let (a, b) = (strip(&out), strip(&want));
        cx.label("comparison that succeeds");
        ensure!(!a.is_empty() && a.iter().any(|s| s.rows.len() > 1), "{bin} {args:?} printed no table: {}", out.show());
        ensure!(a == b, "{bin} {args:?} and {plain:?} print different things: {} and {}", out.show(), want.show());
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "two or more records are converted, or a conversion that must fail has two or more lines",
            assumptions: &["/dev/full stands for a full disk."],
            subs: vec![sub("convert", 30_000, 900_000, convert, check_convert), sub("bulk", 24, 700, bulk_convert, check_convert)],
            probes: vec![],
        },
        Property {
            id: "C24",
            rule: "two or more queries are evaluated, or the evaluation must fail",
            assumptions: &["Predicted scores are at least a few ulps apart (see the known finding)."],
            subs: vec![sub("evaluate", 20_000, 500_000, eval_case, check_eval), sub("bulk", 24, 700, bulk_eval, check_eval)],
            probes: vec![("json-last-bit", Box::new(json_last_bit))],
        },
        Property {
            id: "C25",
            rule: "three or more topics with well-conditioned scores for every metric",
            assumptions: &["Topic ids are not empty and contain no line break."],
            subs: vec![
                sub("statistics", 8_000, 200_000, || compare_case(prop_oneof![1 => Just(1usize), 3 => Just(2usize), 3 => 3usize..6, 1 => 6usize..13].boxed(), prop_oneof![6 => 2usize..15, 2 => 10usize..60, 1 => 100usize..180].boxed(), 40), check_compare),
                sub("large", 60, 2_000, || compare_case((2usize..4).boxed(), (300usize..2500).boxed(), 40), check_compare),
                sub("many", 60, 2_000, || compare_case((13usize..41).boxed(), (3usize..12).boxed(), 40), check_compare),
                sub("modes", 1_200, 40_000, || compare_case((1usize..5).boxed(), (3usize..20).boxed(), 30), check_modes),
            ],
            probes: vec![],
        },
        Property {
            id: "C26",
            rule: "some p-value whose exact (or simulated) probability is strictly between 0.005 and 0.995",
            assumptions: &["The operating system's randomness seeds the tests."],
            subs: vec![sub("random", 1_800, 50_000, random_case, check_random)],
            probes: vec![],
        },
        Property {
            id: "C27",
            rule: "three or more queries pass through the whole pipeline",
            assumptions: &[],
            subs: vec![sub("pipeline", 4_000, 120_000, pipeline, check_pipeline), sub("bulk", 24, 700, bulk_pipeline, check_pipeline)],
            probes: vec![],
        },
        Property {
            id: "C28",
            rule: "the input has one defect that makes the comparison impossible",
            assumptions: &["A panic with a message and a non-zero exit status counts as a refusal."],
            subs: vec![sub("refuse", 8_000, 400_000, refuse, check_refuse)],
            probes: vec![],
        },
        Property {
            id: "C31",
            rule: "every case: two command lines compared, a command line refused, or the help text read",
            assumptions: &["A command line is refused before anything is written."],
            subs: vec![sub("forms", 5_000, 300_000, forms, check_forms)],
            probes: vec![],
        },
    ]
}
