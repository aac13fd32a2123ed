//! Running the command-line tools and reading what they print and write.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use crate::engine::{harness_error, Cx};

pub struct Out {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// For messages.
    pub fn show(&self) -> String {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        format!("exit {:?}, stdout {:?}, stderr {:?}", self.code, cut(&self.stdout), cut(&self.stderr))
    }
}

thread_local! {
    static ENVIRONMENT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Runs until the next `fresh_dir` have one of a few environments, none of which may matter.
pub fn set_environment(n: usize) {
    ENVIRONMENT.set(n);
}

fn environment() -> Vec<(&'static str, &'static str)> {
    match ENVIRONMENT.get() % 6 {
        1 => vec![("POLARS_MAX_THREADS", "1"), ("LC_ALL", "de_DE.UTF-8"), ("LANG", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo")],
        2 => vec![("POLARS_MAX_THREADS", "4"), ("TERM", "dumb"), ("COLUMNS", "20"), ("LINES", "5"), ("NO_COLOR", "1")],
        3 => vec![("POLARS_MAX_THREADS", "3"), ("HOME", "/nonexistent"), ("TERM", "xterm-256color"), ("CLICOLOR_FORCE", "1"), ("RAYON_NUM_THREADS", "1")],
        _ => vec![("POLARS_MAX_THREADS", "2")],
    }
}

/// Runs a binary of the repository in `dir`. A run without end is reported as exit code 124.
pub fn run(bin: &str, args: &[String], dir: &Path) -> Out {
    let base = std::env::var("ELINOR_BIN").unwrap_or_else(|_| "/repo/target/debug".into());
    let path = PathBuf::from(base).join(bin);
    let out = Command::new("timeout")
        .arg("-k")
        .arg("5")
        .arg("170")
        .arg(&path)
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .env("RUST_BACKTRACE", "0")
        .envs(environment())
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => harness_error(format!("cannot run {}: {e}", path.display())),
    };
    let code = out.status.code();
    if matches!(code, Some(125..=127)) || code.is_none() {
        harness_error(format!(
            "{} did not run: {code:?} {}",
            path.display(),
            String::from_utf8_lossy(&out.stderr)
        ));
    }
    let mut stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    if matches!(code, Some(124) | Some(137)) {
        stderr += " (did not end, or was killed)";
    }
    Out {
        code,
        stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
        stderr,
    }
}

/// Runs a binary whose standard output has room for `room` bytes only (a full disk, say). Gives the
/// result and what fitted.
pub fn run_cramped(bin: &str, args: &[String], dir: &Path, room: usize) -> Out {
    let limit = 64 + room.div_ceil(1024);
    write(dir, "stdout.log", "x".repeat(limit * 1024 - room));
    let base = std::env::var("ELINOR_BIN").unwrap_or_else(|_| "/repo/target/debug".into());
    let script = format!("trap '' XFSZ; ulimit -c 0; ulimit -f {limit} || exit 125; exec \"$@\" >> stdout.log");
    let mut all = strings(&["-c", &script, "bash"]);
    all.push(PathBuf::from(base).join(bin).to_string_lossy().into_owned());
    all.extend(args.iter().cloned());
    let mut out = run("/bin/bash", &all, dir);
    let text = read(dir, "stdout.log").unwrap_or_default();
    out.stdout = text[text.len().min(limit * 1024 - room)..].to_string();
    out
}

pub fn strings(args: &[&str]) -> Vec<String> {
    args.iter().map(|s| s.to_string()).collect()
}

/// An empty scratch directory of this case.
pub fn fresh_dir(cx: &Cx) -> PathBuf {
    let Some(dir) = cx.scratch.clone() else { harness_error("no scratch directory") };
    set_environment(0);
    if dir.exists() {
        if let Err(e) = std::fs::remove_dir_all(&dir) {
            harness_error(format!("cannot empty {}: {e}", dir.display()));
        }
    }
    if let Err(e) = std::fs::create_dir_all(&dir) {
        harness_error(format!("cannot create {}: {e}", dir.display()));
    }
    dir
}

pub fn write(dir: &Path, name: &str, content: impl AsRef<[u8]>) -> String {
    if let Some(parent) = Path::new(name).parent() {
        if let Err(e) = std::fs::create_dir_all(dir.join(parent)) {
            harness_error(format!("cannot create the directory of {name}: {e}"));
        }
    }
    if let Err(e) = std::fs::write(dir.join(name), content) {
        harness_error(format!("cannot write {name}: {e}"));
    }
    name.to_string()
}

pub fn read(dir: &Path, name: &str) -> Result<String, String> {
    std::fs::read_to_string(dir.join(name)).map_err(|e| format!("the output file {name} cannot be read: {e}"))
}

/// Reads separated values with double-quote quoting.
pub fn parse_csv(text: &str, sep: char) -> Result<Vec<Vec<String>>, String> {
    let mut rows = vec![];
    let mut row = vec![];
    let mut field = String::new();
    let mut quoted = false;
    let mut any = false;
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    field.push('"');
                } else {
                    quoted = false;
                }
            } else {
                field.push(c);
            }
        } else if c == '"' && field.is_empty() {
            quoted = true;
            any = true;
        } else if c == sep {
            row.push(std::mem::take(&mut field));
            any = true;
        } else if c == '\n' {
            if any || !field.is_empty() {
                row.push(std::mem::take(&mut field));
                rows.push(std::mem::take(&mut row));
            } else {
                rows.push(vec![String::new()]);
            }
            any = false;
        } else {
            field.push(c);
            any = true;
        }
    }
    if quoted {
        return Err(format!("unterminated quote in {text:?}"));
    }
    if any {
        row.push(field);
        rows.push(row);
    }
    Ok(rows)
}

/// Quotes a field where the format needs it.
pub fn csv_field(s: &str, sep: char) -> String {
    if s.is_empty() || s.contains([sep, '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

/// A heading with the rows (the header first) of the table below it.
#[derive(Debug, Clone, PartialEq)]
pub struct Section {
    pub heading: String,
    pub rows: Vec<Vec<String>>,
}

/// Reads the report of elinor-compare in either print mode.
pub fn sections(stdout: &str, pretty: bool) -> Vec<Section> {
    let mut out: Vec<Section> = vec![];
    for line in stdout.lines() {
        if line.starts_with("# ") || line.starts_with("## ") {
            out.push(Section { heading: line.to_string(), rows: vec![] });
            continue;
        }
        if line.trim().is_empty() && (pretty || line.is_empty()) {
            continue;
        }
        let cells: Vec<String> = if pretty {
            if line.starts_with('+') {
                continue;
            }
            let inner = line.trim().trim_start_matches('|').trim_end_matches('|');
            inner.split('|').map(|s| s.trim().to_string()).collect()
        } else {
            line.split('\t').map(|s| s.trim().to_string()).collect()
        };
        match out.last_mut() {
            Some(s) => s.rows.push(cells),
            None => out.push(Section { heading: String::new(), rows: vec![cells] }),
        }
    }
    out
}
