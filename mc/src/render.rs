//! C18: rendered diagnostics show the offending source.
use crate::engine::*;
use crate::gen::*;
use crate::sut;
use crate::tree::*;
use ginko::dts::{Diagnostic, DiagnosticPrinter, ErrorCode, Project, SeverityMap, Span};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub struct Render;

/// One rendered diagnostic, taken apart
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Report {
    pub sev: String,
    pub file: String,
    pub line: u32,
    pub col: u32,
    pub source: String,
    /// what stands under the source before the carets
    pub pad: String,
    pub carets: usize,
    pub msg: String,
}

/// Takes the text of one or several rendered diagnostics apart. `sources` are all lines that may be shown:
/// they may contain anything but a line feed.
pub fn take_apart(text: &str) -> Result<Vec<Report>, String> {
    let mut out = vec![];
    let lines: Vec<&str> = text.split('\n').collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.trim().is_empty() {
            i += 1;
            continue;
        }
        let bad = |what: &str| Err(format!("{what} in line {i} of {text:?}"));
        let Some((sev, rest)) = l.split_once(" --> ") else { return bad("no header") };
        if !["error", "warning", "hint"].contains(&sev) {
            return bad("unknown severity");
        }
        let mut it = rest.rsplitn(3, ':');
        let col = it.next().and_then(|x| x.trim_end().parse().ok());
        let line: Option<u32> = it.next().and_then(|x| x.parse().ok());
        let (Some(col), Some(line), Some(file)) = (col, line, it.next()) else { return bad("no position") };
        i += 1;
        // the gutter: an empty line or several, then the numbered line
        let num = line.to_string();
        while i < lines.len() && lines[i].trim() == "|" {
            i += 1;
        }
        let Some(src) = lines.get(i).and_then(|l| l.trim_start().strip_prefix(&num)).and_then(|l| l.trim_start_matches(' ').strip_prefix('|')) else {
            return Err(format!("no source line {num} in {text:?}"));
        };
        // width of the gutter
        let gutter = lines[i].find('|').unwrap();
        let source = src.strip_prefix(' ').unwrap_or(src);
        i += 1;
        let Some(mark) = lines.get(i) else { return Err(format!("no marker line in {text:?}")) };
        if mark.len() <= gutter || mark[..gutter].trim() != "" || mark.as_bytes()[gutter] != b'|' {
            return Err(format!("the marker line is not aligned with the source line in {text:?}"));
        }
        let m = &mark[gutter + 1..];
        let m = if src.starts_with(' ') { m.strip_prefix(' ').unwrap_or(m) } else { m };
        let Some(at) = m.find('^') else { return Err(format!("no caret in {text:?}")) };
        let pad = m[..at].to_string();
        let carets = m[at..].chars().take_while(|c| *c == '^').count();
        let mut msg = m[at + carets..].to_string();
        i += 1;
        // a message may contain line feeds
        while lines.get(i).is_some_and(|l| !l.is_empty() && !l.contains(" --> ")) {
            msg.push('\n');
            msg.push_str(lines[i]);
            i += 1;
        }
        let msg = msg.trim().to_string();
        out.push(Report { sev: sev.into(), file: file.into(), line, col, source: source.into(), pad, carets, msg });
    }
    Ok(out)
}

/// characters of a line before a column in code units
fn chars_before(line: &str, col: u32) -> usize {
    let mut u = 0;
    line.chars()
        .take_while(|c| {
            u += c.len_utf16() as u32;
            u <= col
        })
        .count()
}

/// Compares a report with what it reports.
pub fn judge_report(r: &Report, sev: &str, file: &str, sp: Sp, msg: &str, lines: &[String]) -> Result<(), String> {
    let empty = String::new();
    let line = lines.get(sp.s.0 as usize).unwrap_or(&empty);
    let start = chars_before(line, sp.s.1);
    let end = if sp.e.0 == sp.s.0 { chars_before(line, sp.e.1) } else { line.chars().count() };
    let fail = |what: &str| Err(format!("{what}: {r:?} for {sev} {sp:?} {msg:?}"));
    if r.sev != sev {
        return fail("wrong severity");
    }
    if r.file != file {
        return fail("wrong file");
    }
    if r.line != sp.s.0 + 1 || (r.col != sp.s.1 + 1 && r.col as usize != start + 1) {
        return fail("wrong position");
    }
    if r.source.trim_end_matches('\r') != line.trim_end_matches('\r') {
        return fail("wrong source line");
    }
    let pad: Vec<char> = r.pad.chars().collect();
    let src: Vec<char> = line.chars().take(start).collect();
    // tabs must stay tabs so that the columns agree
    let aligned = pad.len() == src.len() && pad.iter().zip(&src).all(|(p, s)| (*s == '\t') == (*p == '\t') && p.is_whitespace());
    if !aligned {
        return fail("the carets do not start under the first character");
    }
    if r.carets != end.saturating_sub(start).max(1) {
        return fail("wrong number of carets");
    }
    // a message of several lines is compared as a whole
    if r.msg != msg.trim() {
        return fail("wrong message");
    }
    Ok(())
}

const KINDS: [(ErrorCode, &str); 3] =
    [(ErrorCode::Expected, "error"), (ErrorCode::NameTooLong, "warning"), (ErrorCode::UnresolvedReference, "error")];

pub const TEXTS: &[&str] = &[
    "", "a", "/ { };", "\t/ {\n\t\tp;\n\t};\n", "é𝄞x\n  é\t𝄞y\n", "a\r\n\tb\r\n", "\n\n", " \t \tx \t", "a\n\n\n\n\n\n\n\n\nb c\nd\n", "\u{3000}x\u{a0}y",
    "e\u{301}x", "| a | b\n1 | c\n ^^ d", "-->", "\u{c}a\u{b}b", "a\nb", "^^^\n  ^\n", "日本語 テキスト\n", "𝄞𝄞𝄞𝄞", "\u{85}a\u{2028}b",
];

fn lines_of(text: &str) -> Vec<String> {
    text.lines().map(|l| l.to_owned()).collect()
}

/// all positions within a text
fn places(text: &str) -> Vec<P> {
    let mut out = vec![];
    for (n, l) in text.split('\n').enumerate() {
        let mut u = 0;
        out.push((n as u32, 0));
        for c in l.trim_end_matches('\r').chars() {
            u += c.len_utf16() as u32;
            out.push((n as u32, u));
        }
    }
    out
}

impl Check for Render {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        match c.sub.as_str() {
            "ranges" => {
                // text, message, file name: every range, every severity
                let (text, msg, file) = (&c.s[0], &c.s[1], &c.s[2]);
                let code = lines_of(text);
                let at = places(text);
                let mut n = 0;
                let mut all: Vec<(Diagnostic, Sp, &str)> = vec![];
                for s in &at {
                    for e in at.iter().filter(|e| *e >= s).copied().chain([(s.0, s.1 + 1), (at[at.len() - 1].0, at[at.len() - 1].1 + 1)]) {
                        if e < *s {
                            continue;
                        }
                        let (kind, sev) = KINDS[n % KINDS.len()];
                        let d = Diagnostic::new(Span::new(sut::gp(*s), sut::gp(e)), Arc::from(Path::new(file)), kind, msg.clone());
                        let one = std::slice::from_ref(&d);
                        let out = DiagnosticPrinter { diagnostics: one, code: code.clone(), severity_map: SeverityMap::default() }.to_string();
                        let r = take_apart(&out)?;
                        if r.len() != 1 {
                            return Err(format!("{} reports for one diagnostic: {out:?}", r.len()));
                        }
                        judge_report(&r[0], sev, file, Sp::new(*s, e), msg, &code)?;
                        all.push((d, Sp::new(*s, e), sev));
                        n += 1;
                    }
                }
                // several at once
                let ds: Vec<Diagnostic> = all.iter().map(|x| x.0.clone()).collect();
                let out = DiagnosticPrinter { diagnostics: &ds, code: code.clone(), severity_map: SeverityMap::default() }.to_string();
                let r = take_apart(&out)?;
                if r.len() != all.len() {
                    return Err(format!("{} reports for {} diagnostics", r.len(), all.len()));
                }
                for (r, (_, sp, sev)) in r.iter().zip(&all) {
                    judge_report(r, sev, file, *sp, msg, &code)?;
                }
                ok(n as u64, "ranges")
            }
            "tail" => judge_tail(w, c),
            "several" => judge_several(w, c),
            _ => {
                let path = crate::docs::place(&w.dir, &c.s[0], &c.s[1]);
                let mut p = Project::default();
                sut::open(&mut p, &path, &c.s[1]);
                judge_file_reports(&p, &path)
            }
        }
    }
    fn explore(&self, eng: &Eng) {
        let files = ["/tmp/a.dts", "a.dts", "/tmp/a b:c.dts", "C:\\x.dts", "é/𝄞.dts"];
        let msgs = ["Expected ';'", "x", "--> ^ | 1:2", "é𝄞"];
        let mut list: Vec<String> = TEXTS.iter().map(|s| s.to_string()).collect();
        // gutters of every width
        for n in [8, 9, 10, 98, 99, 100, 998, 999, 1000, 9998, 9999, 10_000, 65_534, 65_535, 65_536, 99_999, 100_000] {
            list.push(format!("{}\tab c", "\n".repeat(n)));
        }
        let full: Vec<(String, usize)> = list.iter().flat_map(|t| (0..files.len()).map(|k| (t.clone(), k))).collect();
        eng.par_list("every range of the texts", &full, |w, (t, k)| {
            if t.len() > 50 {
                // only the ranges at the end matter
                let c = Case::new("tail", vec![t.clone(), files[*k].into()]);
                return w.case(c, |w, c| self.judge(w, c));
            }
            for m in msgs {
                w.case(Case::new("ranges", vec![t.clone(), m.into(), files[*k].into()]), |w, c| self.judge(w, c));
            }
        });
        // several reports: the width of the gutter is up to each line
        let at = [0, 8, 9, 10, 98, 99, 100, 999, 1000];
        let n = at.len() as u64;
        let k = eng.tier(3, 5);
        eng.par("several diagnostics in a long text", seq_count(n, k), |w, i| {
            let v = seq(i, n, k).into_iter().map(|x| at[x].to_string()).collect::<Vec<_>>().join(" ");
            w.case(Case::new("several", vec![v]), |w, c| self.judge(w, c))
        });
        // characters of every kind
        let chars: Vec<char> = any_chars().into_iter().filter(|c| !"\n\r".contains(*c)).collect();
        let n = chars.len() as u64;
        eng.par("every range of lines with any two characters", n * n, |w, i| {
            let t = format!("x\n{}{}z", chars[(i / n) as usize], chars[(i % n) as usize]);
            w.case(Case::new("ranges", vec![t, "m".into(), "/tmp/a.dts".into()]), |w, c| self.judge(w, c))
        });
        // every short text
        const PIECES: &[&str] = &["a", "é", "𝄞", "\t", " ", "\n", "\r\n", "^", "|"];
        let k = eng.tier(5, 6);
        eng.par("every range of every short text", seq_count(PIECES.len() as u64, k), |w, i| {
            let t: String = seq(i, PIECES.len() as u64, k).into_iter().map(|x| PIECES[x]).collect();
            w.case(Case::new("ranges", vec![t, "m".into(), "f.dts".into()]), |w, c| self.judge(w, c))
        });
        // what the checker reports
        let e = edits().remove(0);
        let mut spaces = vec![e.clone()];
        spaces.extend((0..6).map(|k| crate::docs::layouts(e.clone(), k)));
        spaces.extend(token_spaces(eng.tier(3, 4)));
        spaces.extend(char_spaces(eng.tier(3, 4)));
        spaces.extend(scaled());
        spaces.push(far());
        spaces.extend(mistakes(eng.tier(17, 129)));
        crate::docs::explore_spaces(eng, &spaces, "dts", |w, c| self.judge(w, c));
    }
}

/// s: the lines of the diagnostics
fn judge_several(_w: &mut Worker<'_>, c: &Case) -> Judged {
    let text: String = (0..1002).map(|k| format!("\t{k} x\n")).collect();
    let code = lines_of(&text);
    let file: Arc<Path> = Arc::from(Path::new("a.dts"));
    let at: Vec<Sp> = c.s[0].split_whitespace().map(|x| x.parse::<u32>().unwrap()).map(|l| Sp::new((l, 1), (l, 2))).collect();
    let list: Vec<Diagnostic> = at
        .iter()
        .enumerate()
        .map(|(k, s)| Diagnostic::new(Span::new(sut::gp(s.s), sut::gp(s.e)), file.clone(), ErrorCode::Expected, format!("m{k}")))
        .collect();
    let out = DiagnosticPrinter { diagnostics: &list, code: code.clone(), severity_map: SeverityMap::default() }.to_string();
    let r = take_apart(&out)?;
    if r.len() != list.len() {
        return Err(format!("{} reports for {} diagnostics", r.len(), list.len()));
    }
    for (k, (r, s)) in r.iter().zip(&at).enumerate() {
        judge_report(r, "error", "a.dts", *s, &format!("m{k}"), &code)?;
    }
    ok(list.len() as u64, "several")
}

fn judge_tail(_w: &mut Worker<'_>, c: &Case) -> Judged {
    let code = lines_of(&c.s[0]);
    let at = places(&c.s[0]);
    let at = &at[at.len().saturating_sub(8)..];
    let mut n = 0;
    for s in at {
        for e in at.iter().filter(|e| *e >= s) {
            let d = Diagnostic::new(Span::new(sut::gp(*s), sut::gp(*e)), Arc::from(Path::new(&c.s[1])), ErrorCode::Expected, "m");
            let out = DiagnosticPrinter { diagnostics: &[d], code: code.clone(), severity_map: SeverityMap::default() }.to_string();
            let r = take_apart(&out)?;
            if r.len() != 1 {
                return Err(format!("{} reports for one diagnostic", r.len()));
            }
            judge_report(&r[0], "error", &c.s[1], Sp::new(*s, *e), "m", &code)?;
            n += 1;
        }
    }
    ok(n, "tail")
}

/// Renders what a project reports for a file like the command line does.
pub fn judge_file_reports(p: &Project, path: &PathBuf) -> Judged {
    let diagnostics: Vec<Diagnostic> = p.get_diagnostics(path).cloned().collect();
    let Some(f) = p.get_file(path) else { return Err("no such file".into()) };
    let code = lines_of(f.source());
    let out = DiagnosticPrinter { diagnostics: &diagnostics, code: code.clone(), severity_map: SeverityMap::default() }.to_string();
    let r = take_apart(&out)?;
    if r.len() != diagnostics.len() {
        return Err(format!("{} reports for {} diagnostics: {out:?}", r.len(), diagnostics.len()));
    }
    let map = SeverityMap::default();
    for (r, d) in r.iter().zip(&diagnostics) {
        judge_report(r, &d.severity(&map).to_string(), &path.display().to_string(), sut::sp(d.span), &d.message, &code)?;
    }
    ok(diagnostics.len() as u64 + 1, if diagnostics.is_empty() { "no diagnostics" } else { "diagnostics" })
}
