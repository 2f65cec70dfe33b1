//! Observation harness: feeds texts to the real Dice crates and prints what they did as JSON lines.
//!
//! Input (stdin): records `<id> <kind> <what> <len>\n<len bytes>\n`, kind `s` (script) or `m` (module),
//! what = comma separated subset of `code`, `ast`, `dis`, `path=<p>`, `lines`.
//! Output (stdout): first a header line with the instruction encoding, then one line per record.
#[cfg(feature = "ast")]
mod ast;
#[cfg(feature = "diag")]
mod diag;
mod json;
mod units;

use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;
#[cfg(feature = "ast")]
use dice_syntax::Parser;
use json::esc;
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn error_json(e: &Error) -> String {
    let shown = catch_unwind(AssertUnwindSafe(|| format!("{}", e)));
    let dbg = catch_unwind(AssertUnwindSafe(|| format!("{:?}", e)));
    match (shown, dbg) {
        (Ok(s), Ok(d)) => format!(
            "{{\"code\":{},\"shown\":{},\"debug\":{}}}",
            esc(e.error_code()),
            esc(&s),
            esc(&d)
        ),
        _ => format!("{{\"code\":{},\"renderpanic\":true}}", esc(e.error_code())),
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn lines_json(src: &Source, text: &str) -> String {
    // every character boundary -> (line, column); every pair of boundaries -> the lines it touches
    let idx = src.line_index();
    let bounds: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    // long texts are sampled: of the ranges, and, when they are very long, of the boundaries as well
    let (long, huge) = (bounds.len() > 60, bounds.len() > 3000);
    let mut pos = Vec::new();
    for (i, b) in bounds.iter().enumerate() {
        if huge && i % (bounds.len() / 30) != 0 && bounds.len() - i > 2 && (*b < 65534 || *b > 65538) && (*b < 254 || *b > 258) {
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| idx.position_of(*b)));
        pos.push(match r {
            Ok(p) => format!("[{},{},{}]", b, p.line, p.column_utf16),
            Err(_) => format!("[{},-1,-1]", b),
        });
    }
    let mut spans = Vec::new();
    for (i, s) in bounds.iter().enumerate() {
        if huge && i % (bounds.len() / 20) != 0 && bounds.len() - i > 3 && (*s < 65534 || *s > 65538) {
            continue;
        }
        for (j, e) in bounds.iter().enumerate().skip(i + 1) {
            if long && ![1, 2, 7].contains(&(j - i)) && (i % 37 != 0 && !huge || j - i != 150 && j + 1 != bounds.len()) {
                continue;
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                idx.lines(Span::new(*s..*e)).map(|l| (l.start, l.end)).collect::<Vec<_>>()
            }));
            let body = match r {
                Ok(v) => v.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","),
                Err(_) => "[-1,-1]".into(),
            };
            spans.push(format!("[{},{},[{}]]", s, e, body));
        }
    }
    format!("\"pos\":[{}],\"spans\":[{}]", pos.join(","), spans.join(","))
}

fn handle(id: &str, kind: &str, what: &str, text: &str) -> String {
    let kind = if kind == "m" { SourceKind::Module } else { SourceKind::Script };
    let mut out = format!("{{\"id\":{}", esc(id));
    let mut path = None;
    let (mut code, mut astw, mut dis, mut lines, mut rows, mut verdict) = (false, false, false, false, false, false);
    for w in what.split(',') {
        match w {
            "code" => code = true,
            "ast" => astw = true,
            "dis" => dis = true,
            "lines" => lines = true,
            "verdict" => verdict = true,
            "rows" => rows = true,
            w if w.starts_with("path=") => path = Some(w[5..].to_string()),
            _ => {}
        }
    }
    let make = || match &path {
        Some(p) => Source::with_path(text, p.clone(), kind),
        None => Source::new(text, kind),
    };
    if lines {
        match catch_unwind(AssertUnwindSafe(make)) {
            Ok(s) => {
                out += ",";
                out += &lines_json(&s, text);
            }
            Err(p) => out += &format!(",\"linespanic\":{}", esc(&panic_text(p))),
        }
    }
    #[cfg(feature = "ast")]
    if astw {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let s = make();
            let r = Parser::new(&s).parse();
            match r {
                Ok(tree) => format!(",\"ast\":{}", ast::dump(&tree, tree.root())),
                Err(e) => format!(",\"asterr\":{}", error_json(&e)),
            }
        }));
        match r {
            Ok(s) => out += &s,
            Err(p) => out += &format!(",\"astpanic\":{}", esc(&panic_text(p))),
        }
    }
    #[cfg(feature = "diag")]
    for w in what.split(',') {
        let r = if w == "catalog" {
            catch_unwind(AssertUnwindSafe(diag::catalog))
        } else if let Some(spec) = w.strip_prefix("diag=") {
            catch_unwind(AssertUnwindSafe(|| diag::render(make(), spec)))
        } else {
            continue;
        };
        match r {
            Ok(s) => out += &s,
            Err(p) => out += &format!(",\"st\":\"panic\",\"panic\":{}", esc(&panic_text(p))),
        }
    }
    if code || verdict {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let s = make();
            match Compiler::compile_source(s) {
                Ok(b) => {
                    let mut o = String::from(",\"st\":\"ok\"");
                    if code {
                        o += &format!(",\"unit\":{}", units::unit(&b, "", rows));
                    }
                    if dis {
                        let d = catch_unwind(AssertUnwindSafe(|| format!("{}", b)));
                        match d {
                            Ok(d) => o += &format!(",\"dis\":{}", esc(&d)),
                            Err(_) => o += ",\"dispanic\":true",
                        }
                    }
                    o
                }
                Err(e) => format!(",\"st\":\"err\",\"err\":{}", error_json(&e)),
            }
        }));
        match r {
            Ok(s) => out += &s,
            Err(p) => out += &format!(",\"st\":\"panic\",\"panic\":{}", esc(&panic_text(p))),
        }
    }
    out += "}";
    out
}

fn run() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut inp = stdin.lock();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    writeln!(out, "{}", units::header()).unwrap();
    let mut line = String::new();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let parts: Vec<&str> = line.trim_end().split(' ').collect();
        if parts.len() != 4 {
            continue;
        }
        let len: usize = parts[3].parse().unwrap();
        let mut buf = vec![0u8; len + 1];
        inp.read_exact(&mut buf).unwrap();
        let text = String::from_utf8(buf[..len].to_vec()).unwrap();
        // announce the record first: a crash or hang is then attributable
        eprintln!("start {}", parts[0]);
        let r = handle(parts[0], parts[1], parts[2], &text);
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}

fn main() {
    std::env::set_var("NO_COLOR", "1");
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap();
    t.join().unwrap();
}
