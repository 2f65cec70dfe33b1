//! Token-level observation harness (needs the `dice_verif` hook in dice-syntax).
//! Input records as in ../harness; output `{"id":..,"toks":[[kind,start,end,text]..],"err":code|null}`.
mod json;
use dice_core::source::{Source, SourceKind};
use dice_syntax::lexer::{Lexer, TokenKind};
use json::esc;
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn handle(id: &str, text: &str) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let src = Source::new(text, SourceKind::Script);
        let mut lx = Lexer::from_source(&src);
        let mut toks = Vec::new();
        let mut err = "null".to_string();
        loop {
            // peeking and taking must agree, and peeking must not consume
            let pk = lx.peek().map(|t| (format!("{:?}", t.kind), t.span.start, t.span.end));
            match lx.next() {
                Ok(t) => {
                    let k = format!("{:?}", t.kind);
                    let same = match &pk {
                        Ok((pk, s, e)) => *pk == k && *s == t.span.start && *e == t.span.end,
                        Err(_) => false,
                    };
                    if t.kind == TokenKind::EndOfInput {
                        break;
                    }
                    toks.push(format!(
                        "[{},{},{},{},{}]",
                        esc(&k), t.span.start, t.span.end, esc(t.slice), same
                    ));
                }
                Err(e) => {
                    err = esc(e.error_code());
                    break;
                }
            }
            if toks.len() > text.len() + 2 {
                err = esc("endless");
                break;
            }
        }
        format!("\"toks\":[{}],\"err\":{}", toks.join(","), err)
    }));
    match r {
        Ok(s) => format!("{{\"id\":{},{}}}", esc(id), s),
        Err(_) => format!("{{\"id\":{},\"toks\":[],\"err\":\"panic\"}}", esc(id)),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut inp = stdin.lock();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut line = String::new();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let parts: Vec<&str> = line.trim_end().split(' ').collect();
        if parts.len() != 4 {
            continue;
        }
        let len: usize = parts[3].parse().unwrap();
        let mut buf = vec![0u8; len + 1];
        inp.read_exact(&mut buf).unwrap();
        let text = String::from_utf8(buf[..len].to_vec()).unwrap();
        eprintln!("start {}", parts[0]);
        writeln!(out, "{}", handle(parts[0], &text)).unwrap();
        out.flush().unwrap();
    }
}
