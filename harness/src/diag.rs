//! The catalogue of error codes and notes, and errors made by hand.
use crate::json::esc;
use dice_core::error::context::{Context, ContextKind};
use dice_core::error::tag::Tags;
use dice_core::error::trace::ErrorTrace;
use dice_core::error::Error;
use dice_core::source::Source;
use dice_core::span::Span;

// codes() -> [(name, code)] and notes() -> [(name, id)], written from the current tree by the check
include!(env!("DV_CODES"));

fn all_tags() -> Tags {
    let mut t = Tags::new();
    for v in ["actual", "expected", "sequence", "input", "message", "name", "directory", "module", "kind"] {
        t.push(v, format!("<{}>", v));
    }
    t
}

pub fn catalog() -> String {
    let mut rows = Vec::new();
    for (name, code) in codes().iter() {
        let e = Error::new(*code).with_tags(all_tags());
        rows.push(format!(
            "{{\"name\":{},\"code\":{},\"shown\":{}}}",
            esc(name),
            esc(e.error_code()),
            esc(&format!("{}", e))
        ));
    }
    let mut shown = Vec::new();
    for (name, id) in notes().iter() {
        for (k, kind) in [("note", ContextKind::Note), ("help", ContextKind::Help)] {
            let e = Error::new(codes()[0].1).with_tags(all_tags()).push_context(Context::new(*id, kind).with_tags(all_tags()));
            shown.push(format!("{{\"name\":{},\"k\":{},\"shown\":{}}}", esc(name), esc(k), esc(&format!("{}", e))));
        }
    }
    format!(",\"st\":\"ok\",\"codes\":[{}],\"notes\":[{}]", rows.join(","), shown.join(","))
}

/// spec: "s-e" pairs separated by '/': the error's span, then the spans of its traces, oldest first
pub fn render(src: Source, spec: &str) -> String {
    let spans: Vec<Span> = spec
        .split('/')
        .map(|p| {
            let (a, b) = p.split_once('-').unwrap();
            Span::new(a.parse().unwrap()..b.parse().unwrap())
        })
        .collect();
    let mut e = Error::new(codes()[0].1).with_source(src.clone()).with_span(spans[0]).with_tags(all_tags());
    for s in &spans[1..] {
        e = e.push_trace(ErrorTrace { source: src.clone(), span: *s });
    }
    format!(",\"st\":\"ok\",\"shown\":{}", esc(&format!("{}", e)))
}
