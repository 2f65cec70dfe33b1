use crate::json::{esc, float, int};
use dice_core::span::Span;
use dice_syntax::*;

fn sp(s: Span) -> String {
    format!("\"sp\":[{},{}]", s.start, s.end)
}

fn ty(t: &TypeAnnotation) -> String {
    format!("{{\"n\":{},\"q\":{},{},\"isp\":[{},{}]}}", esc(&t.name.identifier), t.is_nullable, sp(t.span), t.name.span.start, t.name.span.end)
}

fn tyo(t: &Option<TypeAnnotation>) -> String {
    match t {
        Some(t) => format!("[{}]", ty(t)),
        None => "[]".into(),
    }
}

fn args(a: &[FnArg]) -> String {
    a.iter()
        .map(|a| format!("{{\"n\":{},\"ty\":{},{}}}", esc(&a.name), tyo(&a.type_), sp(a.span)))
        .collect::<Vec<_>>()
        .join(",")
}

fn list(t: &SyntaxTree, v: &[SyntaxNodeId]) -> String {
    v.iter().map(|i| dump(t, *i)).collect::<Vec<_>>().join(",")
}

fn strs(v: &[String]) -> String {
    v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
}

pub fn dump(t: &SyntaxTree, id: SyntaxNodeId) -> String {
    let node = t.get(id);
    let body = match node {
        SyntaxNode::LitIdent(n) => format!("\"k\":\"id\",\"n\":{}", esc(&n.identifier)),
        SyntaxNode::LitNull(_) => "\"k\":\"null\"".into(),
        SyntaxNode::LitUnit(_) => "\"k\":\"unit\"".into(),
        SyntaxNode::LitInt(n) => format!("\"k\":\"int\",\"v\":{}", int(n.value)),
        SyntaxNode::LitFloat(n) => format!("\"k\":\"flt\",\"v\":{}", float(n.value)),
        SyntaxNode::LitString(n) => format!("\"k\":\"str\",\"s\":{}", esc(&n.value)),
        SyntaxNode::LitBool(n) => format!("\"k\":\"bool\",\"b\":{}", n.value),
        SyntaxNode::LitList(n) => format!("\"k\":\"list\",\"es\":[{}]", list(t, &n.items)),
        SyntaxNode::LitObject(n) => format!(
            "\"k\":\"obj\",\"ks\":[{}],\"es\":[{}]",
            n.items.iter().map(|(k, _)| esc(k)).collect::<Vec<_>>().join(","),
            n.items.iter().map(|(_, v)| dump(t, *v)).collect::<Vec<_>>().join(",")
        ),
        SyntaxNode::LitAnonymousFn(n) => {
            format!("\"k\":\"afn\",\"ps\":[{}],\"ret\":{},\"e\":{}", args(&n.args), tyo(&n.return_), dump(t, n.body))
        }
        SyntaxNode::FieldAccess(n) => format!("\"k\":\"fld\",\"e\":{},\"n\":{}", dump(t, n.expression), esc(&n.field)),
        SyntaxNode::SuperAccess(n) => format!(
            "\"k\":\"supf\",\"n\":{},\"c\":[{}]",
            esc(&n.field),
            n.super_class.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        ),
        SyntaxNode::Index(n) => {
            format!("\"k\":\"idx\",\"e\":{},\"i\":{}", dump(t, n.expression), dump(t, n.index_expression))
        }
        SyntaxNode::Prefix(n) => format!("\"k\":\"un\",\"op\":{},\"e\":{}", esc(&format!("{:?}", n.operator)), dump(t, n.expression)),
        SyntaxNode::Binary(n) => format!(
            "\"k\":\"bin\",\"op\":{},\"l\":{},\"r\":{}",
            esc(&format!("{:?}", n.operator)),
            dump(t, n.lhs_expression),
            dump(t, n.rhs_expression)
        ),
        SyntaxNode::Is(n) => format!("\"k\":\"is\",\"e\":{},\"ty\":{}", dump(t, n.value), ty(&n.type_)),
        SyntaxNode::NullPropagate(n) => format!("\"k\":\"np\",\"e\":{}", dump(t, n.expression)),
        SyntaxNode::ErrorPropagate(n) => format!("\"k\":\"ep\",\"e\":{}", dump(t, n.expression)),
        SyntaxNode::Assignment(n) => format!(
            "\"k\":\"asg\",\"op\":{},\"l\":{},\"r\":{}",
            esc(&format!("{:?}", n.operator)),
            dump(t, n.lhs_expression),
            dump(t, n.rhs_expression)
        ),
        SyntaxNode::VarDecl(n) => {
            let (d, names) = match &n.kind {
                VarDeclKind::Singular(s) => (false, vec![s.clone()]),
                VarDeclKind::Destructured(v) => (true, v.clone()),
            };
            format!(
                "\"k\":\"let\",\"d\":{},\"ns\":[{}],\"mut\":{},\"ty\":{},\"e\":{}",
                d,
                strs(&names),
                n.is_mutable,
                tyo(&n.type_),
                dump(t, n.expr)
            )
        }
        SyntaxNode::FnDecl(n) => format!(
            "\"k\":\"fn\",\"n\":{},\"nsp\":[{},{}],\"ps\":[{}],\"ret\":{},\"e\":{}",
            esc(&n.name.identifier),
            n.name.span.start,
            n.name.span.end,
            args(&n.args),
            tyo(&n.return_),
            dump(t, n.body)
        ),
        SyntaxNode::OpDecl(n) => format!(
            "\"k\":\"op\",\"n\":{},\"ps\":[{}],\"ret\":{},\"e\":{}",
            esc(&format!("{:?}", n.operator)),
            args(&n.args),
            tyo(&n.return_),
            dump(t, n.body)
        ),
        SyntaxNode::ClassDecl(n) => format!(
            "\"k\":\"class\",\"n\":{},\"nsp\":[{},{}],\"base\":[{}],\"ms\":[{}]",
            esc(&n.name.identifier),
            n.name.span.start,
            n.name.span.end,
            n.base.iter().map(|b| dump(t, *b)).collect::<Vec<_>>().join(","),
            list(t, &n.associated_items)
        ),
        SyntaxNode::ImportDecl(n) => format!(
            "\"k\":\"import\",\"m\":[{}],\"ns\":[{}],\"path\":{}",
            n.module_import.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            strs(&n.item_imports),
            esc(&n.relative_path)
        ),
        SyntaxNode::ExportDecl(n) => format!("\"k\":\"export\",\"e\":{}", dump(t, n.export)),
        SyntaxNode::IfExpression(n) => format!(
            "\"k\":\"if\",\"c\":{},\"t\":{},\"f\":[{}]",
            dump(t, n.condition),
            dump(t, n.primary),
            n.secondary.iter().map(|b| dump(t, *b)).collect::<Vec<_>>().join(",")
        ),
        SyntaxNode::Loop(n) => format!("\"k\":\"loop\",\"e\":{}", dump(t, n.body)),
        SyntaxNode::WhileLoop(n) => format!("\"k\":\"while\",\"c\":{},\"e\":{}", dump(t, n.condition), dump(t, n.body)),
        SyntaxNode::ForLoop(n) => {
            format!("\"k\":\"for\",\"n\":{},\"s\":{},\"e\":{}", esc(&n.variable), dump(t, n.source), dump(t, n.body))
        }
        SyntaxNode::Block(n) => format!(
            "\"k\":\"block\",\"es\":[{}],\"t\":[{}]",
            list(t, &n.expressions),
            n.trailing_expression.iter().map(|b| dump(t, *b)).collect::<Vec<_>>().join(",")
        ),
        SyntaxNode::Break(_) => "\"k\":\"break\"".into(),
        SyntaxNode::Continue(_) => "\"k\":\"continue\"".into(),
        SyntaxNode::Return(n) => format!(
            "\"k\":\"return\",\"e\":[{}]",
            n.result.iter().map(|b| dump(t, *b)).collect::<Vec<_>>().join(",")
        ),
        SyntaxNode::FnCall(n) => format!("\"k\":\"call\",\"e\":{},\"es\":[{}]", dump(t, n.target), list(t, &n.args)),
        SyntaxNode::SuperCall(n) => format!("\"k\":\"supc\",\"es\":[{}]", list(t, &n.args)),
    };
    format!("{{{},{}}}", body, sp(node.span()))
}
