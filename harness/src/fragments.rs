//! C21: views written by declarative macros, from fragments.
use crate::ast::*;
use crate::gen::Case;
use crate::run::{around, PLACES};
use crate::tape::Tape;
use proc_macro2::{Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};

/// Variables that the view itself introduces, without `r#`.
fn binders(nodes: &[Node], out: &mut BTreeSet<String>) {
    let from = |s: &str, out: &mut BTreeSet<String>| {
        if let Ok(c) = syn::parse_str::<syn::ExprClosure>(&format!("{s} 0")) {
            struct Names<'a>(&'a mut BTreeSet<String>);
            impl<'a> syn::visit::Visit<'a> for Names<'_> {
                fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
                    self.0.insert(p.ident.to_string().trim_start_matches("r#").to_string());
                    syn::visit::visit_pat_ident(self, p);
                }
            }
            syn::visit::Visit::visit_expr_closure(&mut Names(out), &c);
        }
    };
    let parts = |ps: &[Part], out: &mut BTreeSet<String>| {
        for p in ps {
            if let Part::M(n) = p {
                binders(n, out);
            }
        }
    };
    let attrs = |attrs: &[Attr], out: &mut BTreeSet<String>| {
        for a in attrs {
            match &a.k {
                AttrK::Kv(_, AVal::V(s)) | AttrK::Spread(s) => parts(&s.parts, out),
                AttrK::Dir("clone", Key::Kebab(k), _) => {
                    // with dashes, to tell them from the others
                    out.insert(k.clone());
                }
                AttrK::Dir(_, _, AVal::V(s)) => parts(&s.parts, out),
                _ => {}
            }
        }
    };
    for n in nodes {
        match n {
            Node::Val(s, _) => parts(&s.parts, out),
            Node::El(e) => {
                attrs(&e.attrs, out);
                binders(e.children.as_deref().unwrap_or(&[]), out);
            }
            Node::Comp(c) | Node::Slot(c) => {
                attrs(&c.attrs, out);
                from(c.args.as_deref().unwrap_or(""), out);
                binders(c.children.as_deref().unwrap_or(&[]), out);
            }
            Node::Special(s) => {
                parts(&s.head, out);
                from(s.args.as_deref().unwrap_or(""), out);
                binders(&s.children, out);
            }
        }
    }
}

fn in_literals(ts: &TokenStream, names: &BTreeSet<String>) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Literal(l) => {
            let l = l.to_string();
            names.iter().any(|n| l.contains(n.as_str()))
        }
        TokenTree::Group(g) => in_literals(&g.stream(), names),
        _ => false,
    })
}

fn idents(ts: &TokenStream, f: &mut impl FnMut(String)) {
    for t in ts.clone() {
        match t {
            TokenTree::Ident(i) => f(i.to_string()),
            TokenTree::Group(g) => idents(&g.stream(), f),
            _ => {}
        }
    }
}

/// Gives variables of the view the names of those that the fragments mean.
fn collide(ts: &TokenStream, case: &Case, names: &BTreeSet<String>, shorts: &[String], params: &[(&'static str, String)]) -> Option<BTreeMap<String, String>> {
    if in_literals(ts, names) {
        return None;
    }
    let mut here = BTreeSet::new();
    idents(ts, &mut |i| {
        here.insert(i);
    });
    let mut there = BTreeSet::new();
    for (_, text) in params.iter().filter(|(k, _)| matches!(*k, "expr" | "block" | "tt")) {
        idents(&text.replace("@CASE@", "VerifCase").parse().ok()?, &mut |i| {
            there.insert(i);
        });
    }
    let outer = |i: &str| case.lets.iter().any(|l| l.starts_with(&format!("let {i} ")) || l.starts_with(&format!("let {i}:")));
    let mut takes: Vec<String> = there.into_iter().filter(|i| outer(i) && !here.contains(i)).collect();
    let mut to = BTreeMap::new();
    for n in names {
        // those with `clone:` are outside, too
        let base = n.trim_end_matches(|c: char| c.is_ascii_digit() || c == '_');
        if base != "x" && crate::expr::WORDS.contains(&base) && !outer(n) && !outer(&rust_ident(n)) && !shorts.contains(n) {
            let Some(other) = takes.pop() else { break };
            to.insert(n.clone(), other);
        }
    }
    (!to.is_empty()).then_some(to)
}

/// Puts parameters where these names are.
fn replace(ts: &TokenStream, names: &BTreeSet<String>, params: &mut BTreeMap<String, usize>, from: usize) -> TokenStream {
    let mut out = vec![];
    let mut lifetime = false;
    for t in ts.clone() {
        let was = std::mem::replace(&mut lifetime, matches!(&t, TokenTree::Punct(p) if p.as_char() == '\''));
        match t {
            TokenTree::Ident(i) if !was && names.contains(i.to_string().trim_start_matches("r#")) => {
                let n = params.len();
                let k = *params.entry(i.to_string()).or_insert(n) + from;
                out.push(TokenTree::Punct(Punct::new('$', Spacing::Alone)));
                out.push(TokenTree::Ident(Ident::new(&format!("verif{k}"), Span::call_site())));
            }
            TokenTree::Group(g) => {
                out.push(Group::new(g.delimiter(), replace(&g.stream(), names, params, from)).into());
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

/// The module whose view is written by a macro, and what is shown of it.
pub fn module(case: &Case, mut tape: Tape) -> (String, String, usize, &'static str) {
    let mut names = BTreeSet::new();
    binders(&case.roots, &mut names);
    let mut layout = case.layout.clone();
    let mut how = [3, 1, 0, 2, 2, 1][tape.below(6)];
    if how < 3 && names.iter().any(|n| n.contains('-')) {
        names = names.into_iter().map(|n| n.replace('-', "_")).collect();
        how = 0;
    }
    let print = |layout: &mut Tape, tape: Option<Tape>, keep: Vec<String>, rename: BTreeMap<String, String>| {
        let mut p = Printer::new(layout, None);
        p.rename = rename;
        p.frags = tape.map(|tape| Frags { tape, params: vec![], keep });
        p.nodes(&case.roots);
        let frags = p.frags.take();
        let params = frags.map_or(vec![], |f| f.params);
        let shorts = std::mem::take(&mut p.shorts);
        (p.finish(), params, shorts)
    };
    let (view, mut params, shorts) = match how {
        // all of it in one piece
        3 => {
            let (view, ..) = print(&mut layout, None, vec![], BTreeMap::new());
            let first = "macro_rules! verif_made { ($($verif:tt)*) => { ::leptos_mview::mview! { $($verif)* } } }\n";
            let built = format!("verif_made! {{\n{view}\n}}");
            return (around(case, first, &built), format!("{first}{built}"), 1, "all of it given");
        }
        // what mentions variables of the view stays in the macro
        _ => print(&mut layout.clone(), Some(tape.clone()), names.iter().cloned().collect(), BTreeMap::new()),
    };
    let mut body = view;
    let mut what = if names.is_empty() { "no variables" } else { "variables stay" };
    if how == 2 && !names.is_empty() {
        // or they have the names of other variables
        if let Ok(ts) = body.replace("@CASE@", "VerifCase").parse::<TokenStream>() {
            if let Some(to) = collide(&ts, case, &names, &shorts, &params) {
                (body, _, _) = print(&mut layout.clone(), Some(tape.clone()), names.iter().cloned().collect(), to);
                what = "variables have other names";
            }
        }
    }
    if how != 0 && what == "variables stay" && !names.is_empty() {
        // or these variables are given, too
        let (view, more, _) = print(&mut layout, Some(tape.clone()), vec![], BTreeMap::new());
        if let Ok(ts) = view.replace("@CASE@", "VerifCase").parse::<TokenStream>() {
            let mut literals = in_literals(&ts, &names);
            for (kind, text) in &more {
                literals |= *kind == "literal" && names.iter().any(|n| text.contains(n.as_str()));
            }
            if !literals {
                let mut given = BTreeMap::new();
                body = replace(&ts, &names, &mut given, more.len()).to_string().replace("VerifCase", "@CASE@");
                params = more;
                what = "variables are given";
                let mut given: Vec<(String, usize)> = given.into_iter().collect();
                given.sort_by_key(|g| g.1);
                params.extend(given.into_iter().map(|(n, _)| ("ident", n)));
            }
        }
    }
    let kinds: Vec<String> = params.iter().enumerate().map(|(i, (k, _))| format!("$verif{i}:{k}")).collect();
    let given: Vec<&str> = params.iter().map(|(_, t)| t.as_str()).collect();
    let (before, after) = PLACES[case.place];
    let first = format!(
        "macro_rules! verif_made {{ ({}) => {{ {before}\n{body}\n{after} }} }}\n",
        kinds.join(", ")
    );
    let built = format!("verif_made!({})", given.join(",\n"));
    (around(case, &first, &built), format!("{first}{built}"), params.len(), what)
}
