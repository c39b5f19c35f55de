//! The macro run in this process, on token streams.
use crate::tape::Tape;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Error {
    /// lines, from 1, and columns, from 0; (1, 0) is the whole macro call
    pub first: (usize, usize),
    pub last: (usize, usize),
    pub msg: String,
}

#[derive(Debug, Default)]
pub struct Ran {
    pub out: Option<TokenStream>,
    pub errors: Vec<Error>,
    pub warnings: usize,
    pub panicked: Option<String>,
}

pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn error(first: Span, last: Span, msg: String) -> Error {
    let (a, b) = (first.start(), last.end());
    Error {
        first: (a.line, a.column),
        last: (b.line, b.column),
        msg,
    }
}

fn find_compile_error(ts: &TokenStream) -> Option<Span> {
    for t in ts.clone() {
        match t {
            TokenTree::Ident(i) if i == "compile_error" => return Some(i.span()),
            TokenTree::Group(g) => {
                if let Some(s) = find_compile_error(&g.stream()) {
                    return Some(s);
                }
            }
            _ => {}
        }
    }
    None
}

pub fn run(input: TokenStream) -> Ran {
    let has = find_compile_error(&input).is_some();
    let done = catch_unwind(AssertUnwindSafe(|| {
        proc_macro_error2::verif_entry_point(AssertUnwindSafe(|| leptos_mview_core::mview_impl(input)))
    }));
    match done {
        Ok((out, diags, dummy)) => {
            let mut errors: Vec<Error> = vec![];
            let mut warnings = 0;
            for d in diags {
                if d.is_error {
                    errors.push(error(d.first, d.last, d.msg));
                } else {
                    warnings += 1;
                }
            }
            if !has {
                if let Some(s) = out.as_ref().and_then(find_compile_error) {
                    errors.push(error(s, s, "compile_error! in the expansion".into()));
                }
            }
            Ran {
                out: out.or(dummy),
                errors,
                warnings,
                panicked: None,
            }
        }
        Err(p) => Ran {
            panicked: Some(
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                    .unwrap_or_else(|| "panic".into()),
            ),
            ..Ran::default()
        },
    }
}

/// Forgets the source text kept for spans of this thread.
pub fn forget() {
    proc_macro2::extra::invalidate_current_thread_spans();
}

// ---------------------------------------------------------------- markers

fn scan(text: &str, out: &mut BTreeSet<String>) {
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].eq_ignore_ascii_case(&b'm') && i + 2 < b.len() && b[i + 1].eq_ignore_ascii_case(&b'k') {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 2 && j < b.len() && b[j].eq_ignore_ascii_case(&b'q') {
                out.insert(text[i..=j].to_lowercase());
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'1' && i + 7 <= b.len() && b[i..i + 7].iter().all(u8::is_ascii_digit) {
            out.insert(text[i..i + 7].to_string());
            i += 7;
            continue;
        }
        i += 1;
    }
}

/// All markers.
pub fn markers(ts: &TokenStream) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    scan(&ts.to_string(), &mut out);
    out
}

/// The markers that have to survive: not those between pipes or after
/// `clone:`, which go with the children when there are none.
pub fn lasting(ts: &TokenStream) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    lasting_in(ts, &mut out);
    out
}

fn lasting_in(ts: &TokenStream, out: &mut BTreeSet<String>) {
    let list: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut inside = false;
    for (i, t) in list.iter().enumerate() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '|' => inside = !inside,
            _ if inside => {}
            TokenTree::Group(g) => lasting_in(&g.stream(), out),
            TokenTree::Ident(_) => {
                let cloned = i >= 2
                    && matches!(&list[i - 1], TokenTree::Punct(p) if p.as_char() == ':')
                    && matches!(&list[i - 2], TokenTree::Ident(c) if c == "clone");
                if !cloned {
                    scan(&t.to_string(), out);
                }
            }
            t => scan(&t.to_string(), out),
        }
    }
}

// ---------------------------------------------------------------- mutation

const IDENTS: &[&str] = &[
    "div", "Comp", "slot", "class", "style", "on", "use", "prop", "attr", "clone", "ref", "f", "true", "self", "Self",
    "_", "super", "crate", "mview", "undelegated", "r#type", "type", "use_", "x", "svg", "math", "a", "span", "id",
    "click", "Slot", "é", "Ñandú", "mut", "move", "as", "r#div", "format", "key", "xyz_1",
];
const PUNCTS: &[char] = &[
    '=', ';', ':', '.', '#', '|', '-', ',', '<', '>', '&', '!', '?', '@', '$', '*', '/', '+', '%', '^', '~',
];
const LITERALS: &[&str] = &[
    "\"s\"", "5", "1.5", "'c'", "b\"b\"", "r#\"raw\"#", "b'b'", "c\"c\"", "0xff", "1e5", "12px", "0b1", "1_000u8",
    "340282366920938463463374607431768211456", "\"é\\u{1F600}\"", "100", "2xl", "0o7", "1.", "3f32", "br\"x\"",
];

pub fn token(t: &mut Tape) -> TokenTree {
    match t.below(4) {
        1 => {
            let c = *t.pick(PUNCTS);
            TokenTree::Punct(Punct::new(c, if t.chance(40) { Spacing::Joint } else { Spacing::Alone }))
        }
        2 => {
            let l: Literal = t.pick(LITERALS).parse().expect("a literal");
            TokenTree::Literal(l)
        }
        _ => {
            let i: TokenStream = t.pick(IDENTS).parse().expect("an identifier");
            i.into_iter().next().unwrap()
        }
    }
}

pub fn delimiter(t: &mut Tape) -> Delimiter {
    match t.below(10) {
        1..=3 => Delimiter::Parenthesis,
        4..=6 => Delimiter::Bracket,
        _ => Delimiter::Brace,
    }
}

#[derive(Clone)]
pub enum Tree {
    Leaf(TokenTree),
    Group(Delimiter, Vec<Tree>),
}

pub fn tree(ts: &TokenStream) -> Vec<Tree> {
    ts.clone()
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => Tree::Group(g.delimiter(), tree(&g.stream())),
            t => Tree::Leaf(t),
        })
        .collect()
}

pub fn stream(ts: &[Tree]) -> TokenStream {
    ts.iter()
        .map(|t| match t {
            Tree::Leaf(t) => t.clone(),
            Tree::Group(d, inner) => TokenTree::Group(Group::new(*d, stream(inner))),
        })
        .collect()
}

fn count(ts: &[Tree]) -> usize {
    ts.iter()
        .map(|t| match t {
            Tree::Leaf(_) => 1,
            Tree::Group(_, i) => 1 + count(i),
        })
        .sum()
}

/// The list that holds the `n`th tree, and where in it.
fn find(ts: &mut Vec<Tree>, n: usize) -> (&mut Vec<Tree>, usize) {
    let mut left = n;
    let mut hit = None;
    for (i, t) in ts.iter().enumerate() {
        if left == 0 {
            hit = Some((i, None));
            break;
        }
        left -= 1;
        if let Tree::Group(_, inner) = t {
            let c = count(inner);
            if left < c {
                hit = Some((i, Some(left)));
                break;
            }
            left -= c;
        }
    }
    match hit {
        Some((i, Some(n))) => match &mut ts[i] {
            Tree::Group(_, inner) => find(inner, n),
            Tree::Leaf(_) => unreachable!(),
        },
        Some((i, None)) => (ts, i),
        None => {
            let i = ts.len();
            (ts, i)
        }
    }
}

/// Changes something small.
pub fn mutate(ts: &mut Vec<Tree>, t: &mut Tape) {
    let n = count(ts);
    if n == 0 {
        ts.push(Tree::Leaf(token(t)));
        return;
    }
    let at = t.below(n);
    match t.below(13) {
        12 => {
            // a suffix no literal has
            let suffix = format!("mk{}q", 900 + t.below(9));
            let (list, i) = find(ts, at);
            if let Some(Tree::Leaf(old)) =
                list[i..].iter_mut().find(|x| matches!(x, Tree::Leaf(TokenTree::Literal(_))))
            {
                if let Ok(new) = format!("{old}{suffix}").parse::<TokenStream>() {
                    if let [new @ TokenTree::Literal(_)] = &new.into_iter().collect::<Vec<_>>()[..] {
                        *old = new.clone();
                    }
                }
            }
        }
        9 => {
            // another spelling of a name
            let k = t.below(4);
            let (list, i) = find(ts, at);
            let at = list[i..]
                .iter()
                .position(|x| matches!(x, Tree::Leaf(TokenTree::Ident(_))))
                .map(|j| i + j);
            if let Some(j) = at {
                let Tree::Leaf(TokenTree::Ident(old)) = &list[j] else { unreachable!() };
                let name = old.to_string();
                let new = match k {
                    0 | 1 => match name.strip_prefix("r#") {
                        Some(plain) => plain.to_string(),
                        None => format!("r#{name}"),
                    },
                    2 => match name.chars().next() {
                        Some(c) if c.is_uppercase() => name.to_lowercase(),
                        Some(c) => c.to_uppercase().chain(name.chars().skip(1)).collect(),
                        None => name,
                    },
                    _ => format!("{name}_"),
                };
                if let Ok(new) = new.parse::<TokenStream>() {
                    if let [TokenTree::Ident(new)] = &new.into_iter().collect::<Vec<_>>()[..] {
                        list[j] = Tree::Leaf(TokenTree::Ident(new.clone()));
                    }
                }
            }
        }
        10 => {
            // glued to what follows, or not
            let (list, i) = find(ts, at);
            if let Some(Tree::Leaf(TokenTree::Punct(p))) =
                list[i..].iter_mut().find(|x| matches!(x, Tree::Leaf(TokenTree::Punct(_))))
            {
                let other = match p.spacing() {
                    Spacing::Joint => Spacing::Alone,
                    Spacing::Alone => Spacing::Joint,
                };
                *p = Punct::new(p.as_char(), other);
            }
        }
        11 => {
            // something of the program once more, elsewhere
            let to = t.below(n);
            let copy = {
                let (list, i) = find(ts, at);
                list[i].clone()
            };
            let (list, i) = find(ts, to);
            list.insert(i, copy);
        }
        1 => {
            let (list, i) = find(ts, at);
            let copy = list[i].clone();
            list.insert(i, copy);
        }
        2 => {
            let (list, i) = find(ts, at);
            if i + 1 < list.len() {
                list.swap(i, i + 1);
            } else {
                list.remove(i);
            }
        }
        3 | 4 => {
            let new = Tree::Leaf(token(t));
            let (list, i) = find(ts, at);
            list.insert(i, new);
        }
        5 => {
            let new = Tree::Leaf(token(t));
            let (list, i) = find(ts, at);
            list[i] = new;
        }
        6 => {
            // another delimiter, or around what was not in one
            let d = delimiter(t);
            let (list, i) = find(ts, at);
            let old = list.remove(i);
            let new = match old {
                Tree::Group(_, inner) => Tree::Group(d, inner),
                leaf => Tree::Group(d, vec![leaf]),
            };
            list.insert(i, new);
        }
        7 => {
            // take the delimiters away, or drop what follows
            let (list, i) = find(ts, at);
            match list.remove(i) {
                Tree::Group(_, inner) => {
                    list.splice(i..i, inner);
                }
                Tree::Leaf(_) => list.truncate(i),
            }
        }
        8 => {
            // move it elsewhere
            let to = t.below(n);
            let moved = {
                let (list, i) = find(ts, at);
                list.remove(i)
            };
            let (list, i) = find(ts, to);
            list.insert(i, moved);
        }
        _ => {
            let (list, i) = find(ts, at);
            list.remove(i);
        }
    }
}

/// Any tokens at all.
pub fn soup(t: &mut Tape, depth: usize) -> Vec<Tree> {
    let n = t.below(9);
    (0..n)
        .map(|_| {
            if depth > 0 && t.chance(25) {
                let d = if t.chance(6) { Delimiter::None } else { delimiter(t) };
                Tree::Group(d, soup(t, depth - 1))
            } else if t.chance(4) {
                // deep
                let k = t.below(50);
                let mut x = soup(t, 0);
                for i in 0..k {
                    let d = delimiter(t);
                    let mut inner = vec![];
                    if i % 2 == 0 {
                        inner.push(Tree::Leaf(TokenTree::Ident(Ident::new("div", Span::call_site()))));
                    }
                    inner.push(Tree::Group(d, x));
                    x = inner;
                }
                Tree::Group(Delimiter::Brace, x)
            } else {
                Tree::Leaf(token(t))
            }
        })
        .collect()
}

// ------------------------------------------------- text that can be read back

const NONE: &str = "verif_none_delimiter";

/// As text; groups without delimiters are spelled out.
pub fn write(ts: &TokenStream) -> String {
    fn mark(ts: &TokenStream) -> TokenStream {
        let mut out = vec![];
        for t in ts.clone() {
            match t {
                TokenTree::Group(g) => {
                    let inner = mark(&g.stream());
                    if g.delimiter() == Delimiter::None {
                        out.push(TokenTree::Ident(Ident::new(NONE, Span::call_site())));
                        out.push(TokenTree::Group(Group::new(Delimiter::Brace, inner)));
                    } else {
                        out.push(TokenTree::Group(Group::new(g.delimiter(), inner)));
                    }
                }
                t => out.push(t),
            }
        }
        out.into_iter().collect()
    }
    mark(ts).to_string()
}

pub fn read(text: &str) -> Option<TokenStream> {
    fn unmark(ts: TokenStream) -> TokenStream {
        let mut out: Vec<TokenTree> = vec![];
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let span = g.span();
                    let inner = unmark(g.stream());
                    let d = if matches!(out.last(), Some(TokenTree::Ident(i)) if i == NONE) {
                        out.pop();
                        Delimiter::None
                    } else {
                        g.delimiter()
                    };
                    if d == g.delimiter() && !contains_none(&inner) {
                        // keeps the spans of the delimiters
                        out.push(TokenTree::Group(g));
                        continue;
                    }
                    let mut g = Group::new(d, inner);
                    g.set_span(span);
                    out.push(TokenTree::Group(g));
                }
                t => out.push(t),
            }
        }
        out.into_iter().collect()
    }
    fn contains_none(ts: &TokenStream) -> bool {
        ts.clone().into_iter().any(|t| match t {
            TokenTree::Group(g) => g.delimiter() == Delimiter::None || contains_none(&g.stream()),
            _ => false,
        })
    }
    text.parse::<TokenStream>().ok().map(unmark)
}

// ----------------------------------------------------- is it an expression

fn groups(ts: &TokenStream, out: &mut BTreeSet<String>) {
    for t in ts.clone() {
        if let TokenTree::Group(g) = t {
            let text = g.stream().to_string();
            if let Some(rest) = text.strip_prefix("..") {
                out.insert(rest.trim().to_string());
            }
            out.insert(text);
            groups(&g.stream(), out);
        }
    }
}

fn soften(ts: &TokenStream, known: &BTreeSet<String>) -> TokenStream {
    ts.clone()
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let text = g.stream().to_string();
                let alone = TokenStream::from(TokenTree::Group(g.clone()));
                let inner = if syn::parse2::<syn::Expr>(alone.clone()).is_ok()
                    || syn::parse2::<syn::Type>(alone).is_ok()
                {
                    g.stream()
                } else if !text.is_empty() && known.contains(&text) {
                    "\"x\"".parse().unwrap()
                } else {
                    soften(&g.stream(), known)
                };
                TokenTree::Group(Group::new(g.delimiter(), inner))
            }
            t => t,
        })
        .collect()
}

fn spread_or_pipe(ts: &TokenStream) -> bool {
    let list: Vec<TokenTree> = ts.clone().into_iter().collect();
    list.iter().enumerate().any(|(i, t)| match t {
        TokenTree::Punct(p) => {
            p.as_char() == '|'
                || (p.as_char() == '.'
                    && matches!(list.get(i + 1), Some(TokenTree::Punct(q)) if q.as_char() == '.'))
        }
        TokenTree::Group(g) => g.delimiter() == Delimiter::None || spread_or_pipe(&g.stream()),
        _ => false,
    })
}

/// Whether the expansion is one expression, whatever the user's code in it
/// is. `None` if that cannot be told.
pub fn is_expression(input: &TokenStream, out: &TokenStream) -> Option<bool> {
    // through text, as one process knows of no other
    let Ok(fresh) = out.to_string().parse::<TokenStream>() else {
        return Some(false);
    };
    if syn::parse2::<syn::Expr>(fresh.clone()).is_ok() {
        return Some(true);
    }
    if spread_or_pipe(input) {
        return None;
    }
    let mut known = BTreeSet::new();
    let Ok(again) = input.to_string().parse::<TokenStream>() else {
        return None;
    };
    groups(&again, &mut known);
    Some(syn::parse2::<syn::Expr>(soften(&fresh, &known)).is_ok())
}

// ----------------------------------------------------------------- layouts

const GAPS: &[&str] = &[
    " ", "\n", "  ", "\t", "\n\n    ", " /* c */ ", " // c\n", "/* {[( \"' */", "\r\n", " /* a /* nested */ b */ ", " // }\n    ",
];

/// The same tokens, laid out in another way. `names` also changes between
/// raw and plain spelling of identifiers that can be both.
pub fn lay_out(ts: &TokenStream, t: &mut Tape, names: bool) -> String {
    let mut out = String::new();
    lay(ts, t, names, true, &mut out);
    out
}

fn gap(t: &mut Tape, out: &mut String) {
    let n = t.small(2);
    if out.ends_with('/') {
        out.push(' ');
    }
    out.push_str(GAPS[t.below(GAPS.len())]);
    for _ in 0..n {
        out.push_str(GAPS[t.below(GAPS.len())]);
    }
}

fn maybe_gap(t: &mut Tape, out: &mut String) {
    if t.chance(40) {
        gap(t, out);
    }
}

/// Whether these tokens may stand directly next to each other.
fn may_touch(a: &TokenTree, b: &TokenTree) -> bool {
    use TokenTree as T;
    match (a, b) {
        (T::Punct(p), T::Punct(_)) => {
            let _ = p;
            false
        }
        // lifetimes, reserved prefixes, floats and comments
        (T::Punct(p), T::Ident(_)) => matches!(p.as_char(), '=' | ':' | ';' | ',' | '|' | '.' | '-'),
        (T::Punct(p), T::Literal(l)) => !l.to_string().starts_with('\'') && matches!(p.as_char(), '=' | ';' | ','),
        (T::Ident(_), T::Punct(p)) => matches!(p.as_char(), '=' | ':' | ';' | ',' | '|' | '.' | '-'),
        (T::Literal(_), T::Punct(p)) => matches!(p.as_char(), ';' | ',' | '|'),
        (T::Group(_), T::Ident(_)) => true,
        (T::Group(_), T::Punct(p)) => p.as_char() != '/',
        (T::Punct(p), T::Group(_)) => p.as_char() != '/',
        (_, T::Group(_)) | (T::Group(_), _) => true,
        _ => false,
    }
}

fn lay(ts: &TokenStream, t: &mut Tape, names: bool, _top: bool, out: &mut String) {
    let list: Vec<TokenTree> = ts.clone().into_iter().collect();
    maybe_gap(t, out);
    for (i, x) in list.iter().enumerate() {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    _ => ("(", ")"),
                };
                out.push_str(a);
                lay(&g.stream(), t, names, false, out);
                out.push_str(b);
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if names && s.starts_with("mk") && !after_dash(&list, i) && t.chance(30) {
                    out.push_str("r#");
                } else if names && s.starts_with("r#mk") && !after_dash(&list, i) && t.chance(50) {
                    out.push_str(&s[2..]);
                    spacing(&list, i, t, out);
                    continue;
                }
                out.push_str(&s);
            }
            x => out.push_str(&x.to_string()),
        }
        spacing(&list, i, t, out);
    }
}

/// Within a kebab-case name raw identifiers are not allowed.
fn after_dash(list: &[TokenTree], i: usize) -> bool {
    i > 0 && matches!(&list[i - 1], TokenTree::Punct(p) if p.as_char() == '-')
}

fn spacing(list: &[TokenTree], i: usize, t: &mut Tape, out: &mut String) {
    let Some(next) = list.get(i + 1) else {
        maybe_gap(t, out);
        return;
    };
    if let TokenTree::Punct(p) = &list[i] {
        // names may have spaces between their dashes; `--` is not an operator
        if p.as_char() == '-' && matches!(next, TokenTree::Punct(n) if n.as_char() == '-') {
            maybe_gap(t, out);
            return;
        }
        if p.spacing() == Spacing::Joint {
            return;
        }
    }
    if may_touch(&list[i], next) && t.chance(40) {
        return;
    }
    gap(t, out);
}

/// With all dashes that follow each other joined, as no operator has two.
pub fn plain_dashes(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if c == '-' {
            let n = out.trim_end().len();
            if out[..n].ends_with('-') {
                out.truncate(n);
            }
        }
        out.push(c);
    }
    out
}

/// Without `r#` where it makes no difference.
pub fn plain_names(s: &str) -> String {
    s.replace("r#mk", "mk")
}

/// Identifiers of expansions that are not those of the program: names that
/// are introduced, and names that are looked up where the view is.
pub fn brought(input: &TokenStream) -> (BTreeSet<String>, BTreeSet<String>) {
    fn idents(ts: &TokenStream, out: &mut BTreeSet<String>) {
        for t in ts.clone() {
            match t {
                TokenTree::Ident(i) => {
                    // names with dashes are joined
                    out.extend(i.to_string().trim_start_matches("r#").split('_').map(String::from));
                    out.insert(i.to_string().trim_start_matches("r#").to_string());
                }
                TokenTree::Group(g) => idents(&g.stream(), out),
                TokenTree::Literal(l) => {
                    out.extend(l.to_string().split('_').map(String::from));
                }
                _ => {}
            }
        }
    }
    fn scan(ts: &TokenStream, known: &BTreeSet<String>, names: &mut BTreeSet<String>, free: &mut BTreeSet<String>) {
        let list: Vec<TokenTree> = ts.clone().into_iter().collect();
        let is = |i: usize, c: char| matches!(list.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
        for (i, t) in list.iter().enumerate() {
            match t {
                TokenTree::Group(g) => scan(&g.stream(), known, names, free),
                TokenTree::Ident(id) => {
                    let s = id.to_string().trim_start_matches("r#").to_string();
                    if known.contains(&s) || s.split('_').all(|p| known.contains(p) || p.bytes().all(|b| b.is_ascii_digit())) || syn::parse_str::<Ident>(&s).is_err() {
                        continue;
                    }
                    let after_dot = i > 0 && is(i - 1, '.') && !(i > 1 && is(i - 2, '.'));
                    let after_colons = i > 1 && is(i - 1, ':') && is(i - 2, ':');
                    if after_dot || after_colons {
                        continue;
                    }
                    // a macro call, a path or a plain name
                    let bound = i > 0
                        && matches!(&list[i - 1], TokenTree::Ident(k) if ["let", "mut", "ref", "fn", "static", "const", "for", "as"].contains(&k.to_string().as_str()))
                        || i > 0 && (is(i - 1, '|') || is(i - 1, ','))
                        || i + 1 < list.len() && is(i + 1, '|');
                    if bound {
                        names.insert(s);
                    } else {
                        free.insert(s);
                    }
                }
                _ => {}
            }
        }
    }
    let mut known = BTreeSet::new();
    idents(input, &mut known);
    let (mut names, mut free) = (BTreeSet::new(), BTreeSet::new());
    if let Some(out) = run(input.clone()).out {
        scan(&out, &known, &mut names, &mut free);
    }
    (names, free)
}
