//! The documented syntax, read liberally: says why input is certainly outside
//! of it. What only the compiler can object to (unknown tags, attributes of
//! the wrong type, expressions that are none) is no concern here.
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};

/// Why the macro has to report an error, if it has to.
pub fn outside(ts: &TokenStream) -> Option<String> {
    children(ts, false).err()
}

type R<T> = Result<T, String>;

struct Toks {
    list: Vec<TokenTree>,
    at: usize,
}

impl Toks {
    fn peek(&self, n: usize) -> Option<&TokenTree> {
        self.list.get(self.at + n)
    }
    fn ident(&self, n: usize) -> Option<&Ident> {
        match self.peek(n) {
            Some(TokenTree::Ident(i)) => Some(i),
            _ => None,
        }
    }
    fn punct(&self, n: usize, c: char) -> bool {
        matches!(self.peek(n), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn group(&self, n: usize, d: Delimiter) -> Option<&Group> {
        match self.peek(n) {
            Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g),
            _ => None,
        }
    }
    /// `::`
    fn colons(&self, n: usize) -> bool {
        matches!(self.peek(n), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == Spacing::Joint)
            && self.punct(n + 1, ':')
    }
    fn take(&mut self, c: char) -> bool {
        let is = self.punct(0, c);
        self.at += usize::from(is);
        is
    }
    fn here(&self) -> String {
        self.peek(0).map_or("the end".into(), |t| format!("`{t}`"))
    }
    fn text(&self, n: usize) -> Option<String> {
        match self.peek(n) {
            Some(TokenTree::Literal(l)) => Some(l.to_string()),
            _ => None,
        }
    }
}

fn is_str(l: &str) -> bool {
    l.starts_with('"') || l.starts_with("r\"") || l.starts_with("r#")
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Element,
    Component,
    Slot,
}

fn children(ts: &TokenStream, slots: bool) -> R<()> {
    let mut t = Toks { list: ts.clone().into_iter().collect(), at: 0 };
    while t.peek(0).is_some() {
        child(&mut t, slots)?;
    }
    Ok(())
}

fn child(t: &mut Toks, slots: bool) -> R<()> {
    if let Some(i) = t.ident(0) {
        let i = i.to_string();
        if t.group(1, Delimiter::Bracket).is_some() {
            prefix(&i)?;
            t.at += 2;
            return Ok(());
        }
        if i == "true" || i == "false" {
            return Err(format!("the child {i}"));
        }
        if i == "slot" && t.punct(1, ':') && !t.colons(1) {
            t.at += 2;
            if !slots {
                return Err("a slot that is not in a component".into());
            }
            return element(t, true);
        }
        return element(t, false);
    }
    if t.colons(0) {
        return element(t, false);
    }
    match t.peek(0) {
        // nothing is known about what is in there
        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => Err("a child in parentheses".into()),
        Some(TokenTree::Group(_)) => {
            t.at += 1;
            Ok(())
        }
        Some(TokenTree::Literal(l)) if is_str(&l.to_string()) => {
            t.at += 1;
            Ok(())
        }
        _ => Err(format!("the child {}", t.here())),
    }
}

fn prefix(i: &str) -> R<()> {
    if i == "f" || i == "r#f" {
        Ok(())
    } else {
        Err(format!("the prefix {i}"))
    }
}

fn name(t: &mut Toks) -> R<String> {
    let mut out = String::new();
    let mut only_dash = false;
    if let Some(i) = t.ident(0) {
        out.push_str(i.to_string().trim_start_matches("r#"));
        t.at += 1;
    } else if t.take('-') {
        out.push('-');
        only_dash = true;
    } else {
        return Err(format!("{} instead of a name", t.here()));
    }
    loop {
        if t.take('-') {
            out.push('-');
        } else if !only_dash {
            return Ok(out);
        }
        only_dash = false;
        if let Some(i) = t.ident(0) {
            out.push_str(&i.to_string());
            t.at += 1;
        } else if let Some(l) = t.text(0) {
            if syn::parse_str::<syn::LitInt>(&l).is_ok() {
                out.push_str(&l);
                t.at += 1;
            }
        }
    }
}

fn value(t: &mut Toks) -> R<()> {
    match t.peek(0) {
        Some(TokenTree::Group(g)) if matches!(g.delimiter(), Delimiter::Brace | Delimiter::Bracket) => t.at += 1,
        Some(TokenTree::Ident(i)) => {
            let i = i.to_string();
            if t.group(1, Delimiter::Bracket).is_some() {
                prefix(&i)?;
                t.at += 2;
            } else if i == "true" || i == "false" {
                t.at += 1;
            } else {
                return Err(format!("the value {i}"));
            }
        }
        Some(TokenTree::Literal(_)) => t.at += 1,
        Some(TokenTree::Punct(p))
            if p.as_char() == '-' && t.text(1).is_some_and(|l| l.starts_with(|c: char| c.is_ascii_digit())) =>
        {
            t.at += 2;
        }
        _ => return Err(format!("the value {}", t.here())),
    }
    Ok(())
}

/// `{name}`
fn braced_name(t: &Toks) -> bool {
    t.group(0, Delimiter::Brace).is_some_and(|g| {
        let mut inner = Toks { list: g.stream().into_iter().collect(), at: 0 };
        name(&mut inner).is_ok() && inner.peek(0).is_none()
    })
}

fn tag(t: &mut Toks, slot: bool) -> R<Kind> {
    if t.colons(0) || t.ident(0).is_some() && (t.colons(1) || t.punct(1, '<')) {
        let mut single = !t.colons(0);
        if !single {
            t.at += 2;
        }
        loop {
            if t.ident(0).is_none() {
                return Err(format!("{} in a path", t.here()));
            }
            t.at += 1;
            if t.punct(0, '<') || t.colons(0) && t.punct(2, '<') {
                single = false;
                t.at += if t.punct(0, '<') { 0 } else { 2 };
                generics(t)?;
            }
            if !t.colons(0) {
                break;
            }
            single = false;
            t.at += 2;
        }
        if slot && !single {
            return Err("a slot named by a path".into());
        }
        return Ok(if slot { Kind::Slot } else { Kind::Component });
    }
    let n = name(t)?;
    if n.starts_with(|c: char| c.is_ascii_uppercase()) {
        return Ok(if slot { Kind::Slot } else { Kind::Component });
    }
    if slot {
        return Err(format!("the slot {n}"));
    }
    Ok(Kind::Element)
}

fn generics(t: &mut Toks) -> R<()> {
    let mut depth = 0usize;
    let mut arrow = false;
    while let Some(x) = t.peek(0) {
        let mut next_arrow = false;
        if let TokenTree::Punct(p) = x {
            match p.as_char() {
                '<' => depth += 1,
                '>' if !arrow => depth -= 1,
                '-' | '=' => next_arrow = p.spacing() == Spacing::Joint,
                _ => {}
            }
        }
        arrow = next_arrow;
        t.at += 1;
        if depth == 0 {
            return Ok(());
        }
    }
    Err("unclosed generics".into())
}

fn element(t: &mut Toks, slot: bool) -> R<()> {
    let kind = tag(t, slot)?;
    while t.punct(0, '.') || t.punct(0, '#') {
        t.at += 1;
        let n = name(t)?;
        if slot {
            return Err(format!("the selector {n} on a slot"));
        }
    }
    while attr(t, kind)? {}
    if t.take(';') {
        return Ok(());
    }
    let args = t.take('|');
    if args {
        while !t.take('|') {
            if t.peek(0).is_none() {
                return Err("unclosed closure arguments".into());
            }
            t.at += 1;
        }
        if kind == Kind::Element {
            return Err("closure arguments on an element".into());
        }
    }
    match t.peek(0) {
        Some(TokenTree::Group(g)) if matches!(g.delimiter(), Delimiter::Brace | Delimiter::Parenthesis) => {
            let inner = g.stream();
            t.at += 1;
            children(&inner, kind != Kind::Element)
        }
        _ => Err(format!("{} instead of children or `;`", t.here())),
    }
}

fn attr(t: &mut Toks, kind: Kind) -> R<bool> {
    if t.ident(0).is_some() && t.punct(1, ':') {
        directive(t, kind)?;
        return Ok(true);
    }
    if t.ident(0).is_some() || t.punct(0, '-') {
        name(t)?;
        if t.take('=') {
            value(t)?;
        }
        return Ok(true);
    }
    if braced_name(t) {
        t.at += 1;
        return Ok(true);
    }
    if let Some(g) = t.group(0, Delimiter::Brace) {
        let inner = Toks { list: g.stream().into_iter().collect(), at: 0 };
        let joint = matches!(inner.peek(0), Some(TokenTree::Punct(p)) if p.spacing() == Spacing::Joint);
        if inner.punct(0, '.') && inner.punct(1, '.') && joint {
            if kind == Kind::Slot {
                return Err("a spread on a slot".into());
            }
            t.at += 1;
            return Ok(true);
        }
    }
    Ok(false)
}

fn directive(t: &mut Toks, kind: Kind) -> R<()> {
    let dir = t.ident(0).unwrap().to_string();
    t.at += 2;
    let mut valued = false;
    let mut text = false;
    if t.group(0, Delimiter::Brace).is_some() {
        if !braced_name(t) {
            return Err(format!("`{dir}:` of {}", t.here()));
        }
        t.at += 1;
        valued = true;
    } else if t.text(0).is_some_and(|l| is_str(&l)) {
        t.at += 1;
        text = true;
    } else {
        name(t)?;
    }
    let short = valued;
    let mut modifier = None;
    if t.take(':') {
        let Some(i) = t.ident(0) else {
            return Err(format!("the modifier {}", t.here()));
        };
        modifier = Some(i.to_string());
        t.at += 1;
    }
    if !short && t.take('=') {
        valued = true;
        value(t)?;
    }
    let raw = dir.starts_with("r#");
    let known: &[&str] = match kind {
        Kind::Element => &["class", "style", "prop", "on", "use"],
        Kind::Component => &["class", "style", "prop", "on", "use", "attr", "clone"],
        Kind::Slot => &["clone"],
    };
    if !raw && !known.contains(&&*dir) {
        return Err(format!("the directive `{dir}:`"));
    }
    if raw {
        return Ok(());
    }
    if let Some(m) = modifier {
        if dir != "on" || m != "undelegated" {
            return Err(format!("the modifier `{m}` of `{dir}:`"));
        }
    }
    if text && matches!(&*dir, "on" | "use" | "clone") {
        return Err(format!("`{dir}:` of a string"));
    }
    if dir == "clone" && valued {
        return Err("`clone:` with a value".into());
    }
    Ok(())
}
