//! Parses the HTML that tachys writes into a canonical tree.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dom {
    El(El),
    Text(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct El {
    pub name: String,
    /// "" for HTML
    pub ns: String,
    /// Sorted. `None` is an attribute without value.
    pub attrs: Vec<(String, Option<String>)>,
    pub classes: BTreeSet<String>,
    pub styles: BTreeMap<String, String>,
    /// Listeners, properties, directives, refs: "on:click|h1", sorted.
    pub acts: Vec<String>,
    pub children: Vec<Dom>,
    /// Whether the relative order of whole-class/style and single ones matters
    /// (only in the model; see tachys::verif::overwrite).
    pub unordered: bool,
}

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track",
    "wbr",
];
pub const RAW: &[&str] = &["script", "style", "textarea", "noscript"];

fn decode(s: &str) -> String {
    if !s.contains('&') {
        return s.to_string();
    }
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let mut hit = false;
        for (ent, c) in [
            ("&amp;", '&'),
            ("&lt;", '<'),
            ("&gt;", '>'),
            ("&quot;", '"'),
            ("&#x27;", '\''),
            ("&#x2F;", '/'),
        ] {
            if let Some(r) = rest.strip_prefix(ent) {
                out.push(c);
                rest = r;
                hit = true;
                break;
            }
        }
        if !hit {
            out.push('&');
            rest = &rest[1..];
        }
    }
    out.push_str(rest);
    out
}

pub fn parse(html: &str) -> Result<Vec<Dom>, String> {
    let mut p = P { s: html, i: 0 };
    let out = p.children(None)?;
    if p.i < html.len() {
        return Err(format!("stray closing tag at {}: {}", p.i, &html[p.i..]));
    }
    Ok(out)
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

impl P<'_> {
    fn rest(&self) -> &str {
        &self.s[self.i..]
    }
    fn children(&mut self, raw: Option<&str>) -> Result<Vec<Dom>, String> {
        let mut out: Vec<Dom> = Vec::new();
        fn text(out: &mut Vec<Dom>, t: String) {
            if t.is_empty() {
                return;
            }
            if let Some(Dom::Text(prev)) = out.last_mut() {
                prev.push_str(&t);
            } else {
                out.push(Dom::Text(t));
            }
        }
        if let Some(tag) = raw {
            let end = self
                .rest()
                .find(&format!("</{tag}>"))
                .ok_or_else(|| format!("<{tag}> is not closed"))?;
            let t = self.rest()[..end].replace("<!>", "");
            self.i += end;
            text(&mut out, t);
            return Ok(out);
        }
        while self.i < self.s.len() {
            let rest = self.rest();
            if rest.starts_with("</") {
                break;
            } else if rest.starts_with("<!>") {
                self.i += 3;
            } else if rest.starts_with("<!--") {
                let end = rest.find("-->").ok_or("comment is not closed")?;
                self.i += end + 3;
            } else if rest.starts_with('<') {
                out.push(Dom::El(self.element()?));
            } else {
                let end = rest.find('<').unwrap_or(rest.len());
                let t = decode(&rest[..end]);
                self.i += end;
                text(&mut out, t);
            }
        }
        Ok(out)
    }
    fn element(&mut self) -> Result<El, String> {
        self.i += 1;
        let rest = self.rest();
        let end = rest
            .find([' ', '>', '/', '\n'])
            .ok_or("tag is not closed")?;
        let name = rest[..end].to_string();
        self.i += end;
        let mut el = El {
            name: name.clone(),
            ..El::default()
        };
        loop {
            self.i += self.rest().len() - self.rest().trim_start().len();
            let rest = self.rest();
            if rest.starts_with('>') {
                self.i += 1;
                break;
            }
            if rest.starts_with("/>") {
                self.i += 2;
                break;
            }
            let end = rest
                .find(['=', ' ', '>', '\n'])
                .ok_or("attribute is not closed")?;
            if end == 0 {
                return Err(format!("attribute without name: {rest}"));
            }
            let key = rest[..end].to_string();
            let value = if rest[end..].starts_with("=\"") {
                let v = &rest[end + 2..];
                let close = v.find('"').ok_or("attribute value is not closed")?;
                let v = decode(&v[..close]);
                self.i += end + 2 + close + 1;
                Some(v)
            } else if rest[end..].starts_with('=') {
                return Err(format!("attribute value is not quoted: {rest}"));
            } else {
                self.i += end;
                None
            };
            el.add_parsed(key, value);
        }
        if !(VOID.contains(&name.as_str()) && el.ns.is_empty()) {
            let raw = (el.ns.is_empty() && RAW.contains(&name.as_str())).then_some(name.as_str());
            el.children = self.children(raw)?;
            let close = format!("</{name}>");
            if !self.rest().starts_with(&close) {
                return Err(format!("<{name}> is closed by {}", self.rest()));
            }
            self.i += close.len();
        }
        el.sort();
        Ok(el)
    }
}

impl El {
    fn add_parsed(&mut self, key: String, value: Option<String>) {
        match (key.as_str(), &value) {
            ("v:ns", Some(v)) => {
                self.ns = if v.contains("svg") { "svg" } else { "math" }.to_string();
            }
            ("v:on", Some(v)) => {
                let parts = v.splitn(4, '|').collect::<Vec<_>>();
                self.acts
                    .push(format!("on:{}|{}", parts[0], parts.get(3).unwrap_or(&"")));
            }
            ("v:prop" | "v:use" | "v:ref", Some(v)) => {
                self.acts.push(format!("{}:{v}", &key[2..]));
            }
            ("class", Some(v)) => {
                self.classes
                    .extend(v.split_whitespace().map(str::to_string));
            }
            ("style", Some(v)) => {
                for decl in v.split(';') {
                    if decl.trim().is_empty() {
                        continue;
                    }
                    let (k, val) = decl.split_once(':').unwrap_or((decl, "<no value>"));
                    self.styles
                        .insert(k.trim().to_string(), val.trim().to_string());
                }
            }
            _ => self.attrs.push((key, value)),
        }
    }
    pub fn sort(&mut self) {
        self.attrs.sort();
        self.acts.sort();
    }
    fn unmark(&mut self) {
        self.classes = std::mem::take(&mut self.classes)
            .into_iter()
            .map(|c| c.trim_start_matches('~').to_string())
            .collect();
        self.styles = std::mem::take(&mut self.styles)
            .into_iter()
            .map(|(k, v)| (k.trim_start_matches('~').to_string(), v))
            .collect();
    }
}

/// Drops the order marks where the model says that order is not decided.
pub fn align(expected: &[Dom], actual: &mut [Dom]) {
    for (e, a) in expected.iter().zip(actual) {
        if let (Dom::El(e), Dom::El(a)) = (e, a) {
            if e.unordered {
                a.unmark();
                a.unordered = true;
            }
            align(&e.children, &mut a.children);
        }
    }
}

pub fn show(dom: &[Dom]) -> String {
    fn go(d: &Dom, depth: usize, out: &mut String) {
        let pad = "  ".repeat(depth);
        match d {
            Dom::Text(t) => writeln!(out, "{pad}{t:?}").unwrap(),
            Dom::El(e) => {
                write!(out, "{pad}<{}", e.name).unwrap();
                if !e.ns.is_empty() {
                    write!(out, " ({})", e.ns).unwrap();
                }
                for (k, v) in &e.attrs {
                    match v {
                        Some(v) => write!(out, " {k}={v:?}").unwrap(),
                        None => write!(out, " {k}").unwrap(),
                    }
                }
                if !e.classes.is_empty() {
                    write!(out, " classes={:?}", e.classes).unwrap();
                }
                if !e.styles.is_empty() {
                    write!(out, " styles={:?}", e.styles).unwrap();
                }
                if !e.acts.is_empty() {
                    write!(out, " acts={:?}", e.acts).unwrap();
                }
                out.push_str(">\n");
                for c in &e.children {
                    go(c, depth + 1, out);
                }
            }
        }
    }
    let mut out = String::new();
    for d in dom {
        go(d, 0, &mut out);
    }
    out
}

/// Merges adjacent texts (as the parser does) and sorts.
pub fn normalize(nodes: Vec<Dom>) -> Vec<Dom> {
    let mut out: Vec<Dom> = Vec::new();
    for n in nodes {
        match n {
            Dom::Text(t) => {
                if t.is_empty() {
                    continue;
                }
                if let Some(Dom::Text(prev)) = out.last_mut() {
                    prev.push_str(&t);
                } else {
                    out.push(Dom::Text(t));
                }
            }
            Dom::El(mut e) => {
                e.children = normalize(e.children);
                e.sort();
                out.push(Dom::El(e));
            }
        }
    }
    out
}
