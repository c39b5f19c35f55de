//! Programs, what they mean, and how they are printed.
use crate::html::{Dom, El};
use crate::tape::Tape;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A scalar value.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    S(String),
    I(i64),
    B(bool),
    C(char),
    /// Display (and Debug) form
    F(String),
    /// A closure argument, by name.
    Arg(String),
}

pub type Env = BTreeMap<String, V>;

impl V {
    pub fn text(&self, env: &Env) -> String {
        match self {
            V::S(s) => s.clone(),
            V::I(i) => i.to_string(),
            V::B(b) => b.to_string(),
            V::C(c) => c.to_string(),
            V::F(f) => f.clone(),
            V::Arg(a) => env.get(a).expect("argument is bound").text(env),
        }
    }
    pub fn dbg(&self) -> String {
        match self {
            V::S(s) => format!("{s:?}"),
            V::C(c) => format!("{c:?}"),
            V::F(f) if f.bytes().all(|b| b.is_ascii_digit()) => format!("{f}.0"),
            other => other.text(&Env::new()),
        }
    }
    /// As an attribute: absent, valueless or with a value.
    pub fn attr(&self, env: &Env) -> Option<Option<String>> {
        match self {
            V::B(true) => Some(None),
            V::B(false) => None,
            V::Arg(a) => env.get(a).expect("argument is bound").attr(env),
            other => Some(Some(other.text(env))),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Part {
    S(String),
    /// A nested `mview! { ... }`.
    M(Vec<Node>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
    Lit,
    Block,
    Bracket,
    F,
}

/// Source of a value: what is between the delimiters.
#[derive(Clone, Debug)]
pub struct Src {
    pub form: Form,
    pub parts: Vec<Part>,
}

impl Src {
    pub fn new(form: Form, s: impl Into<String>) -> Self {
        Self {
            form,
            parts: vec![Part::S(s.into())],
        }
    }
}

/// What a child value renders.
#[derive(Clone, Debug)]
pub enum Sem {
    T(V),
    Nothing,
    Seq(Vec<Sem>),
    /// The nodes of another place, e.g. those of a nested mview.
    Nodes(Vec<Node>),
}

#[derive(Clone, Debug)]
pub enum Node {
    Val(Src, Sem),
    El(Box<Elem>),
    Comp(Box<Call>),
    /// Verbatim source with a meaning of its own (`Show`, `For`).
    Special(Box<Special>),
    Slot(Box<Call>),
}

/// `prefix { children }` where children are rendered under each of `envs`.
#[derive(Clone, Debug)]
pub struct Special {
    pub head: Vec<Part>,
    pub args: Option<String>,
    pub children: Vec<Node>,
    pub paren: bool,
    pub envs: Vec<Env>,
    /// Rendered instead of the children.
    pub instead: Option<Vec<Node>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Eff {
    Attr(String, V),
    /// Attribute that is always absent (`None` values).
    Nothing,
    Class(String),
    FullClass(String),
    Style(String, String),
    FullStyle(Vec<(String, String)>),
    Act(String),
    /// A component prop: name and shown value.
    Prop(String, String),
}

#[derive(Clone, Debug)]
pub enum Key {
    Kebab(String),
    /// Literal source.
    Str(String),
}

#[derive(Clone, Debug)]
pub enum AVal {
    V(Src),
    Bare,
    /// `{name}`
    Short,
}

#[derive(Clone, Debug)]
pub enum AttrK {
    Kv(String, AVal),
    Dir(&'static str, Key, AVal),
    Spread(Src),
    /// Class or id selectors, only in `sels`: `.a`, `#a`
    Sel(char, String),
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub k: AttrK,
    pub effs: Vec<Eff>,
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub tag: String,
    /// The name in HTML if not `tag`.
    pub name: String,
    pub ns: &'static str,
    pub sels: Vec<Attr>,
    pub attrs: Vec<Attr>,
    /// `None`: ends with `;`
    pub children: Option<Vec<Node>>,
    pub paren: bool,
}

/// A component or slot call.
#[derive(Clone, Debug)]
pub struct Call {
    pub spec: Rc<Comp>,
    /// Path tokens, with `<`-generics separated: ("a::b::Foo", Some("i64, bool"))
    pub path: String,
    pub generics: Option<(String, bool)>,
    pub sels: Vec<Attr>,
    pub attrs: Vec<Attr>,
    pub args: Option<String>,
    /// Environments the component calls the children with.
    pub envs: Vec<Env>,
    pub children: Option<Vec<Node>>,
    pub paren: bool,
    /// Values of the props, with defaults filled in: (attr name, shown value)
    pub props: Vec<(String, String)>,
}

/// How a component takes children.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ChK {
    None,
    Once,
    Opt,
    Fn,
    OptFn,
    Mut,
    Frag,
    Typed,
    TypedFn,
    TypedMut,
    Args,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Roots {
    Single,
    Double,
    Vec,
    Any,
    Nested,
    Opt,
    /// No element of its own: what it is passed are the roots.
    Pass,
}

/// A component or slot definition.
#[derive(Debug)]
pub struct Comp {
    pub ident: String,
    pub slot: bool,
    /// "x-foo"
    pub el: String,
    pub roots: Roots,
    pub chk: ChK,
    pub late: bool,
    pub calls: usize,
    pub slots: Vec<(Rc<Comp>, Arity)>,
    /// `None` for components that exist already.
    pub source: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arity {
    One,
    Opt,
    Many,
    /// a `Vec` that need not be passed
    OptMany,
}

pub fn snake(ident: &str) -> String {
    let mut out = String::new();
    for (i, c) in ident.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 {
            out.push('_');
        }
        out.push(c.to_ascii_lowercase());
    }
    out
}

// ---------------------------------------------------------------- meaning

pub fn dom_nodes(nodes: &[Node], env: &Env) -> Vec<Dom> {
    nodes.iter().flat_map(|n| dom_node(n, env)).collect()
}

fn dom_sem(sem: &Sem, env: &Env) -> Vec<Dom> {
    match sem {
        Sem::T(v) => {
            let t = v.text(env);
            // an empty text node is written as a space
            vec![Dom::Text(if t.is_empty() { " ".into() } else { t })]
        }
        Sem::Nothing => vec![],
        Sem::Seq(s) => s.iter().flat_map(|s| dom_sem(s, env)).collect(),
        Sem::Nodes(n) => dom_nodes(n, env),
    }
}

fn dom_node(node: &Node, env: &Env) -> Vec<Dom> {
    match node {
        Node::Val(_, sem) => dom_sem(sem, env),
        Node::Special(s) => match &s.instead {
            Some(i) => dom_nodes(i, env),
            None => s
                .envs
                .iter()
                .flat_map(|e| {
                    let mut all = env.clone();
                    all.extend(e.clone());
                    dom_nodes(&s.children, &all)
                })
                .collect(),
        },
        Node::El(e) => {
            let mut el = El {
                name: e.name.clone(),
                ns: e.ns.to_string(),
                ..El::default()
            };
            apply(&mut el, e.sels.iter().chain(&e.attrs), env);
            if let Some(c) = &e.children {
                el.children = dom_nodes(c, env);
            }
            vec![Dom::El(el)]
        }
        Node::Comp(c) => dom_comp(c, env),
        Node::Slot(_) => vec![],
    }
}

pub fn add_token_attr(el: &mut El, name: &str, value: &str) {
    for (k, v) in &mut el.attrs {
        if k == name {
            if let Some(v) = v {
                v.push(' ');
                v.push_str(value);
                return;
            }
        }
    }
    el.attrs.push((name.to_string(), Some(value.to_string())));
}

pub fn apply<'a>(el: &mut El, attrs: impl Iterator<Item = &'a Attr>, env: &Env) {
    let mut ids = vec![];
    for a in attrs {
        if let AttrK::Sel('#', id) = &a.k {
            ids.push(id.clone());
            continue;
        }
        for eff in &a.effs {
            match eff {
                Eff::Attr(k, v) => {
                    if let Some(v) = v.attr(env) {
                        el.attrs.push((k.clone(), v));
                    }
                }
                Eff::Class(c) => {
                    el.classes.insert(c.clone());
                }
                Eff::FullClass(c) => {
                    el.classes.extend(c.split_whitespace().map(str::to_string));
                }
                Eff::Style(k, v) => {
                    el.styles.insert(k.clone(), v.clone());
                }
                Eff::FullStyle(kv) => el.styles.extend(kv.iter().cloned()),
                Eff::Act(a) => el.acts.push(a.clone()),
                Eff::Nothing | Eff::Prop(..) => {}
            }
        }
        if matches!(a.k, AttrK::Spread(_))
            && a.effs
                .iter()
                .any(|e| matches!(e, Eff::FullClass(_) | Eff::FullStyle(_)))
        {
            el.unordered = true;
        }
    }
    if !ids.is_empty() {
        el.attrs.push(("id".into(), Some(ids.join(" "))));
    }
}

fn call_children(c: &Call, env: &Env) -> Vec<Dom> {
    let Some(children) = &c.children else {
        return vec![];
    };
    let passed = children.iter().any(|n| !matches!(n, Node::Slot(_)));
    if !passed {
        return vec![];
    }
    c.envs
        .iter()
        .flat_map(|e| {
            let mut all = env.clone();
            all.extend(e.clone());
            dom_nodes(children, &all)
        })
        .collect()
}

fn call_slots(c: &Call, env: &Env) -> Vec<Dom> {
    let mut out = vec![];
    for (spec, _) in &c.spec.slots {
        for n in c.children.iter().flatten() {
            if let Node::Slot(s) = n {
                if Rc::ptr_eq(&s.spec, spec) {
                    let mut el = own_root(s);
                    el.children = call_children(s, env);
                    el.children.extend(call_slots(s, env));
                    out.push(Dom::El(el));
                }
            }
        }
    }
    out
}

fn own_root(c: &Call) -> El {
    El {
        name: c.spec.el.clone(),
        attrs: c
            .props
            .iter()
            .map(|(k, v)| (format!("p-{k}"), Some(v.clone())))
            .collect(),
        ..El::default()
    }
}

fn dom_comp(c: &Call, env: &Env) -> Vec<Dom> {
    let mut inside = call_children(c, env);
    inside.extend(call_slots(c, env));
    let mut roots = if c.spec.roots == Roots::Pass {
        inside
    } else {
        let mut el = own_root(c);
        el.children = inside;
        let mut roots = vec![Dom::El(el)];
        if c.spec.roots == Roots::Double {
            roots.push(Dom::El(El {
                name: format!("{}-b", c.spec.el),
                children: vec![Dom::El(El {
                    name: format!("{}-below", c.spec.el),
                    ..El::default()
                })],
                ..El::default()
            }));
        }
        roots
    };
    for r in &mut roots {
        if let Dom::El(el) = r {
            // where the component's own and passed attributes meet is up to leptos
            el.unordered = true;
            apply(el, c.sels.iter().chain(&c.attrs), env);
        }
    }
    roots
}

// ---------------------------------------------------------------- printing

/// Collects tokens; `long` rewrites sugar to the long form where its coin
/// says so.
pub struct Printer<'a> {
    pub toks: Vec<String>,
    pub layout: &'a mut Tape,
    pub long: Option<Tape>,
    /// sugar sites seen
    pub sugar: usize,
    /// put each token on its own line
    pub lines: bool,
    pub frags: Option<Frags>,
    /// variables of the view that get other names
    pub rename: BTreeMap<String, String>,
    /// variables that are shorthands
    pub shorts: Vec<String>,
}

pub const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if",
    "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static",
    "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn",
    "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized",
    "virtual", "yield", "try", "gen",
];

pub fn rust_ident(unraw: &str) -> String {
    if KEYWORDS.contains(&unraw) {
        format!("r#{unraw}")
    } else {
        unraw.to_string()
    }
}

impl<'a> Printer<'a> {
    pub fn new(layout: &'a mut Tape, long: Option<Tape>) -> Self {
        Self {
            toks: vec![],
            layout,
            long,
            sugar: 0,
            lines: false,
            frags: None,
            rename: BTreeMap::new(),
            shorts: vec![],
        }
    }
    fn t(&mut self, s: impl Into<String>) {
        self.toks.push(s.into());
    }
    /// Whether this piece of sugar is to be written in its long form.
    fn lengthen(&mut self) -> bool {
        self.sugar += 1;
        match &mut self.long {
            Some(t) => t.below(4) < 3,
            None => false,
        }
    }
    fn kebab(&mut self, name: &str) {
        if self.name_frag(name) {
            return;
        }
        if name.contains('-') && self.layout.chance(3) {
            // spaces between the segments are ignored
            let mut seg = String::new();
            for c in name.chars() {
                if c == '-' {
                    if !seg.is_empty() {
                        self.t(std::mem::take(&mut seg));
                    }
                    self.t("-");
                } else {
                    seg.push(c);
                }
            }
            if !seg.is_empty() {
                self.t(seg);
            }
        } else if !name.contains('-')
            && !["self", "Self", "super", "crate", "_"].contains(&name)
            && self.layout.chance(4)
        {
            self.t(format!("r#{name}"));
        } else {
            self.t(name);
        }
    }
    fn parts(&mut self, parts: &[Part]) {
        for p in parts {
            match p {
                Part::S(s) => {
                    let s = self.renamed(s);
                    self.t(s);
                }
                Part::M(nodes) => {
                    self.t("::leptos_mview::mview!");
                    let (open, close) = *self.layout.pick(&[("{", "}"), ("(", ")"), ("[", "]")]);
                    self.t(open);
                    self.nodes(nodes);
                    self.t(close);
                }
            }
        }
    }
    fn src(&mut self, s: &Src) {
        if self.src_frag(s) {
            return;
        }
        match s.form {
            Form::Lit => self.parts(&s.parts),
            Form::Block => {
                self.t("{");
                self.parts(&s.parts);
                self.t("}");
            }
            Form::Bracket => {
                if self.lengthen() {
                    self.t("{");
                    self.t("move || {");
                    self.parts(&s.parts);
                    self.t("}");
                    self.t("}");
                } else {
                    self.t("[");
                    self.parts(&s.parts);
                    self.t("]");
                }
            }
            Form::F => {
                if self.lengthen() {
                    self.t("[");
                    self.t("::std::format!");
                    self.t("(");
                    self.parts(&s.parts);
                    self.t(")");
                    self.t("]");
                } else {
                    self.t("f");
                    self.t("[");
                    self.parts(&s.parts);
                    self.t("]");
                }
            }
        }
    }
    fn aval(&mut self, key: &Key, v: &AVal, bare_is_true: bool) {
        match v {
            AVal::V(s) => {
                self.key(key);
                self.t("=");
                self.src(s);
            }
            AVal::Bare => {
                if bare_is_true && self.lengthen() {
                    self.key(key);
                    self.t("=");
                    self.t("true");
                } else {
                    self.key(key);
                }
            }
            AVal::Short => {
                let Key::Kebab(name) = key else { unreachable!() };
                self.shorts.push(name.replace('-', "_"));
                if self.lengthen() {
                    self.kebab(name);
                    self.t("=");
                    self.t("{");
                    self.t(rust_ident(&name.replace('-', "_")));
                    self.t("}");
                } else {
                    self.t("{");
                    self.kebab(name);
                    self.t("}");
                }
            }
        }
    }
    fn key(&mut self, key: &Key) {
        match key {
            Key::Kebab(k) => self.kebab(k),
            Key::Str(s) => {
                if !self.frag("literal", s) {
                    self.t(s.clone());
                }
            }
        }
    }
    fn attr(&mut self, a: &Attr, comp: bool) {
        match &a.k {
            AttrK::Kv(name, v) => {
                if comp && name.contains('-') && self.lengthen() {
                    // dashes and underscores are the same in prop names
                    let name = match v {
                        AVal::Short => name.clone(),
                        _ => name.replace('-', "_"),
                    };
                    self.aval(&Key::Kebab(name), v, true);
                } else {
                    self.aval(&Key::Kebab(name.clone()), v, true);
                }
            }
            AttrK::Dir(dir, key, v) => {
                self.t(*dir);
                self.t(":");
                self.aval(key, v, !matches!(*dir, "on" | "use" | "clone"));
            }
            AttrK::Spread(s) => {
                self.t("{");
                self.t("..");
                let text = if self.frags.is_some() { self.text_of(&s.parts) } else { String::new() };
                if syn::parse_str::<syn::Expr>(&text).is_err() || !self.frag("expr", &text) {
                    self.parts(&s.parts);
                }
                self.t("}");
            }
            AttrK::Sel(c, name) => {
                self.t(c.to_string());
                self.kebab(name);
            }
        }
    }
    /// Selectors, or what they are short for; returns attributes to add.
    fn sels(&mut self, sels: &[Attr], comp: bool, has_class: bool) {
        if sels.is_empty() {
            return;
        }
        if !self.lengthen() {
            for s in sels {
                self.attr(s, comp);
            }
            return;
        }
        let names = |c: char| {
            sels.iter()
                .filter_map(|s| match &s.k {
                    AttrK::Sel(k, n) if *k == c => Some(n.clone()),
                    _ => None,
                })
                .collect::<Vec<_>>()
        };
        let (classes, ids) = (names('.'), names('#'));
        if !classes.is_empty() {
            let joined = classes.join(" ");
            if has_class || comp {
                for c in classes {
                    self.t(format!("class:\"{c}\"=true"));
                }
            } else {
                self.t(format!("class=\"{joined}\""));
            }
        }
        if !ids.is_empty() {
            let pre = if comp { "attr:" } else { "" };
            self.t(format!("{pre}id=\"{}\"", ids.join(" ")));
        }
    }
    fn block(&mut self, children: Option<&Vec<Node>>, paren: bool) {
        match children {
            None => self.t(";"),
            Some(c) => {
                let paren = if paren { !self.lengthen() } else { false };
                self.t(if paren { "(" } else { "{" });
                self.nodes(c);
                self.t(if paren { ")" } else { "}" });
            }
        }
    }
    pub fn nodes(&mut self, nodes: &[Node]) {
        for n in nodes {
            self.node(n);
        }
    }
    fn node(&mut self, n: &Node) {
        match n {
            Node::Val(s, _) => self.src(s),
            Node::El(e) => {
                self.kebab(&e.tag);
                let has_class = e
                    .attrs
                    .iter()
                    .any(|a| matches!(&a.k, AttrK::Kv(n, _) if n == "class"));
                self.sels(&e.sels, false, has_class);
                for a in &e.attrs {
                    self.attr(a, false);
                }
                self.block(e.children.as_ref(), e.paren);
            }
            Node::Special(s) => {
                // its attributes are not told from variables here
                let rename = std::mem::take(&mut self.rename);
                let n = self.toks.len();
                self.parts(&s.head);
                let words: Vec<String> = self.toks[n..]
                    .iter()
                    .flat_map(|s| s.split(|c: char| !wordy(c)).map(String::from))
                    .collect();
                self.shorts.extend(words);
                self.rename = rename;
                if let Some(a) = &s.args {
                    let a = self.renamed(a);
                    self.t(a);
                }
                self.block(Some(&s.children), s.paren);
            }
            Node::Comp(c) => self.call(c),
            Node::Slot(c) => {
                self.t("slot");
                self.t(":");
                self.call(c);
            }
        }
    }
    fn call(&mut self, c: &Call) {
        if !self.path_frag(&c.path) {
            self.t(c.path.clone());
        }
        if let Some((g, turbo)) = &c.generics {
            if *turbo || self.lengthen() {
                self.t("::");
            }
            self.t("<");
            if !self.generics_frag(g) {
                self.t(g.clone());
            }
            self.t(">");
        }
        self.sels(&c.sels, true, true);
        for a in &c.attrs {
            self.attr(a, true);
        }
        if let Some(a) = &c.args {
            let a = self.renamed(a);
            self.t(a);
        }
        self.block(c.children.as_ref(), c.paren);
    }

    /// Joins the tokens with random whitespace and comments.
    pub fn finish(self) -> String {
        let Printer {
            toks,
            layout,
            lines,
            ..
        } = self;
        join(&toks, layout, lines)
    }
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '"' || c == '\'' || !c.is_ascii()
}

/// Whether two tokens must be kept apart.
pub fn apart(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else {
        return false;
    };
    // after a literal, a word would be its suffix
    let lit = x == '#' && a.contains('"');
    if (wordy(x) || lit) && (wordy(y) || y == '#') {
        return true;
    }
    // what could fuse into another operator or a number
    if wordy(x) && y == '.' && x.is_ascii_digit() {
        return true;
    }
    let op = |c: char| "-=:.<>|&!+*/%^#$@~?".contains(c);
    op(x) && op(y)
}

pub fn join(toks: &[String], layout: &mut Tape, lines: bool) -> String {
    let style = if lines { 9 } else { layout.below(6) };
    let mut out = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let need = apart(&toks[i - 1], t);
            match style {
                9 => out.push('\n'),
                0 => out.push(' '),
                1 => {
                    if need {
                        out.push(' ');
                    }
                }
                _ => match layout.weighted(&[6, 6, 3, 1, 1]) {
                    0 => out.push(' '),
                    1 => {
                        if need {
                            out.push(' ');
                        }
                    }
                    2 => out.push_str("\n    "),
                    3 => out.push_str(" /* { ; \" */ "),
                    _ => out.push_str(" // } c'est\n"),
                },
            }
        }
        out.push_str(t);
    }
    out
}

// -------------------------------------------------------------- fragments

/// Pieces of a view that a declarative macro is given as fragments.
pub struct Frags {
    pub tape: Tape,
    /// kind and source
    pub params: Vec<(&'static str, String)>,
    /// what must stay next to its variable
    pub keep: Vec<String>,
}

impl Frags {
    fn add(&mut self, kind: &'static str, text: String) -> Option<String> {
        if self.keep.iter().any(|k| text.contains(k.as_str())) || !self.tape.chance(55) {
            return None;
        }
        self.params.push((kind, text));
        Some(format!("$verif{}", self.params.len() - 1))
    }
}

impl Printer<'_> {
    fn renamed(&self, s: &str) -> String {
        fn rename(ts: proc_macro2::TokenStream, to: &BTreeMap<String, String>) -> proc_macro2::TokenStream {
            use proc_macro2::{Group, TokenTree};
            // the puncts just before
            let mut before = String::new();
            ts.into_iter()
                .map(|t| {
                    // not a lifetime, part of a path, field or method
                    let free = !before.ends_with('\'')
                        && !before.ends_with("::")
                        && (!before.ends_with('.') || before.ends_with(".."));
                    match &t {
                        TokenTree::Punct(p) => before.push(p.as_char()),
                        _ => before.clear(),
                    }
                    match t {
                        TokenTree::Ident(i) if free => match to.get(i.to_string().trim_start_matches("r#")) {
                            Some(n) => n.parse::<proc_macro2::TokenStream>().unwrap().into_iter().next().unwrap(),
                            None => TokenTree::Ident(i),
                        },
                        TokenTree::Group(g) => Group::new(g.delimiter(), rename(g.stream(), to)).into(),
                        t => t,
                    }
                })
                .collect()
        }
        if !self.rename.keys().any(|k| s.contains(k.as_str())) {
            return s.to_string();
        }
        match s.replace("@CASE@", "VerifCase").parse() {
            Ok(ts) => rename(ts, &self.rename).to_string().replace("VerifCase", "@CASE@"),
            Err(_) => s.to_string(),
        }
    }
    fn frag(&mut self, kind: &'static str, text: &str) -> bool {
        let Some(f) = &mut self.frags else { return false };
        match f.add(kind, text.to_string()) {
            Some(v) => {
                self.t(v);
                true
            }
            None => false,
        }
    }
    fn name_frag(&mut self, name: &str) -> bool {
        name != "_"
            && name.chars().all(|c| c.is_alphanumeric() || c == '_')
            && !name.starts_with(|c: char| c.is_ascii_digit())
            && self.frag("ident", name)
    }
    fn path_frag(&mut self, path: &str) -> bool {
        if !path.contains(':') && self.layout.chance(50) {
            return self.frag("ident", path);
        }
        self.frag("path", path)
    }
    /// The source of these parts.
    fn text_of(&mut self, parts: &[Part]) -> String {
        let (frags, rename) = (self.frags.take(), std::mem::take(&mut self.rename));
        let n = self.toks.len();
        self.parts(parts);
        (self.frags, self.rename) = (frags, rename);
        self.toks.split_off(n).join(" ")
    }
    fn src_frag(&mut self, s: &Src) -> bool {
        let Some(f) = &mut self.frags else { return false };
        let how = f.tape.below(4);
        let text = self.text_of(&s.parts);
        match s.form {
            Form::Lit => {
                let kinds = ["literal", "expr", if text.starts_with('-') { "expr" } else { "tt" }, "literal"];
                self.frag(kinds[how], &text)
            }
            Form::Block | Form::Bracket => {
                let block = s.form == Form::Block;
                if block && how == 0 && syn::parse_str::<syn::Block>(&format!("{{{text}}}")).is_ok() {
                    return self.frag("block", &format!("{{ {text} }}"));
                }
                if block && how == 1 && self.frag("tt", &format!("{{ {text} }}")) {
                    return true;
                }
                if syn::parse_str::<syn::Expr>(&text).is_err() {
                    return false;
                }
                let n = self.toks.len();
                self.t(if block { "{" } else { "[" });
                if !self.frag("expr", &text) {
                    self.toks.truncate(n);
                    return false;
                }
                self.t(if block { "}" } else { "]" });
                true
            }
            Form::F => {
                let Ok(ts) = text.parse::<proc_macro2::TokenStream>() else { return false };
                let Some(proc_macro2::TokenTree::Literal(l)) = ts.into_iter().next() else { return false };
                let l = l.to_string();
                let Some(rest) = text.trim_start().strip_prefix(&l) else { return false };
                let rest = rest.to_string();
                self.t("f");
                self.t("[");
                if !self.frag("literal", &l) {
                    self.t(l);
                }
                let rest = self.renamed(&rest);
                self.t(rest);
                self.t("]");
                true
            }
        }
    }
    fn generics_frag(&mut self, g: &str) -> bool {
        use syn::{parse::Parser, punctuated::Punctuated, Token, Type};
        if self.frags.is_none() {
            return false;
        }
        let Ok(types) = Punctuated::<Type, Token![,]>::parse_terminated.parse_str(g) else { return false };
        for (i, t) in types.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            let t = quote::ToTokens::to_token_stream(t).to_string();
            if !self.frag("ty", &t) {
                self.t(t);
            }
        }
        true
    }
}
