//! Programs as token texts, made from the grammar alone: what names refer to
//! does not matter, so they never need to compile. Nearly every name, string
//! and number is a marker of its own. On request they contain mistakes, with
//! the tokens each of them consists of.
use crate::tables;
use crate::tape::Tape;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Bad {
    pub kind: &'static str,
    /// token interval, end exclusive
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub toks: Vec<String>,
    pub bads: Vec<Bad>,
    pub feats: BTreeMap<&'static str, usize>,
}

impl Program {
    /// All tokens on one line.
    pub fn text(&self) -> String {
        self.toks.join(" ")
    }
    /// Every token on a line of its own, the first one on line `first`
    /// (which has to be at least 2).
    /// Also returns the first and last line of each token.
    pub fn lines(&self, first: usize) -> (String, Vec<(usize, usize)>) {
        let mut text = "\n".repeat(first - 1);
        let mut line = first;
        let mut at = vec![];
        for t in &self.toks {
            let n = t.matches('\n').count();
            at.push((line, line + n));
            line += n + 1;
            text.push_str(t);
            text.push('\n');
        }
        (text, at)
    }
}

/// What typed programs use. `@CASE@` is the name of their module.
pub const PRELUDE: &str = r#"use ::leptos::prelude::*;
use ::sup::d0;
#[component]
pub fn Plain(#[prop(optional)] num: u32, #[prop(optional, into)] text: String, #[prop(optional)] flag: bool, #[prop(optional)] opt_val: u32, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    let _ = (num, text, flag, opt_val);
    ::leptos::view! { <i>{children.map(|c| c())}</i> }
}
#[component]
pub fn Args<F, V>(#[prop(optional)] num: u32, #[prop(optional, into)] text: String, #[prop(optional)] flag: bool, #[prop(optional)] opt_val: u32, children: F) -> impl IntoView
where F: Fn(u32) -> V + Send + 'static, V: IntoView + 'static {
    let _ = (num, text, flag, opt_val);
    ::leptos::view! { <i>{children(1)}</i> }
}
#[slot]
pub struct One {
    #[prop(optional)] num: u32,
    #[prop(optional, into)] text: String,
    #[prop(optional)] flag: bool,
    #[prop(optional)] opt_val: u32,
    #[prop(optional)] children: Option<Children>,
}
#[component]
pub fn Par(#[prop(optional)] num: u32, #[prop(optional, into)] text: String, #[prop(optional)] flag: bool, #[prop(optional)] opt_val: u32, #[prop(optional)] one: Vec<One>, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    let _ = (num, text, flag, opt_val, one.len());
    ::leptos::view! { <i>{children.map(|c| c())}</i> }
}
#[component]
pub fn Need(must: u32, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    let _ = must;
    ::leptos::view! { <i>{children.map(|c| c())}</i> }
}
#[derive(Clone)]
pub struct NotView;
"#;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ctx {
    Top,
    Element,
    Component,
    Slot,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Html,
    Svg,
    Math,
    Web,
    Component,
    Slot,
}

impl Kind {
    fn is_element(self) -> bool {
        !matches!(self, Kind::Component | Kind::Slot)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Opts {
    /// Mistakes of which each is reported without hiding others.
    pub bads: usize,
    /// One mistake the parser may not recover from.
    pub fatal: bool,
    /// Only things that compile, given `PRELUDE`.
    pub typed: bool,
    /// One mistake only the compiler can find; needs `typed`.
    pub type_bad: bool,
    pub depth: usize,
}

struct G {
    t: Tape,
    o: Opts,
    p: Program,
    n: u32,
    left: usize,
    fatal: bool,
    /// closure arguments were left open
    open: bool,
    type_bad: bool,
    /// inside something whose contents are not looked at
    hold: usize,
}

pub fn program(tape: Tape, o: Opts) -> Program {
    let mut g = G {
        t: tape,
        o,
        p: Program::default(),
        n: 0,
        left: o.bads,
        fatal: o.fatal,
        open: false,
        type_bad: o.type_bad,
        hold: 0,
    };
    g.children(Ctx::Top, o.depth, false, false);
    while g.left > 0 {
        g.bad_child(Ctx::Top, 1);
    }
    if g.fatal {
        g.fatal_child(Ctx::Top, 1);
    }
    if g.type_bad {
        g.type_child();
    }
    if o.fatal {
        // so that the input does not end where something is missing
        let s = g.string();
        g.push(s);
    }
    g.p
}

const RESERVED: &[&str] = &["self", "Self", "super", "crate", "_"];
const KEYWORDS: &[&str] = &["type", "for", "as", "loop", "match", "async", "if", "in"];
const EVENTS: &[&str] = &["click", "input", "keydown", "mouseover", "submit"];

impl G {
    fn feat(&mut self, f: &'static str) {
        *self.p.feats.entry(f).or_default() += 1;
    }
    fn push(&mut self, t: impl Into<String>) {
        self.p.toks.push(t.into());
    }
    fn all(&mut self, ts: &[&str]) {
        for t in ts {
            self.push(*t);
        }
    }
    fn at(&self) -> usize {
        self.p.toks.len()
    }
    fn bad(&mut self, kind: &'static str, start: usize, end: usize) {
        *self.p.feats.entry(kind).or_default() += 1;
        self.p.bads.push(Bad { kind, start, end });
    }

    // ------------------------------------------------------------ names

    fn id(&mut self) -> u32 {
        self.n += 1;
        self.n
    }
    fn low(&mut self) -> String {
        format!("mk{}q", self.id())
    }
    fn up(&mut self) -> String {
        format!("Mk{}q", self.id())
    }
    fn number(&mut self) -> String {
        format!("{}", 1_000_000 + self.id())
    }
    fn raw(&mut self, s: String) -> String {
        if self.t.chance(4) {
            format!("r#{s}")
        } else {
            s
        }
    }
    fn string(&mut self) -> String {
        let m = self.low();
        match self.t.below(6) {
            1 => format!("r\"{m}\\\""),
            2 => format!("r#\"{m} \"q\" \"#"),
            3 => format!("\"{m} \\n\\u{{e9}}\\\\ é {{}}\""),
            4 => format!("\"\\\"{m}\""),
            5 if !self.o.typed => format!("\"{m}\n second line\""),
            _ => format!("\"{m}\""),
        }
    }
    /// A name with dashes and whatever else is allowed.
    fn kebab(&mut self) -> String {
        let m = self.low();
        match self.t.below(12) {
            // dashes wherever they may be
            10 | 11 => {
                let mut s = m;
                for _ in 0..self.t.range(1, 5) {
                    s.push_str(if self.t.chance(30) { "--" } else { "-" });
                    match self.t.below(4) {
                        1 => s.push_str("2"),
                        2 => s.push_str("for"),
                        3 => s.push('x'),
                        _ => s.push_str(&self.low()),
                    }
                }
                s
            }
            1 | 2 => format!("data-{m}"),
            3 => format!("{m}-{}", self.number()),
            4 => format!("a--{m}"),
            5 => format!("{m}-type"),
            6 => format!("data-{m}-for-{}", self.low()),
            7 => format!("{m}-2xl"),
            8 if !self.o.typed => format!("for-{m}_x-0xa1b2"),
            9 if !self.o.typed => format!("_{m}"),
            _ => m,
        }
    }

    // ------------------------------------------------------ user's code

    fn expr(&mut self) -> String {
        if self.o.typed {
            return match self.t.below(6) {
                1 => self.number(),
                2 => format!("{}.to_string()", self.string()),
                3 => format!("{} + 1", self.number()),
                4 => format!("{{ let v = {}; v }}", self.string()),
                5 => format!("if 1 < 2 {{ {} }} else {{ {} }}", self.number(), self.number()),
                _ => self.string(),
            };
        }
        let m = self.low();
        match self.t.below(25) {
            24 => format!("{m}::<{}, {}>({})", self.up(), self.up(), self.number()),
            1 => self.number(),
            2 => self.string(),
            3 => format!("{m}.get()"),
            4 => format!("{m}({}, {})", self.number(), self.string()),
            5 => format!("move || {m} + {}", self.number()),
            6 => format!("{m}::{}::<Vec<{}>>()", self.up(), self.up()),
            7 => format!("{}.{m}(|a, b| a < b || a == {})", self.low(), self.number()),
            8 => format!("{{ let a = {m}; a }}"),
            9 => format!("if {m} {{ {} }} else {{ {} }}", self.string(), self.low()),
            10 => format!("match {m} {{ {}..={} => \"x\", _ => '{{' }}", self.number(), self.number()),
            11 => format!("{}!({m}, [{}])", self.low(), self.low()),
            12 => format!("({m}, {}, )", self.low()),
            13 => format!("{} {{ {m}: {}, ..{} }}", self.up(), self.low(), self.low()),
            14 => format!("&{m}[{}..]", self.number()),
            15 => format!("{m} as {}", self.up()),
            16 => format!("async move {{ {m}.await? }}"),
            17 => format!("<{} as {}>::{m}", self.up(), self.up()),
            18 => format!("-{m} & !{} ^ *{} >> 2 << 1 % 3", self.low(), self.low()),
            19 => format!("'a: loop {{ break 'a {m}; }}"),
            20 => format!("{m}; {}; {}", self.low(), self.string()),
            21 => format!("mview! {{ {m} .{} {{ \"{}\" }} }}", self.low(), self.low()),
            22 => format!("b\"{m}\".len() + b'x' as usize + {}.5e3 as usize", self.number()),
            23 => format!("r#{m} /* {{ */ == self.{} // }}\n", self.low()),
            _ => m,
        }
    }
    /// A value: a literal, `{..}`, `[..]` or `f[..]`.
    fn value(&mut self) {
        match self.t.below(8) {
            1 | 2 => self.block(),
            3 | 4 => self.bracket(),
            5 => self.fmt(),
            6 => {
                let n = self.number();
                self.push(n);
                self.feat("number value");
            }
            7 => self.literal(),
            _ => {
                let s = self.string();
                self.push(s);
                self.feat("string value");
            }
        }
    }
    fn literal(&mut self) {
        let l = if self.o.typed {
            self.number()
        } else {
            let (m, n) = (self.low(), self.number());
            match self.t.below(10) {
                1 => "false".into(),
                2 => format!("{n}.25"),
                3 => format!("{n}u64"),
                4 => "'c'".into(),
                5 => format!("b\"{m}\""),
                6 => "b'x'".into(),
                7 => format!("c\"{m}\""),
                8 => format!("{n}_f32"),
                9 => format!("-{n}"),
                _ => "true".into(),
            }
        };
        self.push(l);
        self.feat("literal value");
    }
    fn block(&mut self) {
        let e = self.expr();
        self.push("{");
        self.push(e);
        self.push("}");
        self.feat("block value");
    }
    fn bracket(&mut self) {
        let e = self.expr();
        self.push("[");
        self.push(e);
        self.push("]");
        self.feat("bracket value");
    }
    fn fmt(&mut self) {
        let m = self.low();
        let e = self.expr();
        self.push("f");
        self.push("[");
        self.push(format!("\"{m} {{}}\""));
        self.push(",");
        // not a sequence of statements
        if e.contains("; ") || self.o.typed {
            let n = self.number();
            self.push(n);
        } else {
            self.push(e);
        }
        self.push("]");
        self.feat("f value");
    }
    /// What an event listener is.
    fn handler(&mut self) {
        if self.o.typed {
            let m = self.low();
            self.push("{");
            self.push(format!("|_| {{ let _ = \"{m}\"; }}"));
            self.push("}");
        } else {
            match self.t.below(3) {
                1 => self.bracket(),
                2 => self.value(),
                _ => self.block(),
            }
        }
    }
    fn pattern(&mut self, depth: usize) -> String {
        let m = self.low();
        if self.o.typed {
            return m;
        }
        match self.t.below(if depth == 0 { 4 } else { 9 }) {
            1 => format!("mut {m}"),
            2 => "_".into(),
            3 => format!("r#{m}"),
            4 => format!("({}, {})", self.pattern(depth - 1), self.pattern(depth - 1)),
            5 => format!("{} {{ {m}, .. }}", self.up()),
            6 => format!("{}({} | {})", self.up(), self.number(), self.number()),
            7 => format!("[{}, ..]", self.pattern(depth - 1)),
            8 => format!("&{}", self.pattern(depth - 1)),
            _ => m,
        }
    }
    /// `|a, (b, c): T|`
    fn closure_args(&mut self) {
        self.feat("closure arguments");
        self.push("|");
        let n = if self.o.typed { 1 } else { self.t.small(3) };
        for i in 0..n {
            let p = self.pattern(2);
            self.push(p);
            if !self.o.typed && self.t.chance(30) {
                let ty = self.up();
                self.push(":");
                let ty = if self.t.chance(30) { format!("Vec<{ty}>") } else { ty };
                self.push(ty);
            }
            if i + 1 < n || self.t.chance(10) {
                self.push(",");
            }
        }
        self.push("|");
    }

    // ------------------------------------------------------------ children

    fn children(&mut self, ctx: Ctx, depth: usize, need_node: bool, slots: bool) {
        let n = if ctx == Ctx::Top {
            self.t.below(5)
        } else {
            self.t.below(4)
        };
        if need_node {
            self.node(ctx, depth);
        }
        for i in 0..n {
            if self.bad_here() {
                self.bad_child(ctx, depth);
            } else if self.type_bad && self.t.chance(12) {
                self.type_child();
            } else if self.fatal_here() {
                self.fatal_child(ctx, depth);
            } else if slots && self.t.chance(30) {
                self.slot(depth);
            } else {
                self.node(ctx, depth);
            }
            if self.open {
                // nothing can follow
                return;
            }
            if i + 1 == n && (ctx != Ctx::Top || self.left == 1) && self.bad_here() && self.t.chance(30) {
                self.unterminated();
            }
        }
    }
    fn node(&mut self, ctx: Ctx, depth: usize) {
        match self.t.below(if depth == 0 { 5 } else { 12 }) {
            1 => self.block(),
            2 => self.bracket(),
            3 => self.fmt(),
            0 | 5 => {
                let s = self.string();
                self.push(s);
                self.feat("string child");
            }
            4 => {
                let k = self.kind();
                self.tag(k);
                self.push(";");
                self.feat("element without children");
            }
            _ => {
                let k = self.kind();
                self.element(k, depth - 1, ctx == Ctx::Slot);
            }
        }
    }
    fn kind(&mut self) -> Kind {
        match self.t.below(10) {
            3 => Kind::Svg,
            4 if !self.o.typed => Kind::Math,
            5 => Kind::Web,
            6..=9 => Kind::Component,
            _ => Kind::Html,
        }
    }
    fn slot(&mut self, depth: usize) {
        self.feat("slot");
        self.push("slot");
        self.push(":");
        self.element(Kind::Slot, depth.saturating_sub(1), false);
    }
    fn tag(&mut self, k: Kind) {
        let t = match k {
            Kind::Html if self.o.typed => (*self.t.pick(&["div", "span", "p", "section", "ul", "button"])).to_string(),
            Kind::Html => match self.t.below(4) {
                1 => {
                    let m = self.low();
                    self.raw(m)
                }
                _ => {
                    let (n, _, _) = *self.t.pick(tables::HTML);
                    self.raw(n.to_string())
                }
            },
            Kind::Svg if self.o.typed => (*self.t.pick(&["g", "circle", "rect", "svg"])).to_string(),
            Kind::Svg => (*self.t.pick(tables::SVG)).to_string(),
            Kind::Math => self.t.pick(tables::MATH).0.to_string(),
            Kind::Web => {
                let m = self.low();
                format!("{m}-{}", self.t.pick(&["el", "type", "a-b", "2"]))
            }
            Kind::Component if self.o.typed => (*self.t.pick(&["Plain", "self::Plain", "crate::@CASE@::Plain"])).to_string(),
            Kind::Slot if self.o.typed => "One".into(),
            Kind::Slot => {
                let m = self.up();
                self.raw(m)
            }
            Kind::Component => {
                let m = self.up();
                match self.t.below(10) {
                    1 => format!("{}::{m}", self.low()),
                    2 => format!("::{}::{m}", self.low()),
                    3 => format!("self::{m}"),
                    4 => format!("crate::{}::{m}", self.low()),
                    5 => format!("{m}<{}>", self.up()),
                    6 => format!("{m}::<{}, Vec<{}>>", self.up(), self.up()),
                    7 => format!("super::{}::{m}<[{}; 2]>", self.up(), self.up()),
                    8 => format!("r#{m}"),
                    9 => format!("{}::{}", self.up(), self.low()),
                    _ => m,
                }
            }
        };
        self.push(t);
    }
    fn element(&mut self, k: Kind, depth: usize, in_slot: bool) {
        let mut k = k;
        let mut par = false;
        // typed components that take arguments or slots
        let mut args = false;
        if self.o.typed && k == Kind::Component {
            match self.t.below(4) {
                1 => args = true,
                2 if !in_slot => par = true,
                _ => {}
            }
        }
        self.feat(match k {
            Kind::Html => "html element",
            Kind::Svg => "svg element",
            Kind::Math => "math element",
            Kind::Web => "custom element",
            Kind::Component => "component",
            Kind::Slot => "slot struct",
        });
        let start = self.at();
        if args {
            self.push("Args");
        } else if par {
            self.push("Par");
        } else if self.o.bads + usize::from(self.o.fatal) > 0
            && matches!(k, Kind::Html)
            && self.bad_here()
            && self.t.chance(25)
        {
            // not a name
            let w = *self.t.pick(RESERVED);
            self.left -= 1;
            // `Self` looks like a component
            if w == "Self" {
                k = Kind::Component;
            }
            self.push(w);
            self.bad("reserved word as a tag", start, start + 1);
        } else {
            self.tag(k);
        }
        if k == Kind::Slot {
            if self.bad_here() && self.t.chance(30) {
                self.left -= 1;
                let from = self.at();
                self.selectors();
                let m = self.low();
                self.push(".");
                self.push(m);
                let to = self.at();
                self.bad("selector on a slot", from, to);
            }
        } else if !(self.o.typed && k == Kind::Component) && self.t.chance(40) {
            self.selectors();
        }
        let mut cloned = false;
        let typed_props = self.o.typed && matches!(k, Kind::Component | Kind::Slot);
        if typed_props {
            self.typed_attrs(k, args || par);
        } else {
            for i in 0..self.t.small(5) {
                if self.bad_here() {
                    self.bad_attr(k);
                } else if self.fatal && self.t.chance(5) {
                    if self.fatal_attr(k, start) {
                        return;
                    }
                } else if !k.is_element() && depth > 0 && self.t.chance(8) {
                    let m = self.low();
                    self.all(&["clone", ":"]);
                    self.push(m);
                    self.feat("clone:");
                    cloned = true;
                } else {
                    self.attr(k, i == 0);
                }
            }
        }
        // how it ends
        if k.is_element() {
            if self.bad_here() && self.t.chance(30) {
                self.left -= 1;
                let from = self.at();
                self.closure_args();
                let to = self.at();
                if self.t.chance(70) {
                    self.bad("closure arguments on an element", from, to);
                } else {
                    self.push(";");
                    self.bad("closure arguments without children", from, to + 1);
                    return;
                }
            } else if self.t.chance(20) {
                self.push(";");
                return;
            }
            self.body(Ctx::Element, depth, false, false);
            return;
        }
        if !self.o.typed && self.bad_here() && self.t.chance(30) && !cloned {
            self.left -= 1;
            let from = self.at();
            self.closure_args();
            self.push(";");
            let to = self.at();
            self.bad("closure arguments without children", from, to);
            return;
        }
        if !cloned && !args && self.t.chance(20) {
            self.push(";");
            return;
        }
        if args || (!self.o.typed && self.t.chance(30)) {
            self.closure_args();
            self.body(Ctx::Component, depth, true, false);
            return;
        }
        let ctx = if k == Kind::Slot { Ctx::Slot } else { Ctx::Component };
        let slots = par || !self.o.typed;
        self.body(ctx, depth, cloned, slots && depth > 0);
    }
    fn body(&mut self, ctx: Ctx, depth: usize, need_node: bool, slots: bool) {
        let (a, b) = if self.t.chance(25) { ("(", ")") } else { ("{", "}") };
        self.push(a);
        let from = self.at();
        self.children(ctx, depth, need_node, slots);
        // would be a shorthand attribute
        if self.at() == from + 1 && a == "{" && !self.p.toks[from].starts_with(['"', 'r', '{', '[']) {
            let s = self.string();
            self.push(s);
        }
        self.push(b);
        self.feat(if a == "(" { "parenthesised children" } else { "braced children" });
    }
    fn selectors(&mut self) {
        for _ in 0..=self.t.small(3) {
            let p = if self.t.chance(30) { "#" } else { "." };
            let n = self.kebab();
            self.push(p);
            self.push(n);
            self.feat("selector");
        }
    }

    // ---------------------------------------------------------- attributes

    /// Like `mk1q`, for places that take an identifier.
    fn ident(&mut self) -> String {
        let m = self.low();
        self.raw(m)
    }
    fn attr(&mut self, k: Kind, first: bool) {
        if self.o.typed {
            return self.typed_attr(k);
        }
        match self.t.below(14) {
            1 | 2 => {
                let n = self.kebab();
                self.push(n);
                self.feat("bare attribute");
            }
            3 => {
                // right after a tag this is ambiguous only to people
                let n = self.kebab();
                self.all(&["{"]);
                self.push(n);
                self.push("}");
                self.feat("shorthand");
            }
            4 if k != Kind::Slot => {
                let e = self.expr();
                self.all(&["{", ".."]);
                self.push(e);
                self.push("}");
                self.feat("spread");
            }
            5..=8 if k != Kind::Slot => self.directive(k),
            9 => {
                let n = *self.t.pick(KEYWORDS);
                self.push(n);
                self.push("=");
                self.value();
                self.feat("keyword attribute");
            }
            10 if k.is_element() => {
                let n = *self.t.pick(&["class", "style", "id", "ref"]);
                self.push(n);
                self.push("=");
                self.value();
                self.feat("special attribute");
            }
            _ => {
                let mut n = self.kebab();
                if first && self.t.chance(10) {
                    n = format!("r#{}", self.low());
                }
                self.push(n);
                self.push("=");
                self.value();
                self.feat("attribute");
            }
        }
    }
    fn directive(&mut self, k: Kind) {
        let names: &[&str] = if k.is_element() {
            &["class", "style", "prop", "on", "use"]
        } else {
            &["class", "style", "prop", "on", "use", "attr"]
        };
        let d = *self.t.pick(names);
        self.push(d);
        self.push(":");
        self.feat(match d {
            "class" => "class:",
            "style" => "style:",
            "prop" => "prop:",
            "on" => "on:",
            "use" => "use:",
            _ => "attr:",
        });
        let name = match d {
            "on" if self.t.chance(50) => (*self.t.pick(EVENTS)).to_string(),
            "on" | "use" => self.ident(),
            "attr" => self.kebab(),
            "style" if self.t.chance(40) => format!("--{}", self.kebab()),
            _ if self.t.chance(20) => self.string(),
            _ => self.kebab(),
        };
        let shorthand = d != "use" && !name.starts_with(['"', '-']) && !name.contains('"') && self.t.chance(20);
        if shorthand {
            self.push("{");
            self.push(name);
            self.push("}");
            self.feat("directive shorthand");
        } else {
            self.push(name);
        }
        if d == "on" && self.t.chance(10) {
            self.all(&[":", "undelegated"]);
            self.feat("undelegated");
        }
        if shorthand {
            return;
        }
        if d == "use" && self.t.chance(40) {
            return;
        }
        if !k.is_element() && d != "on" && d != "use" && self.t.chance(30) {
            self.feat("directive without value");
            return;
        }
        self.push("=");
        if d == "on" {
            self.handler();
        } else {
            self.value();
        }
    }
    fn typed_attr(&mut self, k: Kind) {
        let m = self.low();
        match self.t.below(8) {
            1 => {
                self.push(format!("data-{m}"));
                self.feat("bare attribute");
            }
            2 => {
                self.all(&["class", ":"]);
                self.push(m);
                self.all(&["=", "{", "1 < 2", "}"]);
                self.feat("class:");
            }
            3 => {
                self.all(&["style", ":"]);
                self.push(format!("--{m}"));
                self.push("=");
                self.push("\"red\"");
                self.feat("style:");
            }
            4 => {
                self.all(&["on", ":"]);
                let e = *self.t.pick(EVENTS);
                self.push(e);
                self.push("=");
                self.handler();
                self.feat("on:");
            }
            5 => {
                self.all(&["use", ":", "d0"]);
                self.feat("use:");
            }
            6 => {
                self.all(&["prop", ":"]);
                self.push(m);
                self.push("=");
                let s = self.string();
                self.push(s);
                self.feat("prop:");
            }
            _ => {
                self.push(format!("data-{m}"));
                self.push("=");
                match self.t.below(4) {
                    1 => self.block(),
                    2 => self.bracket(),
                    3 => self.fmt(),
                    _ => {
                        let s = self.string();
                        self.push(s);
                    }
                }
                self.feat("attribute");
            }
        }
        let _ = k;
    }
    /// Props of the fixtures, each at most once.
    fn typed_attrs(&mut self, k: Kind, bare: bool) {
        let mut props = vec!["num", "text", "flag", "opt-val"];
        self.t.shuffle(&mut props);
        let n = self.t.below(3);
        let take = props[..n].to_vec();
        for p in take {
            if self.bad_here() {
                self.bad_attr(k);
            }
            self.feat("prop");
            match p {
                "num" => {
                    let n = self.number();
                    self.all(&["num", "="]);
                    self.push(n);
                }
                "text" => {
                    let s = self.string();
                    self.all(&["text", "="]);
                    self.push(s);
                }
                "flag" => self.push("flag"),
                _ => {
                    let n = self.number();
                    self.all(&["opt-val", "=", "{"]);
                    self.push(n);
                    self.push("}");
                }
            }
        }
        if k == Kind::Component && !bare && self.t.chance(40) {
            if self.bad_here() {
                self.bad_attr(k);
            }
            let m = self.low();
            match self.t.below(3) {
                1 => {
                    self.all(&["class", ":"]);
                    self.push(m);
                }
                2 => {
                    self.all(&["attr", ":"]);
                    self.push(format!("data-{m}"));
                    self.push("=");
                    let s = self.string();
                    self.push(s);
                }
                _ => {
                    self.all(&["style", ":", "color", "="]);
                    let s = self.string();
                    self.push(s);
                }
            }
        }
        if self.bad_here() {
            self.bad_attr(k);
        }
    }

    // ------------------------------------------------------------- mistakes

    fn bad_here(&mut self) -> bool {
        self.left > 0 && self.hold == 0 && self.t.chance(18)
    }
    fn fatal_here(&mut self) -> bool {
        self.fatal && self.hold == 0 && self.t.chance(12)
    }
    fn bad_child(&mut self, ctx: Ctx, depth: usize) {
        if self.left == 0 {
            return;
        }
        self.left -= 1;
        let from = self.at();
        let kind = match self.t.below(10) {
            1 => {
                self.push(";");
                "extra semicolon"
            }
            2 => {
                let g = if self.t.chance(40) { "format".to_string() } else { self.low() };
                let e = self.expr();
                self.push(g);
                self.push("[");
                self.push(e);
                self.push("]");
                "unknown prefix of a child"
            }
            3 | 4 => {
                match ctx {
                    Ctx::Element | Ctx::Top => {
                        self.hold += 1;
                        let left = std::mem::take(&mut self.left);
                        self.slot(depth);
                        self.left = left;
                        self.hold -= 1;
                        "slot outside of a component"
                    }
                    Ctx::Component | Ctx::Slot => {
                        self.hold += 1;
                        self.all(&["slot", ":"]);
                        let k = if self.t.chance(70) { Kind::Html } else { Kind::Web };
                        if self.t.chance(30) {
                            self.push(format!("{}::{}", "mkpath", "MkSlot"));
                        } else {
                            self.tag(k);
                        }
                        self.push(";");
                        self.hold -= 1;
                        "slot that is not a struct's name"
                    }
                }
            }
            5..=8 => {
                // an element with the mistake in it
                self.left += 1;
                let k = self.kind();
                let start = self.at();
                match k {
                    Kind::Component if self.o.typed => self.push("Plain"),
                    _ => self.tag(k),
                }
                if self.t.chance(30) && !self.o.typed {
                    self.selectors();
                }
                self.bad_attr(k);
                if self.t.chance(50) {
                    self.push(";");
                } else {
                    let s = self.string();
                    self.push("{");
                    self.push(s);
                    self.push("}");
                }
                let _ = start;
                return;
            }
            _ => {
                let l = match self.t.below(7) {
                    1 => "true".to_string(),
                    2 => "'c'".into(),
                    3 => "1.5".into(),
                    4 => "b\"bytes\"".into(),
                    5 => "b'b'".into(),
                    6 => "0xffu8".into(),
                    _ => self.number(),
                };
                self.push(l);
                "literal child that is not a string"
            }
        };
        let to = self.at();
        self.bad(kind, from, to);
    }
    /// Only as the last child of a block.
    fn unterminated(&mut self) {
        self.left -= 1;
        let from = self.at();
        let k = self.kind();
        if self.o.typed && !k.is_element() {
            self.push("Plain");
            self.push("num");
        } else {
            self.tag(k);
            self.push("data-x");
        }
        self.push("=");
        let n = self.number();
        self.push(n);
        let to = self.at();
        self.bad("unterminated element", from, to);
    }
    fn name_for(&mut self, k: Kind) -> String {
        // typed programs have only a few props
        match k {
            Kind::Component | Kind::Slot if self.o.typed => "extra".into(),
            _ if self.o.typed => format!("data-{}", self.low()),
            _ => self.kebab(),
        }
    }
    fn bad_attr(&mut self, k: Kind) {
        self.left -= 1;
        let from = self.at();
        let kind = match self.t.below(if self.o.typed { 9 } else { 12 }) {
            1 if k != Kind::Slot => {
                // no value, and something that is fine after it
                let n = self.name_for(k);
                self.push(n);
                self.push("=");
                let next = self.at();
                let n = if self.o.typed {
                    match k {
                        Kind::Component => "class".to_string(),
                        _ => format!("data-{}", self.low()),
                    }
                } else {
                    self.low()
                };
                if n == "class" {
                    self.all(&["class", ":", "x", "=", "true"]);
                } else {
                    self.push(n);
                    self.push("=");
                    self.push("\"x\"");
                }
                self.bad("missing value", from, next + 1);
                return;
            }
            2 => {
                let m = self.low();
                let m = if self.t.chance(30) { "classs".to_string() } else { m };
                self.push(m);
                self.all(&[":", "x", "=", "\"x\""]);
                if k == Kind::Slot {
                    "directive on a slot"
                } else {
                    "unknown directive"
                }
            }
            3 if k.is_element() => {
                let d = *self.t.pick(&["attr", "clone"]);
                self.push(d);
                self.all(&[":", "x"]);
                if d == "attr" {
                    self.all(&["=", "\"x\""]);
                }
                "directive of components on an element"
            }
            4 => {
                let dirs: &[&str] = match k {
                    Kind::Slot => &["clone"],
                    Kind::Component => &["class", "style", "prop", "use", "on", "clone", "attr"],
                    _ => &["class", "style", "prop", "use", "on"],
                };
                let d = *self.t.pick(dirs);
                self.push(d);
                self.push(":");
                let name = match d {
                    "on" => "click",
                    "use" => "d0",
                    "clone" => "cloneable",
                    "attr" => "data-x",
                    "style" => "color",
                    _ => "xyz",
                };
                if self.t.chance(30) && !self.o.typed && d != "clone" {
                    let m = if d != "on" && self.t.chance(30) { "undelegated".into() } else { self.low() };
                    match self.t.below(if matches!(d, "on" | "use" | "attr") { 2 } else { 3 }) {
                        2 => {
                            // in place of a name
                            let s = self.string();
                            self.push(s);
                            self.push(":");
                            self.push(m);
                        }
                        1 => {
                            // without a value
                            self.push(name);
                            self.push(":");
                            self.push(m);
                        }
                        _ => {
                            self.all(&["{", name, "}"]);
                            self.push(":");
                            self.push(m);
                        }
                    }
                } else {
                    self.push(name);
                    self.push(":");
                    let m = if d != "on" && self.t.chance(30) { "undelegated".into() } else { self.low() };
                    self.push(m);
                    match d {
                        "clone" | "use" => {}
                        "on" => {
                            self.push("=");
                            self.handler();
                        }
                        "class" => self.all(&["=", "{", "true", "}"]),
                        _ => self.all(&["=", "\"x\""]),
                    }
                }
                "unknown modifier"
            }
            5 if k != Kind::Slot => {
                match self.t.below(if k == Kind::Component { 3 } else { 2 }) {
                    1 => self.all(&["use", ":", "\"d0\""]),
                    2 => self.all(&["attr", ":", "\"id\"", "=", "\"x\""]),
                    _ => {
                        self.all(&["on", ":", "\"click\"", "="]);
                        self.handler();
                    }
                }
                "string where a name is needed"
            }
            6 if !k.is_element() => {
                self.all(&["clone", ":", "cloneable", "="]);
                let n = self.number();
                self.push(n);
                "value on clone:"
            }
            7 if k == Kind::Slot => {
                match self.t.below(4) {
                    1 => self.all(&["{", "..", "x", "}"]),
                    2 => {
                        self.all(&["on", ":", "click", "="]);
                        self.handler();
                    }
                    3 => self.all(&["attr", ":", "x", "=", "\"x\""]),
                    _ => self.all(&["class", ":", "x", "=", "{", "true", "}"]),
                }
                "directive on a slot"
            }
            8 if matches!(k, Kind::Html | Kind::Math | Kind::Component | Kind::Slot) => {
                let w = *self.t.pick(RESERVED);
                if self.t.chance(30) && !self.o.typed {
                    self.push("{");
                    self.push(w);
                    self.push("}");
                } else if k == Kind::Component && self.t.chance(20) {
                    self.all(&["clone", ":"]);
                    self.push(w);
                } else {
                    self.push(w);
                    self.all(&["=", "\"x\""]);
                }
                "reserved word as a name"
            }
            9 => {
                let m = self.low();
                match self.t.below(3) {
                    1 if k != Kind::Slot => {
                        self.all(&["class", ":"]);
                        self.push(format!("{m}-"));
                        self.push("r#type");
                        self.all(&["=", "{", "true", "}"]);
                    }
                    2 => {
                        self.push("{");
                        self.push(format!("{m}-"));
                        self.push("r#abc");
                        self.push("}");
                    }
                    _ => {
                        self.push(format!("{m}-"));
                        self.push("r#abc");
                        self.all(&["=", "\"x\""]);
                    }
                }
                "raw identifier inside a name"
            }
            10 => {
                let (n, g) = (self.kebab(), self.low());
                let g = if self.t.chance(40) { "format".to_string() } else { g };
                let e = self.expr();
                self.push(n);
                self.push("=");
                self.push(g);
                self.push("[");
                self.push(e);
                self.push("]");
                "unknown prefix of a value"
            }
            _ => {
                let n = self.name_for(k);
                self.push(n);
                self.push("=");
                let v = if self.t.chance(50) { "-x".to_string() } else { "unbraced".to_string() };
                self.push(v);
                "value without braces"
            }
        };
        let to = self.at();
        self.bad(kind, from, to);
    }

    // ------------------------------------------ what only the compiler finds

    fn wrong_expr(&mut self) -> (String, &'static str) {
        let m = self.low();
        match self.t.below(6) {
            1 => (format!("{{ let v: u32 = \"{m}\"; v }}"), "type mismatch"),
            2 => (format!("1u32 + \"{m}\""), "operator on wrong types"),
            3 => (format!("cloneable.{m}()"), "unknown method"),
            4 => (format!("d0(\"{m}\", 1)"), "wrong arguments"),
            5 => (format!("{m}::new()"), "unknown type"),
            _ => (m, "unknown variable"),
        }
    }
    /// A child with one mistake.
    fn type_child(&mut self) {
        self.type_bad = false;
        let m = self.low();
        let from = self.at();
        let kind = match self.t.below(26) {
            1 => {
                let (e, k) = self.wrong_expr();
                self.push("[");
                self.push(e);
                self.push("]");
                k
            }
            2 => {
                let (e, k) = self.wrong_expr();
                let e = if e.starts_with("{ let") { m } else { e };
                self.all(&["f", "[", "\"{}\"", ","]);
                self.push(e);
                self.push("]");
                k
            }
            3 => {
                self.all(&["f", "[", "\"{} {}\"", ",", "1", "]"]);
                "missing format argument"
            }
            4 => {
                self.all(&["{", "NotView", "}"]);
                "child that is not a view"
            }
            5..=7 => {
                // in the value of an attribute
                let t = *self.t.pick(&["div", "circle", "my-el"]);
                self.all(&[t, "data-x", "=", "1"]);
                let from = self.at();
                self.push(format!("data-{m}"));
                self.push("=");
                let (a, b) = if self.t.chance(50) { ("[", "]") } else { ("{", "}") };
                let (e, k) = self.wrong_expr();
                self.push(a);
                self.push(e);
                self.push(b);
                let to = self.at();
                self.all(&["class", "=", "\"x\"", ";"]);
                self.bad(k, from, to);
                return;
            }
            8 | 9 => {
                self.all(&["Plain", "flag"]);
                let from = self.at();
                let (e, k) = self.wrong_expr();
                self.all(&["num", "=", "{"]);
                self.push(e);
                self.push("}");
                let to = self.at();
                self.all(&["text", "=", "\"x\"", ";"]);
                self.bad(k, from, to);
                return;
            }
            10 => {
                self.all(&["Plain", "flag"]);
                let from = self.at();
                match self.t.below(3) {
                    1 => self.all(&["{", "cloneable", "}"]),
                    2 => self.push(m),
                    _ => {
                        self.push(m);
                        self.all(&["=", "1"]);
                    }
                }
                let to = self.at();
                self.all(&["text", "=", "\"x\"", ";"]);
                self.bad("unknown prop", from, to);
                return;
            }
            11 => {
                self.all(&["Plain", "flag"]);
                let from = self.at();
                match self.t.below(3) {
                    1 => self.all(&["num", "=", "{", "cloneable", "}"]),
                    2 => self.all(&["num", "=", "[", "1", "]"]),
                    _ => {
                        self.all(&["num", "="]);
                        self.push(format!("\"{m}\""));
                    }
                }
                let to = self.at();
                self.all(&["text", "=", "\"x\"", ";"]);
                self.bad("prop of another type", from, to);
                return;
            }
            12 => {
                self.all(&["div", "class", "=", "\"x\""]);
                let from = self.at();
                self.push(m);
                if self.t.chance(70) {
                    self.all(&["=", "\"x\""]);
                }
                let to = self.at();
                self.all(&["title", "=", "\"x\"", ";"]);
                self.bad("unknown attribute", from, to);
                return;
            }
            13 => {
                self.push(m);
                let to = self.at();
                self.all(&["class", "=", "\"x\"", "{", "\"x\"", "}"]);
                self.bad("unknown tag", from, to);
                return;
            }
            14 => {
                let c = self.up();
                self.push(c);
                let to = self.at();
                if self.t.chance(50) {
                    self.all(&["num", "=", "1"]);
                }
                self.all(&["{", "\"x\"", "}"]);
                self.bad("unknown component", from, to);
                return;
            }
            15 => {
                let t = *self.t.pick(&["div", "my-el", "Plain"]);
                self.all(&[t]);
                let from = self.at();
                self.all(&["on", ":"]);
                self.push(m);
                self.push("=");
                self.handler();
                let to = self.at();
                self.all(&["{", "\"x\"", "}"]);
                self.bad("unknown event", from, to);
                return;
            }
            16 => {
                let t = *self.t.pick(&["div", "my-el", "Plain"]);
                self.all(&[t]);
                let from = self.at();
                self.all(&["use", ":"]);
                self.push(m);
                let to = self.at();
                self.all(&["{", "\"x\"", "}"]);
                self.bad("unknown function", from, to);
                return;
            }
            17 => {
                self.push("Need");
                let to = self.at();
                if self.t.chance(50) {
                    self.all(&["{", "\"x\"", "}"]);
                } else {
                    self.push(";");
                }
                self.bad("missing prop", from, to);
                return;
            }
            18 => {
                self.all(&["Plain", "flag", "{", "\"x\""]);
                let from = self.at();
                self.all(&["slot", ":", "One"]);
                let to = self.at();
                self.all(&[";", "}"]);
                self.bad("slot the component does not take", from, to);
                return;
            }
            19 => {
                self.all(&["Par", "flag", "{", "\"x\""]);
                let from = self.at();
                self.all(&["slot", ":"]);
                let c = self.up();
                self.push(c);
                let to = self.at();
                self.all(&[";", "}"]);
                self.bad("unknown slot", from, to);
                return;
            }
            20 => {
                self.all(&["Plain", "flag"]);
                let from = self.at();
                self.all(&["clone", ":"]);
                self.push(m);
                let to = self.at();
                self.all(&["{", "\"x\"", "}"]);
                self.bad("unknown variable", from, to);
                return;
            }
            21 => {
                self.all(&["div", "class", "=", "\"x\""]);
                let from = self.at();
                self.push(format!("data-{m}"));
                self.all(&["=", "{", "NotView", "}"]);
                let to = self.at();
                self.all(&["title", "=", "\"x\"", ";"]);
                self.bad("attribute value of another type", from, to);
                return;
            }
            22 => {
                self.all(&["div"]);
                let from = self.at();
                match self.t.below(3) {
                    1 => {
                        self.all(&["class", ":", "x", "=", "{"]);
                        self.push(m);
                        self.push("}");
                    }
                    2 => {
                        self.all(&["{", ".."]);
                        self.push(m);
                        self.push("}");
                    }
                    _ => {
                        self.all(&["{"]);
                        self.push(format!("data-{m}"));
                        self.push("}");
                    }
                }
                let to = self.at();
                self.all(&["title", "=", "\"x\"", ";"]);
                self.bad("unknown variable", from, to);
                return;
            }
            23 => {
                self.all(&["Plain"]);
                let from = self.at();
                match self.t.below(4) {
                    1 => {
                        self.all(&["class", ":", "x", "=", "{"]);
                        self.push(m);
                        self.push("}");
                    }
                    2 => {
                        self.all(&["{", ".."]);
                        self.push(m);
                        self.push("}");
                    }
                    3 => {
                        self.all(&["attr", ":", "data-x", "=", "["]);
                        self.push(m);
                        self.push("]");
                    }
                    _ => {
                        self.all(&["{"]);
                        self.push("num");
                        self.push("}");
                    }
                }
                let to = self.at();
                self.all(&["{", "\"x\"", "}"]);
                self.bad("unknown variable", from, to);
                return;
            }
            24 => {
                self.all(&["Args", "|"]);
                self.push(m);
                self.all(&["|", "{", "\"x\""]);
                let from = self.at();
                let (e, k) = self.wrong_expr();
                self.push("{");
                self.push(e);
                self.push("}");
                let to = self.at();
                self.all(&["\"x\"", "}"]);
                self.bad(k, from, to);
                return;
            }
            25 => {
                self.all(&["div"]);
                let from = self.at();
                self.all(&["on", ":", "click", "=", "{"]);
                let (e, k) = self.wrong_expr();
                self.push(format!("move |_| {{ {e}; }}"));
                self.push("}");
                let to = self.at();
                self.all(&["{", "\"x\"", "}"]);
                self.bad(k, from, to);
                return;
            }
            _ => {
                let (e, k) = self.wrong_expr();
                self.push("{");
                self.push(e);
                self.push("}");
                k
            }
        };
        let to = self.at();
        self.bad(kind, from, to);
    }

    // ----------------------------------- mistakes that may end the parsing

    fn fatal_child(&mut self, ctx: Ctx, depth: usize) {
        self.fatal = false;
        let from = self.at();
        let kind = match self.t.below(10) {
            9 => {
                // the block ends where something is missing
                let component = self.t.chance(50);
                let outer = if component { self.up() } else { "div".into() };
                self.push(outer);
                let (a, b) = if self.t.chance(25) { ("(", ")") } else { ("{", "}") };
                self.push(a);
                // `{ name }` alone would be an attribute
                let s = self.string();
                self.push(s);
                let from = self.at();
                let inner = if self.t.chance(50) { self.up() } else { "p".into() };
                let own = inner != "p";
                if component && self.t.chance(15) {
                    self.all(&["slot", ":"]);
                    if self.t.chance(50) {
                        self.push(inner);
                    }
                } else {
                    self.push(inner);
                    if self.t.chance(30) {
                        let m = self.low();
                        self.push(".");
                        self.push(m);
                    } else if own && self.t.chance(30) {
                        let g = *self.t.pick(&["::", "<", "< A ,", ":: a ::"]);
                        self.push(g);
                    }
                    if self.t.chance(30) {
                        self.all(&["a", "=", "1"]);
                    }
                    let j = *self.t.pick(&[
                        "class :", "on : click :", "use :", "style : \"a\" =", "b =", "class : c =", "on : click : undelegated =",
                        "", "prop : d :", "attr :", "clone :", "| e", "| e , |", "|", "| e |", "data-f", "data-f -", "#", ".", "g = f",
                        "{ .. h }", "{ i }",
                    ]);
                    if !j.is_empty() {
                        self.push(j);
                    }
                }
                let to = self.at();
                self.push(b);
                self.bad("missing at the end of a block", from, to);
                return;
            }
            1 => {
                self.all(&["slot", ":"]);
                let j = *self.t.pick(&[";", "\"text\"", "{ x }", "=", ","]);
                self.push(j);
                "slot without a name"
            }
            2 => {
                let m = self.up();
                self.push(m);
                self.push("|");
                let p = self.pattern(1);
                self.push(p);
                if self.t.chance(50) {
                    self.all(&["{", "\"x\"", "}"]);
                }
                // whatever follows is taken for arguments, up to a pipe
                self.open = true;
                "closure arguments that never end"
            }
            3 => {
                let m = self.up();
                self.push(m);
                let g = *self.t.pick(&["<", ":: < A", "< A , ", ":: ::", "::", ":: 5", "< { x } , "]);
                self.push(g);
                let e = *self.t.pick(&[";", "{ \"x\" }", "= 5 ;"]);
                self.push(e);
                "broken path"
            }
            4 => {
                let k = self.kind();
                self.tag(k);
                let s = *self.t.pick(&[". ;", ". { \"x\" }", "# ;", ". \"x\" ;", "# 5 ;", ". . x ;", "# {x} ;"]);
                self.push(s);
                "selector without a name"
            }
            5 | 6 => {
                let k = self.kind();
                let start = from;
                self.tag(k);
                self.fatal = true;
                if self.fatal_attr(k, start) {
                    return;
                }
                self.fatal = false;
                "unreachable"
            }
            7 => {
                let k = self.kind();
                self.tag(k);
                self.all(&["a", "="]);
                let v = *self.t.pick(&["foo . bar ( )", "& x", "! x", "x + 1", "move | | x", "x :: y", "* x", "|| x"]);
                self.push(v);
                "expression without braces"
            }
            8 => {
                let k = self.kind();
                self.tag(k);
                self.all(&["a", "=", "("]);
                let n = self.number();
                self.push(n);
                self.push(")");
                "value in parentheses"
            }
            _ => {
                let j = *self.t.pick(&[
                    ",", "=", "@", "->", ". foo", "# x", "& x", "- 5", "! x", "( \"x\" )", "? ", "$ x", "< div >",
                    "< / div >", "=> x", "'a", "* x", "| x |", "% 5", "~", "^ y", "/ x", "+ 1", ": y",
                ]);
                self.push(j);
                "stray token among children"
            }
        };
        let _ = (ctx, depth);
        let to = self.at();
        self.bad(kind, from, to);
    }
    /// True if the element is over.
    fn fatal_attr(&mut self, k: Kind, start: usize) -> bool {
        if !self.fatal || self.hold > 0 {
            return false;
        }
        self.fatal = false;
        let from = self.at();
        if self.t.chance(50) {
            let j = *self.t.pick(&[
                "class : = \"x\"", "class : 5", "on : click : = { x }", "class : { a . b }", "class : { a b }",
                "style : { }", "on : { }", "class : , x", "use : ;", "prop : [ x ] = 1", "class : ( x )",
                "on : click : \"x\" = { x }", "class : { x } : 5", "attr : = 5",
            ]);
            self.push(j);
            let to = self.at();
            self.bad("broken directive", from, to);
            // would be part of it
            self.push(";");
        } else {
            let j = *self.t.pick(&[
                ",", "\"text\"", "[ x ]", "5", "& x", "@ click = { x }", ": x", "? x", "! x", "/ x",
                "> \"x\" </ div >", "$x", "{ a . b } { \"x\" }  . ", "=> { x }", "'a", "+ x", "* x",
            ]);
            self.push(j);
            let to = self.at();
            self.bad("stray token among attributes", start, to);
            self.push(";");
        }
        let _ = k;
        true
    }
}
