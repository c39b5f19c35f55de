//! Rust expressions with a known value.
use crate::ast::{rust_ident, Env, Form, Part, Src, KEYWORDS, V};
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    /// `&'static str`
    S,
    /// `String`
    Str,
    I,
    B,
    C,
    F,
}

/// When an expression is evaluated.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    /// Exactly this often, all in this epoch (0: building, 1: rendering).
    At(u8, u32),
    /// Not while building, at least once while rendering.
    Lazy,
    /// Not while building, perhaps while rendering.
    Maybe,
    Never,
}

/// What a local variable that is not `Copy` may be used for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Own {
    Move,
    Clone,
    None,
}

#[derive(Clone, Debug)]
pub struct Cx {
    pub ev: Ev,
    pub own: Own,
    pub args: Vec<(String, Ty)>,
    pub depth: usize,
    /// inside of children, which are closures
    pub inside: bool,
    /// attributes of a component that may have no root elements
    pub maybe: bool,
    /// arguments that are `mut`, and not captured by a closure on the way here
    pub muts: Vec<String>,
}

impl Cx {
    /// Inside of a `move ||` closure that is called while rendering.
    pub fn lazy(&self) -> Cx {
        Cx {
            ev: if self.ev == Ev::Never {
                Ev::Never
            } else if self.maybe {
                Ev::Maybe
            } else {
                Ev::Lazy
            },
            own: match self.own {
                Own::Move => Own::Clone,
                _ => Own::None,
            },
            muts: vec![],
            ..self.clone()
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct ExprProf {
    /// how deep expressions nest
    pub depth: usize,
    /// percent of expressions that record when they run
    pub log: usize,
    /// percent of texts with unusual characters
    pub wild: usize,
    /// percent of names that could collide with something
    pub nasty: usize,
    /// no paths that user items may shadow
    pub plain: bool,
}

/// State shared by everything that is generated for one case.
pub struct G {
    pub t: Tape,
    pub ep: ExprProf,
    pub lets: Vec<String>,
    /// statements run after the view was built
    pub after: Vec<String>,
    pub items: Vec<String>,
    /// the name of what the value is for
    pub near: Option<String>,
    pub used: BTreeSet<String>,
    pub next: u32,
    pub logs: Vec<(u32, Ev)>,
    pub feats: BTreeMap<String, usize>,
    /// names that expansions bring along
    pub extra: std::rc::Rc<Vec<String>>,
}

pub const WORDS: &[&str] = &[
    "count", "label", "item", "x", "value", "name", "state", "foo", "bar", "idx", "n", "width",
    "text", "on", "open", "theme", "user", "data", "cls", "hidden", "active",
];
pub const NASTY: &[&str] = &[
    "leptos", "std", "core", "format", "children", "builder", "build", "el", "element", "props",
    "attrs", "child", "__x", "f", "view", "tachys", "html", "svg", "div", "span", "class", "style",
    "prop", "attr", "directive", "into", "clone", "html_el", "macro_rules", "union", "fragment",
    "slot", "component", "mview", "leptos_mview", "custom", "node_ref", "add_any_attr", "id",
    "event", "click", "vec", "default", "auto", "dummy", "input", "args", "tag", "key", "str",
    "owned", "arc", "render", "root", "this", "me", "__self", "result", "res", "ret", "res_view",
    "_0", "_view", "_children", "_x", "a", "b", "c", "i", "v", "s", "t", "w", "e",
];
const KW_IDENTS: &[&str] = &[
    "type", "for", "as", "loop", "async", "match", "move", "ref", "use", "in", "static", "dyn",
    "box", "priv", "try",
];
const TEXTS: &[&str] = &[
    "a", "hello", "b", "hello world", "1", "x y z", "The end.", "true", "lorem ipsum dolor", "0",
];
const WILD: &[&str] = &[
    "<b>bold</b>", "a & b", "&amp;", "\"quoted\"", "it's", "{braces}", "[x]", "a;b", "-- dash",
    "<!-- c -->", "</div>", "é漢字😀", " lead", "trail ", "tab\there", "new\nline", "\\n", "{}",
    "100%", "#id .class", "a=b", "<", ">", "&", "'", "\u{a0}nbsp", "move || x", "f[\"{}\"]", "slot:X",
    "\u{200d}", "\\", "//", "/* */", "r#\"", "$x", "@", "`",
    " ", "  ", "\n", " \t\n ", "\r\n", "two  spaces", "a_b", "A-B", "\n    indented\n", ".", ",", ";",
];

impl G {
    pub fn new(tape: Vec<u32>, ep: ExprProf) -> Self {
        Self {
            t: Tape::new(tape),
            ep,
            lets: vec![],
            after: vec![],
            items: vec![],
            near: None,
            used: BTreeSet::new(),
            next: 0,
            logs: vec![],
            feats: BTreeMap::new(),
            extra: Default::default(),
        }
    }
    pub fn feat(&mut self, what: &str) {
        *self.feats.entry(what.to_string()).or_default() += 1;
    }
    pub fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    /// A variable or function name that is new in this case (unraw).
    pub fn name(&mut self) -> String {
        let base = if !self.extra.is_empty() && self.t.chance(60) {
            self.feat("name the macro uses");
            let extra = self.extra.clone();
            self.t.pick(&extra).clone()
        } else if self.t.chance(self.ep.nasty) {
            self.t.pick(NASTY).to_string()
        } else if self.t.chance(6) {
            self.t.pick(KW_IDENTS).to_string()
        } else {
            self.t.pick(WORDS).to_string()
        };
        self.uniq(base)
    }
    pub fn uniq(&mut self, base: String) -> String {
        let mut name = base.clone();
        let mut i = 1;
        while !self.used.insert(name.clone()) {
            i += 1;
            name = format!("{base}_{i}");
        }
        name
    }
    pub fn text(&mut self) -> String {
        if let Some(near) = self.near.clone() {
            if self.t.chance(8) {
                self.feat("value like its name");
                return near;
            }
        }
        if self.t.chance(self.ep.wild) {
            let mut s = self.t.pick(WILD).to_string();
            if self.t.chance(30) {
                let more = *self.t.pick(TEXTS);
                s.push_str(more);
            }
            if self.t.chance(20) {
                let more = *self.t.pick(WILD);
                s.push_str(more);
            }
            s
        } else {
            self.t.pick(TEXTS).to_string()
        }
    }
    /// A string literal with this value.
    pub fn str_lit(&mut self, s: &str) -> String {
        match self.t.weighted(&[6, 1, 1, 1]) {
            1 if !s.contains('"') && !s.contains('\r') => format!("r\"{s}\""),
            2 if !s.contains("\"#") && !s.contains('\r') => format!("r#\"{s}\"#"),
            3 if !s.is_empty() => {
                let mut out = String::from("\"");
                for c in s.chars() {
                    if c.is_ascii_alphanumeric() && self.t.chance(20) {
                        out.push_str(&format!("\\x{:02x}", c as u32));
                    } else if !c.is_ascii_alphanumeric() && self.t.chance(30) {
                        out.push_str(&format!("\\u{{{:x}}}", c as u32));
                    } else {
                        let d = format!("{:?}", c.to_string());
                        out.push_str(&d[1..d.len() - 1]);
                    }
                }
                out.push('"');
                out
            }
            _ => format!("{s:?}"),
        }
    }
    pub fn int(&mut self) -> i64 {
        match self.t.weighted(&[6, 2, 1]) {
            0 => self.t.below(10) as i64,
            1 => self.t.below(1000) as i64,
            _ => self.t.below(1 << 20) as i64,
        }
    }
    fn int_lit(&mut self, n: i64, suffix: &str) -> String {
        let body = match self.t.weighted(&[8, 1, 1, 1]) {
            0 => n.to_string(),
            1 => format!("{n:#x}"),
            2 => format!("{n:#b}"),
            _ => {
                let s = n.to_string();
                if s.len() > 1 {
                    format!("{}_{}", &s[..1], &s[1..])
                } else {
                    s
                }
            }
        };
        // a hexadecimal number would swallow a suffix starting with a-f
        format!("{body}{}{suffix}", if suffix.is_empty() { "" } else { "_" })
    }
    /// A literal of this many bits, and how it is shown.
    pub fn float(&mut self, bits: u32) -> (String, String) {
        let lit = match self.t.weighted(&[6, 2, 2, 1, 1, 1]) {
            0 => format!("{}.5", self.t.below(50)),
            // more digits than fit fewer bits
            1 => format!("{}.{}", self.t.below(1000), 100_000_007 + self.t.below(1 << 30)),
            2 => format!("0.{:03}{}", self.t.below(20), 1 + self.t.below(1000)),
            3 => format!("{}.0", self.t.below(2000)),
            4 => format!("{}e{}", 1 + self.t.below(99), self.t.below(9)),
            _ => format!("{}_000.{}_5", 1 + self.t.below(99), self.t.below(99)),
        };
        let plain = lit.replace('_', "");
        let shown = if bits == 32 {
            plain.parse::<f32>().expect("a number").to_string()
        } else {
            plain.parse::<f64>().expect("a number").to_string()
        };
        (lit, shown)
    }
    pub fn chr(&mut self) -> char {
        *self
            .t
            .pick(&['a', 'Z', '0', '"', '\'', '{', ' ', 'é', '漢', '-'])
    }
    /// A literal usable as a value without delimiters.
    pub fn literal(&mut self, ty: Ty) -> (String, V) {
        match ty {
            Ty::S | Ty::Str => {
                let s = self.text();
                (self.str_lit(&s), V::S(s))
            }
            Ty::I => match self.t.weighted(&[12, 2, 1, 1]) {
                0 => {
                    let n = self.int();
                    let suffix = *self.t.pick(&["", "i64", "u32", "usize", "i128"]);
                    (self.int_lit(n, suffix), V::I(n))
                }
                1 => {
                    self.feat("negative literal");
                    let n = self.int();
                    let suffix = *self.t.pick(&["", "i64", "i32", "i128"]);
                    (format!("-{}", self.int_lit(n, suffix)), V::I(-n))
                }
                2 => {
                    let n = i64::MAX - self.int();
                    let suffix = *self.t.pick(&["i64", "u64", "i128", "u128"]);
                    (self.int_lit(n, suffix), V::I(n))
                }
                _ => {
                    let c = *self.t.pick(&[b'a', b'0', b'{', b' ']);
                    (format!("b{:?}", c as char), V::I(c as i64))
                }
            },
            Ty::B => {
                let b = self.t.below(2) == 0;
                (b.to_string(), V::B(b))
            }
            Ty::C => {
                let c = self.chr();
                (format!("{c:?}"), V::C(c))
            }
            Ty::F => {
                let (suffix, bits) = *self.t.pick(&[("", 64), ("f64", 64), ("_f32", 32)]);
                let (lit, f) = self.float(bits);
                (format!("{lit}{suffix}"), V::F(f))
            }
        }
    }
    fn log_wrap(&mut self, src: String, cx: &Cx) -> String {
        let id = self.id();
        self.logs.push((id, cx.ev));
        self.feat("logged");
        format!("::sup::e({id}, {src})")
    }
    fn var(&mut self, ty: Ty, cx: &Cx) -> Option<(String, V)> {
        // a closure argument, if there is one
        let fit = cx
            .args
            .iter()
            .filter(|(_, t)| *t == ty || (ty == Ty::Str && *t == Ty::S))
            .cloned()
            .collect::<Vec<_>>();
        if !fit.is_empty() && self.t.chance(60) {
            let (name, t) = self.t.pick(&fit).clone();
            self.feat("argument used");
            let src = rust_ident(&name);
            let src = if cx.muts.contains(&name) && self.t.chance(60) {
                self.feat("argument changed");
                format!("(*{{ let zz_m = &mut {src}; *zz_m = *zz_m; zz_m }})")
            } else {
                src
            };
            let src = if ty == Ty::Str && t == Ty::S {
                format!("{src}.to_string()")
            } else {
                src
            };
            return Some((src, V::Arg(name)));
        }
        if ty == Ty::Str {
            if cx.own == Own::None {
                return None;
            }
            let name = self.name();
            let id = rust_ident(&name);
            let s = self.text();
            let lit = self.str_lit(&s);
            self.lets
                .push(format!("let {id} = ::std::string::String::from({lit});"));
            self.feat("owned variable");
            let src = match cx.own {
                Own::Move => id,
                _ => format!("{id}.clone()"),
            };
            return Some((src, V::S(s)));
        }
        let name = self.name();
        let id = rust_ident(&name);
        let (src, v) = self.leaf(ty);
        self.lets
            .push(format!("let {id}: {} = {src};", self.ty_name(ty)));
        self.feat("variable");
        Some((id, v))
    }
    pub fn ty_name(&self, ty: Ty) -> &'static str {
        if self.ep.plain {
            return match ty {
                Ty::S => "&'static ::core::primitive::str",
                Ty::Str => "::std::string::String",
                Ty::I => "::core::primitive::i64",
                Ty::B => "::core::primitive::bool",
                Ty::C => "::core::primitive::char",
                Ty::F => "::core::primitive::f64",
            };
        }
        match ty {
            Ty::S => "&'static str",
            Ty::Str => "String",
            Ty::I => "i64",
            Ty::B => "bool",
            Ty::C => "char",
            Ty::F => "f64",
        }
    }
    pub fn leaf(&mut self, ty: Ty) -> (String, V) {
        match ty {
            Ty::S => self.literal(Ty::S),
            Ty::Str => {
                let s = self.text();
                let lit = self.str_lit(&s);
                let src = match self.t.below(3) {
                    0 => format!("{lit}.to_string()"),
                    1 => format!("::std::string::String::from({lit})"),
                    _ => format!("::std::format!(\"{{}}\", {lit})"),
                };
                (src, V::S(s))
            }
            Ty::I => {
                let n = self.int();
                (self.int_lit(n, "i64"), V::I(n))
            }
            Ty::F => {
                let (lit, f) = self.float(64);
                (format!("{lit}f64"), V::F(f))
            }
            ty => self.literal(ty),
        }
    }
    /// An expression (no statements) of exactly this type.
    pub fn expr(&mut self, ty: Ty, depth: usize, cx: &Cx) -> (String, V) {
        if self.t.chance(self.ep.log) {
            let (src, v) = self.expr0(ty, depth, cx);
            return (self.log_wrap(src, cx), v);
        }
        self.expr0(ty, depth, cx)
    }
    fn no_log(&mut self, ty: Ty, depth: usize, cx: &Cx) -> (String, V) {
        // in branches that may not run: neither logged nor closure arguments
        let log = std::mem::replace(&mut self.ep.log, 0);
        let cx = Cx {
            args: vec![],
            own: Own::None,
            ..cx.clone()
        };
        let out = self.expr(ty, depth, &cx);
        self.ep.log = log;
        out
    }
    fn expr0(&mut self, ty: Ty, depth: usize, cx: &Cx) -> (String, V) {
        let own_ok = !cx.args.is_empty();
        if depth == 0 || self.t.chance(35) {
            if own_ok || self.t.chance(40) {
                if let Some(v) = self.var(ty, cx) {
                    return v;
                }
            }
            return self.leaf(ty);
        }
        let d = depth - 1;
        // shapes for every type
        match self.t.below(13) {
            12 => {
                // a comma outside of brackets
                let (a, av) = self.expr(ty, d, cx);
                return (format!("::sup::second::<i32, _>(1, {a})"), av);
            }
            0 => {
                let (c, cv) = self.no_log(Ty::B, d, cx);
                let (a, av) = self.no_log(ty, d, cx);
                let (b, bv) = self.no_log(ty, d, cx);
                let v = if cv == V::B(true) { av } else { bv };
                return (format!("if {c} {{ {a} }} else {{ {b} }}"), v).paren();
            }
            1 => {
                let (n, nv) = self.no_log(Ty::I, d, cx);
                let (a, av) = self.no_log(ty, d, cx);
                let (b, bv) = self.no_log(ty, d, cx);
                let k = self.t.below(5) as i64;
                let v = if nv == V::I(k) { av } else { bv };
                return (
                    format!("match {n} {{ {k} => {a}, zz_n if zz_n < -99999999 => {b}, _ => {b} }}"),
                    v,
                )
                    .paren();
            }
            2 => {
                let (a, av) = self.expr(ty, d, cx);
                return (format!("{{ let inner = {a}; inner }}"), av).paren();
            }
            3 => {
                let (a, av) = self.expr(ty, d, cx);
                return (format!("({a}, 1).0"), av);
            }
            4 => {
                let (a, av) = self.expr(ty, d, cx);
                let t = self.ty_name(ty);
                return (format!("(|it: {t}| -> {t} {{ it }})({a})"), av);
            }
            5 => {
                let (a, av) = self.expr(ty, d, cx);
                let t = self.ty_name(ty);
                return (format!("::std::convert::identity::<{t}>({a})"), av);
            }
            6 => {
                let (a, av) = self.expr(ty, d, cx);
                if self.t.below(2) == 0 {
                    return (format!("'zz: loop {{ loop {{ break 'zz {a}; }} }}"), av).paren();
                }
                return (format!("loop {{ break {a}; }}"), av).paren();
            }
            7 => {
                let (a, av) = self.expr(ty, d, cx);
                return (
                    format!("::std::option::Option::Some({a}).map(|it| it).unwrap()"),
                    av,
                );
            }
            _ => {}
        }
        match ty {
            Ty::S => match self.t.below(3) {
                0 => {
                    let (a, av) = self.no_log(Ty::S, d, cx);
                    let (b, bv) = self.no_log(Ty::S, d, cx);
                    let k = self.t.below(2);
                    (format!("[{a}, {b}][{k}]"), if k == 0 { av } else { bv })
                }
                1 => {
                    let s = self.text();
                    let lit = self.str_lit(&s);
                    (format!("{lit}.trim_end_matches('~')"), V::S(s))
                }
                _ => self.leaf(Ty::S),
            },
            Ty::Str => {
                let (a, av) = self.no_log(Ty::S, d, cx);
                let (b, bv) = self.no_log(Ty::I, d, cx);
                let env = Env::new();
                let (at, bt) = (av.text(&env), bv.text(&env));
                match self.t.below(4) {
                    0 => (
                        format!("::std::format!(\"{{}}-{{}}\", {a}, {b})"),
                        V::S(format!("{at}-{bt}")),
                    ),
                    1 => (format!("[{a}, \"+\"].concat()"), V::S(format!("{at}+"))),
                    2 => (format!("({b}).to_string() + {a}"), V::S(format!("{bt}{at}"))),
                    _ => (
                        format!("{a}.chars().rev().collect::<::std::string::String>()"),
                        V::S(at.chars().rev().collect()),
                    ),
                }
            }
            Ty::I => {
                let (a, av) = self.no_log(Ty::I, d, cx);
                let (b, bv) = self.no_log(Ty::I, d, cx);
                let (V::I(x), V::I(y)) = (av, bv) else {
                    unreachable!()
                };
                let small = |n: i64| n.abs() < 1 << 40;
                match self.t.below(9) {
                    0 => (format!("({a} + {b})"), V::I(x + y)),
                    1 => (format!("({a} - {b})"), V::I(x - y)),
                    2 if small(x) && y.abs() < 1 << 20 => (format!("({a} * {b})"), V::I(x * y)),
                    3 => (format!("-{a}"), V::I(-x)).paren(),
                    4 => (format!("i64::max({a}, {b})"), V::I(x.max(y))),
                    5 => (
                        format!("::std::vec![{a}, {b}].len() as i64"),
                        V::I(2),
                    )
                        .paren(),
                    6 => (
                        format!("(1..=3).map(|n| n * 2 | 1).sum::<i64>() + {a}"),
                        V::I(3 + 5 + 7 + x),
                    )
                        .paren(),
                    7 => (
                        "{ let mut n = 0; for i in 0..4 { n += i; } n }".to_string(),
                        V::I(6),
                    )
                        .paren(),
                    _ => (format!("({a} ^ {b} >> 1)"), V::I(x ^ (y >> 1))),
                }
            }
            Ty::B => {
                let (a, av) = self.no_log(Ty::I, d, cx);
                let (b, bv) = self.no_log(Ty::I, d, cx);
                let (V::I(x), V::I(y)) = (av, bv) else {
                    unreachable!()
                };
                let (p, pv) = self.no_log(Ty::B, d, cx);
                let V::B(pv) = pv else { unreachable!() };
                match self.t.below(6) {
                    0 => (format!("({a} == {b})"), V::B(x == y)),
                    1 => (format!("({a} < {b})"), V::B(x < y)),
                    2 => (format!("!{p}"), V::B(!pv)).paren(),
                    3 => (format!("({p} && {a} >= {b})"), V::B(pv && x >= y)),
                    4 => (format!("({p} || {a} != {b})"), V::B(pv || x != y)),
                    _ => (
                        format!("::std::matches!({a}, 0..=5 | 7)"),
                        V::B((0..=5).contains(&x) || x == 7),
                    ),
                }
            }
            ty => self.leaf(ty),
        }
    }
    /// What goes between the delimiters: an expression, maybe after statements.
    pub fn body(&mut self, ty: Ty, cx: &Cx) -> (String, V) {
        let depth = self.t.small(self.ep.depth);
        let (src, v) = self.expr(ty, depth, cx);
        if self.ep.depth > 0 && self.t.chance(12) {
            self.feat("statements");
            let stmts = match self.t.below(9) {
                // these need no `;`, and are statements all the same
                5 => "fn zz_helper() -> i64 { 3 }",
                6 => "if false {}",
                7 => "mod zz_mod { pub const N: i64 = 1; } {}",
                8 => "#[allow(unused)] struct ZzS {} impl ZzS { fn f() {} } while false {}",
                0 => "let _ = 3;",
                1 => "fn zz_helper() -> i64 { 3 } let _ = zz_helper();",
                2 => "let mut zz_n = 0; while zz_n < 2 { zz_n += 1; }",
                3 => "if false { return ::std::unreachable!(); }",
                _ => "#[allow(unused)] const ZZ_K: usize = 1 << 3;",
            };
            // no early return out of the enclosing function
            let stmts = if stmts.contains("return") { "();" } else { stmts };
            return (format!("{stmts} {src}"), v);
        }
        (src, v)
    }
    /// `f[...]`: the format arguments and the result.
    pub fn fmt_body(&mut self, cx: &Cx) -> (String, String) {
        let mut fmt = String::new();
        let mut out = String::new();
        let mut args = vec![];
        let mut named = vec![];
        let env = Env::new();
        // what is formatted must have a value that is known here
        let known = Cx {
            args: vec![],
            ..cx.clone()
        };
        for _ in 0..self.t.range(0, 4) {
            match self.t.below(9) {
                7 => {
                    // twice, by number; nothing before it is counted
                    if !args.is_empty() || !fmt.is_empty() && fmt.contains("{}") {
                        continue;
                    }
                    let (a, v) = self.expr(Ty::I, 1, &known);
                    let (b, w) = self.expr(Ty::S, 1, &known);
                    fmt.push_str("{1}{0:<4}{1:?}");
                    let V::I(n) = v else { unreachable!() };
                    out.push_str(&format!("{}{n:<4}{}", w.text(&env), w.dbg()));
                    args.extend([a, b]);
                    // and nothing after it is without a number
                    break;
                }
                8 => {
                    // a width that is named
                    let k = self.id();
                    let (a, v) = self.expr(Ty::I, 1, &known);
                    let V::I(n) = v else { unreachable!() };
                    let w = self.t.below(12);
                    fmt.push_str(&format!("{{nm{k}:>wd{k}$}}"));
                    out.push_str(&format!("{n:>w$}"));
                    named.push(format!("nm{k} = {a}"));
                    named.push(format!("wd{k} = {w}usize"));
                }
                0 => {
                    let s = self.text();
                    for c in s.chars() {
                        match c {
                            '{' => fmt.push_str("{{"),
                            '}' => fmt.push_str("}}"),
                            c => fmt.push(c),
                        }
                    }
                    out.push_str(&s);
                }
                1 | 2 => {
                    let ty = *self.t.pick(&[Ty::I, Ty::S, Ty::B, Ty::C, Ty::F]);
                    let (a, v) = self.expr(ty, 1, &known);
                    fmt.push_str("{}");
                    out.push_str(&v.text(&env));
                    args.push(a);
                }
                3 => {
                    let ty = *self.t.pick(&[Ty::I, Ty::S, Ty::B]);
                    let (a, v) = self.expr(ty, 1, &known);
                    fmt.push_str("{:?}");
                    out.push_str(&v.dbg());
                    args.push(a);
                }
                4 => {
                    // captured by name
                    let name = self.name();
                    let id = rust_ident(&name);
                    let (src, v) = self.leaf(Ty::I);
                    self.lets.push(format!("let {id}: i64 = {src};"));
                    fmt.push_str(&format!("{{{name}:>3}}"));
                    out.push_str(&format!("{:>3}", v.text(&env)));
                }
                5 => {
                    let (a, v) = self.expr(Ty::I, 1, &known);
                    let V::I(n) = v else { unreachable!() };
                    fmt.push_str("{:04x}");
                    out.push_str(&format!("{n:04x}"));
                    args.push(a);
                }
                _ => {
                    let n = format!("nm{}", self.id());
                    let (a, v) = self.expr(Ty::S, 1, &known);
                    fmt.push_str(&format!("<{{{n}}}>"));
                    out.push_str(&format!("<{}>", v.text(&env)));
                    named.push(format!("{n} = {a}"));
                }
            }
        }
        args.extend(named);
        let lit = self.str_lit_plain(&fmt);
        let mut src = lit;
        for a in &args {
            src.push_str(", ");
            src.push_str(a);
        }
        if !args.is_empty() && self.t.chance(20) {
            src.push(',');
        }
        (src, out)
    }
    fn str_lit_plain(&mut self, s: &str) -> String {
        if self.t.chance(15) && !s.contains("\"#") && !s.contains('\r') {
            format!("r#\"{s}\"#")
        } else {
            format!("{s:?}")
        }
    }

    /// A scalar value in one of the value forms. `forms` are the weights of
    /// literal, block, bracket, `f[]`, closure in a block, signal in a block.
    pub fn scalar(&mut self, tys: &[Ty], forms: [usize; 6], cx: &Cx) -> (Src, V) {
        let ty = *self.t.pick(tys);
        let mut forms = forms;
        if !tys.contains(&Ty::Str) {
            forms[3] = 0;
        }
        if cx.own != Own::Move {
            forms[5] = 0;
        }
        match self.t.weighted(&forms) {
            0 => {
                let ty = if ty == Ty::Str { Ty::S } else { ty };
                let (s, v) = self.literal(ty);
                self.feat("literal value");
                (Src::new(Form::Lit, s), v)
            }
            1 => {
                let (s, v) = self.body(ty, cx);
                self.feat("block value");
                (Src::new(Form::Block, s), v)
            }
            2 => {
                let (s, v) = self.body(ty, &cx.lazy());
                self.feat("bracket value");
                (Src::new(Form::Bracket, s), v)
            }
            3 => {
                let (s, v) = self.fmt_body(&cx.lazy());
                self.feat("f value");
                (Src::new(Form::F, s), V::S(v))
            }
            4 => {
                let (s, v) = self.body(ty, &cx.lazy());
                self.feat("closure value");
                (Src::new(Form::Block, format!("move || {{ {s} }}")), v)
            }
            _ => {
                let name = self.name();
                let id = rust_ident(&name);
                let (s, v) = self.leaf(ty);
                let kind = *self.t.pick(&["RwSignal::new", "::sup::memo"]);
                self.lets
                    .push(format!("let {id} = {}({s});", if kind == "RwSignal::new" { "::leptos::prelude::RwSignal::new" } else { kind }));
                self.feat("signal value");
                (Src::new(Form::Block, id), v)
            }
        }
    }
    pub fn kebab_seg(&mut self, first: bool) -> String {
        match self.t.weighted(&[10, 2, if first { 0 } else { 4 }, 2]) {
            0 => self
                .t
                .pick(&[
                    "a", "btn", "big", "foo", "item", "x", "primary", "col", "md", "is", "text",
                    "main", "Card", "_b", "b_c", "über",
                ])
                .to_string(),
            1 => self.t.pick(KEYWORDS).to_string(),
            2 => self
                .t
                .pick(&["1", "2", "100", "0", "4xl", "50_a", "007", "100a", "3d"])
                .to_string(),
            _ => self
                .t
                .pick(&["self", "super", "crate", "Self", "z9", "A1", "union"])
                .to_string(),
        }
    }
    /// `a`, `a-b`, `-a`, `--a---b`, `a-`
    pub fn kebab(&mut self, dashes: bool) -> String {
        let mut s = String::new();
        if dashes {
            match self.t.weighted(&[20, 1, 2]) {
                1 => s.push('-'),
                2 => s.push_str("--"),
                _ => {}
            }
        }
        let first = s.is_empty();
        s.push_str(&self.kebab_seg(first));
        for _ in 0..self.t.small(3) {
            s.push('-');
            if dashes && self.t.chance(8) {
                s.push('-');
            }
            s.push_str(&self.kebab_seg(false));
        }
        if s == "_" {
            s = "a".into();
        }
        s
    }
}

trait Paren {
    fn paren(self) -> Self;
}
impl Paren for (String, V) {
    fn paren(self) -> Self {
        (format!("({})", self.0), self.1)
    }
}

pub fn parts(s: impl Into<String>) -> Vec<Part> {
    vec![Part::S(s.into())]
}
