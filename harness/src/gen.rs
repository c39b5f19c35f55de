//! Generates programs.
use crate::ast::*;
use crate::expr::{parts, Cx, Ev, ExprProf, Own, Ty, G};
use crate::tables;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Prof {
    pub ep: ExprProf,
    pub max_nodes: usize,
    pub depth: usize,
    /// at most this many top-level nodes
    pub roots: usize,
    /// at most this many children of one parent
    pub kids: usize,
    /// percent of parents that get a very long list of children
    pub many: usize,
    /// text, value, nested mview, html, svg, math, custom, void, component,
    /// Show/For
    pub nodes: [usize; 10],
    /// at most this many attributes
    pub attrs: usize,
    /// typed kv, boolean, data/custom, aria, shorthand, class=, style=,
    /// class:, style:, prop:, on:, use:, ref, spread
    pub aw: [usize; 14],
    /// percent of elements with selectors
    pub sels: usize,
    /// literal, block, bracket, f, closure, signal
    pub forms: [usize; 6],
    /// percent of component calls that reuse a definition
    pub reuse: usize,
    pub props: usize,
    /// percent of components that take children
    pub chk: usize,
    /// percent of components with slots
    pub slots: usize,
    /// at most this many directives on components: like `aw` from class= on
    pub dirs: usize,
    pub dw: [usize; 9],
    /// percent of children with closure arguments among those with children
    pub args: usize,
    pub clones: usize,
    pub generics: usize,
    pub paths: usize,
    /// shadow names of the framework around the view
    pub shadow: bool,
    pub undelegated: usize,
    /// names for variables that expansions bring along
    pub names: Rc<Vec<String>>,
    /// names that expansions take from around the view
    pub free: Rc<Vec<String>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum PTy {
    I,
    B,
    S,
    Str,
    C,
    F,
    VecI,
    Tup,
    FnI,
    FnS,
    Tp,
    Sig,
    G(usize),
}

#[derive(Clone, Debug)]
enum How {
    Req,
    /// `#[prop(into)]`
    Into,
    /// `#[prop(optional)]` of a type with a default
    Opt,
    /// `#[prop(optional)] Option<T>`
    OptO,
    /// `#[prop(optional, into)] Option<T>`
    OptInto,
    Def(String, String),
}

#[derive(Clone, Debug)]
struct PropDef {
    name: String,
    ty: PTy,
    how: How,
}

#[derive(Clone, Debug)]
enum GP {
    /// type of a prop
    Ty,
    /// only its name is shown
    Named,
}

#[derive(Clone)]
pub struct Def {
    comp: Rc<Comp>,
    props: Rc<Vec<PropDef>>,
    gps: Rc<Vec<GP>>,
    modpath: Vec<String>,
    /// all type parameters can be written out
    explicit: bool,
    args: Vec<ArgTy>,
    slots: Vec<(Def, Arity)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum ArgTy {
    I,
    S,
    Pair,
    Pt,
    Res,
    Arr,
}

impl ArgTy {
    fn name(self) -> &'static str {
        match self {
            ArgTy::I => "i64",
            ArgTy::S => "&'static ::core::primitive::str",
            ArgTy::Pair => "(i64, &'static ::core::primitive::str)",
            ArgTy::Pt => "::sup::Pt",
            ArgTy::Res => "::std::result::Result<i64, i64>",
            ArgTy::Arr => "[i64; 2]",
        }
    }
    /// The value passed in the k-th call for the i-th argument.
    fn value(self, k: usize, i: usize) -> String {
        let n = k * 10 + i;
        match self {
            ArgTy::I => format!("{n}"),
            ArgTy::S => format!("\"s{n}\""),
            ArgTy::Pair => format!("({n}, \"q{n}\")"),
            ArgTy::Pt => format!("::sup::Pt {{ x: {n}, y: \"y{n}\" }}"),
            ArgTy::Res => {
                if n % 2 == 0 {
                    format!("Ok({n})")
                } else {
                    format!("Err({n})")
                }
            }
            ArgTy::Arr => format!("[{n}, {}]", n + 1),
        }
    }
}

pub struct Gen {
    pub g: G,
    pub prof: Prof,
    defs: Vec<Def>,
    slot_defs: Vec<Def>,
    budget: isize,
    comp_no: usize,
    modno: usize,
}

/// A finished case.
#[derive(Clone, Debug)]
pub struct Case {
    pub items: Vec<String>,
    /// items next to the view that shadow things
    pub shadows: Vec<String>,
    pub lets: Vec<String>,
    /// statements after the view was built
    pub after: Vec<String>,
    pub roots: Vec<Node>,
    pub logs: Vec<(u32, Ev)>,
    pub feats: std::collections::BTreeMap<String, usize>,
    pub layout: crate::tape::Tape,
    /// what stands around the view
    pub place: usize,
}

pub fn case(prof: &Prof, tape: Vec<u32>) -> Case {
    let mut gen = Gen {
        g: G::new(tape, prof.ep),
        prof: prof.clone(),
        defs: vec![],
        slot_defs: vec![],
        budget: 0,
        comp_no: 0,
        modno: 0,
    };
    gen.g.extra = prof.names.clone();
    gen.budget = 1 + gen.g.t.small(prof.max_nodes) as isize;
    let cx = Cx {
        ev: Ev::At(0, 1),
        own: Own::Move,
        args: vec![],
        depth: prof.depth,
        inside: false,
        maybe: false,
        muts: vec![],
    };
    let shadows = if prof.shadow { gen.shadows() } else { vec![] };
    let roots = gen.root_nodes(&cx);
    let mut g = gen.g;
    let place = if g.t.chance(40) { g.t.below(crate::run::PLACES.len()) } else { 0 };
    if place > 0 {
        g.feat("view in another place");
    }
    Case {
        place,
        items: g.items,
        shadows,
        lets: g.lets,
        after: g.after,
        roots,
        logs: g.logs,
        feats: g.feats,
        layout: g.t,
    }
}

const POOL: &[&str] = &[
    "mod leptos {}",
    "mod std {}",
    "mod core {}",
    "mod alloc {}",
    "mod tachys {}",
    "mod html {}",
    "mod svg {}",
    "mod mathml {}",
    "mod prelude {}",
    "mod component {}",
    "mod children {}",
    "mod leptos_mview {}",
    "mod boxed {}",
    "mod convert {}",
    "mod event {}",
    "mod ev {}",
    "#[allow(unused)] macro_rules! format { ($($t:tt)*) => { compile_error!(\"user macro\") } }",
    "#[allow(unused)] macro_rules! vec { ($($t:tt)*) => { compile_error!(\"user macro\") } }",
    "#[allow(unused)] macro_rules! view { ($($t:tt)*) => { compile_error!(\"user macro\") } }",
    "#[allow(unused)] macro_rules! panic { ($($t:tt)*) => { compile_error!(\"user macro\") } }",
    "#[allow(unused)] macro_rules! concat { ($($t:tt)*) => { compile_error!(\"user macro\") } }",
    "pub struct View;",
    "pub struct Box;",
    "pub struct Vec;",
    "pub struct ToChildren;",
    "pub struct Fragment;",
    "pub struct Children;",
    "pub struct IntoRender;",
    "pub struct IntoAttributeValue;",
    "pub struct HtmlElement;",
    "pub struct MissingValueAfterEq;",
    "pub struct AnyView;",
    "pub type str = ();",
    "pub type bool = ();",
    "fn custom() {}",
    "fn div() {}",
    "fn into() {}",
    "fn component_view() {}",
    "fn component_props_builder() {}",
    "fn to_children() {}",
    "fn into_view() {}",
    "fn custom_attribute() {}",
    "fn class() {}",
    "fn style() {}",
    "fn prop() {}",
    "fn on() {}",
    "fn directive() {}",
    "fn children() {}",
    "fn drop() {}",
    "fn move_() {}",
];

/// Something of this name is among what is shadowed anyway.
pub fn shadowed(name: &str) -> bool {
    POOL.iter().any(|s| s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name))
}

impl Gen {
    fn shadows(&mut self) -> Vec<String> {
        let mut out = vec![];
        let free: Vec<String> = self
            .prof
            .free
            .iter()
            .map(|n| match self.g.t.below(4) {
                0 => format!("mod {n} {{}}"),
                1 => format!("pub struct {n};"),
                2 => format!("fn {n}() {{}}"),
                _ => format!("#[allow(unused)] macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!(\"user macro\") }} }}"),
            })
            .collect();
        let pool: Vec<&str> = POOL.iter().copied().chain(free.iter().map(String::as_str)).collect();
        for s in pool {
            if self.g.t.chance(35) {
                out.push(s.to_string());
                self.g.feat("shadowed");
                // a unit struct is a pattern: no variable of that name
                if let Some(n) = s.strip_prefix("pub struct ") {
                    self.g.used.insert(n.trim_end_matches(';').to_string());
                }
                // nor an import
                if let Some(n) = s.strip_prefix("fn ") {
                    self.g.used.insert(n.trim_end_matches("() {}").to_string());
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ nodes

    fn root_nodes(&mut self, cx: &Cx) -> Vec<Node> {
        let n = if self.g.t.chance(self.prof.many) {
            self.g.feat("many children");
            self.g.t.range(20, 60)
        } else {
            match self.g.t.weighted(&[6, 6, 1]) {
                0 => 1,
                1 => self.g.t.range(1, self.prof.roots.max(1)),
                _ => {
                    if self.prof.roots > 1 {
                        self.g.feat("no roots");
                        0
                    } else {
                        1
                    }
                }
            }
        };
        self.budget = self.budget.max(n as isize);
        self.node_list(n, cx)
    }

    fn kids(&mut self, cx: &Cx, least: usize) -> Vec<Node> {
        let cx = Cx {
            depth: cx.depth.saturating_sub(1),
            ..cx.clone()
        };
        let n = if self.g.t.chance(self.prof.many) {
            self.g.feat("many children");
            self.g.t.range(20, 60)
        } else {
            least + self.g.t.small(self.prof.kids)
        };
        self.node_list(n, &cx)
    }

    fn node_list(&mut self, n: usize, cx: &Cx) -> Vec<Node> {
        let mut out: Vec<Node> = vec![];
        let mut own = false;
        for _ in 0..n {
            // the very same child again, when it is nothing but itself
            if own && self.g.t.chance(6) {
                self.g.feat("repeated child");
                out.push(out[out.len() - 1].clone());
                continue;
            }
            let before = (self.g.logs.len(), self.g.lets.len(), self.g.after.len());
            out.push(self.node(cx, n > 12));
            own = before == (self.g.logs.len(), self.g.lets.len(), self.g.after.len());
        }
        out
    }

    /// The very same listener or directive again.
    fn again(&mut self, out: &mut Vec<Attr>, (logs, lets): (usize, usize)) {
        let Some(a) = out.last() else { return };
        let fits = match &a.k {
            AttrK::Dir("on", Key::Kebab(_), AVal::V(_) | AVal::Short) => self.g.logs.len() == logs,
            AttrK::Dir("use", _, AVal::Bare) => true,
            AttrK::Dir("use", _, AVal::V(s)) => s.form == Form::Lit,
            // what is evaluated in a spread is evaluated again
            AttrK::Spread(_) => {
                self.g.lets.len() == lets
                    && a.effs.iter().all(|e| matches!(e, Eff::Class(_) | Eff::Act(_)))
                    && self.g.logs[logs..].iter().all(|l| matches!(l.1, Ev::At(..)))
            }
            _ => false,
        };
        if fits && self.g.t.chance(12) {
            self.g.feat("repeated directive");
            if let AttrK::Spread(_) = &a.k {
                self.g.feat("repeated spread");
                for l in &mut self.g.logs[logs..] {
                    if let Ev::At(_, n) = &mut l.1 {
                        *n *= 2;
                    }
                }
            }
            out.push(a.clone());
        }
    }

    fn node(&mut self, cx: &Cx, simple: bool) -> Node {
        let p = self.prof.nodes;
        self.budget -= 1;
        let deep = !simple && cx.depth > 0 && self.budget > 0;
        let mut w = p;
        if !deep {
            for i in [2, 8, 9] {
                w[i] = 0;
            }
        }
        if simple {
            w[0] = w[0].max(1) * 3;
        }
        match self.g.t.weighted(&w) {
            0 => {
                let (s, v) = self.g.literal(Ty::S);
                self.g.feat("text");
                Node::Val(Src::new(Form::Lit, s), Sem::T(v))
            }
            1 => self.value_node(cx),
            2 => self.nested(cx),
            k @ 3..=7 => self.element(k, cx, deep),
            8 => self.comp_node(cx),
            _ => self.special(cx),
        }
    }

    fn value_node(&mut self, cx: &Cx) -> Node {
        self.g.feat("value child");
        match self.g.t.weighted(&[12, 2, 2, 2, 1, 1, 1]) {
            0 => {
                let mut f = self.prof.forms;
                f[0] = 0;
                let (src, v) = self.g.scalar(
                    &[Ty::S, Ty::Str, Ty::I, Ty::B, Ty::C, Ty::F],
                    f,
                    cx,
                );
                Node::Val(src, Sem::T(v))
            }
            1 => {
                // options
                let ty = *self.g.t.pick(&[Ty::S, Ty::I]);
                if self.g.t.below(2) == 0 {
                    let (s, v) = self.g.expr(ty, 1, cx);
                    Node::Val(
                        Src::new(Form::Block, format!("::std::option::Option::Some({s})")),
                        Sem::T(v),
                    )
                } else {
                    Node::Val(
                        Src::new(
                            Form::Block,
                            format!(
                                "::std::option::Option::None::<{}>",
                                self.g.ty_name(ty)
                            ),
                        ),
                        Sem::Nothing,
                    )
                }
            }
            2 => {
                let n = self.g.t.below(4);
                let mut srcs = vec![];
                let mut sems = vec![];
                for _ in 0..n {
                    let (s, v) = self.g.expr(Ty::S, 1, cx);
                    srcs.push(s);
                    sems.push(Sem::T(v));
                }
                Node::Val(
                    Src::new(
                        Form::Block,
                        format!("::std::vec![{}] as ::std::vec::Vec<&'static ::core::primitive::str>", srcs.join(", ")),
                    ),
                    Sem::Seq(sems),
                )
                .no_cast()
            }
            3 => {
                let n = self.g.t.range(1, 4);
                let mut srcs = vec![];
                let mut sems = vec![];
                for _ in 0..n {
                    let ty = *self.g.t.pick(&[Ty::S, Ty::I, Ty::B]);
                    let (s, v) = self.g.expr(ty, 1, cx);
                    srcs.push(format!("{s},"));
                    sems.push(Sem::T(v));
                }
                Node::Val(
                    Src::new(Form::Block, format!("({})", srcs.join(" "))),
                    Sem::Seq(sems),
                )
            }
            4 => Node::Val(Src::new(Form::Block, "()"), Sem::Nothing),
            5 => {
                // a block without an expression
                self.g.feat("block without a value");
                match self.g.t.below(5) {
                    0 => Node::Val(Src::new(Form::Block, "let _zz = 1;"), Sem::Nothing),
                    1 => Node::Val(Src::new(Form::Bracket, ""), Sem::Nothing),
                    2 => {
                        let (s, _) = self.g.expr(Ty::I, 1, &cx.lazy());
                        Node::Val(Src::new(Form::Bracket, format!("{s};")), Sem::Nothing)
                    }
                    3 => {
                        let (s, _) = self.g.expr(Ty::I, 1, cx);
                        Node::Val(Src::new(Form::Block, format!("{s};")), Sem::Nothing)
                    }
                    _ => Node::Val(Src::new(Form::Block, ""), Sem::Nothing),
                }
            }
            _ => {
                let (s, v) = self.g.expr(Ty::Str, 1, cx);
                Node::Val(
                    Src::new(
                        Form::Block,
                        format!("::leptos::prelude::IntoAny::into_any({s})"),
                    ),
                    Sem::T(v),
                )
            }
        }
    }

    fn nested(&mut self, cx: &Cx) -> Node {
        self.g.feat("nested mview");
        match self.g.t.weighted(&[4, 2, 2, 2, 1]) {
            0 => {
                let nodes = self.kids(cx, 0);
                Node::Val(
                    Src {
                        form: Form::Block,
                        parts: vec![Part::M(nodes.clone())],
                    },
                    Sem::Nodes(nodes),
                )
            }
            1 => {
                let nodes = self.kids(&cx.lazy(), 0);
                Node::Val(
                    Src {
                        form: Form::Bracket,
                        parts: vec![Part::M(nodes.clone())],
                    },
                    Sem::Nodes(nodes),
                )
            }
            2 => {
                let (c, cv) = self.g.expr(Ty::B, 1, &Cx { args: vec![], ..cx.clone() });
                let yes = cv == V::B(true);
                let arm = |on: bool| Cx {
                    own: Own::None,
                    ev: if on { cx.ev } else { Ev::Never },
                    ..cx.clone()
                };
                let a = self.kids(&arm(yes), 0);
                let b = self.kids(&arm(!yes), 0);
                let nodes = if cv == V::B(true) { a.clone() } else { b.clone() };
                let any = "::leptos::prelude::IntoAny::into_any(";
                Node::Val(
                    Src {
                        form: Form::Block,
                        parts: vec![
                            Part::S(format!("if {c} {{ {any}")),
                            Part::M(a),
                            Part::S(format!(") }} else {{ {any}")),
                            Part::M(b),
                            Part::S(") }".into()),
                        ],
                    },
                    Sem::Nodes(nodes),
                )
            }
            3 if cx.own == Own::Move => {
                // a view in a variable
                let name = self.g.name();
                let id = rust_ident(&name);
                let inner = Cx {
                    args: vec![],
                    ev: Ev::At(0, 1),
                    ..cx.clone()
                };
                let nodes = self.kids(&inner, 0);
                let text = self.print_nested(&nodes);
                self.g.lets.push(format!("let {id} = {text};"));
                self.g.feat("view in a variable");
                Node::Val(Src::new(Form::Block, id), Sem::Nodes(nodes))
            }
            _ => {
                let a = self.kids(cx, 0);
                let b = self.kids(cx, 1);
                let nodes = a.iter().chain(&b).cloned().collect();
                Node::Val(
                    Src {
                        form: Form::Block,
                        parts: vec![
                            Part::S("(".into()),
                            Part::M(a),
                            Part::S(",".into()),
                            Part::M(b),
                            Part::S(")".into()),
                        ],
                    },
                    Sem::Nodes(nodes),
                )
            }
        }
    }

    /// Prints a nested call right away (for places that are not in the tree).
    fn print_nested(&mut self, nodes: &[Node]) -> String {
        let mut layout = crate::tape::Tape::new(vec![]);
        let mut p = Printer::new(&mut layout, None);
        p.toks.push("::leptos_mview::mview!".into());
        p.toks.push("{".into());
        p.nodes(nodes);
        p.toks.push("}".into());
        p.finish()
    }

    fn special(&mut self, cx: &Cx) -> Node {
        let lazy = cx.lazy();
        if self.g.t.below(2) == 0 {
            self.g.feat("Show");
            let b = self.g.t.below(2) == 0;
            let arm = |on: bool| Cx {
                own: Own::None,
                ev: if on { lazy.ev } else { Ev::Never },
                ..lazy.clone()
            };
            let children = self.kids(&arm(b), 1);
            let fb = self.kids(&arm(!b), 0);
            let head = vec![
                Part::S(format!("::leptos::control_flow::Show when=[{b}] fallback=[")),
                Part::M(fb.clone()),
                Part::S("]".into()),
            ];
            Node::Special(Box::new(Special {
                head,
                args: None,
                children,
                paren: self.g.t.chance(15),
                envs: vec![Env::new()],
                instead: (!b).then_some(fb),
            }))
        } else {
            self.g.feat("For");
            let n = self.g.t.below(4);
            let arg = self.g.name();
            let id = rust_ident(&arg);
            let inner = Cx {
                own: Own::None,
                ev: if n > 0 { lazy.ev } else { Ev::Never },
                args: cx.args.iter().cloned().chain([(arg.clone(), Ty::I)]).collect(),
                ..lazy
            };
            let children = self.kids(&inner, 1);
            let head = parts(format!("::leptos::control_flow::For each=[0..{n}i64] key={{|k| *k}}"));
            let envs = (0..n)
                .map(|i| Env::from([(arg.clone(), V::I(i as i64))]))
                .collect();
            Node::Special(Box::new(Special {
                head,
                args: Some(format!("|{id}|")),
                children,
                paren: self.g.t.chance(15),
                envs,
                instead: None,
            }))
        }
    }

    fn element(&mut self, kind: usize, cx: &Cx, deep: bool) -> Node {
        let (tag, name, ns, typed): (String, String, &'static str, &[&str]);
        let mut escape = true;
        match kind {
            3 => {
                // a few everyday tags first
                let everyday = ["div", "span", "p", "button", "label", "ul", "li", "h1", "a", "form"];
                if self.g.t.below(3) == 0 {
                    let t = *self.g.t.pick(&everyday);
                    let e = tables::HTML.iter().find(|(n, ..)| *n == t).expect("known tag");
                    (tag, name, ns, typed) = (t.into(), t.into(), "", e.1);
                } else {
                    let e = self.g.t.pick(tables::HTML);
                    escape = e.2;
                    (tag, name, ns, typed) = (e.0.into(), e.0.into(), "", e.1);
                }
            }
            4 => {
                let t = *self.g.t.pick(tables::SVG);
                let written = if t == "use" && self.g.t.below(2) == 0 { "use_" } else { t };
                (tag, name, ns, typed) = (written.into(), t.into(), "svg", &[]);
            }
            5 => {
                let e = self.g.t.pick(tables::MATH);
                (tag, name, ns, typed) = (e.0.into(), e.0.into(), "math", e.1);
            }
            7 => {
                let e = self.g.t.pick(tables::VOID);
                (tag, name, ns, typed) = (e.0.into(), e.0.into(), "", e.1);
            }
            _ => {
                let mut t = self
                    .g
                    .t
                    .pick(&["my", "x", "leptos", "type", "for", "svg", "div", "use", "slot", "f", "self"])
                    .to_string();
                t.push('-');
                t.push_str(*self.g.t.pick(&["el", "island", "a", "1", "if", "b-c", "button", "Foo", "svg", "2x"]));
                (tag, name, ns, typed) = (t.clone(), t, "", &[]);
            }
        }
        self.g.feat(match kind {
            3 => "html element",
            4 => "svg element",
            5 => "math element",
            7 => "void element",
            _ => "custom element",
        });
        let sels = if self.g.t.chance(self.prof.sels) {
            self.selectors()
        } else {
            vec![]
        };
        let has_id = sels.iter().any(|s| matches!(s.k, AttrK::Sel('#', _)));
        let attrs = self.attrs(kind, typed, cx, has_id);
        let void = kind == 7;
        let children = if void {
            None
        } else if !escape {
            match self.g.t.below(3) {
                0 => None,
                1 => Some(vec![]),
                _ => {
                    let w = self.g.t.pick(&["plain", "some text", "x 1", "alert(1)"]).to_string();
                    Some(vec![Node::Val(
                        Src::new(Form::Lit, format!("{w:?}")),
                        Sem::T(V::S(w)),
                    )])
                }
            }
        } else {
            match self.g.t.weighted(&[2, 1, if deep { 7 } else { 2 }]) {
                0 => None,
                1 => Some(vec![]),
                _ if deep => Some(self.kids(cx, 1)),
                _ => {
                    let (s, v) = self.g.literal(Ty::S);
                    Some(vec![Node::Val(Src::new(Form::Lit, s), Sem::T(v))])
                }
            }
        };
        let paren = children.is_some() && self.g.t.chance(15);
        if paren {
            self.g.feat("parentheses");
        }
        Node::El(Box::new(Elem {
            tag,
            name,
            ns,
            sels,
            attrs,
            children,
            paren,
        }))
    }

    // ------------------------------------------------------------ attributes

    fn selectors(&mut self) -> Vec<Attr> {
        let n = if self.g.t.chance(3) {
            // Leptos takes 26 attributes at most
            self.g.feat("many selectors");
            self.g.t.range(6, 9)
        } else {
            1 + self.g.t.small(5)
        };
        (0..n)
            .map(|_| {
                let c = if self.g.t.chance(35) { '#' } else { '.' };
                let name = self.g.kebab(true);
                self.g.feat(if c == '#' { "id selector" } else { "class selector" });
                Attr {
                    effs: if c == '.' {
                        vec![Eff::Class(name.clone())]
                    } else {
                        vec![]
                    },
                    k: AttrK::Sel(c, name),
                }
            })
            .collect()
    }

    fn short_var(&mut self, name: &str, decl: impl FnOnce(&mut G) -> (String, V)) -> Option<V> {
        let var = name.replace('-', "_");
        if ["self", "Self", "super", "crate", "_"].contains(&var.as_str())
            || self.g.used.contains(&var)
        {
            return None;
        }
        self.g.used.insert(var.clone());
        let (src, v) = decl(&mut self.g);
        self.g
            .lets
            .push(format!("let {} = {src};", rust_ident(&var)));
        self.g.feat("shorthand");
        Some(v)
    }

    /// A scalar for an attribute: no closure arguments in values that are
    /// resolved here.
    fn attr_value(&mut self, cx: &Cx, tys: &[Ty]) -> (Src, V) {
        let forms = self.prof.forms;
        self.g.scalar(tys, forms, cx)
    }

    fn known(cx: &Cx) -> Cx {
        Cx {
            args: vec![],
            ..cx.clone()
        }
    }

    fn typed_name(&mut self, kind: usize, typed: &[&str]) -> (String, String) {
        match kind {
            3 | 7 => {
                let n = if !typed.is_empty() && self.g.t.below(2) == 0 {
                    *self.g.t.pick(typed)
                } else {
                    *self.g.t.pick(tables::GLOBAL)
                };
                (n.to_string(), self.html_name(n))
            }
            5 => {
                const GLOBAL: &[&str] = &[
                    "displaystyle", "href", "id", "mathbackground", "mathcolor", "mathsize",
                    "mathvariant", "scriptlevel",
                ];
                let n = if !typed.is_empty() && self.g.t.below(2) == 0 {
                    *self.g.t.pick(typed)
                } else {
                    *self.g.t.pick(GLOBAL)
                };
                (n.to_string(), self.html_name(n))
            }
            _ => {
                // anything goes on SVG and custom elements
                let n = *self.g.t.pick(&[
                    "viewBox", "d", "x", "cx", "fill", "stroke_width", "preserveAspectRatio",
                    "type", "for", "id", "r", "href", "any_thing", "Upper", "title", "points",
                    "in", "role", "gradientUnits", "hidden", "aria_x", "a1", "xmlns", "async",
                ]);
                (n.to_string(), n.to_string())
            }
        }
    }

    fn html_name(&self, rust: &str) -> String {
        tables::ATTRS
            .iter()
            .find(|(r, _)| *r == rust)
            .unwrap_or_else(|| panic!("unknown attribute {rust}"))
            .1
            .to_string()
    }

    fn custom_name(&mut self) -> String {
        let first = self
            .g
            .t
            .pick(&["data", "x", "hx", "data", "type", "on", "v", "accept", "http", "Data", "aria_", "for"])
            .to_string();
        let rest = self
            .g
            .t
            .pick(&[
                "index", "id", "a-b", "1", "type", "for-each", "aria-label", "b_c", "charset",
                "equiv", "Camel", "x-1-y", "class", "style", "ref", "-double", "0", "2x",
            ])
            .to_string();
        format!("{first}-{rest}")
    }

    fn attrs(&mut self, kind: usize, typed: &[&str], cx: &Cx, has_id: bool) -> Vec<Attr> {
        let n = if self.prof.attrs > 1 && self.g.t.chance(4) {
            self.g.feat("many attributes");
            self.g.t.range(7, 12)
        } else {
            self.g.t.small(self.prof.attrs)
        };
        let mut out: Vec<Attr> = vec![];
        let mut seen: Vec<String> = vec!["class".into(), "style".into(), "ref".into()];
        if has_id {
            seen.push("id".into());
        }
        let mut full_class = false;
        let mut full_style = false;
        let mut style_keys: Vec<String> = vec![];
        let mut spread_full = false;
        for _ in 0..n {
            let logs = (self.g.logs.len(), self.g.lets.len());
            let w = self.prof.aw;
            let which = self.g.t.weighted(&w);
            let a = match which {
                0..=4 => {
                    let (written, real) = match which {
                        2 => {
                            let n = self.custom_name();
                            (n.clone(), n)
                        }
                        3 => {
                            let n = *self.g.t.pick(tables::ARIA);
                            let real = self.html_name(n);
                            (if self.g.t.chance(10) && !matches!(kind, 4 | 6) { n.to_string() } else { real.clone() }, real)
                        }
                        4 if self.g.t.below(2) == 0 => {
                            let n = self.custom_name();
                            (n.clone(), n)
                        }
                        _ => self.typed_name(kind, typed),
                    };
                    // MathML elements have their own attributes and the
                    // untyped ones only
                    if seen.iter().any(|s| s.eq_ignore_ascii_case(&real)) {
                        continue;
                    }
                    seen.push(real.clone());
                    self.plain_attr(which, written, real, cx)
                }
                5 => {
                    if full_class || spread_full {
                        continue;
                    }
                    full_class = true;
                    self.full_class(cx)
                }
                6 => {
                    if full_style || spread_full {
                        continue;
                    }
                    full_style = true;
                    self.full_style(cx, &mut style_keys)
                }
                7 | 8 => {
                    let Some(a) = self.class_style_dir(which == 7, cx, &mut style_keys, false)
                    else {
                        continue;
                    };
                    a
                }
                9 => self.prop_dir(cx),
                10 => self.on_dir(cx),
                11 => self.use_dir(cx),
                12 => {
                    if out.iter().any(|a| matches!(&a.k, AttrK::Kv(n, _) if n == "ref")) {
                        continue;
                    }
                    self.ref_attr(cx)
                }
                _ => {
                    let full = !full_class && !full_style && !spread_full && self.g.t.chance(20);
                    if full {
                        spread_full = true;
                    }
                    self.spread(cx, full, &mut seen, &mut style_keys)
                }
            };
            out.push(a);
            self.again(&mut out, logs);
        }
        out
    }

    fn plain_attr(&mut self, which: usize, written: String, real: String, cx: &Cx) -> Attr {
        self.g.near = Some(written.clone());
        let a = self.plain_attr_near(which, written, real, cx);
        self.g.near = None;
        a
    }

    fn plain_attr_near(&mut self, which: usize, written: String, real: String, cx: &Cx) -> Attr {
        if which == 1 {
            self.g.feat("bare attribute");
            return Attr {
                k: AttrK::Kv(written, AVal::Bare),
                effs: vec![Eff::Attr(real, V::B(true))],
            };
        }
        if which == 4 {
            let ty = *self.g.t.pick(&[Ty::S, Ty::I, Ty::B]);
            if let Some(v) = self.short_var(&written, |g| g.literal(ty)) {
                return Attr {
                    k: AttrK::Kv(written, AVal::Short),
                    effs: vec![Eff::Attr(real, v)],
                };
            }
        }
        self.g.feat("attribute");
        if self.g.t.chance(6) {
            let ty = *self.g.t.pick(&[Ty::S, Ty::I]);
            let some = self.g.t.below(2) == 0;
            let (s, v) = if some {
                let (s, v) = self.g.expr(ty, 1, cx);
                (format!("::std::option::Option::Some({s})"), Eff::Attr(real, v))
            } else {
                (
                    format!("::std::option::Option::None::<{}>", self.g.ty_name(ty)),
                    Eff::Nothing,
                )
            };
            return Attr {
                k: AttrK::Kv(written, AVal::V(Src::new(Form::Block, s))),
                effs: vec![v],
            };
        }
        let (src, v) = self.attr_value(cx, &[Ty::S, Ty::Str, Ty::I, Ty::B, Ty::C, Ty::F]);
        Attr {
            k: AttrK::Kv(written, AVal::V(src)),
            effs: vec![Eff::Attr(real, v)],
        }
    }

    fn class_text(&mut self) -> String {
        let n = self.g.t.range(1, 3);
        (0..n)
            .map(|_| self.class_word())
            .collect::<Vec<_>>()
            .join(" ")
    }

    fn class_word(&mut self) -> String {
        if self.g.t.chance(30) {
            self.g
                .t
                .pick(&["w-1/2", "md:flex", "[&>p]:m-1", "a.b", "x\"y", "<c>", "&", "hover:x", "1a", "é"])
                .to_string()
        } else {
            self.g.kebab(true)
        }
    }

    /// A string-valued source with a value chosen here.
    fn string_value(&mut self, s: &str, cx: &Cx) -> Src {
        let lit = self.g.str_lit(s);
        let forms = self.prof.forms;
        let depth_log = self.g.t.chance(self.g.ep.log);
        let wrap = |g: &mut G, src: String, cx: &Cx| {
            if depth_log {
                let id = g.id();
                g.logs.push((id, cx.ev));
                g.feat("logged");
                format!("::sup::e({id}, {src})")
            } else {
                src
            }
        };
        match self.g.t.weighted(&[forms[0], forms[1], forms[2], forms[3], forms[4]]) {
            0 => Src::new(Form::Lit, lit),
            1 => {
                let body = if self.g.t.below(2) == 0 {
                    lit
                } else {
                    format!("::std::string::String::from({lit})")
                };
                let body = wrap(&mut self.g, body, cx);
                Src::new(Form::Block, body)
            }
            2 => {
                let body = wrap(&mut self.g, lit, &cx.lazy());
                Src::new(Form::Bracket, body)
            }
            3 => {
                let body = wrap(&mut self.g, lit, &cx.lazy());
                Src::new(Form::F, format!("\"{{}}\", {body}"))
            }
            _ => {
                let body = wrap(&mut self.g, lit, &cx.lazy());
                Src::new(Form::Block, format!("move || {body}"))
            }
        }
    }

    fn full_class(&mut self, cx: &Cx) -> Attr {
        self.g.feat("class=");
        let s = self.class_text();
        if self.g.t.chance(10) {
            let src = self.g.str_lit(&s);
            if self
                .short_var("class", |_| (src, V::B(true)))
                .is_some()
            {
                return Attr {
                    k: AttrK::Kv("class".into(), AVal::Short),
                    effs: vec![Eff::FullClass(s)],
                };
            }
        }
        let src = self.string_value(&s, cx);
        Attr {
            k: AttrK::Kv("class".into(), AVal::V(src)),
            effs: vec![Eff::FullClass(s)],
        }
    }

    fn style_value(&mut self) -> String {
        self.g
            .t
            .pick(&["red", "1px", "0", "calc(1px + 2em)", "var(--x)", "#fff", "bold", "100%", "\"q\"", "a < b & c"])
            .to_string()
    }

    fn style_key(&mut self, taken: &mut Vec<String>) -> Option<String> {
        let k = if self.g.t.below(2) == 0 {
            self.g
                .t
                .pick(&["color", "font-size", "display", "--my-var", "-webkit-mask", "grid-area-1", "margin-left", "--1", "--type"])
                .to_string()
        } else {
            self.g.kebab(true)
        };
        if taken.contains(&k) {
            return None;
        }
        taken.push(k.clone());
        Some(k)
    }

    fn full_style(&mut self, cx: &Cx, taken: &mut Vec<String>) -> Attr {
        self.g.feat("style=");
        let mut kv = vec![];
        for _ in 0..self.g.t.range(1, 3) {
            if let Some(k) = self.style_key(taken) {
                kv.push((k, self.style_value()));
            }
        }
        let s = kv
            .iter()
            .map(|(k, v)| format!("{k}: {v}"))
            .collect::<Vec<_>>()
            .join("; ");
        let src = self.string_value(&s, cx);
        Attr {
            k: AttrK::Kv("style".into(), AVal::V(src)),
            effs: vec![Eff::FullStyle(kv)],
        }
    }

    /// `class:` or `style:` on an element or component.
    fn class_style_dir(
        &mut self,
        class: bool,
        cx: &Cx,
        taken: &mut Vec<String>,
        comp: bool,
    ) -> Option<Attr> {
        let cx = Self::known(cx);
        if class {
            self.g.feat("class:");
            let short = self.g.t.chance(20);
            if short {
                let name = self.g.kebab(false);
                let on = self.g.t.below(2) == 0;
                let decl = match self.g.t.below(3) {
                    0 => format!("{on}"),
                    1 => format!("move || {on}"),
                    _ => format!("::leptos::prelude::RwSignal::new({on})"),
                };
                let decl = if decl.contains("RwSignal") && cx.own != Own::Move {
                    on.to_string()
                } else {
                    decl
                };
                if self
                    .short_var(&name, |_| (decl, V::B(on)))
                    .is_some()
                {
                    return Some(Attr {
                        k: AttrK::Dir("class", Key::Kebab(name.clone()), AVal::Short),
                        effs: if on { vec![Eff::Class(name)] } else { vec![] },
                    });
                }
            }
            let key;
            let name;
            if self.g.t.chance(30) {
                name = self.class_word();
                key = Key::Str(self.g.str_lit(&name));
            } else {
                name = self.g.kebab(true);
                key = Key::Kebab(name.clone());
            }
            if comp && self.g.t.chance(30) {
                self.g.feat("directive without value");
                return Some(Attr {
                    k: AttrK::Dir("class", key, AVal::Bare),
                    effs: vec![Eff::Class(name)],
                });
            }
            let (src, v) = self.attr_value(&cx, &[Ty::B]);
            let effs = match v {
                V::B(true) => vec![Eff::Class(name)],
                _ => vec![],
            };
            return Some(Attr {
                k: AttrK::Dir("class", key, AVal::V(src)),
                effs,
            });
        }
        self.g.feat("style:");
        let k = self.style_key(taken)?;
        let v = self.style_value();
        if !k.starts_with('-') && self.g.t.chance(15) {
            let lit = self.g.str_lit(&v);
            let decl = if self.g.t.below(2) == 0 {
                lit
            } else {
                format!("move || {lit}")
            };
            if self.short_var(&k, |_| (decl, V::B(true))).is_some() {
                return Some(Attr {
                    k: AttrK::Dir("style", Key::Kebab(k.clone()), AVal::Short),
                    effs: vec![Eff::Style(k, v)],
                });
            }
        }
        let key = if self.g.t.chance(25) {
            Key::Str(self.g.str_lit(&k))
        } else {
            Key::Kebab(k.clone())
        };
        let src = self.string_value(&v, &cx);
        Some(Attr {
            k: AttrK::Dir("style", key, AVal::V(src)),
            effs: vec![Eff::Style(k, v)],
        })
    }

    fn prop_dir(&mut self, cx: &Cx) -> Attr {
        let cx = &Self::known(cx);
        self.g.feat("prop:");
        let n = self.g.id();
        let name = match self.g.t.below(4) {
            0 => format!("innerHTML{n}"),
            1 => format!("value{n}"),
            2 => format!("my-prop-{n}"),
            _ => format!("aria-{n}-type"),
        };
        if self.g.t.chance(15) {
            let ty = *self.g.t.pick(&[Ty::S, Ty::I, Ty::B]);
            if let Some(v) = self.short_var(&name, |g| match ty {
                // not every integer type is a DOM property
                Ty::I => ("7i32".into(), V::I(7)),
                ty => g.literal(ty),
            }) {
                return Attr {
                    k: AttrK::Dir("prop", Key::Kebab(name.clone()), AVal::Short),
                    effs: vec![Eff::Act(prop_act(&name, &v))],
                };
            }
        }
        let key = if self.g.t.chance(20) {
            Key::Str(self.g.str_lit(&name))
        } else {
            Key::Kebab(name.clone())
        };
        let (src, v) = match self.g.t.below(4) {
            0 => {
                let n = self.g.t.below(100) as i64;
                let form = *self.g.t.pick(&[Form::Lit, Form::Block, Form::Bracket]);
                (Src::new(form, format!("{n}")), V::I(n))
            }
            1 => self.attr_value(cx, &[Ty::B]),
            _ => self.attr_value(cx, &[Ty::S, Ty::Str]),
        };
        Attr {
            k: AttrK::Dir("prop", key, AVal::V(src)),
            effs: vec![Eff::Act(prop_act(&name, &v))],
        }
    }

    fn on_dir(&mut self, cx: &Cx) -> Attr {
        self.g.feat("on:");
        let (ev, _) = *self.g.t.pick(tables::EVENTS);
        let said = format!("h{}", self.g.id());
        let under = self.g.t.chance(self.prof.undelegated);
        let act = Eff::Act(format!("on:{ev}|{said}"));
        if self.g.t.chance(15) && !under && cx.own == Own::Move {
            let (s, e) = (said.clone(), ev.to_string());
            if self
                .short_var(&e, |_| (format!("move |_| ::sup::say(\"{s}\")"), V::B(true)))
                .is_some()
            {
                return Attr {
                    k: AttrK::Dir("on", Key::Kebab(ev.into()), AVal::Short),
                    effs: vec![act],
                };
            }
        }
        let src = match self.g.t.below(6) {
            5 => {
                self.g.feat("handler that is not Clone");
                format!("{{ let o = ::sup::Own(\"{said}\"); move |_| {{ let o = &o; ::sup::say(o.0) }} }}")
            }
            0 => format!("|_| ::sup::say(\"{said}\")"),
            1 => format!("move |_| {{ ::sup::say(\"{said}\"); }}"),
            2 => {
                // a counter: FnMut
                format!("{{ let mut n = 0; move |_| {{ n += 1; ::sup::say(\"{said}\"); }} }}")
            }
            3 => {
                let name = self.g.name();
                self.g.used.insert(name.clone());
                let id = rust_ident(&name);
                self.g
                    .items
                    .push(format!("pub fn {id}<E>(_: E) {{ ::sup::say(\"{said}\") }}"));
                format!("self::items::{id}")
            }
            _ => {
                let id = self.g.id();
                if self.g.t.chance(self.g.ep.log.max(20)) {
                    self.g.logs.push((id, cx.ev));
                    format!("::sup::e({id}, |_| ::sup::say(\"{said}\"))")
                } else {
                    format!("|_| ::sup::say(\"{said}\")")
                }
            }
        };
        let key = if under {
            self.g.feat("undelegated");
            format!("{ev}:undelegated")
        } else {
            ev.to_string()
        };
        Attr {
            k: AttrK::Dir(
                "on",
                if under { Key::Str(key) } else { Key::Kebab(key) },
                AVal::V(Src::new(Form::Block, src)),
            ),
            effs: vec![act],
        }
    }

    fn use_dir(&mut self, cx: &Cx) -> Attr {
        self.g.feat("use:");
        let name = if self.g.t.chance(30) {
            let n = self.g.id();
            format!("my-dir-{n}")
        } else {
            let n = self.g.name();
            n
        };
        let id = rust_ident(&name.replace('-', "_"));
        let said = format!("u{}", self.g.id());
        let el = "::leptos::tachys::renderer::types::Element";
        if self.g.t.below(3) == 0 {
            let (params, says, shown) = match self.g.t.below(6) {
                0 | 1 => (format!("_el: {el}, _: ()"), format!("\"{said}\""), String::new()),
                2 => (format!("_el: {el}, p: ::sup::FromUnit"), format!("::std::format!(\"{said}={{}}\", p.0)"), "=7".into()),
                3 => (format!("_el: {el}, p: ::sup::UnitOrDefault"), format!("::std::format!(\"{said}={{}}\", p.0)"), "=7".into()),
                _ => (format!("_el: {el}"), format!("\"{said}\""), String::new()),
            };
            self.g
                .items
                .push(format!("pub fn {id}({params}) {{ ::sup::say({says}) }}"));
            self.g.items.push(format!("//use {id}"));
            return Attr {
                k: AttrK::Dir("use", Key::Kebab(name), AVal::Bare),
                effs: vec![Eff::Act(format!("use:{said}{shown}"))],
            };
        }
        let cx = Self::known(cx);
        let (pty, src, shown) = match self.g.t.below(5) {
            0 => {
                let n = self.g.t.below(50);
                (
                    "i64",
                    Src::new(Form::Block, format!("{n}i32")),
                    n.to_string(),
                )
            }
            1 => {
                let (s, v) = self.g.expr(Ty::S, 1, &cx);
                ("::std::string::String", Src::new(Form::Block, s), v.dbg())
            }
            2 => {
                let (s, v) = self.g.literal(Ty::S);
                ("::std::string::String", Src::new(Form::Lit, s), v.dbg())
            }
            3 => {
                let (s, v) = self.g.expr(Ty::I, 1, &cx);
                (
                    "::std::option::Option<i64>",
                    Src::new(Form::Block, s),
                    format!("Some({})", v.dbg()),
                )
            }
            _ => {
                let (s, v) = self.g.literal(Ty::B);
                ("bool", Src::new(Form::Lit, s), v.dbg())
            }
        };
        self.g.items.push(format!(
            "pub fn {id}(_el: {el}, p: {pty}) {{ ::sup::say(::std::format!(\"{said}={{p:?}}\")) }}"
        ));
        self.g.items.push(format!("//use {id}"));
        Attr {
            k: AttrK::Dir("use", Key::Kebab(name), AVal::V(src)),
            effs: vec![Eff::Act(format!("use:{said}={shown}"))],
        }
    }

    fn ref_attr(&mut self, cx: &Cx) -> Attr {
        self.g.feat("ref");
        let said = format!("r{}", self.g.id());
        let src = match self.g.t.below(3) {
            0 => format!("::sup::RefProbe(\"{said}\")"),
            1 => {
                let name = self.g.name();
                let id = rust_ident(&name);
                self.g
                    .lets
                    .push(format!("let {id} = ::sup::RefProbe(\"{said}\");"));
                id
            }
            _ => {
                let id = self.g.id();
                self.g.logs.push((id, cx.ev));
                format!("::sup::e({id}, ::sup::RefProbe(\"{said}\"))")
            }
        };
        Attr {
            k: AttrK::Kv("ref".into(), AVal::V(Src::new(Form::Block, src))),
            effs: vec![Eff::Act(format!("ref:{said}"))],
        }
    }

    fn spread(
        &mut self,
        cx: &Cx,
        full: bool,
        seen: &mut Vec<String>,
        style_keys: &mut Vec<String>,
    ) -> Attr {
        self.g.feat("spread");
        let cx = Self::known(cx);
        let logs = self.g.logs.len();
        const H: &str = "::leptos::tachys::html";
        let mut srcs = vec![];
        let mut effs = vec![];
        for _ in 0..self.g.t.small(4) {
            match self.g.t.below(8) {
                0 | 1 => {
                    let n = format!("data-s{}", self.g.id());
                    let ty = *self.g.t.pick(&[Ty::S, Ty::I]);
                    let (s, v) = self.g.expr(ty, 1, &cx);
                    srcs.push(format!("{H}::attribute::custom::custom_attribute(\"{n}\", {s})"));
                    effs.push(Eff::Attr(n, v));
                }
                2 => {
                    let n = *self.g.t.pick(tables::GLOBAL);
                    let real = self.html_name(n);
                    if seen.contains(&real) {
                        continue;
                    }
                    seen.push(real.clone());
                    let (s, v) = self.g.expr(Ty::S, 1, &cx);
                    srcs.push(format!("{H}::attribute::{}({s})", rust_ident(n)));
                    effs.push(Eff::Attr(real, v));
                }
                3 => {
                    let c = self.class_word();
                    let on = self.g.t.below(3) != 0;
                    srcs.push(format!("{H}::class::class(({c:?}, {on}))"));
                    if on {
                        effs.push(Eff::Class(c));
                    }
                }
                4 => {
                    if let Some(k) = self.style_key(style_keys) {
                        let v = self.style_value();
                        srcs.push(format!("{H}::style::style(({k:?}, {v:?}))"));
                        effs.push(Eff::Style(k, v));
                    }
                }
                5 => {
                    let (ev, _) = *self.g.t.pick(tables::EVENTS);
                    let said = format!("h{}", self.g.id());
                    srcs.push(if self.g.t.chance(25) {
                        self.g.feat("spread that is not Clone");
                        format!(
                            "{{ let o = ::sup::Own(\"{said}\"); {H}::event::on({H}::event::{ev}, move |_| {{ let o = &o; ::sup::say(o.0) }}) }}"
                        )
                    } else {
                        format!("{H}::event::on({H}::event::{ev}, |_| ::sup::say(\"{said}\"))")
                    });
                    effs.push(Eff::Act(format!("on:{ev}|{said}")));
                }
                6 => {
                    let n = format!("sp{}", self.g.id());
                    let (s, v) = self.g.expr(Ty::S, 1, &cx);
                    srcs.push(format!("{H}::property::prop(\"{n}\", {s})"));
                    effs.push(Eff::Act(prop_act(&n, &v)));
                }
                _ => {
                    srcs.push(format!("{H}::directive::directive(::sup::d0, ())"));
                    effs.push(Eff::Act("use:d0".into()));
                }
            }
        }
        if full {
            let c = self.class_text();
            srcs.push(format!("{H}::class::class({c:?})"));
            effs.push(Eff::FullClass(c));
        }
        let src = if srcs.len() == 1 && self.g.t.below(2) == 0 {
            srcs[0].clone()
        } else {
            format!(
                "({})",
                srcs.iter().map(|s| format!("{s},")).collect::<String>()
            )
        };
        let src = match self.g.t.weighted(&[3, if cx.own == Own::Move { 2 } else { 0 }, 3, 2]) {
            0 => src,
            1 => {
                // evaluated before the view
                let name = self.g.name();
                let id = rust_ident(&name);
                let id2 = self.g.id();
                self.g.logs.push((id2, Ev::At(0, 1)));
                for l in &mut self.g.logs[logs..] {
                    l.1 = Ev::At(0, 1);
                }
                self.g
                    .lets
                    .push(format!("let {id} = ::sup::e({id2}, {src});"));
                id
            }
            2 => {
                let id = self.g.id();
                self.g.logs.push((id, cx.ev));
                self.g.feat("logged");
                format!("::sup::e({id}, {src})")
            }
            _ if self.g.t.below(2) == 0 => format!("::sup::second::<i32, _>(1, {src})"),
            _ => format!("{{ let spread = {src}; spread }}"),
        };
        Attr {
            k: AttrK::Spread(Src::new(Form::Block, src)),
            effs,
        }
    }

    // ------------------------------------------------------------ components

    fn prop_def(&mut self, names: &mut Vec<String>, gps: usize, slot: bool) -> Option<PropDef> {
        let base = self
            .g
            .t
            .pick(&[
                "a", "label", "my_prop", "type", "for", "a_long_name", "count", "x1", "as", "value",
                "is_open", "data_1", "b", "loop", "name", "style", "class", "id", "key", "on_click",
                "ref_", "async", "attrs", "children_count", "new", "build_", "default", "r_2_d",
                "slot", "on", "prop", "attr", "f", "html", "props", "use", "with", "été",
            ])
            .to_string();
        // names that are parts of each other
        let base = match names.last() {
            Some(n) if self.g.t.chance(25) => match n.rsplit_once('_') {
                Some((start, _)) if self.g.t.below(2) == 0 && !KEYWORDS.contains(&start) && !["build", "children"].contains(&start) => start.to_string(),
                _ => format!("{n}_{}", self.g.t.pick(&["too", "2", "x"])),
            },
            _ => base,
        };
        if base.is_empty() || base.ends_with('_') && base != "ref_" && base != "build_" || names.contains(&base) {
            return None;
        }
        names.push(base.clone());
        let mut pool = vec![
            PTy::I, PTy::B, PTy::S, PTy::Str, PTy::C, PTy::F, PTy::VecI, PTy::Tup, PTy::Sig, PTy::Tp,
        ];
        if !slot {
            pool.extend([PTy::FnI, PTy::FnS]);
        }
        for i in 0..gps {
            pool.push(PTy::G(i));
            pool.push(PTy::G(i));
        }
        let ty = *self.g.t.pick(&pool);
        let how = match ty {
            PTy::Sig | PTy::Tp => How::Into,
            PTy::FnI | PTy::FnS | PTy::VecI | PTy::Tup | PTy::G(_) => How::Req,
            PTy::I => match self.g.t.below(5) {
                0 => How::Req,
                1 => How::Into,
                2 => How::Opt,
                3 => How::OptO,
                _ => How::Def("7".into(), "7".into()),
            },
            PTy::B => match self.g.t.below(3) {
                0 => How::Req,
                1 => How::Opt,
                _ => How::Def("true".into(), "true".into()),
            },
            PTy::S => match self.g.t.below(4) {
                0 => How::Req,
                1 => How::Opt,
                2 => How::OptO,
                _ => How::Def("\"dflt\"".into(), "\"dflt\"".into()),
            },
            PTy::Str => match self.g.t.below(4) {
                0 => How::Req,
                1 | 2 => How::Into,
                _ => How::OptInto,
            },
            PTy::C | PTy::F => How::Req,
        };
        Some(PropDef {
            name: base,
            ty,
            how,
        })
    }

    fn new_def(&mut self, slot: bool, depth: usize) -> Def {
        let n = self.comp_no;
        self.comp_no += 1;
        let base = if slot {
            self.g
                .t
                .pick(&[
                    "Tab", "Then", "TabItem", "If", "Fallback", "Type", "For", "ElseIf", "Col2",
                    "MyLongSlotName", "Loop", "Row", "Match", "Head", "Aside", "HTMLRow", "Rangée",
                    "V", "Slot", "UI",
                ])
                .to_string()
        } else {
            self.g
                .t
                .pick(&["Comp", "Card", "Foo", "MyButton", "Div", "Outer", "Table2", "X", "Use", "HTMLBox", "Café", "Slot_2", "FAQ"])
                .to_string()
        };
        let mut ident = base.clone();
        while !self.g.used.insert(ident.clone()) {
            ident.push(*self.g.t.pick(&['x', 'y', 'z']));
        }
        let chk_none = !self.g.t.chance(self.prof.chk);
        let mut gps = vec![];
        if !slot && self.g.t.chance(self.prof.generics) {
            for _ in 0..self.g.t.range(1, 3) {
                gps.push(match self.g.t.below(3) {
                    0 | 1 => GP::Ty,
                    _ => GP::Named,
                });
            }
        }
        // parameters that cannot be inferred must be written, then all must
        let must = gps.iter().any(|g| !matches!(g, GP::Ty));
        let mut chk = if chk_none {
            ChK::None
        } else if !must && self.g.t.chance(self.prof.args) {
            ChK::Args
        } else {
            *self.g.t.pick(&[
                ChK::Once,
                ChK::Opt,
                ChK::Fn,
                ChK::OptFn,
                ChK::Mut,
                ChK::Typed,
                ChK::TypedFn,
                ChK::TypedMut,
            ])
        };
        if must && matches!(chk, ChK::Typed | ChK::TypedFn | ChK::TypedMut) {
            chk = ChK::Once;
        }
        if slot && matches!(chk, ChK::Typed | ChK::TypedFn | ChK::TypedMut | ChK::Mut | ChK::Frag) {
            chk = ChK::Once;
        }
        let repeat = matches!(
            chk,
            ChK::Fn | ChK::OptFn | ChK::Mut | ChK::TypedFn | ChK::TypedMut | ChK::Args
        );
        let calls = if repeat { self.g.t.range(1, 3) } else { 1 };
        let late = !slot && matches!(chk, ChK::Once | ChK::Fn) && self.g.t.chance(40);
        let calls = if late { 1 } else { calls };
        let args: Vec<ArgTy> = if chk == ChK::Args {
            let n = if self.g.t.chance(8) { 6 } else { self.g.t.range(0, 3) };
            (0..n)
                .map(|_| {
                    *self.g.t.pick(&[
                        ArgTy::I,
                        ArgTy::S,
                        ArgTy::Pair,
                        ArgTy::Pt,
                        ArgTy::Res,
                        ArgTy::Arr,
                    ])
                })
                .collect()
        } else {
            vec![]
        };
        // a slot's callback takes no more than two things
        let args: Vec<ArgTy> = if slot { args.into_iter().take(2).collect() } else { args };
        let mut names = vec!["children".to_string()];
        let mut slots = vec![];
        if depth > 0 && self.g.t.chance(if slot { self.prof.slots / 3 } else { self.prof.slots }) {
            for _ in 0..self.g.t.range(1, 3) {
                let def = self.new_def(true, depth - 1);
                let arity = *self.g.t.pick(&[Arity::Many, Arity::One, Arity::Opt, Arity::OptMany]);
                names.push(snake(&def.comp.ident));
                slots.push((def, arity));
            }
        }
        let tys = gps.iter().filter(|g| matches!(g, GP::Ty)).count();
        let mut props = vec![];
        for i in 0..tys {
            let name = format!("gen_{i}");
            names.push(name.clone());
            props.push(PropDef {
                name,
                ty: PTy::G(i),
                how: How::Req,
            });
        }
        for _ in 0..self.g.t.small(self.prof.props) {
            if let Some(p) = self.prop_def(&mut names, tys, slot || must) {
                props.push(p);
            }
        }
        let explicit = !props.iter().any(|p| matches!(p.ty, PTy::FnI | PTy::FnS))
            && !matches!(chk, ChK::Typed | ChK::TypedFn | ChK::TypedMut | ChK::Args);
        let roots = if slot {
            Roots::Single
        } else {
            *self.g.t.pick(&[
                Roots::Single,
                Roots::Single,
                Roots::Double,
                Roots::Vec,
                Roots::Any,
                Roots::Nested,
                Roots::Opt,
            ])
        };
        // pass-through: everything it is passed are roots
        let pass = !slot
            && chk == ChK::Typed
            && props.is_empty()
            && slots.is_empty()
            && gps.is_empty()
            && self.g.t.chance(30);
        let roots = if pass { Roots::Pass } else { roots };
        let el = if slot { format!("s-{n}") } else { format!("c-{n}") };
        let modpath = if !slot && self.g.t.chance(self.prof.paths) {
            self.modno += 1;
            let m = self.modno;
            if self.g.t.below(2) == 0 {
                vec![format!("m{m}")]
            } else {
                vec![format!("m{m}"), self.g.t.pick(&["inner", "r#type", "ui"]).to_string()]
            }
        } else {
            vec![]
        };
        let source = comp_source(
            &ident, slot, &el, roots, chk, late, calls, &slots, &props, &gps, &args,
        );
        let mut text = source;
        for m in modpath.iter().rev() {
            text = format!(
                "pub mod {m} {{ use ::leptos::prelude::*; use crate::@CASE@::items::*; {text} }}"
            );
        }
        self.g.items.push(text);
        let comp = Rc::new(Comp {
            ident,
            slot,
            el,
            roots,
            chk,
            late,
            calls,
            slots: slots
                .iter()
                .map(|(d, a)| (d.comp.clone(), *a))
                .collect(),
            source: None,
        });
        let def = Def {
            comp,
            props: Rc::new(props),
            gps: Rc::new(gps),
            modpath,
            explicit,
            args,
            slots,
        };
        if slot {
            self.slot_defs.push(def.clone());
        } else {
            self.defs.push(def.clone());
        }
        def
    }

    fn comp_node(&mut self, cx: &Cx) -> Node {
        self.g.feat("component");
        let def = if !self.defs.is_empty() && self.g.t.chance(self.prof.reuse) {
            self.g.t.pick(&self.defs).clone()
        } else {
            self.new_def(false, 2)
        };
        Node::Comp(Box::new(self.call(&def, cx)))
    }

    fn prop_value(&mut self, p: &PropDef, gen: &[(String, Ty)], cx: &Cx) -> (AVal, String) {
        let cx = Self::known(cx);
        let mut forms = self.prof.forms;
        forms[2] = 0;
        forms[3] = 0;
        forms[4] = 0;
        forms[5] = 0;
        let ty = match p.ty {
            PTy::I => Ty::I,
            PTy::B => Ty::B,
            PTy::S => Ty::S,
            PTy::Str => Ty::Str,
            PTy::C => Ty::C,
            PTy::F => Ty::F,
            PTy::G(i) => gen[i].1,
            PTy::FnI => {
                let form = if self.g.t.below(3) == 0 { Form::Block } else { Form::Bracket };
                let (s, v) = self.g.body(Ty::I, &cx.lazy());
                let s = if form == Form::Block { format!("move || {{ {s} }}") } else { s };
                self.g.feat("bracket value");
                return (AVal::V(Src::new(form, s)), v.dbg());
            }
            PTy::FnS => {
                let (src, v) = if self.g.t.below(2) == 0 {
                    let (s, v) = self.g.fmt_body(&cx.lazy());
                    self.g.feat("f value");
                    (Src::new(Form::F, s), V::S(v))
                } else {
                    let (s, v) = self.g.body(Ty::Str, &cx.lazy());
                    self.g.feat("bracket value");
                    (Src::new(Form::Bracket, s), v)
                };
                return (AVal::V(src), v.dbg());
            }
            PTy::Tp => {
                let s = self.g.text();
                let src = if self.g.t.below(3) == 0 {
                    let (body, out) = self.g.fmt_body(&cx.lazy());
                    return (AVal::V(Src::new(Form::F, body)), format!("{out:?}"));
                } else if self.g.t.below(2) == 0 {
                    Src::new(Form::Lit, self.g.str_lit(&s))
                } else {
                    Src::new(Form::Bracket, self.g.str_lit(&s))
                };
                return (AVal::V(src), format!("{s:?}"));
            }
            PTy::Sig => {
                let (src, v) = if cx.own == Own::Move && self.g.t.below(2) == 0 {
                    let n = self.g.int();
                    (
                        Src::new(
                            Form::Block,
                            format!("::leptos::prelude::RwSignal::new({n}i64)"),
                        ),
                        n,
                    )
                } else {
                    let n = self.g.int();
                    (Src::new(Form::Lit, format!("{n}")), n)
                };
                return (AVal::V(src), v.to_string());
            }
            PTy::VecI => {
                let n = self.g.t.below(4);
                let v: Vec<i64> = (0..n).map(|_| self.g.int()).collect();
                let src = if v.is_empty() {
                    "::std::vec::Vec::<i64>::new()".to_string()
                } else {
                    format!("::std::vec!{v:?}")
                };
                return (AVal::V(Src::new(Form::Block, src)), format!("{v:?}"));
            }
            PTy::Tup => {
                let (a, av) = self.g.expr(Ty::I, 1, &cx);
                let (b, bv) = self.g.expr(Ty::B, 1, &cx);
                return (
                    AVal::V(Src::new(Form::Block, format!("({a}, {b})"))),
                    format!("({}, {})", av.dbg(), bv.dbg()),
                );
            }
        };
        let some = |s: String| {
            if matches!(p.how, How::OptO | How::OptInto) {
                format!("Some({s})")
            } else {
                s
            }
        };
        if ty == Ty::B && self.g.t.chance(35) {
            self.g.feat("bare prop");
            return (AVal::Bare, some("true".into()));
        }
        // shorthand: a variable named after the prop
        if self.g.t.chance(12) && !matches!(p.ty, PTy::G(_)) {
            let tn = self.g.ty_name(ty);
            let mut val = None;
            if ty != Ty::Str || cx.own == Own::Move {
                if let Some(v) = self.short_var(&p.name, |g| {
                    let (s, v) = match ty {
                        Ty::Str => {
                            let (s, v) = g.literal(Ty::S);
                            (format!("::std::string::String::from({s})"), v)
                        }
                        ty => {
                            let (s, v) = g.leaf(ty);
                            (format!("::std::convert::identity::<{tn}>({s})"), v)
                        }
                    };
                    (s, v)
                }) {
                    val = Some(v);
                }
            }
            if let Some(v) = val {
                return (AVal::Short, some(v.dbg()));
            }
        }
        let into = matches!(p.how, How::Into | How::OptInto);
        match ty {
            Ty::Str => {
                if into && self.g.t.below(3) != 0 {
                    let (src, v) = self.g.scalar(&[Ty::S], forms, &cx);
                    (AVal::V(src), some(v.dbg()))
                } else {
                    let (s, v) = self.g.body(Ty::Str, &cx);
                    (AVal::V(Src::new(Form::Block, s)), some(v.dbg()))
                }
            }
            Ty::I => {
                if self.g.t.below(2) == 0 {
                    let n = self.g.t.below(200) as i64;
                    let suffix = if into {
                        *self.g.t.pick(&["i64", "u8", "i32"])
                    } else {
                        *self.g.t.pick(&["", "i64"])
                    };
                    let suffix = if matches!(p.ty, PTy::G(_)) { "i64" } else { suffix };
                    (
                        AVal::V(Src::new(Form::Lit, format!("{n}{suffix}"))),
                        some(n.to_string()),
                    )
                } else {
                    let (s, v) = self.g.body(Ty::I, &cx);
                    (AVal::V(Src::new(Form::Block, s)), some(v.dbg()))
                }
            }
            Ty::F => {
                let (lit, f) = self.g.float(64);
                let form = *self.g.t.pick(&[Form::Lit, Form::Block]);
                (
                    AVal::V(Src::new(form, format!("{lit}f64"))),
                    some(V::F(f).dbg()),
                )
            }
            ty => {
                let (src, v) = self.g.scalar(&[ty], forms, &cx);
                (AVal::V(src), some(v.dbg()))
            }
        }
    }

    fn pattern(&mut self, ty: ArgTy, i: usize, envs: &mut [Env], typed: bool) -> (String, Vec<(String, Ty)>) {
        let mut bound: Vec<(String, Ty)> = vec![];
        let mut bind = |g: &mut G, ty: Ty, f: &dyn Fn(usize) -> V, envs: &mut [Env]| {
            let name = g.name();
            for (k, e) in envs.iter_mut().enumerate() {
                e.insert(name.clone(), f(k));
            }
            bound.push((name.clone(), ty));
            let id = rust_ident(&name);
            if g.t.chance(25) {
                format!("mut {id}")
            } else {
                id
            }
        };
        let at = |k: usize| (k * 10 + i) as i64;
        let mut src = match ty {
            ArgTy::I => {
                if self.g.t.chance(15) {
                    "_".to_string()
                } else {
                    let id = bind(&mut self.g, Ty::I, &|k| V::I(at(k)), envs);
                    match self.g.t.below(3) {
                        0 | 1 => id,
                        _ => format!("{id} @ _"),
                    }
                }
            }
            ArgTy::S => bind(&mut self.g, Ty::S, &|k| V::S(format!("s{}", at(k))), envs),
            ArgTy::Pair => {
                let a = bind(&mut self.g, Ty::I, &|k| V::I(at(k)), envs);
                if self.g.t.below(3) == 0 {
                    format!("({a}, _)")
                } else {
                    let b = bind(&mut self.g, Ty::S, &|k| V::S(format!("q{}", at(k))), envs);
                    format!("({a}, {b})")
                }
            }
            ArgTy::Pt => {
                if self.g.t.below(2) == 0 {
                    let a = bind(&mut self.g, Ty::I, &|k| V::I(at(k)), envs);
                    format!("::sup::Pt {{ x: {a}, .. }}")
                } else {
                    let b = bind(&mut self.g, Ty::S, &|k| V::S(format!("y{}", at(k))), envs);
                    format!("::sup::Pt {{ y: {b}, x: _ }}")
                }
            }
            ArgTy::Res => {
                let a = bind(&mut self.g, Ty::I, &|k| V::I(at(k)), envs);
                format!("(Ok({a}) | Err({a}))")
            }
            ArgTy::Arr => {
                let a = bind(&mut self.g, Ty::I, &|k| V::I(at(k)), envs);
                if self.g.t.below(2) == 0 {
                    format!("[{a}, ..]")
                } else {
                    let b = bind(&mut self.g, Ty::I, &|k| V::I(at(k) + 1), envs);
                    format!("[{a}, {b}]")
                }
            }
        };
        if typed || self.g.t.chance(15) {
            src = format!("{src}: {}", ty.name());
        }
        (src, bound)
    }

    fn call(&mut self, def: &Def, cx: &Cx) -> Call {
        let comp = &def.comp;
        let slot = comp.slot;
        // generics
        let mut gen_tys = vec![];
        let mut shown: Vec<(String, String)> = vec![];
        let mut list = vec![];
        let mut must = false;
        for (i, gp) in def.gps.iter().enumerate() {
            match gp {
                GP::Ty => {
                    let ty = *self.g.t.pick(&[Ty::I, Ty::S, Ty::B]);
                    gen_tys.push((String::new(), ty));
                    list.push(self.g.ty_name(ty).to_string());
                }
                GP::Named => {
                    let (src, name) = *self.g.t.pick(&[
                        ("i64", "i64"),
                        ("::std::vec::Vec<::std::vec::Vec<u8>>", "alloc::vec::Vec<alloc::vec::Vec<u8>>"),
                        ("(i64, u8)", "(i64, u8)"),
                        ("[u8; 3]", "[u8; 3]"),
                        ("fn(i64) -> ::core::primitive::bool", "fn(i64) -> bool"),
                        ("&'static ::core::primitive::str", "&str"),
                        ("::std::option::Option<::std::vec::Vec::<i8>>", "core::option::Option<alloc::vec::Vec<i8>>"),
                        ("()", "()"),
                    ]);
                    must = true;
                    list.push(src.to_string());
                    shown.push((format!("t{i}"), name.to_string()));
                }
            }
        }
        // type arguments can be left out if they can be inferred
        let generics = if def.gps.is_empty() || !def.explicit {
            None
        } else if must || self.g.t.below(2) == 0 {
            self.g.feat("generics");
            Some((list.join(", "), self.g.t.below(2) == 0))
        } else {
            None
        };
        // path
        let mut segs: Vec<String> = def.modpath.clone();
        segs.push(comp.ident.clone());
        let joined = segs.join("::");
        let path = if slot {
            comp.ident.clone()
        } else if segs.len() > 1 {
            self.g.feat("path");
            match self.g.t.below(3) {
                0 => joined,
                1 => format!("self::{joined}"),
                _ => format!("super::@CASE@::{joined}"),
            }
        } else {
            match self.g.t.weighted(&[8, 1, 1]) {
                0 => joined,
                1 => format!("self::{joined}"),
                _ => format!("crate::@CASE@::{joined}"),
            }
        };
        // props
        let mut attrs = vec![];
        let mut props = vec![];
        for p in def.props.iter() {
            let optional = !matches!(p.how, How::Req | How::Into);
            if optional && self.g.t.chance(40) {
                let dflt = match (&p.how, p.ty) {
                    (How::Def(_, shown), _) => shown.clone(),
                    (How::OptO | How::OptInto, _) => "None".into(),
                    (_, PTy::I) => "0".into(),
                    (_, PTy::B) => "false".into(),
                    (_, PTy::S) => "\"\"".into(),
                    _ => unreachable!(),
                };
                self.g.feat("omitted prop");
                props.push((p.name.clone(), dflt));
                continue;
            }
            self.g.near = Some(p.name.clone());
            let (aval, s) = self.prop_value(p, &gen_tys, cx);
            self.g.near = None;
            self.g.feat("prop");
            props.push((p.name.clone(), s));
            let written = if p.name.contains('_') && self.g.t.chance(50) {
                let mut w = String::new();
                for c in p.name.chars() {
                    if c == '_' && self.g.t.below(3) != 0 {
                        w.push('-');
                    } else {
                        w.push(c);
                    }
                }
                // a trailing dash would swallow what follows
                if w.ends_with('-') {
                    p.name.clone()
                } else {
                    w
                }
            } else {
                p.name.clone()
            };
            attrs.push(Attr {
                k: AttrK::Kv(written, aval),
                effs: vec![],
            });
        }
        props.extend(shown);
        // directives
        let mut sels = vec![];
        if !slot {
            if self.g.t.chance(self.prof.sels) {
                sels = self.selectors();
            }
            let has_id = sels.iter().any(|s| matches!(s.k, AttrK::Sel('#', _)));
            let has_class = !sels.is_empty();
            let dcx = Cx {
                maybe: comp.roots == Roots::Pass,
                ..cx.clone()
            };
            attrs.extend(self.directives(&dcx, has_id, has_class));
        }
        // children
        let mut envs = vec![Env::new(); comp.calls];
        let mut args = None;
        let mut bound = vec![];
        let mut muts = vec![];
        let optional_children = matches!(comp.chk, ChK::None | ChK::Opt | ChK::OptFn);
        let pass_children = comp.chk != ChK::None && !(optional_children && self.g.t.chance(30));
        if comp.chk == ChK::Args {
            let mut pats = vec![];
            for (i, ty) in def.args.iter().enumerate() {
                let (p, b) = self.pattern(*ty, i, &mut envs, slot);
                for (name, _) in &b {
                    let m = format!("mut {}", rust_ident(name));
                    if p.match_indices(&m).any(|(i, _)| {
                        !p[i + m.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_')
                    }) {
                        muts.push(name.clone());
                    }
                }
                pats.push(p);
                bound.extend(b);
            }
            let trail = if !pats.is_empty() && self.g.t.chance(15) { "," } else { "" };
            args = Some(format!("|{}{trail}|", pats.join(", ")));
            self.g.feat("closure arguments");
        }
        let ch_ev = match (cx.ev, comp.late) {
            (Ev::Never, _) => Ev::Never,
            (Ev::Lazy | Ev::Maybe, _) => Ev::Lazy,
            (Ev::At(..), true) => {
                if comp.chk == ChK::Once {
                    match cx.ev {
                        Ev::At(_, n) => Ev::At(1, n),
                        e => e,
                    }
                } else {
                    Ev::Lazy
                }
            }
            (Ev::At(ep, n), false) => Ev::At(ep, n * comp.calls as u32),
        };
        let once = matches!(
            comp.chk,
            ChK::Once | ChK::Opt | ChK::Frag | ChK::Typed | ChK::None
        );
        let own = match (cx.own, once) {
            // what a `move` closure clones is moved out of the closure around it
            (Own::Move, true) => Own::Move,
            (Own::Move, false) => Own::Clone,
            _ => Own::None,
        };
        let inner = Cx {
            ev: ch_ev,
            own,
            args: cx.args.iter().cloned().chain(bound).collect(),
            depth: cx.depth.saturating_sub(1),
            inside: true,
            maybe: false,
            muts,
        };
        let mut kids = if pass_children {
            self.g.feat("children passed");
            let before = self.prof.nodes;
            if comp.roots == Roots::Pass {
                // no type-erased roots: leptos does not pass attributes on to them
                self.prof.nodes[2] = 0;
                self.prof.nodes[9] = 0;
            }
            let kids = self.kids(&inner, 1);
            self.prof.nodes = before;
            kids
        } else {
            vec![]
        };
        // clones
        if pass_children && cx.own == Own::Move && self.g.t.chance(self.prof.clones) {
            let n = if self.g.t.chance(10) { 5 } else { self.g.t.range(1, 2) };
            for _ in 0..n {
                let name = self.g.name();
                let id = rust_ident(&name);
                let s = self.g.text();
                self.g.feat("clone:");
                // used inside, and still there outside
                let (decl, src) = match self.g.t.weighted(&[8, 2, 1, 1]) {
                    1 => {
                        self.g.feat("clone: of a reference");
                        let owned = if once { id.clone() } else { format!("{id}.clone()") };
                        (
                            format!("&*::std::boxed::Box::leak(::std::boxed::Box::new(::std::string::String::from({s:?})))"),
                            format!("let owned: ::std::string::String = {owned}; owned"),
                        )
                    }
                    2 => (
                        format!("::std::sync::Arc::new(::std::string::String::from({s:?}))"),
                        format!("let shared: &::std::sync::Arc<::std::string::String> = &{id}; ::std::string::String::clone(shared)"),
                    ),
                    3 => (
                        format!("{{ let text = ::std::string::String::from({s:?}); move || ::std::string::String::clone(&text) }}"),
                        format!("{id}()"),
                    ),
                    _ => (
                        format!("::std::string::String::from({s:?})"),
                        if once { id.clone() } else { format!("{id}.clone()") },
                    ),
                };
                self.g.lets.push(format!("let {id} = {decl};"));
                let form = Form::Block;
                let use_in = Node::Val(Src::new(form, src), Sem::T(V::S(s.clone())));
                let at = self.g.t.below(kids.len() + 1);
                kids.insert(at, use_in);
                let at = self.g.t.below(attrs.len() + 1);
                attrs.insert(
                    at,
                    Attr {
                        k: AttrK::Dir(
                            "clone",
                            Key::Kebab(if name.contains('_') && self.g.t.chance(20) && !name.starts_with('_') && !name.ends_with('_') {
                                name.replace('_', "-")
                            } else {
                                name.clone()
                            }),
                            AVal::Bare,
                        ),
                        effs: vec![],
                    },
                );
                if !cx.inside {
                    self.g.after.push(format!("::std::mem::drop({id});"));
                }
            }
        }
        // slots in between
        for (sdef, arity) in &def.slots {
            let n = match arity {
                Arity::One => 1,
                Arity::Opt => self.g.t.below(2),
                // none at all is not possible: the prop is required
                Arity::Many | Arity::OptMany if self.g.t.chance(4) => {
                    self.g.feat("many slots");
                    self.g.t.range(4, 12)
                }
                Arity::Many => self.g.t.range(1, 3),
                Arity::OptMany => self.g.t.range(0, 3),
            };
            for _ in 0..n {
                let scx = Cx {
                    // slots are built where the parent is
                    depth: cx.depth.saturating_sub(1),
                    ..cx.clone()
                };
                let c = self.call(sdef, &scx);
                self.g.feat("slot");
                let at = self.g.t.below(kids.len() + 1);
                kids.insert(at, Node::Slot(Box::new(c)));
            }
        }
        // keep the order of slots of one kind random, too: they are inserted at
        // random places
        self.g.t.shuffle(&mut attrs);
        let children = if kids.is_empty() {
            if comp.chk == ChK::Args || self.g.t.below(2) == 0 {
                Some(vec![])
            } else {
                None
            }
        } else {
            Some(kids)
        };
        if children.as_ref().is_some_and(Vec::is_empty) && comp.chk != ChK::None {
            self.g.feat("empty block");
        }
        let args = if children.as_ref().is_some_and(|c| c.iter().any(|n| !matches!(n, Node::Slot(_)))) {
            args
        } else {
            None
        };
        Call {
            spec: comp.clone(),
            path,
            generics,
            sels,
            attrs,
            args,
            envs,
            paren: children.is_some() && self.g.t.chance(15),
            children,
            props,
        }
    }

    /// attr typed, attr custom, attr aria, class:, style:, prop:, on:, use:,
    /// spread
    fn directives(&mut self, cx: &Cx, has_id: bool, has_class: bool) -> Vec<Attr> {
        let n = if self.prof.dirs > 1 && self.g.t.chance(4) {
            self.g.feat("many directives");
            self.g.t.range(5, 11)
        } else {
            self.g.t.small(self.prof.dirs)
        };
        let mut out = vec![];
        let mut seen: Vec<String> = vec![];
        if has_id {
            seen.push("id".into());
        }
        let mut style_keys = vec![];
        let mut full = has_class;
        for _ in 0..n {
            let logs = (self.g.logs.len(), self.g.lets.len());
            let w = self.prof.dw;
            let which = self.g.t.weighted(&w);
            let a = match which {
                0..=2 => {
                    self.g.feat("attr:");
                    if which == 0 && self.g.t.chance(15) {
                        // attr:class / attr:style
                        if full {
                            continue;
                        }
                        full = true;
                        if self.g.t.below(2) == 0 {
                            let s = self.class_text();
                            let src = self.string_value(&s, &Self::known(cx));
                            Attr {
                                k: AttrK::Dir("attr", Key::Kebab("class".into()), AVal::V(src)),
                                effs: vec![Eff::FullClass(s)],
                            }
                        } else {
                            let k = self.style_key(&mut style_keys);
                            let Some(k) = k else { continue };
                            let v = self.style_value();
                            let src = self.string_value(&format!("{k}:{v}"), &Self::known(cx));
                            Attr {
                                k: AttrK::Dir("attr", Key::Kebab("style".into()), AVal::V(src)),
                                effs: vec![Eff::FullStyle(vec![(k, v)])],
                            }
                        }
                    } else {
                        let (written, real) = match which {
                            0 => {
                                let n = *self.g.t.pick(tables::ATTRS);
                                (n.0.to_string(), n.1.to_string())
                            }
                            1 => {
                                let n = self.custom_name();
                                (n.clone(), n)
                            }
                            _ => {
                                let n = *self.g.t.pick(tables::ARIA);
                                let real = self.html_name(n);
                                (real.clone(), real)
                            }
                        };
                        if seen.iter().any(|s| s.eq_ignore_ascii_case(&real)) {
                            continue;
                        }
                        seen.push(real.clone());
                        self.attr_dir(which, written, real, cx)
                    }
                }
                3 | 4 => match self.class_style_dir(which == 3, cx, &mut style_keys, true) {
                    Some(a) => a,
                    None => continue,
                },
                5 => {
                    if self.g.t.chance(15) {
                        self.g.feat("directive without value");
                        let n = format!("flag{}", self.g.id());
                        Attr {
                            effs: vec![Eff::Act(prop_act(&n, &V::B(true)))],
                            k: AttrK::Dir("prop", Key::Kebab(n), AVal::Bare),
                        }
                    } else {
                        self.prop_dir(cx)
                    }
                }
                6 => self.on_dir(cx),
                7 => self.use_dir(cx),
                _ => self.spread(cx, false, &mut seen, &mut style_keys),
            };
            self.g.feat("component directive");
            out.push(a);
            self.again(&mut out, logs);
        }
        out
    }

    fn attr_dir(&mut self, which: usize, written: String, real: String, cx: &Cx) -> Attr {
        self.g.near = Some(written.clone());
        let a = self.attr_dir_near(which, written, real, cx);
        self.g.near = None;
        a
    }

    fn attr_dir_near(&mut self, which: usize, written: String, real: String, cx: &Cx) -> Attr {
        if self.g.t.chance(20) {
            self.g.feat("directive without value");
            return Attr {
                k: AttrK::Dir("attr", Key::Kebab(written), AVal::Bare),
                effs: vec![Eff::Attr(real, V::B(true))],
            };
        }
        if self.g.t.chance(15) {
            let ty = *self.g.t.pick(&[Ty::S, Ty::I, Ty::B]);
            if let Some(v) = self.short_var(&written, |g| g.literal(ty)) {
                return Attr {
                    k: AttrK::Dir("attr", Key::Kebab(written), AVal::Short),
                    effs: vec![Eff::Attr(real, v)],
                };
            }
        }
        let (src, v) = self.attr_value(
            &Self::known(cx),
            &[Ty::S, Ty::Str, Ty::I, Ty::B, Ty::C, Ty::F],
        );
        let key = if which == 1 && self.g.t.chance(20) {
            Key::Str(self.g.str_lit(&written))
        } else {
            Key::Kebab(written)
        };
        Attr {
            k: AttrK::Dir("attr", key, AVal::V(src)),
            effs: vec![Eff::Attr(real, v)],
        }
    }
}

fn prop_act(name: &str, v: &V) -> String {
    format!("prop:{name}|{}", v.dbg())
}

trait NoCast {
    fn no_cast(self) -> Self;
}
impl NoCast for Node {
    // `vec![..] as Vec<_>` is not a cast rust knows: use a typed binding
    fn no_cast(self) -> Self {
        if let Node::Val(mut s, sem) = self {
            if let Some(Part::S(t)) = s.parts.first_mut() {
                if let Some((e, ty)) = t.rsplit_once(" as ") {
                    *t = format!("::std::convert::identity::<{ty}>({e})");
                }
            }
            Node::Val(s, sem)
        } else {
            self
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn comp_source(
    ident: &str,
    slot: bool,
    el: &str,
    roots: Roots,
    chk: ChK,
    late: bool,
    calls: usize,
    slots: &[(Def, Arity)],
    props: &[PropDef],
    gps: &[GP],
    args: &[ArgTy],
) -> String {
    let mut generics = vec![];
    let mut names = vec![];
    let mut params: Vec<String> = vec![];
    let mut shows: Vec<(String, String)> = vec![];
    let mut ty_names = vec![];
    let field = |n: &str| rust_ident(n);
    let access = |n: &str| {
        if slot {
            format!("s.{}", rust_ident(n))
        } else {
            rust_ident(n)
        }
    };
    for (i, gp) in gps.iter().enumerate() {
        match gp {
            GP::Ty => {
                let n = format!("T{i}");
                generics.push(format!("{n}: ::std::fmt::Debug + Clone + Send + Sync + 'static"));
                ty_names.push(n.clone());
                names.push(n);
            }
            GP::Named => {
                let n = format!("T{i}");
                generics.push(format!("{n}: Send + Sync + 'static"));
                params.push(format!(
                    "#[prop(default = ::std::marker::PhantomData)] _p{i}: ::std::marker::PhantomData<{n}>"
                ));
                shows.push((format!("t{i}"), format!("::std::any::type_name::<{n}>().to_string()")));
                names.push(n);
            }
        }
    }
    for p in props {
        let ty = match p.ty {
            PTy::I => "i64".to_string(),
            PTy::B => "bool".into(),
            PTy::S => "&'static str".into(),
            PTy::Str => "String".into(),
            PTy::C => "char".into(),
            PTy::F => "f64".into(),
            PTy::VecI => "Vec<i64>".into(),
            PTy::Tup => "(i64, bool)".into(),
            PTy::FnI => "impl Fn() -> i64 + Clone + Send + Sync + 'static".into(),
            PTy::FnS => "impl Fn() -> String + Clone + Send + Sync + 'static".into(),
            PTy::Tp => "::leptos::text_prop::TextProp".into(),
            PTy::Sig => "::leptos::prelude::Signal<i64>".into(),
            PTy::G(i) => ty_names[i].clone(),
        };
        let (attr, ty) = match &p.how {
            How::Req => ("".to_string(), ty),
            How::Into => ("#[prop(into)] ".into(), ty),
            How::Opt => ("#[prop(optional)] ".into(), ty),
            How::OptO => ("#[prop(optional)] ".into(), format!("Option<{ty}>")),
            How::OptInto => ("#[prop(optional, into)] ".into(), format!("Option<{ty}>")),
            How::Def(src, _) => (format!("#[prop(default = {src})] "), ty),
        };
        params.push(format!("{attr}{}: {ty}", field(&p.name)));
        let a = access(&p.name);
        let show = match p.ty {
            PTy::FnI | PTy::FnS => format!("{{ let p = {a}; move || ::sup::show(&p()) }}"),
            PTy::Tp => format!("{{ let p = {a}; move || ::sup::show(&p.get().to_string()) }}"),
            PTy::Sig => format!("{{ let p = {a}; move || ::sup::show(&p.get()) }}"),
            _ => format!("::sup::show(&{a})"),
        };
        shows.push((p.name.clone(), show));
    }
    let arg_tys = args.iter().map(|a| a.name()).collect::<Vec<_>>().join(", ");
    let ch = if slot { "(s.children)".to_string() } else { "children".into() };
    let mut where_ = String::new();
    let call_args = |k: usize| {
        args.iter()
            .enumerate()
            .map(|(i, a)| a.value(k, i))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let repeat = |call: &dyn Fn(usize) -> String| {
        format!(
            "({})",
            (0..calls).map(|k| format!("{},", call(k))).collect::<String>()
        )
    };
    let (param, body): (Option<String>, String) = match chk {
        ChK::None => (None, "()".into()),
        ChK::Once if late => (
            Some("children: ::leptos::children::Children".into()),
            format!("{{ let mut c = Some({ch}); move || c.take().map(|c| c()) }}"),
        ),
        ChK::Once => (
            Some("children: ::leptos::children::Children".into()),
            format!("{ch}()"),
        ),
        ChK::Opt => (
            Some("#[prop(optional)] children: Option<::leptos::children::Children>".into()),
            format!("{ch}.map(|c| c())"),
        ),
        ChK::Fn if late => (
            Some("children: ::leptos::children::ChildrenFn".into()),
            format!("{{ let c = {ch}; move || c() }}"),
        ),
        ChK::Fn => (
            Some("children: ::leptos::children::ChildrenFn".into()),
            repeat(&|_| format!("({ch})()")),
        ),
        ChK::OptFn => (
            Some("#[prop(optional)] children: Option<::leptos::children::ChildrenFn>".into()),
            format!("{ch}.map(|c| {})", repeat(&|_| "c()".into())),
        ),
        ChK::Mut => (
            Some("children: ::leptos::children::ChildrenFnMut".into()),
            format!("{{ let mut c = {ch}; {} }}", repeat(&|_| "c()".into())),
        ),
        ChK::Frag => (
            Some("children: ::leptos::children::ChildrenFragment".into()),
            format!("{ch}().nodes"),
        ),
        ChK::Typed => {
            generics.push("Ch: IntoView + 'static".into());
            names.push("Ch".into());
            (
                Some("children: ::leptos::children::TypedChildren<Ch>".into()),
                format!("({ch}.into_inner())()"),
            )
        }
        ChK::TypedFn => {
            generics.push("Ch: IntoView + 'static".into());
            names.push("Ch".into());
            (
                Some("children: ::leptos::children::TypedChildrenFn<Ch>".into()),
                format!("{{ let c = {ch}.into_inner(); {} }}", repeat(&|_| "c()".into())),
            )
        }
        ChK::TypedMut => {
            generics.push("Ch: IntoView + 'static".into());
            names.push("Ch".into());
            (
                Some("children: ::leptos::children::TypedChildrenMut<Ch>".into()),
                format!("{{ let mut c = {ch}.into_inner(); {} }}", repeat(&|_| "c()".into())),
            )
        }
        ChK::Args if slot => (
            Some(match args.len() {
                0 => "#[prop(into)] children: ::sup::ArgFn0".into(),
                1 => format!("#[prop(into)] children: ::sup::ArgFn<{arg_tys}>"),
                _ => format!("#[prop(into)] children: ::sup::ArgFn2<{arg_tys}>"),
            }),
            repeat(&|k| format!("({ch}.0)({})", call_args(k))),
        ),
        ChK::Args => {
            generics.push(format!("Fc: Fn({arg_tys}) -> Ch + Send + Sync + 'static"));
            generics.push("Ch: IntoView + 'static".into());
            names.push("Fc".into());
            names.push("Ch".into());
            where_.push_str("");
            (
                Some("children: Fc".into()),
                repeat(&|k| format!("({ch})({})", call_args(k))),
            )
        }
    };
    params.extend(param);
    let mut slot_parts = vec![];
    for (def, arity) in slots {
        let name = snake(&def.comp.ident);
        let ty = &def.comp.ident;
        let (attr, ty) = match arity {
            Arity::One => ("", ty.clone()),
            Arity::Opt => ("#[prop(optional)] ", format!("Option<{ty}>")),
            Arity::Many => ("", format!("Vec<{ty}>")),
            Arity::OptMany => ("#[prop(optional)] ", format!("Vec<{ty}>")),
        };
        params.push(format!("{attr}{}: {ty}", rust_ident(&name)));
        let a = access(&name);
        let f = format!("show_{name}");
        slot_parts.push(match arity {
            Arity::One => format!("super_items::{f}({a})"),
            Arity::Opt => format!("{a}.map(super_items::{f})"),
            Arity::Many | Arity::OptMany => format!("{a}.into_iter().map(super_items::{f}).collect::<Vec<_>>()"),
        });
    }
    let mut root = format!("::leptos::tachys::html::element::custom({el:?})");
    for (k, v) in &shows {
        root.push_str(&format!(".attr(\"p-{k}\", {v})"));
    }
    root.push_str(&format!(".child({body})"));
    for s in &slot_parts {
        root.push_str(&format!(".child({s})"));
    }
    // erased so that compile times stay linear
    let gen = if generics.is_empty() {
        String::new()
    } else {
        format!("<{}>", generics.join(", "))
    };
    if slot {
        let fields = params
            .iter()
            .map(|p| {
                // attributes stay, fields are public
                match p.rsplit_once("] ") {
                    Some((a, f)) if p.starts_with("#[") && !f.is_empty() && !p.contains("default = \"") => {
                        format!("{a}] pub {f}")
                    }
                    _ => match p.split_once(")] ") {
                        Some((a, f)) => format!("{a})] pub {f}"),
                        None => format!("pub {p}"),
                    },
                }
            })
            .collect::<Vec<_>>()
            .join(", ");
        let name = snake(ident);
        return format!(
            "#[::leptos::prelude::slot] pub struct {ident} {{ {fields} }}\npub fn show_{name}(s: {ident}) -> ::leptos::prelude::AnyView {{ {root}.into_any() }}"
        );
    }
    let second = format!(
        "::leptos::tachys::html::element::custom(\"{el}-b\").child(::leptos::tachys::html::element::custom(\"{el}-below\"))"
    );
    let ret = match roots {
        Roots::Single => root,
        Roots::Double => format!("({root}, {second})"),
        Roots::Vec => format!("::std::vec![{root}]"),
        Roots::Any => format!("(({root},), ())"),
        Roots::Nested => format!("::sup::nested({root})"),
        Roots::Opt => format!("Some({root})"),
        Roots::Pass => body,
    };
    format!(
        "#[::leptos::prelude::component] pub fn {ident}{gen}({}) -> impl IntoView {{ {ret} }}",
        params.join(", ")
    )
}
