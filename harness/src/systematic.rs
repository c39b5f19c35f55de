//! Cases that go through a whole table: every tag, attribute and event.
use crate::ast::*;
use crate::gen::Case;
use crate::tables;
use crate::tape::Tape;
use std::rc::Rc;

fn case(roots: Vec<Node>, items: Vec<String>, what: &str) -> Case {
    Case {
        items,
        shadows: vec![],
        lets: vec![],
        after: vec![],
        roots,
        logs: vec![],
        feats: [(what.to_string(), 1)].into_iter().collect(),
        layout: Tape::new(vec![]),
        place: 0,
    }
}

fn text(s: &str) -> Node {
    Node::Val(Src::new(Form::Lit, format!("{s:?}")), Sem::T(V::S(s.into())))
}

fn el(tag: &str, name: &str, ns: &'static str, attrs: Vec<Attr>, children: Option<Vec<Node>>) -> Node {
    Node::El(Box::new(Elem {
        tag: tag.into(),
        name: name.into(),
        ns,
        sels: vec![],
        attrs,
        children,
        paren: false,
    }))
}

fn tags() -> Vec<(&'static str, &'static str, &'static str, &'static [&'static str], bool, bool)> {
    // written, real, namespace, typed attributes, escapes, void
    let mut out = vec![];
    for (t, a, e) in tables::HTML {
        out.push((*t, *t, "", *a, *e, false));
    }
    for (t, a) in tables::VOID {
        out.push((*t, *t, "", *a, true, true));
    }
    for t in tables::SVG {
        out.push((*t, *t, "svg", &[] as &[&str], true, false));
    }
    for (t, a) in tables::MATH {
        out.push((*t, *t, "math", *a, true, false));
    }
    out.push(("use_", "use", "svg", &[], true, false));
    out
}

fn real(rust: &str) -> String {
    tables::ATTRS
        .iter()
        .find(|(r, _)| *r == rust)
        .expect("known attribute")
        .1
        .to_string()
}

fn attr(written: &str, name: &str, form: usize, i: usize) -> Attr {
    let (val, v) = match form % 4 {
        0 => (
            AVal::V(Src::new(Form::Lit, format!("\"v{i}\""))),
            V::S(format!("v{i}")),
        ),
        1 => (AVal::Bare, V::B(true)),
        2 => (AVal::V(Src::new(Form::Block, format!("{i}"))), V::I(i as i64)),
        _ => (
            AVal::V(Src::new(Form::Bracket, format!("\"b{i}\""))),
            V::S(format!("b{i}")),
        ),
    };
    Attr {
        k: AttrK::Kv(written.into(), val),
        effs: vec![Eff::Attr(name.into(), v)],
    }
}

/// A component with two roots.
fn root_comp() -> (Rc<Comp>, Vec<String>) {
    let comp = Rc::new(Comp {
        ident: "Root".into(),
        slot: false,
        el: "c-0".into(),
        roots: Roots::Double,
        chk: ChK::Opt,
        late: false,
        calls: 1,
        slots: vec![],
        source: None,
    });
    let src = "#[::leptos::prelude::component] pub fn Root(#[prop(optional)] children: Option<::leptos::children::Children>) -> impl IntoView { (::leptos::tachys::html::element::custom(\"c-0\").child(children.map(|c| c())), ::leptos::tachys::html::element::custom(\"c-0-b\").child(::leptos::tachys::html::element::custom(\"c-0-below\"))) }";
    (comp, vec![src.into()])
}

fn on_root(attrs: Vec<Attr>, what: &str) -> Case {
    let (comp, items) = root_comp();
    let call = Call {
        spec: comp,
        path: "Root".into(),
        generics: None,
        sels: vec![],
        attrs,
        args: None,
        envs: vec![Env::new()],
        children: None,
        paren: false,
        props: vec![],
    };
    case(vec![Node::Comp(Box::new(call))], items, what)
}

pub fn cases(id: &str) -> Vec<Case> {
    let mut out = vec![];
    match id {
        "C01" => {
            for (t, n, ns, _, escapes, void) in tags() {
                let kids = |inner: bool| {
                    if void {
                        None
                    } else if !escapes {
                        Some(vec![text("plain")])
                    } else if inner {
                        Some(vec![text("a < b"), el(t, n, ns, vec![], None), text("&")])
                    } else {
                        Some(vec![])
                    }
                };
                let a = el(t, n, ns, vec![], kids(true));
                let b = el(t, n, ns, vec![], kids(false));
                let c = el(t, n, ns, vec![], None);
                out.push(case(
                    vec![a.clone(), el("div", "div", "", vec![], Some(vec![b, a, c])), text("after")],
                    vec![],
                    "every tag",
                ));
            }
        }
        "C05" => {
            for (k, (t, n, ns, typed, ..)) in tags().into_iter().enumerate() {
                if ns == "svg" {
                    continue;
                }
                for (part, names) in typed.chunks(8).enumerate() {
                    let els = (0..4)
                        .map(|form| {
                            let attrs = names
                                .iter()
                                .enumerate()
                                .map(|(i, a)| attr(a, &real(a), form + i + k, i))
                                .collect();
                            el(t, n, ns, attrs, None)
                        })
                        .take(if part == 0 { 4 } else { 2 })
                        .collect();
                    out.push(case(els, vec![], "every typed attribute"));
                }
            }
            for (tag, ns) in [("div", ""), ("input", ""), ("my-el", ""), ("circle", "svg"), ("mi", "math")] {
                let aria = tables::ARIA.iter().map(|a| (real(a), real(a)));
                let global = tables::GLOBAL
                    .iter()
                    .filter(|_| ns.is_empty() && tag != "my-el")
                    .map(|a| (a.to_string(), real(a)));
                let names: Vec<_> = aria.chain(global).collect();
                for (k, chunk) in names.chunks(10).enumerate() {
                    let attrs = chunk
                        .iter()
                        .enumerate()
                        .map(|(i, (w, r))| attr(w, r, i + k, i))
                        .collect();
                    out.push(case(vec![el(tag, tag, ns, attrs, None)], vec![], "every global attribute"));
                }
            }
            // any keyword as a name
            for (tag, ns) in [("my-el", ""), ("svg", "svg"), ("rect", "svg")] {
                for (k, chunk) in KEYWORDS.chunks(10).enumerate() {
                    let attrs = chunk
                        .iter()
                        .filter(|w| !["ref", "async", "as"].contains(*w))
                        .enumerate()
                        .map(|(i, w)| attr(w, w, i + k, i))
                        .collect();
                    out.push(case(vec![el(tag, tag, ns, attrs, None)], vec![], "keyword attributes"));
                }
            }
        }
        "C10" => {
            for (k, chunk) in tables::ATTRS.chunks(8).enumerate() {
                let attrs = chunk
                    .iter()
                    .filter(|(r, _)| !["class", "style", "attributes"].contains(r))
                    .enumerate()
                    .map(|(i, (w, r))| {
                        let a = attr(w, r, i + k, i);
                        let AttrK::Kv(name, v) = a.k else { unreachable!() };
                        Attr {
                            k: AttrK::Dir("attr", Key::Kebab(name), v),
                            effs: a.effs,
                        }
                    })
                    .collect();
                out.push(on_root(attrs, "component directive"));
            }
            for (k, chunk) in tables::EVENTS.chunks(6).enumerate() {
                out.push(on_root(events(chunk, k), "component directive"));
            }
        }
        "C11" => {
            for (k, chunk) in tables::EVENTS.chunks(6).enumerate() {
                let (t, ns) = [("div", ""), ("my-el", ""), ("path", "svg"), ("mi", "math"), ("input", "")][k % 5];
                out.push(case(vec![el(t, t, ns, events(chunk, k), None)], vec![], "on:"));
            }
        }
        _ => {}
    }
    out
}

fn events(chunk: &[(&str, &str)], k: usize) -> Vec<Attr> {
    chunk
        .iter()
        .enumerate()
        .map(|(i, (ev, ty))| {
            let said = format!("h{k}_{i}");
            // the type of the event is part of what is checked
            let src = format!("|_: ::leptos::web_sys::{ty}| ::sup::say(\"{said}\")");
            Attr {
                k: AttrK::Dir("on", Key::Kebab(ev.to_string()), AVal::V(Src::new(Form::Block, src))),
                effs: vec![Eff::Act(format!("on:{ev}|{said}"))],
            }
        })
        .collect()
}

/// `on:event:undelegated`, which cannot compile with this version of Leptos.
pub fn undelegated() -> Vec<Case> {
    let act = |ev: &str| Eff::Act(format!("on:{ev}|u"));
    let dir = |ev: &str| Attr {
        k: AttrK::Dir(
            "on",
            Key::Str(format!("{ev}:undelegated")),
            AVal::V(Src::new(Form::Block, "|_| ::sup::say(\"u\")")),
        ),
        effs: vec![act(ev)],
    };
    vec![
        case(vec![el("button", "button", "", vec![dir("click")], None)], vec![], "on:"),
        case(vec![el("my-el", "my-el", "", vec![dir("keydown")], Some(vec![]))], vec![], "on:"),
        on_root(vec![dir("click")], "on:"),
    ]
}

/// Items with the name of a variable that the macro defines.
pub fn dummies() -> Vec<Case> {
    ["static __x: i64 = 1;"]
        .iter()
        .map(|item| {
            let mut c = case(
                vec![Node::El(Box::new(Elem {
                    tag: "p".into(),
                    name: "p".into(),
                    ns: "",
                    sels: vec![Attr {
                        k: AttrK::Sel('.', "a".into()),
                        effs: vec![Eff::Class("a".into())],
                    }],
                    attrs: vec![],
                    children: None,
                    paren: false,
                }))],
                vec![],
                "shadowed",
            );
            c.shadows.push(item.to_string());
            c
        })
        .collect()
}

/// The cases of what is known to be wrong.
pub fn known(id: &str) -> (Vec<Case>, &'static str) {
    match id {
        "C11" => (
            undelegated(),
            "`on:event:undelegated` does not compile with Leptos 0.7: there is no function `undelegated`",
        ),
        "C18" => (
            dummies(),
            "a view with a selector does not compile where a static is called `__x`",
        ),
        _ => (vec![], ""),
    }
}
