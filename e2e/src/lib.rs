//! What generated programs use besides leptos.
use leptos::prelude::*;
use leptos::tachys::html::{element::ElementType, node_ref::NodeRefContainer};
use leptos::tachys::renderer::types::Element;
pub use leptos::tachys::verif::say;
use std::cell::{Cell, RefCell};
use std::fmt::{Debug, Write};
use std::sync::Arc;

thread_local! {
    static EPOCH: Cell<u8> = const { Cell::new(0) };
    static LOG: RefCell<Vec<(u32, u8)>> = const { RefCell::new(Vec::new()) };
}

/// Records that (and when) an expression was evaluated.
pub fn e<T>(id: u32, value: T) -> T {
    LOG.with(|l| l.borrow_mut().push((id, EPOCH.get())));
    value
}

pub fn show<T: Debug + ?Sized>(t: &T) -> String {
    format!("{t:?}")
}

pub fn memo<T: PartialEq + Clone + Send + Sync + 'static>(t: T) -> Memo<T> {
    Memo::new(move |_| t.clone())
}

#[derive(Clone, Copy)]
pub struct RefProbe(pub &'static str);
impl<E: ElementType> NodeRefContainer<E> for RefProbe {
    fn load(self, _el: &Element) {
        say(self.0)
    }
}

pub fn second<A, B>(_: A, b: B) -> B {
    b
}

pub fn d0(_el: Element) {
    say("d0")
}

#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub x: i64,
    pub y: &'static str,
}

/// Children with one argument as a slot can hold them.
#[derive(Clone)]
pub struct ArgFn<A>(pub Arc<dyn Fn(A) -> AnyView + Send + Sync>);
impl<A, F, V> From<F> for ArgFn<A>
where
    F: Fn(A) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    fn from(f: F) -> Self {
        Self(Arc::new(move |a| f(a).into_any()))
    }
}

pub struct ArgFn0(pub Arc<dyn Fn() -> AnyView + Send + Sync>);
impl<F, V> From<F> for ArgFn0
where
    F: Fn() -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    fn from(f: F) -> Self {
        Self(Arc::new(move || f().into_any()))
    }
}
pub struct ArgFn2<A, B>(pub Arc<dyn Fn(A, B) -> AnyView + Send + Sync>);
impl<A, B, F, V> From<F> for ArgFn2<A, B>
where
    F: Fn(A, B) -> V + Send + Sync + 'static,
    V: IntoView + 'static,
{
    fn from(f: F) -> Self {
        Self(Arc::new(move |a, b| f(a, b).into_any()))
    }
}

/// Made from nothing, in no other way.
#[derive(Clone, Debug)]
pub struct FromUnit(pub u8);
impl From<()> for FromUnit {
    fn from((): ()) -> Self {
        Self(7)
    }
}
/// As before, but `Default` says something else.
#[derive(Clone, Debug, Default)]
pub struct UnitOrDefault(pub u8);
impl From<()> for UnitOrDefault {
    fn from((): ()) -> Self {
        Self(7)
    }
}
/// Neither `Clone` nor `Copy`.
pub struct Own(pub &'static str);

#[component]
fn Wrapped<V: IntoView>(inner: V) -> impl IntoView {
    inner
}

/// The view as that of another component.
pub fn nested<V: IntoView>(inner: V) -> impl IntoView {
    view! { <Wrapped inner/> }
}

pub struct Out {
    pub html: String,
    pub log: Vec<(u32, u8)>,
}

/// Builds the view (epoch 0), then renders it (epoch 1).
pub fn run<V: IntoView>(f: impl FnOnce() -> V) -> Out {
    EPOCH.set(0);
    LOG.with(|l| l.borrow_mut().clear());
    let owner = Owner::new();
    let html = owner.with(|| {
        let view = f().into_view();
        EPOCH.set(1);
        view.to_html()
    });
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    Out { html, log }
}

fn json(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                out.push('\\');
                out.push(c);
            }
            c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Runs all cases; one line of JSON for each.
pub fn main(cases: &[(usize, fn() -> Out)]) {
    std::panic::set_hook(Box::new(|_| {}));
    for (i, f) in cases {
        let mut line = String::new();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(out) => {
                write!(line, "[{i},true,").unwrap();
                json(&mut line, &out.html);
                write!(line, ",{:?}]", out.log.iter().map(|(a, b)| [*a, u32::from(*b)]).collect::<Vec<_>>()).unwrap();
            }
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                write!(line, "[{i},false,").unwrap();
                json(&mut line, &msg);
                line.push_str(",[]]");
            }
        }
        println!("{line}");
    }
}
