//! The monitored properties.

use crate::engine::Prop;
use crate::model::Sp;
use iri_string::spec::{IriSpec, Spec, UriSpec};

mod builder;
mod convert;
mod fault;
mod memory;
mod mutate;
mod normalize;
mod pct;
mod pure;
#[cfg(feature = "serde")]
mod serde;
mod template;
mod types;
mod work;

/// A spec of the library together with the model's name for it.
pub trait Sx: Spec + 'static {
    const SP: Sp;
}
impl Sx for UriSpec {
    const SP: Sp = Sp::Uri;
}
impl Sx for IriSpec {
    const SP: Sp = Sp::Iri;
}

/// Formatter flags apply to the whole text or to nothing, never to a part.
pub fn flags<T: std::fmt::Display + ?Sized>(v: &T, text: &str, what: &str) -> Result<(), String> {
    let n = text.chars().count();
    let (w, p) = ((n + 3).min(60_000), (n / 2).min(60_000));
    let pairs = [
        (format!("{v:>w$}"), format!("{text:>w$}"), "{:>w}"),
        (format!("{v:#07}"), format!("{text:07}"), "{:#07}"),
        (format!("{v:.p$}"), format!("{text:.p$}"), "{:.p}"),
        (format!("{v:*^+12.1}"), format!("{text:*^12.1}"), "{:*^+12.1}"),
    ];
    for (got, padded, f) in pairs {
        if got != text && got != padded {
            return Err(format!("{what}: displayed with {f} it is {got:?}, neither the text {text:?} nor {padded:?}"));
        }
    }
    Ok(())
}

/// Debug renderings under several formatter flags.
pub fn debug_flags<T: std::fmt::Debug + ?Sized>(v: &T) -> Vec<String> {
    vec![
        format!("{v:20?}"),
        format!("{v:#20?}"),
        format!("{v:.3?}"),
        format!("{v:#.40?}"),
        format!("{v:x?}"),
        format!("{v:#X?}"),
        format!("{v:+?}"),
        format!("{v:-?}"),
        format!("{v:+#010?}"),
        format!("{v:*^70?}"),
        format!("{:#1?}", [v]),
        format!("{:?}", Some((v, v))),
    ]
}

/// Runs a generic case for one of the two specs.
#[macro_export]
macro_rules! both_specs {
    ($name:ident, $f:ident) => {
        fn $name(cx: &mut $crate::engine::Cx<'_>, i: u64) -> $crate::engine::R {
            if cx.rng.chance(1, 2) {
                cx.hit("spec:uri");
                $f::<iri_string::spec::UriSpec>(cx, i)
            } else {
                cx.hit("spec:iri");
                $f::<iri_string::spec::IriSpec>(cx, i)
            }
        }
    };
}

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(types::PROPS);
    v.extend(convert::PROPS);
    v.extend(normalize::PROPS);
    v.extend(pct::PROPS);
    v.extend(mutate::PROPS);
    v.extend(builder::PROPS);
    v.extend(template::PROPS);
    v.extend(fault::PROPS);
    v.extend(memory::PROPS);
    v.extend(pure::PROPS);
    v.extend(work::PROPS);
    #[cfg(feature = "serde")]
    v.extend(serde::PROPS);
    v
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}
