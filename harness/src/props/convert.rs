//! C01..C03: IRI to URI mapping, type conversions, comparisons.

use super::Sx;
use crate::engine::{Cx, Prop, R};
use crate::gen::{self, Want};
use crate::model::{self, Sp};
use crate::{both_specs, ck, eq};
use iri_string::convert::MappedToUri;
use iri_string::format::{ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        quick: 2_000_000,
        thorough: 10_000_000,
        case: c01,
        rule: "distinct IRI strings mapped to URIs through every conversion (lazy, in place, consuming, fallible) and compared with the model",
        required: &["ascii", "non-ascii", "iprivate", "astral", "long", "reference", "iri", "absolute", "relative", "query", "fragment"],
    },
    Prop {
        id: "C02",
        quick: 1_600_000,
        thorough: 8_000_000,
        case: c02,
        rule: "distinct references passed through every conversion between string types and containers",
        required: &["spec:uri", "spec:iri", "iri", "absolute", "relative", "has-fragment"],
    },
    Prop {
        id: "C03",
        quick: 500_000,
        thorough: 10_000_000,
        case: c03,
        rule: "distinct pairs of references compared, ordered and hashed across types and with plain strings",
        required: &["spec:uri", "spec:iri", "equal", "less", "greater", "cross-type", "cross-type-table", "template"],
    },
];

fn c01(cx: &mut Cx<'_>, i: u64) -> R {
    let kind = i % 6;
    let r = &mut cx.rng;
    let s = match kind {
        0 => gen::reference(r, Sp::Iri, Want::Reference),
        1 => gen::reference(r, Sp::Iri, Want::Iri),
        2 => gen::reference(r, Sp::Iri, Want::Absolute),
        3 => gen::reference(r, Sp::Iri, Want::Relative),
        4 => gen::query(r, Sp::Iri),
        _ => gen::fragment(r, Sp::Iri),
    };
    let what = ["reference", "iri", "absolute", "relative", "query", "fragment"][kind as usize];
    cx.input(format!("{what} {s:?}"));
    let want = model::iri_to_uri(&s);
    let ascii = s.is_ascii();
    macro_rules! go {
        ($iri:ident, $iris:ident, $uri:ident, $uris:ident, $model:expr) => {{
            let v = $iri::new(&s).map_err(|_| format!("valid {what} {s:?} rejected"))?;
            let o = || $iris::try_from(s.as_str()).unwrap();
            eq!(v.encode_to_uri().to_string().as_str(), want.as_str(), "encode_to_uri of {s:?}");
            super::flags(&v.encode_to_uri(), &want, "encode_to_uri")?;
            let d: $uris = v.encode_to_uri().to_dedicated_string();
            eq!(d.as_str(), want.as_str(), "encode_to_uri().to_dedicated_string() of {s:?}");
            eq!(v.encode_to_uri().try_to_string().ok().as_deref(), Some(want.as_str()), "encode_to_uri().try_to_string() of {s:?}");
            eq!(MappedToUri::from(v).to_string().as_str(), want.as_str(), "MappedToUri of {s:?}");
            eq!(MappedToUri::from(&o()).to_string().as_str(), want.as_str(), "MappedToUri of the owned {s:?}");
            let mut m = o();
            m.encode_to_uri_inline();
            eq!(m.as_str(), want.as_str(), "encode_to_uri_inline of {s:?}");
            m.encode_to_uri_inline();
            eq!(m.as_str(), want.as_str(), "encode_to_uri_inline of {s:?} twice");
            let mut m = o();
            ck!(m.try_encode_to_uri_inline().is_ok(), "try_encode_to_uri_inline of {s:?} failed");
            eq!(m.as_str(), want.as_str(), "try_encode_to_uri_inline of {s:?}");
            let u: $uris = o().encode_into_uri();
            eq!(u.as_str(), want.as_str(), "encode_into_uri of {s:?}");
            match o().try_encode_into_uri() {
                Ok(u) => eq!(u.as_str(), want.as_str(), "try_encode_into_uri of {s:?}"),
                Err(e) => return Err(format!("try_encode_into_uri of {s:?}: {e:?}")),
            }
            match (v.as_uri(), ascii) {
                (Some(u), true) => eq!(u.as_str(), s.as_str(), "as_uri"),
                (None, false) => {}
                (x, _) => return Err(format!("as_uri of {s:?} is {x:?}")),
            }
            match (o().try_into_uri(), ascii) {
                (Ok(u), true) => eq!(u.as_str(), s.as_str(), "try_into_uri"),
                (Err(b), false) => eq!(b.as_str(), s.as_str(), "try_into_uri gives back the source"),
                (x, _) => return Err(format!("try_into_uri of {s:?} is {x:?}")),
            }
            // The result is a URI, and reads back as an IRI.
            let u = $uri::new(&want);
            let f: fn(Sp, &str) -> bool = $model;
            ck!(u.is_ok() && f(Sp::Uri, &want), "the mapping {want:?} of {s:?} is not a valid URI {what}");
            let u = u.unwrap();
            let as_iri: &$iri = u.as_ref();
            eq!(as_iri.as_str(), want.as_str(), "URI as an IRI");
            let back: $iris = u.to_owned().into();
            eq!(back.as_str(), want.as_str(), "URI into an IRI");
            // It is injective on what it encodes: decoding the new triplets restores the IRI.
            cx.obs(14);
        }};
    }
    match kind {
        0 => go!(IriReferenceStr, IriReferenceString, UriReferenceStr, UriReferenceString, model::v_reference),
        1 => go!(IriStr, IriString, UriStr, UriString, model::v_iri),
        2 => go!(IriAbsoluteStr, IriAbsoluteString, UriAbsoluteStr, UriAbsoluteString, model::v_absolute),
        3 => go!(IriRelativeStr, IriRelativeString, UriRelativeStr, UriRelativeString, model::v_relative),
        4 => go!(IriQueryStr, IriQueryString, UriQueryStr, UriQueryString, model::v_query),
        _ => go!(IriFragmentStr, IriFragmentString, UriFragmentStr, UriFragmentString, model::v_fragment),
    }
    eq!(
        decode_whatwg_bytes(want.as_bytes()).into_bytes(),
        decode_whatwg_bytes(s.as_bytes()).into_bytes(),
        "bytes meant by the mapping of {s:?}"
    );
    cx.obs(1);
    cx.hit(what);
    cx.hit(if ascii { "ascii" } else { "non-ascii" });
    if s.chars().any(model::iprivate) { cx.hit("iprivate"); }
    if s.chars().any(|c| c as u32 > 0xffff) { cx.hit("astral"); }
    if s.len() > 100 { cx.hit("long"); }
    cx.nontrivial();
    Ok(())
}

macro_rules! containers {
    ($slice:ident, $owned:ident, $S:ident, $v:expr, $cx:expr) => {{
        let v: &$slice<$S> = $v;
        let s = v.as_str();
        let o: $owned<$S> = v.to_owned();
        eq!(o.as_str(), s, "to_owned");
        eq!($owned::<$S>::from(v).as_str(), s, "From<&slice>");
        eq!(o.clone().as_str(), s, "clone");
        eq!(String::from(o.clone()).as_str(), s, "String");
        let b: Box<$slice<$S>> = v.into();
        eq!(b.as_str(), s, "Box from slice");
        let b: Box<$slice<$S>> = o.clone().into();
        eq!(b.as_str(), s, "Box from owned");
        drop(b);
        let rc: Rc<$slice<$S>> = v.into();
        let rc2 = rc.clone();
        eq!(rc.as_str(), s, "Rc");
        drop(rc);
        eq!(rc2.as_str(), s, "Rc clone");
        let ar: Arc<$slice<$S>> = v.into();
        let ar2 = ar.clone();
        drop(ar);
        eq!(ar2.as_str(), s, "Arc");
        let c: Cow<'_, $slice<$S>> = v.into();
        ck!(matches!(c, Cow::Borrowed(_)), "Cow from a slice is not borrowed");
        eq!(c.as_str(), s, "Cow borrowed");
        let c: Cow<'static, $slice<$S>> = o.clone().into();
        eq!(c.as_str(), s, "Cow owned");
        eq!(c.into_owned().as_str(), s, "Cow into_owned");
        let st: &str = v.into();
        eq!(st, s, "&str from slice");
        let d: &$slice<$S> = &o;
        eq!(d.as_str(), s, "Deref");
        eq!(o.as_slice().as_str(), s, "as_slice");
        let a: &$slice<$S> = o.as_ref();
        eq!(a.as_str(), s, "AsRef");
        let a: &str = o.as_ref();
        eq!(a, s, "AsRef<str>");
        let mut k = o.clone();
        ck!(k.capacity() >= s.len(), "capacity");
        k.shrink_to_fit();
        eq!(k.as_str(), s, "shrink_to_fit");
        let bs: &str = k.borrow();
        eq!(bs, s, "Borrow<str>");
        eq!(format!("{k}").as_str(), s, "Display");
        eq!(format!("{k:>3}{v:<2}").replace(' ', ""), format!("{s}{s}"), "padded Display");
        $cx.obs(19);
    }};
}

both_specs!(c02, c02_g);
fn c02_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let s = gen::reference(&mut cx.rng, sp, Want::Reference);
    cx.input(format!("{sp:?} {s:?}"));
    let p = model::split(&s);
    let r = RiReferenceStr::<S>::new(&s).map_err(|_| format!("valid reference {s:?} rejected"))?;
    containers!(RiReferenceStr, RiReferenceString, S, r, cx);
    let has_scheme = p.scheme.is_some();
    let has_frag = p.fragment.is_some();
    if has_frag { cx.hit("has-fragment"); }
    let owned = || r.to_owned();
    // Downcasts of the reference.
    eq!(<&RiStr<S>>::try_from(r).is_ok(), has_scheme, "&reference to &IRI of {s:?}");
    eq!(<&RiRelativeStr<S>>::try_from(r).is_ok(), !has_scheme, "&reference to &relative of {s:?}");
    eq!(<&RiAbsoluteStr<S>>::try_from(r).is_ok(), has_scheme && !has_frag, "&reference to &absolute of {s:?}");
    match RiString::<S>::try_from(owned()) {
        Ok(v) => { ck!(has_scheme, "reference {s:?} became an IRI"); eq!(v.as_str(), s.as_str(), "reference into IRI"); }
        Err(e) => { ck!(!has_scheme, "reference {s:?} did not become an IRI"); eq!(e.into_source().as_str(), s.as_str(), "source"); }
    }
    match RiRelativeString::<S>::try_from(owned()) {
        Ok(v) => { ck!(!has_scheme, "reference {s:?} became relative"); eq!(v.as_str(), s.as_str(), "reference into relative"); }
        Err(e) => { ck!(has_scheme, "reference {s:?} did not become relative"); eq!(e.into_source().as_str(), s.as_str(), "source"); }
    }
    match RiAbsoluteString::<S>::try_from(owned()) {
        Ok(v) => { ck!(has_scheme && !has_frag, "reference {s:?} became absolute"); eq!(v.as_str(), s.as_str(), "reference into absolute"); }
        Err(e) => { ck!(!has_scheme || has_frag, "reference {s:?} did not become absolute"); eq!(e.into_source().as_str(), s.as_str(), "source"); }
    }
    match (owned().into_iri(), has_scheme) {
        (Ok(v), true) => eq!(v.as_str(), s.as_str(), "into_iri"),
        (Err(v), false) => eq!(v.as_str(), s.as_str(), "into_iri"),
        (x, _) => return Err(format!("into_iri of {s:?} is {x:?}")),
    }
    match (owned().into_relative_iri(), has_scheme) {
        (Ok(v), false) => eq!(v.as_str(), s.as_str(), "into_relative_iri"),
        (Err(v), true) => eq!(v.as_str(), s.as_str(), "into_relative_iri"),
        (x, _) => return Err(format!("into_relative_iri of {s:?} is {x:?}")),
    }
    cx.obs(8);
    let cut = s.find('#').unwrap_or(s.len());
    if has_scheme {
        cx.hit("iri");
        let v = RiStr::<S>::new(&s).map_err(|_| format!("valid IRI {s:?} rejected"))?;
        containers!(RiStr, RiString, S, v, cx);
        let up: &RiReferenceStr<S> = v.as_ref();
        eq!(up.as_str(), s.as_str(), "IRI as reference");
        let up: &RiReferenceStr<S> = v.into();
        eq!(up.as_str(), s.as_str(), "IRI as reference");
        let up: RiReferenceString<S> = v.to_owned().into();
        eq!(up.as_str(), s.as_str(), "IRI into reference");
        match RiAbsoluteString::<S>::try_from(v.to_owned()) {
            Ok(a) => { ck!(!has_frag, "IRI {s:?} became absolute"); eq!(a.as_str(), s.as_str(), "IRI into absolute"); }
            Err(e) => { ck!(has_frag, "IRI {s:?} did not become absolute"); eq!(e.into_source().as_str(), s.as_str(), "source"); }
        }
        eq!(<&RiAbsoluteStr<S>>::try_from(v).is_ok(), !has_frag, "&IRI to &absolute of {s:?}");
        let (a, f) = v.to_owned().into_absolute_and_fragment();
        eq!(a.as_str(), &s[..cut], "into_absolute_and_fragment of {s:?}");
        eq!(f.as_ref().map(|f| f.as_str()), p.fragment, "into_absolute_and_fragment of {s:?}");
        eq!(v.to_owned().into_absolute().as_str(), &s[..cut], "into_absolute of {s:?}");
        if let Some(f) = f {
            containers!(RiFragmentStr, RiFragmentString, S, f.as_slice(), cx);
        }
        let a = v.to_absolute();
        cx.hit("absolute");
        containers!(RiAbsoluteStr, RiAbsoluteString, S, a, cx);
        let up: &RiStr<S> = a.as_ref();
        eq!(up.as_str(), &s[..cut], "absolute as IRI");
        let up: &RiReferenceStr<S> = a.as_ref();
        eq!(up.as_str(), &s[..cut], "absolute as reference");
        let up: RiString<S> = a.to_owned().into();
        eq!(up.as_str(), &s[..cut], "absolute into IRI");
        let up: RiReferenceString<S> = a.to_owned().into();
        eq!(up.as_str(), &s[..cut], "absolute into reference");
        cx.obs(12);
    } else {
        cx.hit("relative");
        let v = RiRelativeStr::<S>::new(&s).map_err(|_| format!("valid relative reference {s:?} rejected"))?;
        containers!(RiRelativeStr, RiRelativeString, S, v, cx);
        let up: &RiReferenceStr<S> = v.as_ref();
        eq!(up.as_str(), s.as_str(), "relative as reference");
        let up: RiReferenceString<S> = v.to_owned().into();
        eq!(up.as_str(), s.as_str(), "relative into reference");
        cx.obs(2);
    }
    if let Some(q) = r.query() {
        containers!(RiQueryStr, RiQueryString, S, q, cx);
    }
    cx.nontrivial();
    Ok(())
}

fn h<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut s = DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}

both_specs!(c03, c03_g);
fn c03_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let a = gen::reference(&mut cx.rng, sp, Want::Reference);
    let b = match cx.rng.below(4) {
        0 => a.clone(),
        1 => {
            // Differs in case, or in a suffix.
            let m = match cx.rng.below(3) {
                0 => a.to_ascii_uppercase(),
                1 => format!("{a}a"),
                _ => a.chars().take(a.chars().count().saturating_sub(1)).collect(),
            };
            if model::v_reference(sp, &m) { m } else { a.clone() }
        }
        2 => gen::mutate(&mut cx.rng, &a),
        _ => gen::reference(&mut cx.rng, sp, Want::Reference),
    };
    let b = if model::v_reference(sp, &b) { b } else { a.clone() };
    cx.input(format!("{sp:?} {a:?} {b:?}"));
    let x = RiReferenceStr::<S>::new(&a).map_err(|_| format!("valid reference {a:?} rejected"))?;
    let y = RiReferenceStr::<S>::new(&b).map_err(|_| format!("valid reference {b:?} rejected"))?;
    let want = a.as_str().cmp(b.as_str());
    let e = want == Ordering::Equal;
    let (xo, yo) = (x.to_owned(), y.to_owned());
    macro_rules! rel {
        ($l:expr, $r:expr, $what:literal) => {{
            eq!($l == $r, e, "{} == of {a:?} and {b:?}", $what);
            eq!($l.partial_cmp(&$r), Some(want), "{} partial_cmp of {a:?} and {b:?}", $what);
            cx.obs(2);
        }};
    }
    eq!(x.cmp(y), want, "cmp of {a:?} and {b:?}");
    eq!(xo.cmp(&yo), want, "cmp of {a:?} and {b:?}");
    rel!(*x, *y, "slice");
    rel!(xo, yo, "owned");
    rel!(xo, *y, "owned and slice");
    rel!(*x, yo, "slice and owned");
    rel!(xo, y, "owned and &slice");
    rel!(*x, *b.as_str(), "slice and str");
    rel!(*x, b.as_str(), "slice and &str");
    rel!(*a.as_str(), *y, "str and slice");
    rel!(a.as_str(), *y, "&str and slice");
    rel!(xo, *b.as_str(), "owned and str");
    rel!(xo, b.as_str(), "owned and &str");
    rel!(xo, b, "owned and String");
    rel!(a, yo, "String and owned");
    rel!(*a.as_str(), yo, "str and owned");
    let cb: Cow<'_, str> = Cow::Borrowed(&b);
    rel!(*x, cb, "slice and Cow<str>");
    rel!(xo, cb, "owned and Cow<str>");
    // Equal values have equal hashes; Borrow agrees with Hash, Eq and Ord.
    eq!(h(x), h(a.as_str()), "hash of the slice and of the string {a:?}");
    eq!(h(&xo), h(a.as_str()), "hash of the owned and of the string {a:?}");
    let mut m: HashMap<RiReferenceString<S>, u8> = HashMap::new();
    m.insert(xo.clone(), 1);
    eq!(m.contains_key(b.as_str()), e, "HashMap lookup by &str");
    eq!(m.contains_key(y), e, "HashMap lookup by slice");
    let set: BTreeSet<RiReferenceString<S>> = [xo.clone(), yo.clone()].into_iter().collect();
    eq!(set.len(), 2 - usize::from(e), "BTreeSet size");
    ck!(set.contains(a.as_str()) && set.contains(y), "BTreeSet lookup");
    let sorted: Vec<&str> = set.iter().map(|v| v.as_str()).collect();
    let mut expect = vec![a.as_str(), b.as_str()];
    expect.sort();
    expect.dedup();
    eq!(sorted, expect, "BTreeSet order");
    cx.obs(9);
    // Across types.
    if let Ok(yi) = RiStr::<S>::new(&b) {
        cx.hit("cross-type");
        rel!(*x, *yi, "reference and IRI");
    }
    if let (Ok(xi), Ok(yi)) = (RiStr::<S>::new(&a), RiAbsoluteStr::<S>::new(&b)) {
        rel!(*xi, *yi, "IRI and absolute");
        rel!(xi.to_owned(), yi.to_owned(), "owned IRI and owned absolute");
        rel!(*x, *yi, "reference and absolute");
        eq!(h(yi), h(b.as_str()), "hash of the absolute IRI {b:?}");
        eq!(h(xi), h(a.as_str()), "hash of the IRI {a:?}");
    }
    if let Ok(yr) = RiRelativeStr::<S>::new(&b) {
        cx.hit("cross-type");
        rel!(*x, *yr, "reference and relative");
        rel!(xo, yr.to_owned(), "owned reference and owned relative");
        eq!(h(yr), h(b.as_str()), "hash of the relative reference {b:?}");
    }
    // Across specs.
    if let (Ok(xu), Ok(yi)) = (UriReferenceStr::new(&a), IriReferenceStr::new(&b)) {
        rel!(xu.to_owned(), yi.to_owned(), "URI and IRI, owned");
        rel!(xu.to_owned(), *yi, "owned URI and IRI slice");
    }
    // The complete table of comparisons, both ways round, for every string type.
    macro_rules! sym {
        ($l:expr, $r:expr, $w:expr, $what:literal) => {{
            let (l, r) = (&$l, &$r);
            let w: Ordering = $w;
            eq!(*l == *r, w.is_eq(), "{} of {a:?} and {b:?}: ==", $what);
            eq!(*r == *l, w.is_eq(), "{} of {a:?} and {b:?}: == reversed", $what);
            eq!(PartialOrd::partial_cmp(l, r), Some(w), "{} of {a:?} and {b:?}: partial_cmp", $what);
            eq!(PartialOrd::partial_cmp(r, l), Some(w.reverse()), "{} of {a:?} and {b:?}: partial_cmp reversed", $what);
            cx.obs(4);
        }};
    }
    macro_rules! within {
        ($Slice:ident, $Owned:ident, $x:expr, $y:expr) => {
            if let (Ok(x), Ok(y), Ok(yu), Ok(yi)) = (<$Slice<S>>::new($x), <$Slice<S>>::new($y), <$Slice<UriSpec>>::new($y).or(<$Slice<UriSpec>>::new("")).or(<$Slice<UriSpec>>::new("x:")), <$Slice<IriSpec>>::new($y)) {
                let (xs, ys): (&str, &str) = (x.as_str(), y.as_str());
                let w = xs.cmp(ys);
                let (xo, yo, ysg): (_, _, String) = (x.to_owned(), y.to_owned(), ys.into());
                let cs: Cow<'_, str> = if cx.index % 2 == 0 { Cow::Borrowed(ys) } else { Cow::Owned(ys.into()) };
                let ct: Cow<'_, $Slice<S>> = if cx.index % 2 == 0 { Cow::Borrowed(y) } else { Cow::Owned(yo.clone()) };
                eq!(x.cmp(y), w, "cmp of the slices {xs:?} and {ys:?}");
                eq!(xo.cmp(&yo), w, "cmp of the owned {xs:?} and {ys:?}");
                sym!(*x, *y, w, "slice, slice");
                sym!(*x, *ys, w, "slice, str");
                sym!(*x, ys, w, "slice, &str");
                sym!(x, *ys, w, "&slice, str");
                sym!(*x, cs, w, "slice, Cow<str>");
                sym!(x, cs, w, "&slice, Cow<str>");
                sym!(x, ct, w, "&slice, Cow<slice>");
                sym!(xo, *ys, w, "owned, str");
                sym!(xo, ys, w, "owned, &str");
                sym!(xo, cs, w, "owned, Cow<str>");
                sym!(xo, ysg, w, "owned, String");
                sym!(xo, yo, w, "owned, owned");
                sym!(xo, *y, w, "owned, slice");
                sym!(xo, y, w, "owned, &slice");
                sym!(ct, xo, w.reverse(), "Cow<slice>, owned");
                // The same type with another spec.
                let wu = xs.cmp(yu.as_str());
                sym!(x, *yu, wu, "&slice, URI slice");
                sym!(xo, *yu, wu, "owned, URI slice");
                sym!(xo, yu, wu, "owned, &URI slice");
                sym!(x, *yi, w, "&slice, IRI slice");
                sym!(xo, *yi, w, "owned, IRI slice");
                sym!(xo, yi, w, "owned, &IRI slice");
                eq!(h(x), h(xs), "hash of the slice {xs:?}");
                eq!(h(&xo), h(xs), "hash of the owned {xs:?}");
                let m: HashMap<$Owned<S>, u8> = [(xo.clone(), 1)].into_iter().collect();
                eq!(m.contains_key(ys), w.is_eq(), "HashMap lookup of {ys:?} by str");
                eq!(m.contains_key(y), w.is_eq(), "HashMap lookup of {ys:?} by slice");
                cx.obs(6);
            }
        };
    }
    macro_rules! across {
        ($Fs:ident, $Fo:ident, $Ts:ident, $To:ident, $x:expr, $y:expr) => {
            if let (Ok(x), Ok(y)) = (<$Fs<S>>::new($x), <$Ts<IriSpec>>::new($y)) {
                let w = x.as_str().cmp(y.as_str());
                let (xo, yo) = (x.to_owned(), y.to_owned());
                let cx_: Cow<'_, $Fs<S>> = Cow::Borrowed(x);
                let cy: Cow<'_, $Ts<IriSpec>> = Cow::Owned(yo.clone());
                sym!(*x, *y, w, "cross-type slice, slice");
                sym!(x, *y, w, "cross-type &slice, slice");
                sym!(*x, y, w, "cross-type slice, &slice");
                sym!(*x, cy, w, "cross-type slice, Cow");
                sym!(x, cy, w, "cross-type &slice, Cow");
                sym!(cx_, *y, w, "cross-type Cow, slice");
                sym!(cx_, y, w, "cross-type Cow, &slice");
                sym!(*x, yo, w, "cross-type slice, owned");
                sym!(x, yo, w, "cross-type &slice, owned");
                sym!(cx_, yo, w, "cross-type Cow, owned");
                sym!(xo, *y, w, "cross-type owned, slice");
                sym!(xo, y, w, "cross-type owned, &slice");
                sym!(xo, cy, w, "cross-type owned, Cow");
                sym!(xo, yo, w, "cross-type owned, owned");
                cx.hit("cross-type-table");
            }
        };
    }
    let abs = |s: &str| s.split('#').next().unwrap_or("").to_string();
    let (aa, ab) = (abs(&a), abs(&b));
    within!(RiReferenceStr, RiReferenceString, &a, &b);
    within!(RiStr, RiString, &a, &b);
    within!(RiAbsoluteStr, RiAbsoluteString, &aa, &ab);
    within!(RiRelativeStr, RiRelativeString, &a, &b);
    let (pa, pb) = (model::split(&a), model::split(&b));
    within!(RiQueryStr, RiQueryString, pa.query.unwrap_or(""), pb.query.unwrap_or(""));
    within!(RiFragmentStr, RiFragmentString, pa.fragment.unwrap_or(""), pb.fragment.unwrap_or(""));
    across!(RiStr, RiString, RiReferenceStr, RiReferenceString, &a, &b);
    across!(RiAbsoluteStr, RiAbsoluteString, RiReferenceStr, RiReferenceString, &aa, &b);
    across!(RiAbsoluteStr, RiAbsoluteString, RiStr, RiString, &aa, &b);
    across!(RiRelativeStr, RiRelativeString, RiReferenceStr, RiReferenceString, &a, &b);
    // Templates.
    let (ta, tb) = (gen::template(&mut cx.rng), if e { None } else { Some(gen::template(&mut cx.rng)) });
    let tb = tb.unwrap_or_else(|| ta.clone());
    if let (Ok(x), Ok(y)) = (UriTemplateStr::new(&ta), UriTemplateStr::new(&tb)) {
        cx.hit("template");
        let w = ta.as_str().cmp(tb.as_str());
        let (xo, yo) = (x.to_owned(), y.to_owned());
        let cs: Cow<'_, str> = Cow::Borrowed(&tb);
        let ys: &str = &tb;
        sym!(*x, *y, w, "template slice, slice");
        sym!(*x, *ys, w, "template slice, str");
        sym!(*x, ys, w, "template slice, &str");
        sym!(x, *ys, w, "template &slice, str");
        sym!(*x, cs, w, "template slice, Cow<str>");
        sym!(x, cs, w, "template &slice, Cow<str>");
        sym!(xo, yo, w, "template owned, owned");
        sym!(xo, *ys, w, "template owned, str");
        sym!(xo, ys, w, "template owned, &str");
        sym!(xo, cs, w, "template owned, Cow<str>");
        sym!(xo, tb, w, "template owned, String");
        eq!(x.cmp(y), w, "cmp of templates");
        eq!(xo.cmp(&yo), w, "cmp of templates");
        eq!(h(x), h(ta.as_str()), "hash of the template {ta:?}");
        eq!(h(&xo), h(ta.as_str()), "hash of the owned template {ta:?}");
        let m: HashMap<UriTemplateString, u8> = [(xo.clone(), 1)].into_iter().collect();
        eq!(m.contains_key(ys), w.is_eq(), "HashMap lookup of the template {ys:?}");
        eq!(m.contains_key(y), w.is_eq(), "HashMap lookup of the template {ys:?}");
    }
    cx.hit(match want { Ordering::Equal => "equal", Ordering::Less => "less", Ordering::Greater => "greater" });
    cx.nontrivial();
    Ok(())
}
