//! F01: bounded buffers, failing sinks and refused allocations.

use super::template::{gen_vars, simple};
use super::Sx;
use crate::alloc_fault::{counting, with_budget};
use crate::engine::{Cx, Prop, R};
use crate::gen::{self, Want};
use crate::model;
use crate::{both_specs, ck, eq};
use iri_string::build::Builder;
use iri_string::format::{try_append_to_string, write_to_slice, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::PercentEncoded;
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use std::fmt::{self, Write as _};

pub static PROPS: &[Prop] = &[Prop {
    id: "F01",
    quick: 300_000,
    thorough: 6_000_000,
    case: f01,
    rule: "distinct lazily rendered values written to bounded buffers, failing sinks and under refused allocations at every point",
    required: &[
        "spec:uri", "spec:iri", "kind:normalize", "kind:resolve", "kind:mask", "kind:encode", "kind:build", "kind:percent", "kind:template", "kind:inline", "kind:host", "host-refused", "fits", "overflow", "exact", "sink-error", "alloc-refused",
        "alloc-refused-later", "append-kept",
    ],
}, Prop {
    id: "A01",
    quick: 500_000,
    thorough: 10_000_000,
    case: a01,
    rule: "distinct operations on borrowed texts and lazily rendered values executed under an allocation counter",
    required: &[
        "spec:uri", "spec:iri", "parse-ok", "parse-error", "components", "compare", "normalize", "resolve", "mask", "map",
        "percent", "decode", "build", "build-error", "template", "template-error", "expand", "sink-error", "slice", "counter-works",
    ],
}];

struct Fail<'a> {
    got: String,
    budget: usize,
    errors: &'a mut u32,
}
impl fmt::Write for Fail<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.budget {
            *self.errors += 1;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn rendered<T: fmt::Display>(cx: &mut Cx<'_>, v: &T, what: &str) -> R {
    let text = v.to_string();
    let n = text.len();
    // Bounded buffers.
    let mut sizes = vec![0, n.saturating_sub(1), n, n + 1, n + 17];
    sizes.push(cx.rng.below(n + 1));
    for size in sizes {
        let pad = 24;
        let mut buf = vec![0xEEu8; size + pad];
        let res = write_to_slice(&mut buf[..size], v).map(str::to_owned);
        match res {
            Ok(s) => {
                ck!(size >= n, "{what}: {n} bytes fit into {size}");
                eq!(s, text.clone(), "{what}: text in a buffer of {size} bytes");
                eq!(&buf[..n], text.as_bytes(), "{what}: buffer content");
                ck!(buf[n..].iter().all(|b| *b == 0xEE), "{what}: bytes after the text were modified");
                cx.hit(if size == n { "exact" } else { "fits" });
            }
            Err(_) => {
                ck!(size < n, "{what}: {n} bytes do not fit into {size}");
                ck!(buf[size..].iter().all(|b| *b == 0xEE), "{what}: bytes after the buffer were modified");
                cx.hit("overflow");
            }
        }
        cx.obs(3);
    }
    // Failing sink: what was written is a prefix, and the error is reported.
    let budget = cx.rng.below(n + 2);
    let mut errors = 0;
    let mut f = Fail { got: String::new(), budget, errors: &mut errors };
    let res = write!(f, "{v}");
    let got = std::mem::take(&mut f.got);
    ck!(text.starts_with(&got), "{what}: {got:?} written to a failing sink is not a prefix of {text:?}");
    if res.is_ok() {
        eq!(errors, 0, "{what}: swallowed sink errors");
        eq!(got, text.clone(), "{what}: text in an unfailing sink");
    } else {
        ck!(errors > 0, "{what}: an error was reported though the sink did not fail");
        cx.hit("sink-error");
    }
    // Refused allocations.
    for budget in 0..3 {
        let (res, refused) = with_budget(budget, || v.try_to_string());
        match res {
            Ok(s) => {
                eq!(refused, 0, "{what}: refused allocations that were not reported");
                eq!(s, text.clone(), "{what}: try_to_string");
            }
            Err(_) => {
                ck!(refused > 0, "{what}: try_to_string failed without a refused allocation");
                cx.hit(if budget == 0 { "alloc-refused" } else { "alloc-refused-later" });
            }
        }
        let mut dest = String::from("prefix\u{e9}");
        let (res, refused) = with_budget(budget, || try_append_to_string(&mut dest, v));
        let tail = dest.strip_prefix("prefix\u{e9}").ok_or_else(|| format!("{what}: the destination was overwritten: {dest:?}"))?;
        if res.is_ok() {
            eq!(refused, 0, "{what}: refused allocations that were not reported");
            eq!(tail, text.as_str(), "{what}: try_append_to_string");
        } else {
            ck!(refused > 0, "{what}: try_append_to_string failed without a refused allocation");
            ck!(text.starts_with(tail), "{what}: {tail:?} appended is not a prefix of {text:?}");
            cx.hit("append-kept");
        }
        cx.obs(4);
    }
    Ok(())
}

fn dedicated<T: ToDedicatedString + fmt::Display>(cx: &mut Cx<'_>, v: &T, what: &str) -> R
where
    T::Target: AsRef<str>,
{
    rendered(cx, v, what)?;
    let text = v.to_string();
    eq!(v.to_dedicated_string().as_ref(), text.as_str(), "{what}: to_dedicated_string");
    for budget in 0..3 {
        let (res, refused) = with_budget(budget, || v.try_to_dedicated_string());
        match res {
            Ok(s) => {
                eq!(refused, 0, "{what}: refused allocations that were not reported");
                eq!(s.as_ref(), text.as_str(), "{what}: try_to_dedicated_string");
            }
            Err(_) => ck!(refused > 0, "{what}: try_to_dedicated_string failed without a refused allocation"),
        }
        cx.obs(2);
    }
    Ok(())
}

both_specs!(f01, f01_g);
fn f01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let r = &mut cx.rng;
    let kind = i % 9;
    match kind {
        0 => {
            let s = gen::reference(r, sp, Want::Iri);
            cx.input(format!("{sp:?} normalize {s:?}"));
            let v = RiStr::<S>::new(&s).map_err(|e| e.to_string())?;
            dedicated(cx, &v.normalize(), "normalize")?;
            dedicated(cx, &v.normalize_but_preserve_authorityless_relative_path(), "normalize (preserving)")?;
            if let Ok(v) = RiAbsoluteStr::<S>::new(&s) {
                dedicated(cx, &v.normalize(), "normalize absolute")?;
            }
            cx.hit("kind:normalize");
        }
        1 => {
            let b = gen::base(r, sp);
            let s = gen::relative(r, sp);
            cx.input(format!("{sp:?} resolve {s:?} against {b:?}"));
            let b = RiAbsoluteStr::<S>::new(&b).map_err(|e| e.to_string())?;
            let v = RiReferenceStr::<S>::new(&s).map_err(|e| e.to_string())?;
            dedicated(cx, &v.resolve_against(b), "resolve")?;
            dedicated(cx, &v.resolve_against(b).and_normalize(), "resolve and normalize")?;
            cx.hit("kind:resolve");
        }
        2 => {
            let s = gen::reference(r, sp, Want::Reference);
            let alt = r.pstr(&["", "***", "[redacted]", "\u{e9}"]);
            cx.input(format!("{sp:?} mask {s:?} with {alt:?}"));
            let v = RiReferenceStr::<S>::new(&s).map_err(|e| e.to_string())?;
            macro_rules! go {
                ($v:expr) => {
                    dedicated(cx, &$v.mask_password(), "mask_password")?;
                    rendered(cx, &$v.mask_password().replace_password(alt), "replace_password")?;
                };
            }
            go!(v);
            match v.to_iri() {
                Ok(v) => { go!(v); }
                Err(v) => { go!(v); }
            }
            if let Ok(v) = RiAbsoluteStr::<S>::new(&s) { go!(v); }
            cx.hit("kind:mask");
        }
        3 => {
            let s = gen::reference(r, model::Sp::Iri, Want::Reference);
            cx.input(format!("encode {s:?}"));
            let v = IriReferenceStr::new(&s).map_err(|e| e.to_string())?;
            dedicated(cx, &v.encode_to_uri(), "encode_to_uri")?;
            match v.to_iri() {
                Ok(v) => dedicated(cx, &v.encode_to_uri(), "encode_to_uri of an IRI")?,
                Err(v) => dedicated(cx, &v.encode_to_uri(), "encode_to_uri of a relative reference")?,
            }
            if let Ok(v) = IriAbsoluteStr::new(&s) { dedicated(cx, &v.encode_to_uri(), "encode_to_uri of an absolute IRI")?; }
            if let Some(v) = v.query() { dedicated(cx, &v.encode_to_uri(), "encode_to_uri of a query")?; }
            if let Some(v) = v.fragment() { dedicated(cx, &v.encode_to_uri(), "encode_to_uri of a fragment")?; }
            cx.hit("kind:encode");
        }
        4 => {
            let s = gen::reference(r, sp, Want::Iri);
            let norm = r.chance(1, 2);
            cx.input(format!("{sp:?} build {s:?} normalize={norm}"));
            let v = RiStr::<S>::new(&s).map_err(|e| e.to_string())?;
            let mut b = Builder::from(v);
            if norm { b.normalize(); }
            let built = b.build::<RiStr<S>>().map_err(|e| e.to_string())?;
            dedicated(cx, &built, "build")?;
            let t = built.to_string();
            macro_rules! go {
                ($ty:ty) => {
                    if let Ok(v) = <$ty>::new(&t) {
                        let built = Builder::from(v).build::<$ty>().map_err(|e| e.to_string())?;
                        dedicated(cx, &built, "build")?;
                    }
                };
            }
            match cx.rng.below(3) {
                0 => { go!(RiAbsoluteStr<S>); }
                1 => { go!(RiReferenceStr<S>); }
                _ => {
                    let rel = model::join(&model::Parts { scheme: None, ..model::split(&t) });
                    if model::v_relative(sp, &rel) {
                        let v = RiRelativeStr::<S>::new(&rel).map_err(|e| e.to_string())?;
                        let built = Builder::from(v).build::<RiRelativeStr<S>>().map_err(|e| e.to_string())?;
                        dedicated(cx, &built, "build relative")?;
                    }
                }
            }
            cx.hit("kind:build");
        }
        5 => {
            let s = gen::raw_text(r);
            cx.input(format!("{sp:?} percent-encode {s:?}"));
            rendered(cx, &PercentEncoded::<_, S>::from_query(&s), "from_query")?;
            rendered(cx, &PercentEncoded::<_, S>::unreserve(&s), "unreserve")?;
            cx.hit("kind:percent");
        }
        6 => {
            let t = gen::template(r);
            let vars = gen_vars(r);
            cx.input(format!("{sp:?} {t:?} with {vars:?}"));
            let tpl = UriTemplateStr::new(&t).map_err(|e| e.to_string())?;
            let sc = simple(&vars);
            if let Ok(e) = tpl.expand::<S, _>(&sc) {
                rendered(cx, &e, "expand")?;
            }
            cx.hit("kind:template");
        }
        7 => {
            // Replacing the host in place, all owned types.
            let s = super::mutate::with_authority(r, sp);
            let h = super::mutate::new_host(r, sp);
            cx.input(format!("{sp:?} in place {s:?} new host {h:?}"));
            let all = super::mutate::m_replace_host(sp, &s, &h, false);
            let reg = super::mutate::m_replace_host(sp, &s, &h, true);
            macro_rules! go {
                ($ty:ty, $name:literal) => {
                    for budget in 0..3 {
                        let spare = cx.rng.chance(1, 4);
                        let mk = || {
                            let mut o = String::with_capacity(s.len() + if spare { 1 } else { 0 });
                            o.push_str(&s);
                            <$ty>::try_from(o).map_err(|_| format!("valid {s:?} rejected"))
                        };
                        let mut o = mk()?;
                        let mut p = mk()?;
                        let (ok, refused) = with_budget(budget, || o.try_replace_host(&h).is_ok());
                        eq!(ok, refused == 0, "{}: success of try_replace_host with {refused} refused allocations", $name);
                        eq!(o.as_str(), if ok { all.0.as_str() } else { s.as_str() }, "{}: text after try_replace_host", $name);
                        let (ok, refused) = with_budget(budget, || p.try_replace_host_reg_name(&h).is_ok());
                        eq!(ok, refused == 0, "{}: success of try_replace_host_reg_name with {refused} refused allocations", $name);
                        eq!(p.as_str(), if ok { reg.0.as_str() } else { s.as_str() }, "{}: text after try_replace_host_reg_name", $name);
                        if refused > 0 { cx.hit("host-refused"); }
                        cx.obs(4);
                    }
                };
            }
            go!(RiReferenceString<S>, "reference");
            if model::split(&s).scheme.is_some() { go!(RiString<S>, "IRI"); } else { go!(RiRelativeString<S>, "relative"); }
            if model::v_absolute(sp, &s) { go!(RiAbsoluteString<S>, "absolute"); }
            cx.hit("kind:host");
        }
        _ => {
            // In-place and consuming fallible conversions give back or keep the source.
            let s = gen::reference(r, model::Sp::Iri, Want::Reference);
            cx.input(format!("in place {s:?}"));
            macro_rules! go {
                ($ty:ty, $s:expr, $name:literal) => {{
                    let s: &str = $s;
                    let want = model::iri_to_uri(s);
                    for budget in 0..3 {
                        let mut o = <$ty>::try_from(s).map_err(|_| format!("valid {s:?} rejected"))?;
                        let (res, refused) = with_budget(budget, || o.try_encode_to_uri_inline());
                        if res.is_ok() {
                            eq!(refused, 0, "{}: try_encode_to_uri_inline: refused allocations that were not reported", $name);
                            eq!(o.as_str(), want.as_str(), "{}: try_encode_to_uri_inline", $name);
                        } else {
                            ck!(refused > 0, "{}: try_encode_to_uri_inline failed without a refused allocation", $name);
                            eq!(o.as_str(), s, "{}: the string after a failed try_encode_to_uri_inline", $name);
                        }
                        let o = <$ty>::try_from(s).map_err(|_| format!("valid {s:?} rejected"))?;
                        let (res, refused) = with_budget(budget, move || o.try_encode_into_uri());
                        match res {
                            Ok(u) => {
                                eq!(refused, 0, "{}: try_encode_into_uri: refused allocations that were not reported", $name);
                                eq!(u.as_str(), want.as_str(), "{}: try_encode_into_uri", $name);
                            }
                            Err(_) => ck!(refused > 0, "{}: try_encode_into_uri failed without a refused allocation", $name),
                        }
                        cx.obs(4);
                    }
                }};
            }
            go!(IriReferenceString, &s, "reference");
            let parts = model::split(&s);
            if parts.scheme.is_some() { go!(IriString, &s, "IRI"); } else { go!(IriRelativeString, &s, "relative"); }
            if model::v_absolute(model::Sp::Iri, &s) { go!(IriAbsoluteString, &s, "absolute"); }
            if let Some(q) = &parts.query { go!(IriQueryString, q, "query"); }
            if let Some(f) = &parts.fragment { go!(IriFragmentString, f, "fragment"); }
            cx.hit("kind:inline");
        }
    }
    cx.nontrivial();
    Ok(())
}

/// A writer without memory of its own: counts, checksums and fails at a byte.
struct Tally {
    left: usize,
    sum: u64,
}
impl fmt::Write for Tally {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.sum = self.sum.wrapping_mul(131).wrapping_add(u64::from(b));
        }
        self.left = self.left.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}
fn tally(v: &dyn fmt::Display, left: usize) -> bool {
    let mut t = Tally { left, sum: 0 };
    let ok = write!(t, "{v}").is_ok();
    std::hint::black_box(t.sum);
    ok
}
/// A context that hands over borrowed texts.
struct Held<'a>(&'a super::template::Vars);
impl iri_string::template::context::Context for Held<'_> {
    fn visit<V: iri_string::template::context::Visitor>(&self, v: V) -> V::Result {
        use iri_string::template::context::{AssocVisitor as _, ListVisitor as _};
        use crate::model::Val;
        use std::ops::ControlFlow;
        match self.0.get(v.var_name().as_str()) {
            None | Some(Val::Undef) => v.visit_undefined(),
            Some(Val::Str(s)) => v.visit_string(s.as_str()),
            Some(Val::List(l)) => {
                let mut w = v.visit_list();
                for i in l {
                    if let ControlFlow::Break(r) = w.visit_item(i) { return r; }
                }
                w.finish()
            }
            Some(Val::Assoc(l)) => {
                let mut w = v.visit_assoc();
                for (k, i) in l {
                    if let ControlFlow::Break(r) = w.visit_entry(k, i) { return r; }
                }
                w.finish()
            }
        }
    }
}

both_specs!(a01, a01_g);
fn a01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    use std::hash::{Hash as _, Hasher as _};
    let sp = S::SP;
    let r = &mut cx.rng;
    // Runs an operation and requires that it made no allocation.
    macro_rules! free {
        ($what:expr, $e:expr) => {{
            let (v, n) = counting(|| $e);
            cx.obs(1);
            ck!(n == 0, "{}: {n} heap allocations", $what);
            v
        }};
    }
    match i % 8 {
        0 => {
            let s = if r.chance(1, 2) { gen::reference(r, sp, Want::Reference) } else { gen::hostile(r, sp) };
            cx.input(format!("{sp:?} parse {s:?}"));
            let mut ok = 0;
            macro_rules! go {
                ($($ty:ident)*) => { $( {
                    let v = free!(concat!(stringify!($ty), "::new"), $ty::<S>::new(&s));
                    if let Err(e) = &v { free!("the validation error", tally(e, usize::MAX)); }
                    ok += usize::from(v.is_ok());
                } )* };
            }
            go!(RiStr RiAbsoluteStr RiReferenceStr RiRelativeStr RiQueryStr RiFragmentStr);
            macro_rules! val {
                ($($f:ident)*; $($g:ident)*) => {
                    $( let _ = free!(concat!("validate::", stringify!($f)), iri_string::validate::$f::<S>(&s)); )*
                    $( let _ = free!(concat!("validate::", stringify!($g)), iri_string::validate::$g(&s)); )*
                };
            }
            val!(iri iri_reference absolute_iri relative_ref authority host reg_name userinfo path path_segment query fragment; scheme port);
            cx.hit(if ok > 0 { "parse-ok" } else { "parse-error" });
        }
        1 => {
            let s = gen::reference(r, sp, Want::Reference);
            let t = if r.chance(1, 2) { gen::reference(r, sp, Want::Reference) } else { s.clone() };
            cx.input(format!("{sp:?} read {s:?} beside {t:?}"));
            let v = RiReferenceStr::<S>::new(&s).map_err(|e| e.to_string())?;
            let w = RiReferenceStr::<S>::new(&t).map_err(|e| e.to_string())?;
            free!("components", {
                let mut n = v.path_str().len();
                for t in [v.scheme_str(), v.authority_str(), v.query_str(), v.fragment_str()].into_iter().flatten() { n += t.len(); }
                n += v.query().map_or(0, |q| q.as_str().len()) + v.fragment().map_or(0, |q| q.as_str().len());
                if let Some(a) = v.authority_components() {
                    n += a.host().len() + a.userinfo().map_or(0, str::len) + a.port().map_or(0, str::len) + a.reg_name().map_or(0, str::len);
                }
                n
            });
            let split = free!("to_iri", v.to_iri());
            if let Ok(v) = split {
                free!("to_absolute_and_fragment", (v.to_absolute(), v.to_absolute_and_fragment()));
                free!("is_normalized", (v.is_normalized(), v.is_normalized_rfc3986(), v.is_normalized_but_authorityless_relative_path_preserved(), v.ensure_rfc3986_normalizable().is_ok()));
            }
            let _ = free!("to_relative_iri", v.to_relative_iri().is_ok());
            cx.hit("components");
            free!("comparison", (v == w, v.partial_cmp(w), v == t.as_str(), v.cmp(w)));
            free!("hash", {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                v.hash(&mut h);
                h.finish()
            });
            free!("Display", tally(&v, usize::MAX));
            cx.hit("compare");
        }
        2 => {
            let s = gen::reference(r, sp, Want::Iri);
            let b = gen::base(r, sp);
            let t = gen::relative(r, sp);
            let left = if r.chance(1, 4) { r.below(s.len() + 1) } else { usize::MAX };
            cx.input(format!("{sp:?} normalize {s:?}, resolve {t:?} against {b:?}, room {left}"));
            let v = RiStr::<S>::new(&s).map_err(|e| e.to_string())?;
            let ok = free!("normalize", tally(&v.normalize(), left));
            free!("preserving normalize", tally(&v.normalize_but_preserve_authorityless_relative_path(), left));
            free!("ensure_rfc3986_normalizable", v.normalize().ensure_rfc3986_normalizable().is_ok());
            if !ok { cx.hit("sink-error"); }
            cx.hit("normalize");
            let b = RiAbsoluteStr::<S>::new(&b).map_err(|e| e.to_string())?;
            let t = RiReferenceStr::<S>::new(&t).map_err(|e| e.to_string())?;
            free!("resolve", tally(&t.resolve_against(b), left));
            free!("normalizing resolve", tally(&t.resolve_against(b).and_normalize(), left));
            free!("ensure_rfc3986_normalizable of a resolution", t.resolve_against(b).ensure_rfc3986_normalizable().is_ok());
            free!("FixedBaseResolver", {
                let f = iri_string::resolve::FixedBaseResolver::new(b);
                tally(&f.resolve(t), left) as usize + f.base().as_str().len()
            });
            cx.hit("resolve");
            let mut buf = [0_u8; 64];
            let _ = free!("write_to_slice", write_to_slice(&mut buf, &v.normalize()).is_ok());
            cx.hit("slice");
        }
        3 => {
            let s = gen::reference(r, sp, Want::Reference);
            let alt = r.pstr(&["", "***", "\u{e9}"]);
            cx.input(format!("{sp:?} mask {s:?} with {alt:?}"));
            let v = RiReferenceStr::<S>::new(&s).map_err(|e| e.to_string())?;
            free!("mask_password", tally(&v.mask_password(), usize::MAX));
            free!("Debug of mask_password", tally(&format_args!("{:?}", v.mask_password()), usize::MAX));
            free!("replace_password", tally(&v.mask_password().replace_password(alt), usize::MAX));
            free!("replace_password_with", tally(&v.mask_password().replace_password_with(|p| p.len()), usize::MAX));
            cx.hit("mask");
        }
        4 => {
            let s = gen::reference(r, model::Sp::Iri, Want::Reference);
            cx.input(format!("map {s:?}"));
            let v = IriReferenceStr::new(&s).map_err(|e| e.to_string())?;
            free!("encode_to_uri", tally(&v.encode_to_uri(), usize::MAX));
            free!("as_uri", v.as_uri().is_some());
            if let Some(q) = v.query() { free!("encode_to_uri of a query", tally(&q.encode_to_uri(), usize::MAX)); }
            cx.hit("map");
        }
        5 => {
            let s = gen::raw_text(r);
            cx.input(format!("{sp:?} encode and decode {s:?}"));
            macro_rules! go {
                ($($f:ident)*) => { $( free!(stringify!($f), tally(&PercentEncoded::<_, S>::$f(s.as_str()), usize::MAX)); )* };
            }
            go!(from_reg_name from_user from_password from_path_segment from_path from_query from_fragment unreserve characters);
            cx.hit("percent");
            free!("decoded fragments", {
                use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
                let d = decode_whatwg_bytes(s.as_bytes());
                let mut n = d.to_bytes().map_or(0, <[u8]>::len);
                for f in d.bytes_fragments() {
                    n += match f {
                        DecodedFragment::Direct(b) => b.len(),
                        DecodedFragment::StrayPercent => 2,
                        DecodedFragment::DecodedByte(c) => usize::from(c),
                    };
                }
                n
            });
            cx.hit("decode");
        }
        6 => {
            let s = gen::reference(r, sp, Want::Reference);
            let user = gen::raw_text(r);
            let path = r.pstr(&["", "/", "//a", "a:b", "a/../b", "/a//../%2e/", "a b", "rel/x", "/../.."]);
            let norm = r.chance(1, 2);
            let port = r.below(70_000) as u16;
            cx.input(format!("{sp:?} build {s:?} user {user:?} path {path:?} port {port} normalize={norm}"));
            let v = RiReferenceStr::<S>::new(&s).map_err(|e| e.to_string())?;
            let mut out = [0_u8; 2];
            macro_rules! go {
                ($ty:ty, $k:expr, $edit:expr) => {
                    out[$k] = free!("Builder", {
                        let mut b = Builder::from(v);
                        if norm { b.normalize(); }
                        let edit: fn(&mut Builder<'_>, u16) = $edit;
                        edit(&mut b, port);
                        if $k == 1 { b.userinfo((user.as_str(), Some("p"))); b.path(path); }
                        match b.build::<$ty>() {
                            Ok(x) => { tally(&x, usize::MAX); let _ = x.ensure_rfc3986_normalizable(); 1_u8 }
                            Err(e) => { tally(&e, usize::MAX); 2 }
                        }
                    });
                };
            }
            go!(RiReferenceStr<S>, 0, |_, _| ());
            go!(RiReferenceStr<S>, 1, |b, p| { b.port(p); b.ip_address([127, 0, 0, 1]); });
            for o in out { cx.hit(if o == 1 { "build" } else { "build-error" }); }
        }
        _ => {
            let t = if r.chance(3, 4) { gen::template(r) } else { gen::template_near(r) };
            let vars = gen_vars(r);
            cx.input(format!("{sp:?} {t:?} with {vars:?}"));
            let held = Held(&vars);
            match free!("UriTemplateStr::new", UriTemplateStr::new(&t)) {
                Ok(tpl) => {
                    free!("variables", tpl.variables().map(|v| v.as_str().len()).sum::<usize>());
                    let e = free!("expand", tpl.expand::<S, _>(&held));
                    match e {
                        Ok(e) => { free!("Display of the expansion", tally(&e, usize::MAX)); cx.hit("expand"); }
                        Err(e) => { free!("Display of the error", tally(&e, usize::MAX)); cx.hit("template-error"); }
                    }
                    cx.hit("template");
                }
                Err(e) => { free!("Display of the error", tally(&e, usize::MAX)); cx.hit("template-error"); }
            }
        }
    }
    // The counter is alive.
    let (_, n) = counting(|| std::hint::black_box(String::from("x")));
    ck!(n == 1, "monitor: the allocation counter missed an allocation");
    cx.hit("counter-works");
    cx.nontrivial();
    Ok(())
}
