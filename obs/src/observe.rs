//! Everything the library observably does for the inputs of one case.

use crate::engine::Rng;
use crate::gen::{self, Want};
use iri_string::build::{Builder, UserinfoBuilder};
use iri_string::convert::MappedToUri;
use iri_string::format::write_to_slice;
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, ListVisitor, Visitor};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use iri_string::validate;
use crate::model::{Sp, Val};
use std::collections::BTreeMap;
use std::fmt::{self, Write as _};

/// The observation log: a running hash, and the text itself when shown.
pub struct Log {
    pub hash: u64,
    pub len: u64,
    pub text: Option<String>,
}
impl Log {
    fn new(keep: bool) -> Self {
        Log { hash: 0xcbf2_9ce4_8422_2325, len: 0, text: keep.then(String::new) }
    }
}
impl fmt::Write for Log {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.as_bytes() {
            self.hash ^= u64::from(*b);
            self.hash = self.hash.wrapping_mul(0x100_0000_01b3);
        }
        self.len += s.len() as u64;
        if let Some(t) = &mut self.text {
            t.push_str(s);
        }
        Ok(())
    }
}

pub type Vars = BTreeMap<String, Val>;
struct Ctx<'a>(&'a Vars);
fn deliver<V: Visitor>(v: V, val: Option<&Val>) -> V::Result {
    match val.unwrap_or(&Val::Undef) {
        Val::Undef => v.visit_undefined(),
        Val::Str(s) => v.visit_string(s),
        Val::List(l) => {
            let mut lv = v.visit_list();
            for x in l {
                if let std::ops::ControlFlow::Break(b) = lv.visit_item(x) {
                    return b;
                }
            }
            lv.finish()
        }
        Val::Assoc(l) => {
            let mut av = v.visit_assoc();
            for (k, x) in l {
                if let std::ops::ControlFlow::Break(b) = av.visit_entry(k, x) {
                    return b;
                }
            }
            av.finish()
        }
    }
}
impl Context for Ctx<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let n = v.var_name().as_str().to_owned();
        deliver(v, self.0.get(&n))
    }
}

#[derive(Clone)]
pub struct Case {
    pub s: String,
    pub base: String,
    pub parts: gen::RefParts,
    pub ops: u64,
    pub tpl: String,
    pub vars: Vars,
    pub raw: String,
    pub bytes: Vec<u8>,
    pub host: String,
    pub frag: String,
}

pub fn make(seed: u64, i: u64) -> (Sp, Case) {
    let mut r = Rng::new(seed ^ i.wrapping_mul(0xD129_0D3B_3B2F_0F2D));
    let r = &mut r;
    let sp = if r.chance(1, 2) { Sp::Uri } else { Sp::Iri };
    let s = match r.below(4) {
        0 => gen::hostile(r, sp),
        1 => gen::relative(r, sp),
        2 => gen::base(r, sp),
        _ => gen::reference(r, sp, Want::Reference),
    };
    let base = gen::base(r, sp);
    let parts = gen::parts(r, sp, Want::Reference);
    let ops = r.next();
    let tpl = if r.chance(1, 3) { gen::template_near(r) } else { gen::template(r) };
    let mut vars = Vars::new();
    for n in ["var", "x", "y", "list", "keys", "empty", "hello", "path", "undef", "a", "b"] {
        vars.insert(n.to_owned(), gen::val(r));
    }
    let raw = gen::raw_text(r);
    let mut bytes = gen::hostile(r, sp).into_bytes();
    if r.chance(1, 3) && !bytes.is_empty() {
        let k = r.below(bytes.len());
        bytes[k] = r.next() as u8;
    }
    let host = gen::host(r, sp);
    let frag = gen::fragment(r, sp);
    (sp, Case { s, base, parts, ops, tpl, vars, raw, bytes, host, frag })
}

macro_rules! w {
    ($o:expr, $($a:tt)*) => { let _ = writeln!($o, $($a)*); };
}

fn auth(o: &mut Log, a: Option<iri_string::components::AuthorityComponents<'_>>) {
    match a {
        Some(a) => { w!(o, "auth {:?} {:?} {:?} {:?}", a.userinfo(), a.host(), a.port(), a.reg_name()); }
        None => { w!(o, "no auth"); }
    }
}

fn core<S: Spec>(c: &Case, o: &mut Log) {
    let s = c.s.as_str();
    w!(
        o,
        "validate {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
        validate::iri::<S>(s).is_ok(), validate::iri_reference::<S>(s).is_ok(), validate::absolute_iri::<S>(s).is_ok(),
        validate::relative_ref::<S>(s).is_ok(), validate::authority::<S>(s).is_ok(), validate::host::<S>(s).is_ok(),
        validate::path::<S>(s).is_ok(), validate::query::<S>(s).is_ok(), validate::fragment::<S>(s).is_ok(),
        validate::userinfo::<S>(s).is_ok(), validate::path_segment::<S>(s).is_ok(), validate::reg_name::<S>(s).is_ok(),
        validate::port(s).is_ok(), validate::scheme(s).is_ok(), validate::host::<S>(&c.host).is_ok()
    );
    let mut buf = [0u8; 64];
    macro_rules! shown {
        ($tag:literal, $v:expr) => {{
            let v = $v;
            w!(o, "{} {}", $tag, v);
            match write_to_slice(&mut buf, &v) {
                Ok(t) => { w!(o, "  slice {t}"); }
                Err(_) => { w!(o, "  no room"); }
            }
        }};
    }
    let base = RiAbsoluteStr::<S>::new(&c.base);
    w!(o, "base {}", base.is_ok());
    if let Ok(b) = base {
        shown!("base normalized", b.normalize());
        shown!("base preserved", b.normalize_but_preserve_authorityless_relative_path());
        w!(o, "{} {} {} {}", b.is_normalized(), b.is_normalized_rfc3986(), b.is_normalized_but_authorityless_relative_path_preserved(), b.ensure_rfc3986_normalizable().is_ok());
        shown!("base masked", b.mask_password());
        auth(o, b.authority_components());
        w!(o, "{:?} {:?} {:?} {:?}", b.scheme_str(), b.authority_str(), b.path_str(), b.query_str());
    }
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        w!(o, "ref {:?} {:?} {:?} {:?} {:?} {}", r.scheme_str(), r.authority_str(), r.path_str(), r.query_str(), r.fragment_str(), r.to_iri().is_ok());
        auth(o, r.authority_components());
        shown!("masked", r.mask_password());
        shown!("replaced", r.mask_password().replace_password("***"));
        shown!("replaced with", r.mask_password().replace_password_with(|p| p.len()));
        if let Ok(b) = base {
            shown!("resolved", r.resolve_against(b));
            shown!("resolved normalized", r.resolve_against(b).and_normalize());
            shown!("resolved preserved", r.resolve_against(b).and_normalize_but_preserve_authorityless_relative_path());
            shown!("resolved fixed", FixedBaseResolver::new(b).resolve(r));
            w!(o, "{} {}", r.resolve_against(b).ensure_rfc3986_normalizable().is_ok(), r.resolve_against(b).and_normalize().ensure_rfc3986_normalizable().is_ok());
        }
        let mut bl = Builder::from(r);
        if c.ops & 1 != 0 { bl.normalize(); }
        if c.ops & 2 != 0 { bl.host(&c.host); }
        if c.ops & 4 != 0 { bl.unset_scheme(); }
        match bl.build::<RiReferenceStr<S>>() { Ok(v) => shown!("rebuilt", v), Err(_) => { w!(o, "not rebuilt"); } }
    }
    if let Ok(i) = RiStr::<S>::new(s) {
        shown!("normalized", i.normalize());
        shown!("preserved", i.normalize_but_preserve_authorityless_relative_path());
        w!(o, "{} {} {} {}", i.is_normalized(), i.is_normalized_rfc3986(), i.is_normalized_but_authorityless_relative_path_preserved(), i.ensure_rfc3986_normalizable().is_ok());
        let (a, f) = i.to_absolute_and_fragment();
        w!(o, "{a} {f:?}");
    }
    if let Ok(i) = IriReferenceStr::new(s) {
        shown!("mapped", MappedToUri::from(i));
        w!(o, "{}", i.as_uri().is_some());
    }
    // Builder from the parts.
    let p = &c.parts;
    let mut bl = Builder::new();
    if let Some(v) = &p.scheme { bl.scheme(v); }
    if let Some(a) = &p.authority {
        if let Some(u) = &a.userinfo {
            if c.ops & 8 != 0 { bl.userinfo(u.as_str()); } else { bl.userinfo(UserinfoBuilder::from((u.as_str(), "pw"))); }
        }
        bl.host(&a.host);
        if let Some(v) = &a.port { bl.port(v.as_str()); }
    }
    bl.path(if c.ops & 16 != 0 { &c.raw } else { &p.path });
    if let Some(v) = &p.query { bl.query(v); }
    if let Some(v) = &p.fragment { bl.fragment(v); }
    if c.ops & 32 != 0 { bl.normalize(); }
    macro_rules! build {
        ($t:ty) => {
            match bl.clone().build::<$t>() {
                Ok(v) => { w!(o, "{}", v.ensure_rfc3986_normalizable().is_ok()); shown!("built", v); }
                Err(_) => { w!(o, "not built"); }
            }
        };
    }
    build!(RiReferenceStr<S>);
    build!(RiStr<S>);
    build!(RiAbsoluteStr<S>);
    build!(RiRelativeStr<S>);
    // Percent encoding.
    let raw = c.raw.as_str();
    shown!("pe", PercentEncoded::<_, S>::from_user(raw));
    shown!("pe", PercentEncoded::<_, S>::from_path_segment(raw));
    shown!("pe", PercentEncoded::<_, S>::from_query(raw));
    shown!("pe", PercentEncoded::<_, S>::unreserve(raw));
    shown!("pe", PercentEncoded::<_, S>::characters(raw));
    for b in [raw.as_bytes(), &c.bytes] {
        let d = decode_whatwg_bytes(b);
        w!(o, "{:?} {:?}", d.to_bytes(), d.bytes_fragments().collect::<Vec<_>>());
    }
    w!(o, "{}", <&RiReferenceStr<S>>::try_from(c.bytes.as_slice()).is_ok());
    // Templates.
    match UriTemplateStr::new(&c.tpl) {
        Ok(t) => {
            for v in t.variables() { w!(o, "var {}", v.as_str()); }
            let ctx = Ctx(&c.vars);
            match t.expand::<S, _>(&ctx) { Ok(e) => shown!("expanded", e), Err(_) => { w!(o, "not expanded"); } }
            let mut sink = String::new();
            let ok = t.expand_dynamic::<S, _, _>(&mut sink, &mut Ctx(&c.vars)).is_ok();
            if ok { w!(o, "expanded dynamically {sink}"); }
        }
        Err(_) => { w!(o, "no template"); }
    }
}

#[cfg(not(feature = "alloc"))]
fn owned<S: Spec>(_: &Case, _: &mut Log) {}

#[cfg(feature = "alloc")]
fn owned<S: Spec>(c: &Case, o: &mut Log) {
    use iri_string::format::{ToDedicatedString, ToStringFallible};
    use iri_string::template::UriTemplateString;
    let s = c.s.as_str();
    macro_rules! ded {
        ($tag:literal, $v:expr) => {{
            let v = $v;
            w!(o, "{} {} {:?}", $tag, v.to_dedicated_string(), v.try_to_string().ok());
        }};
    }
    if let (Ok(b), Ok(r)) = (RiAbsoluteStr::<S>::new(&c.base), RiReferenceStr::<S>::new(s)) {
        ded!("resolved", r.resolve_against(b));
        ded!("resolved", r.resolve_against(b).and_normalize());
        ded!("resolved", r.resolve_against(b).and_normalize_but_preserve_authorityless_relative_path());
        ded!("base", b.normalize());
        ded!("base", b.mask_password());
    }
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        ded!("masked", r.mask_password());
        w!(o, "{}", r.mask_password().replace_password("x").to_string());
        let mut v = r.to_owned();
        v.remove_nonempty_password_inline();
        w!(o, "{v}");
        v.remove_password_inline();
        w!(o, "{v}");
        let h = v.replace_host(&c.host).map(str::to_owned);
        w!(o, "{h:?} {v}");
        let h = v.replace_host_reg_name("new.example").map(str::to_owned);
        w!(o, "{h:?} {v}");
        v.set_fragment(RiFragmentStr::new(&c.frag).ok());
        w!(o, "{v}");
        v.set_fragment(None);
        w!(o, "{v} {:?}", v.clone().into_iri());
        let mut bl = Builder::from(r);
        bl.normalize();
        if let Ok(b) = bl.build::<RiReferenceStr<S>>() { ded!("built", b); }
    }
    if let Ok(i) = RiString::<S>::try_from(s) {
        ded!("normalized", i.normalize());
        w!(o, "{:?} {}", i.clone().into_absolute_and_fragment(), i.into_absolute());
    }
    if let Ok(mut i) = IriReferenceString::try_from(s) {
        w!(o, "{} {:?}", i.encode_to_uri().to_dedicated_string(), i.clone().try_into_uri().is_ok());
        i.encode_to_uri_inline();
        w!(o, "{i} {}", i.clone().encode_into_uri());
    }
    for b in [c.raw.as_bytes(), &c.bytes] {
        let d = decode_whatwg_bytes(b);
        w!(o, "{:?} {:?}", d.into_bytes(), d.into_string().ok());
    }
    w!(o, "{}", RiReferenceString::<S>::try_from(c.bytes.as_slice()).is_ok());
    if let Ok(t) = UriTemplateString::try_from(c.tpl.as_str()) {
        let mut t2 = t.clone();
        t2.append(&t);
        w!(o, "{t2}");
        w!(o, "{:?}", t.expand_dynamic_to_string::<S, _>(&mut Ctx(&c.vars)).ok());
    }
}

/// The observations of one case: with and without allocation.
pub fn observe_case(sp: Sp, c: &Case, keep: bool) -> (Log, Log) {
    let (mut a, mut b) = (Log::new(keep), Log::new(keep));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match sp {
        Sp::Uri => { core::<UriSpec>(c, &mut a); owned::<UriSpec>(c, &mut b); }
        Sp::Iri => { core::<IriSpec>(c, &mut a); owned::<IriSpec>(c, &mut b); }
    }));
    if r.is_err() {
        w!(a, "PANIC");
    }
    (a, b)
}

pub fn observe(seed: u64, i: u64, keep: bool) -> (Log, Log, Case) {
    let (sp, c) = make(seed, i);
    let (a, b) = observe_case(sp, &c, keep);
    (a, b, c)
}
