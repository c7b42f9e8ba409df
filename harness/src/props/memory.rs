//! Z01: memory safety.
//!
//! Drives every operation that goes through unchecked conversions, raw
//! pointers of boxes and reference counters, or in-place edits of owned
//! buffers. The judges are the allocator monitor (deallocation with another
//! layout, double free, poisoned memory read back, leaks), UTF-8 validity and
//! containment of every text observed, and, in other builds of this same
//! workload, AddressSanitizer and Miri.

use super::Sx;
use crate::alloc_fault;
use crate::engine::{Cx, Prop, Rng, R};
use crate::gen::{self, Want};
use crate::model::Sp;
use crate::{both_specs, ck, eq};
use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::format::{write_to_slice, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

pub static PROPS: &[Prop] = &[Prop {
    id: "Z01",
    quick: 400_000,
    thorough: 8_000_000,
    case: z01,
    rule: "distinct (operation group, text) pairs executed under the allocator monitor with every returned text re-read byte by byte",
    required: &[
        "spec:uri", "spec:iri", "containers", "downcasts", "uri-iri", "mutations", "dedicated", "builder",
        "percent", "template", "bytes", "history", "leak-checked", "iterators",
    ],
}];

/// Re-reads every byte of a text and checks that it is a text.
fn txt(s: &str, what: &str) -> Result<usize, String> {
    let b: Vec<u8> = s.as_bytes().to_vec();
    match std::str::from_utf8(&b) {
        Ok(t) => Ok(t.chars().count()),
        Err(e) => Err(format!("{what}: the text is not valid UTF-8: {e}: {b:02x?}")),
    }
}

/// `part` is a text inside `whole` (or empty).
fn within(whole: &str, part: &str, what: &str) -> R {
    let (w, p) = (whole.as_ptr() as usize, part.as_ptr() as usize);
    ck!(
        part.is_empty() || (p >= w && p + part.len() <= w + whole.len()),
        "{what}: the returned text does not lie inside the text it was taken from"
    );
    txt(part, what).map(|_| ())
}

/// Room left behind a text in its buffer: none, some or plenty.
fn spare_room(s: &str) -> usize {
    let h = s.bytes().fold(7_usize, |h, b| h.wrapping_mul(31).wrapping_add(usize::from(b)));
    let hot = &crate::dict::dict().hot_nums;
    if !hot.is_empty() && h % 3 == 0 {
        return (hot[(h / 3) % hot.len()] + h / 64 % 3).min(100_000);
    }
    [0, 1, 40, 70, 130, 300, 1100, 5000, 70_000][h / 3 % 9]
}

macro_rules! smart {
    ($slice:ty, $owned:ty, $s:expr) => {{
        let s: &str = $s;
        if let Ok(v) = <&$slice>::try_from(s) {
            let v: &$slice = v;
            within(s, v.as_str(), "slice")?;
            let n = v.as_str().len();
            let mut o: $owned = v.to_owned();
            let b: Box<$slice> = v.into();
            let b2: Box<$slice> = o.clone().into();
            let rc: Rc<$slice> = v.into();
            let ar: Arc<$slice> = v.into();
            let (rc2, ar2) = (rc.clone(), Arc::clone(&ar));
            let mut spare = String::with_capacity(n + spare_room(s));
            spare.push_str(s);
            let roomy = <$owned>::try_from(spare).map_err(|_| "roomy String rejected".to_string())?;
            let b3: Box<$slice> = roomy.clone().into();
            let b4: Box<$slice> = roomy.into();
            let cow: Cow<'_, $slice> = v.into();
            let cow2: Cow<'_, $slice> = o.clone().into();
            o.shrink_to_fit();
            for t in [
                b.as_str(), b2.as_str(), b3.as_str(), b4.as_str(), rc.as_str(), ar.as_str(),
                cow.as_str(), cow2.as_str(), o.as_str(),
            ] {
                txt(t, "container")?;
                eq!(t, s, "text held by a container");
            }
            drop(rc);
            drop(ar);
            eq!(Rc::strong_count(&rc2), 1, "reference count");
            eq!(Arc::strong_count(&ar2), 1, "reference count");
            txt(rc2.as_str(), "Rc after the other owner is gone")?;
            txt(ar2.as_str(), "Arc after the other owner is gone")?;
            // Equality through the pointee, and moving to another thread.
            ck!(*b == *b2 && *rc2 == *ar2, "containers of equal text differ");
            let back: String = o.into();
            txt(&back, "String from owned")?;
            drop(cow2.into_owned());
        }
        match <$owned>::try_from(s.to_owned()) {
            Ok(o) => { txt(o.as_str(), "owned from String")?; }
            Err(e) => {
                // The source comes back untouched.
                let src: String = e.into_source();
                txt(&src, "source of a failed conversion")?;
                eq!(src.as_str(), s, "source of a failed conversion");
            }
        }
    }};
}

fn containers<S: Spec>(s: &str, which: usize) -> R {
    match which % 7 {
        0 => smart!(RiReferenceStr<S>, RiReferenceString<S>, s),
        1 => smart!(RiStr<S>, RiString<S>, s),
        2 => smart!(RiAbsoluteStr<S>, RiAbsoluteString<S>, s),
        3 => smart!(RiRelativeStr<S>, RiRelativeString<S>, s),
        4 => smart!(RiQueryStr<S>, RiQueryString<S>, s),
        5 => smart!(RiFragmentStr<S>, RiFragmentString<S>, s),
        _ => smart!(UriTemplateStr, UriTemplateString, s),
    }
    Ok(())
}

fn downcasts<S: Spec>(s: &str) -> R {
    let Ok(r) = RiReferenceString::<S>::try_from(s) else { return Ok(()) };
    match r.to_iri() {
        Ok(v) => within(r.as_str(), v.as_str(), "to_iri")?,
        Err(v) => within(r.as_str(), v.as_str(), "to_relative_iri")?,
    }
    match r.to_relative_iri() {
        Ok(v) => within(r.as_str(), v.as_str(), "to_relative_iri")?,
        Err(v) => within(r.as_str(), v.as_str(), "to_iri")?,
    }
    for t in [r.scheme_str(), r.authority_str(), Some(r.path_str()), r.query_str(), r.fragment_str()].into_iter().flatten() {
        within(r.as_str(), t, "component")?;
    }
    if let Some(q) = r.query() { within(r.as_str(), q.as_str(), "query")?; }
    if let Some(f) = r.fragment() { within(r.as_str(), f.as_str(), "fragment")?; }
    if let Some(a) = r.authority_components() {
        for t in [a.userinfo(), Some(a.host()), a.port(), a.reg_name()].into_iter().flatten() {
            within(r.as_str(), t, "authority component")?;
        }
    }
    match RiString::<S>::try_from(r.clone()) {
        Ok(v) => { txt(v.as_str(), "IRI")?; }
        Err(e) => { txt(e.into_source().as_str(), "source")?; }
    }
    match RiAbsoluteString::<S>::try_from(r.clone()) {
        Ok(v) => { txt(v.as_str(), "absolute")?; }
        Err(e) => { txt(e.into_source().as_str(), "source")?; }
    }
    match RiRelativeString::<S>::try_from(r.clone()) {
        Ok(v) => { txt(v.as_str(), "relative")?; }
        Err(e) => { txt(e.into_source().as_str(), "source")?; }
    }
    match r.clone().into_relative_iri() {
        Ok(v) => { let up: RiReferenceString<S> = v.into(); txt(up.as_str(), "relative and back")?; }
        Err(v) => { let up: RiReferenceString<S> = v.into(); txt(up.as_str(), "IRI and back")?; }
    }
    match r.clone().into_iri() {
        Ok(v) => {
            let (a, f) = v.to_absolute_and_fragment();
            within(v.as_str(), a.as_str(), "absolute part")?;
            if let Some(f) = f { within(v.as_str(), f.as_str(), "fragment part")?; }
            within(v.as_str(), v.to_absolute().as_str(), "absolute part")?;
            let (a, f) = v.clone().into_absolute_and_fragment();
            txt(a.as_str(), "absolute part")?;
            if let Some(f) = f { txt(f.as_str(), "fragment part")?; }
            let a = v.into_absolute();
            txt(a.as_str(), "absolute part")?;
            let up: RiString<S> = a.clone().into();
            let up2: RiReferenceString<S> = a.into();
            txt(up.as_str(), "IRI of the absolute part")?;
            txt(up2.as_str(), "reference of the absolute part")?;
        }
        Err(v) => { txt(v.as_str(), "relative")?; }
    }
    Ok(())
}

macro_rules! uri_iri {
    ($s:expr; $is:ident, $io:ident, $us:ident, $uo:ident) => {{
        let s: &str = $s;
        if let Ok(v) = $is::new(s) {
            if let Some(u) = v.as_uri() {
                within(s, u.as_str(), "as_uri")?;
                let again: &$is = u.as_ref();
                within(s, again.as_str(), "URI as IRI")?;
            }
            let m = MappedToUri::from(v);
            let d = m.to_dedicated_string();
            txt(d.as_str(), "mapped to URI")?;
            txt(v.encode_to_uri().to_dedicated_string().as_str(), "mapped to URI")?;
            let mut o = v.to_owned();
            match o.clone().try_into_uri() {
                Ok(u) => { txt(u.as_str(), "URI")?; let i: $io = u.into(); txt(i.as_str(), "IRI of the URI")?; }
                Err(i) => { txt(i.as_str(), "IRI that is no URI")?; }
            }
            o.encode_to_uri_inline();
            txt(o.as_str(), "encoded in place")?;
            let mut o2 = v.to_owned();
            o2.shrink_to_fit();
            o2.try_encode_to_uri_inline().map_err(|e| e.to_string())?;
            eq!(o.as_str(), o2.as_str(), "encoded in place");
            let u: $uo = v.to_owned().encode_into_uri();
            txt(u.as_str(), "encoded into a URI")?;
            let us: &$us = &u;
            eq!(us.as_str(), o.as_str(), "encoded into a URI");
            let u2 = v.to_owned().try_encode_into_uri().map_err(|e| e.to_string())?;
            txt(u2.as_str(), "encoded into a URI")?;
        }
    }};
}

fn uri_iri(s: &str, which: usize) -> R {
    match which % 6 {
        0 => uri_iri!(s; IriReferenceStr, IriReferenceString, UriReferenceStr, UriReferenceString),
        1 => uri_iri!(s; IriStr, IriString, UriStr, UriString),
        2 => uri_iri!(s; IriAbsoluteStr, IriAbsoluteString, UriAbsoluteStr, UriAbsoluteString),
        3 => uri_iri!(s; IriRelativeStr, IriRelativeString, UriRelativeStr, UriRelativeString),
        4 => uri_iri!(s; IriQueryStr, IriQueryString, UriQueryStr, UriQueryString),
        _ => uri_iri!(s; IriFragmentStr, IriFragmentString, UriFragmentStr, UriFragmentString),
    }
    Ok(())
}

macro_rules! mutate {
    ($owned:ty, $S:ident, $s:expr, $host:expr, $frag:expr, $frags:tt) => {{
        if let Ok(mut o) = <$owned>::try_from($s) {
            o.remove_nonempty_password_inline();
            txt(o.as_str(), "after removing a non-empty password")?;
            o.remove_password_inline();
            txt(o.as_str(), "after removing the password")?;
            for tight in [false, true] {
                if tight { o.shrink_to_fit(); }
                let host: &str = $host;
                let h = o.replace_host(host).map(str::to_owned);
                txt(o.as_str(), "after replacing the host")?;
                if let Some(h) = h { txt(&h, "returned host")?; }
                let host2: &str = if tight { "z" } else { "a.much.longer.host.name.example" };
                if let Some(h) = o.replace_host_reg_name(host2) { let h = h.to_owned(); txt(&h, "returned host")?; }
                txt(o.as_str(), "after replacing the reg-name")?;
                let h = o.try_replace_host(host).map_err(|e| e.to_string())?.map(str::to_owned);
                if let Some(h) = h { txt(&h, "returned host")?; }
                let _ = o.try_replace_host_reg_name("").map_err(|e| e.to_string())?;
                txt(o.as_str(), "after replacing the host")?;
                mutate!(@frag $frags, o, $S, $frag, tight);
                // The result has to be acceptable to its own type again.
                ck!(<$owned>::try_from(o.as_str()).is_ok(), "{:?} is no longer valid", o.as_str());
            }
            txt(o.mask_password().to_dedicated_string().as_str(), "masked")?;
            txt(&o.mask_password().replace_password("\u{3b1}\u{10fffd}").to_string(), "masked")?;
            txt(o.mask_password().replace_password_with(|p| p.len()).to_string().as_str(), "masked")?;
        }
    }};
    (@frag yes, $o:ident, $S:ident, $frag:expr, $tight:ident) => {
        if let Ok(f) = RiFragmentStr::<$S>::new($frag) {
            $o.set_fragment(Some(f));
            txt($o.as_str(), "after setting the fragment")?;
            if $tight { $o.set_fragment(None); txt($o.as_str(), "after removing the fragment")?; }
        }
    };
    (@frag no, $o:ident, $S:ident, $frag:expr, $tight:ident) => {};
}

fn mutations<S: Spec>(s: &str, host: &str, frag: &str, which: usize) -> R {
    match which % 4 {
        0 => mutate!(RiReferenceString<S>, S, s, host, frag, yes),
        1 => mutate!(RiString<S>, S, s, host, frag, yes),
        2 => mutate!(RiAbsoluteString<S>, S, s, host, frag, no),
        _ => mutate!(RiRelativeString<S>, S, s, host, frag, yes),
    }
    Ok(())
}

fn dedicated<S: Spec>(s: &str, base: &str) -> R {
    let mut buf = [0u8; 48];
    if let Ok(b) = RiAbsoluteStr::<S>::new(base) {
        if let Ok(r) = RiReferenceStr::<S>::new(s) {
            let n = r.resolve_against(b);
            let d = n.to_dedicated_string();
            txt(d.as_str(), "resolved")?;
            txt(n.and_normalize().to_dedicated_string().as_str(), "resolved and normalized")?;
            let fx = FixedBaseResolver::new(b);
            let t = fx.resolve(r);
            txt(&t.to_string(), "resolved")?;
            within(base, fx.base().as_str(), "base")?;
            if let Ok(w) = write_to_slice(&mut buf, &r.resolve_against(b)) { txt(w, "written to a slice")?; }
            txt(&r.resolve_against(b).try_to_string().map_err(|e| e.to_string())?, "fallible string")?;
        }
        txt(b.normalize().to_dedicated_string().as_str(), "normalized")?;
        txt(b.normalize_but_preserve_authorityless_relative_path().to_dedicated_string().as_str(), "normalized")?;
    }
    if let Ok(i) = RiStr::<S>::new(s) {
        txt(i.normalize().to_dedicated_string().as_str(), "normalized")?;
        txt(i.mask_password().to_dedicated_string().as_str(), "masked")?;
        if let Ok(w) = write_to_slice(&mut buf, &i.normalize()) { txt(w, "written to a slice")?; }
    }
    Ok(())
}

fn builder<S: Spec>(s: &str, path: &str, host: &str) -> R {
    let mut b = match RiReferenceStr::<S>::new(s) {
        Ok(r) => Builder::from(r),
        Err(_) => Builder::new(),
    };
    b.host(host);
    b.path(path);
    if path.len() % 2 == 0 { b.normalize(); }
    if let Ok(v) = b.clone().build::<RiReferenceStr<S>>() {
        let d = v.to_dedicated_string();
        txt(d.as_str(), "built")?;
        txt(&v.to_string(), "built")?;
    }
    if let Ok(v) = b.clone().build::<RiStr<S>>() { txt(v.to_dedicated_string().as_str(), "built")?; }
    b.unset_fragment();
    if let Ok(v) = b.clone().build::<RiAbsoluteStr<S>>() { txt(v.to_dedicated_string().as_str(), "built")?; }
    b.unset_scheme();
    if let Ok(v) = b.build::<RiRelativeStr<S>>() { txt(v.to_dedicated_string().as_str(), "built")?; }
    Ok(())
}

fn percent<S: Spec>(s: &str) -> R {
    for v in [
        PercentEncoded::<_, S>::unreserve(s).to_string(),
        PercentEncoded::<_, S>::from_path(s).to_string(),
        PercentEncoded::<_, S>::characters(s).to_string(),
    ] {
        txt(&v, "percent-encoded")?;
        let d = decode_whatwg_bytes(v.as_bytes());
        eq!(d.into_bytes().as_ref(), s.as_bytes(), "decoded again");
    }
    let d = decode_whatwg_bytes(s.as_bytes());
    let total: usize = d.bytes_fragments().map(|f| match f { DecodedFragment::Direct(b) => b.len(), _ => 1 }).sum();
    let owned: Vec<u8> = d.into_bytes().into_owned();
    eq!(owned.len(), total, "length of the fragments");
    if let Some(b) = d.to_bytes() {
        let (w, p) = (s.as_ptr() as usize, b.as_ptr() as usize);
        ck!(b.is_empty() || (p >= w && p + b.len() <= w + s.len()), "borrowed decoded bytes do not come from the source");
    }
    if let Ok(t) = d.into_string() { txt(&t, "decoded")?; }
    Ok(())
}

fn template<S: Spec>(t: &str, vars: &super::template::Vars) -> R {
    let Ok(t0) = UriTemplateStr::new(t) else { return Ok(()) };
    within(t, t0.as_str(), "template")?;
    let mut o: UriTemplateString = t0.to_owned();
    for v in o.variables() { within(o.as_str(), v.as_str(), "variable name")?; }
    o.append(t0);
    txt(o.as_str(), "appended template")?;
    o.shrink_to_fit();
    let b: Box<UriTemplateStr> = o.clone().into();
    let rc: Rc<UriTemplateStr> = t0.into();
    txt(b.as_str(), "boxed template")?;
    txt(rc.as_str(), "counted template")?;
    let ctx = super::template::simple(vars);
    if let Ok(e) = t0.expand::<S, _>(&ctx) { txt(&e.to_string(), "expanded")?; }
    let mut ctx = super::template::simple(vars);
    if let Ok(e) = b.expand_dynamic_to_string::<S, _>(&mut ctx) { txt(&e, "expanded")?; }
    ctx.clear();
    Ok(())
}

fn bytes<S: Spec>(b: &[u8]) -> R {
    let utf8 = std::str::from_utf8(b).is_ok();
    macro_rules! one {
        ($slice:ty, $owned:ty) => {{
            if let Ok(v) = <&$slice>::try_from(b) { txt(v.as_str(), "from bytes")?; ck!(utf8, "broken UTF-8 {b:02x?} was accepted"); }
            if let Ok(v) = <$owned>::try_from(b) { txt(v.as_str(), "from bytes")?; ck!(utf8, "broken UTF-8 {b:02x?} was accepted"); }
        }};
    }
    one!(RiReferenceStr<S>, RiReferenceString<S>);
    one!(RiStr<S>, RiString<S>);
    one!(RiAbsoluteStr<S>, RiAbsoluteString<S>);
    one!(RiRelativeStr<S>, RiRelativeString<S>);
    one!(RiQueryStr<S>, RiQueryString<S>);
    one!(RiFragmentStr<S>, RiFragmentString<S>);
    one!(UriTemplateStr, UriTemplateString);
    let d = decode_whatwg_bytes(b);
    if let Ok(t) = d.into_string() { txt(&t, "decoded")?; }
    let mut it = d.bytes_fragments();
    while let Some(f) = it.next() {
        let rest = it.not_yet_decoded();
        let (w, p) = (b.as_ptr() as usize, rest.as_ptr() as usize);
        ck!(rest.is_empty() || (p >= w && p + rest.len() <= w + b.len()), "rest of the bytes does not come from the source");
        if let DecodedFragment::Direct(f) = f { let _ = f.to_vec(); }
    }
    Ok(())
}

/// A short history on one buffer, with results of earlier steps kept alive.
fn history<S: Spec>(s: &str, base: &str, r: &mut Rng) -> R {
    let Ok(mut cur) = RiReferenceString::<S>::try_from(s) else { return Ok(()) };
    let mut kept: Vec<Box<RiReferenceStr<S>>> = Vec::new();
    let mut shared: Vec<Arc<RiReferenceStr<S>>> = Vec::new();
    for _ in 0..r.range(2, 6) {
        match r.below(7) {
            0 => cur.remove_password_inline(),
            1 => { let _ = cur.replace_host(if r.chance(1, 2) { "h" } else { "[::1]" }); }
            2 => cur.set_fragment(RiFragmentStr::new("f%C3%A9").ok()),
            3 => cur.set_fragment(None),
            4 => {
                let b: Box<RiReferenceStr<S>> = cur.clone().into();
                kept.push(b);
            }
            5 => shared.push((&*cur).into()),
            _ => {
                if let Ok(b) = RiAbsoluteStr::<S>::new(base) {
                    cur = cur.resolve_against(b).to_dedicated_string().into();
                }
            }
        }
        txt(cur.as_str(), "current text")?;
    }
    let moved = shared.clone();
    drop(moved);
    for k in &kept { txt(k.as_str(), "earlier box")?; }
    for k in &shared { txt(k.as_str(), "earlier reference count")?; eq!(Arc::strong_count(k), 1, "owners"); }
    Ok(())
}

fn as_uri_text(s: &str) -> String {
    s.chars().filter(char::is_ascii).collect()
}

// Inputs: short and cheap ones under Miri, both kinds elsewhere.
fn small(r: &mut Rng) -> bool {
    cfg!(miri) || r.chance(1, 4)
}
fn refr(r: &mut Rng, sp: Sp, w: Want) -> String {
    if small(r) { gen::mini(r, sp, w) } else { gen::reference(r, sp, w) }
}
fn base(r: &mut Rng, sp: Sp) -> String {
    if small(r) { gen::mini(r, sp, Want::Absolute) } else { gen::base(r, sp) }
}
fn query(r: &mut Rng, sp: Sp) -> String {
    if small(r) { r.pstr(&["", "q", "a=b&%41", "?/:@"]).to_owned() } else { gen::query(r, sp) }
}
fn fragment(r: &mut Rng, sp: Sp) -> String {
    if small(r) { r.pstr(&["", "f", "?/%41", "a:@"]).to_owned() } else { gen::fragment(r, sp) }
}
fn host(r: &mut Rng, sp: Sp) -> String {
    if small(r) { r.pstr(&["", "h", "[::1]", "127.0.0.1", "long.example.org", "a b", "%41"]).to_owned() } else { gen::host(r, sp) }
}
fn path(r: &mut Rng, sp: Sp) -> String {
    if small(r) { r.pstr(&["", "/", "//", "a", "/a/../..//b", "a:b", "./%41"]).to_owned() } else { gen::path(r, sp) }
}
fn tpl(r: &mut Rng) -> String {
    if small(r) {
        r.pstr(&["", "a", "{a}", "{+a,b}", "x{?a:3,b*}%41", "{#b*}\u{3b1}", "{/a}{;a,b}", "{&b}", "{.zz.y}", "{a:9999}"]).to_owned()
    } else {
        gen::template(r)
    }
}
fn hostile(r: &mut Rng, sp: Sp) -> String {
    if small(r) { let s = gen::mini(r, sp, Want::Reference); gen::mutate(r, &s) } else { gen::hostile(r, sp) }
}
fn raw_text(r: &mut Rng) -> String {
    if small(r) { r.pstr(&["", "a b", "%", "%4", "%41", "\u{3b1}%", "\u{10ffff}~", "%zz%C3%A9"]).to_owned() } else { gen::raw_text(r) }
}
fn vars_(r: &mut Rng) -> super::template::Vars {
    use crate::model::Val;
    if small(r) {
        let t = |s: &str| s.to_owned();
        let mut v = super::template::Vars::new();
        v.insert(t("a"), Val::Str(t(r.pstr(&["", "v", "\u{3b1}\u{3b2}x", "a/b%"]))));
        v.insert(t("b"), if r.chance(1, 2) { Val::List(vec![t("x"), t("\u{e9}")]) } else { Val::Assoc(vec![(t("k"), t("v"))]) });
        v
    } else {
        super::template::gen_vars(r)
    }
}

both_specs!(z01, z01_g);
fn z01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let group = (i % 10) as usize;
    let r = &mut cx.rng;
    let which = r.below(42);
    let s = match group {
        0 => match which % 7 {
            4 => query(r, sp),
            5 => fragment(r, sp),
            6 => tpl(r),
            3 => refr(r, sp, Want::Relative),
            2 => refr(r, sp, Want::Absolute),
            1 => refr(r, sp, Want::Iri),
            _ => if r.chance(1, 6) { gen::mutate(r, "http://u:p@h/p?q#f") } else { refr(r, sp, Want::Reference) },
        },
        2 => match which % 6 {
            4 => query(r, Sp::Iri),
            5 => fragment(r, Sp::Iri),
            3 => refr(r, Sp::Iri, Want::Relative),
            2 => refr(r, Sp::Iri, Want::Absolute),
            1 => refr(r, Sp::Iri, Want::Iri),
            _ => refr(r, Sp::Iri, Want::Reference),
        },
        3 => match which % 4 {
            0 => refr(r, sp, Want::Reference),
            1 => refr(r, sp, Want::Iri),
            2 => refr(r, sp, Want::Absolute),
            _ => refr(r, sp, Want::Relative),
        },
        6 => raw_text(r),
        7 => tpl(r),
        8 => hostile(r, sp),
        _ => refr(r, sp, Want::Reference),
    };
    let s = if group == 2 && r.chance(1, 3) { as_uri_text(&s) } else { s };
    // Only what the group needs: generation is slow under Miri.
    let opt = |c: bool, f: &mut dyn FnMut() -> String| if c { f() } else { String::new() };
    let base = opt(matches!(group, 4 | 9), &mut || base(r, sp));
    let host = opt(matches!(group, 3 | 5), &mut || host(r, sp));
    let path = opt(group == 5, &mut || path(r, sp));
    let frag = opt(group == 3, &mut || fragment(r, sp));
    let vars = if group == 7 { vars_(r) } else { Default::default() };
    let mut raw = s.clone().into_bytes();
    if group == 8 && !raw.is_empty() {
        for _ in 0..r.below(3) {
            let k = r.below(raw.len());
            raw[k] = r.next() as u8;
        }
        if r.chance(1, 4) { raw.truncate(r.below(raw.len() + 1)); }
    }
    let seed = r.next();
    cx.input(format!("{sp:?} group {group}.{which} {s:?} base {base:?} host {host:?} bytes {raw:02x?}"));
    let body = || -> R {
        match group {
            0 => containers::<S>(&s, which),
            1 => downcasts::<S>(&s),
            2 => uri_iri(&s, which),
            3 => mutations::<S>(&s, &host, &frag, which),
            4 => dedicated::<S>(&s, &base),
            5 => builder::<S>(&s, &path, &host),
            6 => percent::<S>(&s),
            7 => template::<S>(&s, &vars),
            8 => bytes::<S>(&raw),
            _ => history::<S>(&s, &base, &mut Rng::new(seed)),
        }
    };
    // Loaded once per process, and never freed: not part of any case.
    let _ = crate::dict::dict();
    let before = alloc_fault::live();
    body()?;
    let after = alloc_fault::live();
    eq!(after, before, "bytes still allocated after everything was dropped");
    cx.hit("leak-checked");
    cx.hit([
        "containers", "downcasts", "uri-iri", "mutations", "dedicated", "builder", "percent", "template", "bytes",
        "history",
    ][group]);
    if group == 8 { cx.hit("iterators"); }
    cx.obs(2);
    cx.nontrivial();
    Ok(())
}

// Cross-thread use has to stay possible for every type.
#[allow(dead_code)]
fn assert_send_sync() {
    fn f<T: Send + Sync + ?Sized>() {}
    f::<RiReferenceStr<IriSpec>>();
    f::<RiReferenceString<UriSpec>>();
    f::<UriTemplateString>();
}
