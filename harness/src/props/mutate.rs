//! M01..M04 and S03: password masking, in-place modification, histories.

use super::Sx;
use crate::engine::{Cx, Prop, Rng, R};
use crate::gen::{self, Want};
use crate::model::{self, Mode, Sp};
use crate::{both_specs, ck, eq};
use iri_string::build::Builder;
use iri_string::format::ToDedicatedString;
use iri_string::spec::Spec;
use iri_string::types::*;
use std::any::Any;
use std::borrow::Cow;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "S03",
        quick: 1_100_000,
        thorough: 4_400_000,
        case: s03,
        rule: "distinct operation histories on owned strings in which the state after every step was compared with the model and re-validated",
        required: &["spec:uri", "spec:iri", "op:set_fragment", "op:into_iri", "op:absolute", "op:normalize", "op:resolve", "op:resolve-against-self", "op:remove_password", "op:replace_host", "op:mask", "op:encode_to_uri", "op:container", "op:builder", "changed-thrice"],
    },
    Prop {
        id: "M01",
        quick: 900_000,
        thorough: 18_000_000,
        case: m01,
        rule: "distinct references whose masked and replaced renderings were compared with the model and searched for the password",
        required: &["spec:uri", "spec:iri", "password", "empty-password", "no-password", "no-userinfo", "no-authority", "colon-in-password", "unique-password"],
    },
    Prop {
        id: "M02",
        quick: 1_800_000,
        thorough: 18_000_000,
        case: m02,
        rule: "distinct owned references whose password was removed in place, compared with the model",
        required: &["spec:uri", "spec:iri", "password", "empty-password", "no-password", "no-userinfo", "no-authority", "iri", "absolute", "relative"],
    },
    Prop {
        id: "M03",
        quick: 900_000,
        thorough: 18_000_000,
        case: m03,
        rule: "distinct (reference, new host) pairs whose host was replaced in place, compared with the model",
        required: &["spec:uri", "spec:iri", "replaced", "invalid-host", "no-authority", "not-reg-name", "longer", "shorter", "with-fragment", "with-userinfo", "ipv4-old"],
    },
    Prop {
        id: "M04",
        quick: 1_800_000,
        thorough: 18_000_000,
        case: m04,
        rule: "distinct (reference, fragments) pairs whose fragment was set, removed and split, compared with the model",
        required: &["spec:uri", "spec:iri", "had-fragment", "none", "set", "removed", "empty-fragment", "iri", "relative"],
    },
];

// ---------------------------------------------------------------- models of the operations

/// Byte range of the password in the whole reference.
pub fn password_range(s: &str) -> Option<std::ops::Range<usize>> {
    let p = model::split(s);
    let a = p.authority?;
    let start = p.scheme.map_or(0, |x| x.len() + 1) + 2;
    let u = model::split_authority(a).userinfo?;
    let c = u.find(':')?;
    Some(start + c + 1..start + u.len())
}
pub fn m_mask(s: &str, alt: &str) -> String {
    match password_range(s) {
        Some(r) => format!("{}{alt}{}", &s[..r.start], &s[r.end..]),
        None => s.to_owned(),
    }
}
pub fn m_remove_password(s: &str) -> String {
    match password_range(s) {
        Some(r) => format!("{}{}", &s[..r.start - 1], &s[r.end..]),
        None => s.to_owned(),
    }
}
/// New text and the value the call returns.
pub fn m_replace_host(sp: Sp, s: &str, host: &str, only_reg: bool) -> (String, Option<String>) {
    let p = model::split(s);
    let Some(a) = p.authority else { return (s.to_owned(), None) };
    let ap = model::split_authority(a);
    if !model::v_host(sp, host) || (only_reg && (model::is_ip_literal(ap.host) || model::is_ipv4(ap.host))) {
        return (s.to_owned(), None);
    }
    let na = model::join_authority(ap.userinfo, host, ap.port);
    (model::join(&model::Parts { authority: Some(&na), ..p }), Some(host.to_owned()))
}
pub fn m_set_fragment(s: &str, f: Option<&str>) -> String {
    let cut = s.find('#').unwrap_or(s.len());
    match f {
        Some(f) => format!("{}#{f}", &s[..cut]),
        None => s[..cut].to_owned(),
    }
}

// ---------------------------------------------------------------- generators

pub fn with_authority(r: &mut Rng, sp: Sp) -> String {
    let want = *r.pick(&[Want::Reference, Want::Iri, Want::Absolute, Want::Relative]);
    let mut p = gen::parts(r, sp, want);
    if r.chance(3, 4) {
        let mut a = gen::auth_parts(r, sp);
        if r.chance(2, 3) {
            a.userinfo = Some(gen::userinfo(r, sp));
        }
        p.authority = Some(a);
        p.fix_path();
    }
    if r.chance(1, 4) {
        // Text that looks like an authority outside of it.
        let t = r.pstr(&["//u:p@h", "a//u:p@h/", "@:@", "//x:y@z:1", ":80@"]);
        if r.chance(1, 2) && want != Want::Absolute {
            p.fragment = Some(t.to_owned());
        } else {
            p.query = Some(t.to_owned());
        }
    }
    p.text()
}

pub fn new_host(r: &mut Rng, sp: Sp) -> String {
    match r.below(8) {
        0..=4 => gen::host(r, sp),
        5 => {
            let h = gen::host(r, sp);
            gen::mutate(r, &h)
        }
        6 => r.pstr(&["a:80", "u@h", "a/b", "[::1", "::1", "[]", "a b", "%", "h?q", "h#f", "[v1.]", "[::g]", "[1:2:3:4:5:6:7:8:9]"]).to_owned(),
        _ => gen::ip_literal(r),
    }
}

fn classes(cx: &mut Cx<'_>, s: &str) {
    let p = model::split(s);
    match p.authority.map(|a| model::split_authority(a).userinfo) {
        None => cx.hit("no-authority"),
        Some(None) => cx.hit("no-userinfo"),
        Some(Some(u)) => match u.split_once(':') {
            None => cx.hit("no-password"),
            Some((_, "")) => cx.hit("empty-password"),
            Some((_, q)) => {
                cx.hit("password");
                if q.contains(':') { cx.hit("colon-in-password"); }
            }
        },
    }
}

// ---------------------------------------------------------------- M01

both_specs!(m01, m01_g);
fn m01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let unique = i % 4 == 0;
    let s = if unique {
        // A password that occurs nowhere else.
        cx.hit("unique-password");
        let u = cx.rng.pstr(&["", "user", "%3A", "a.b"]);
        let tail = cx.rng.pstr(&["", "/", "/a//b:c@d", "?x//y:z@w", "#//u:v@w", ":80/x"]);
        let sch = cx.rng.pstr(&["", "s:", "http:", "S+1:"]);
        format!("{sch}//{u}:S3cr3t%20:x@host{tail}")
    } else {
        with_authority(&mut cx.rng, sp)
    };
    cx.input(format!("{sp:?} {s:?}"));
    let want = m_mask(&s, "");
    let alt = cx.rng.pstr(&["", "***", "${password}", "あ", "a@b", "\0"]);
    let want_alt = m_mask(&s, alt);
    let pw = password_range(&s).map(|r| &s[r]);
    let want_len = m_mask(&s, &format!("{{{} bytes}}", pw.map_or(0, str::len)));
    macro_rules! go {
        ($v:expr, $name:literal) => {{
            let v = $v;
            let m = v.mask_password();
            eq!(m.to_string().as_str(), want.as_str(), "{}: masked {s:?}", $name);
            let d = m.to_dedicated_string();
            eq!(d.as_str(), want.as_str(), "{}: dedicated masked {s:?}", $name);
            ck!(model::v_reference(sp, d.as_str()), "{}: masked {s:?} is invalid: {:?}", $name, d.as_str());
            eq!(m.replace_password(alt).to_string().as_str(), want_alt.as_str(), "{}: password replaced by {alt:?} in {s:?}", $name);
            super::flags(&m, &want, "masked display")?;
            super::flags(&m.replace_password(alt), &want_alt, "display with the password replaced")?;
            super::flags(v, &s, "plain display")?;
            let mut seen: Option<String> = None;
            let r = m.replace_password_with(|p| { seen = Some(p.to_owned()); format!("{{{} bytes}}", p.len()) });
            eq!(r.to_string().as_str(), want_len.as_str(), "{}: password replaced by a function in {s:?}", $name);
            eq!(r.to_string().as_str(), want_len.as_str(), "{}: password replaced by a function in {s:?}, second rendering", $name);
            eq!(seen.as_deref(), pw, "{}: password passed to the function for {s:?}", $name);
            // Debug renderings must not reveal what Display hides.
            if unique {
                let n = s.len().min(60_000);
                for t in super::debug_flags(&m).into_iter().chain(super::debug_flags(&m.replace_password(alt))) {
                    ck!(!t.contains("S3cr3t"), "{}: the rendering {t:?} of the masked {s:?} reveals the password", $name);
                }
                for t in [format!("{m:n$?}"), format!("{m:<#n$?}"), m.to_string(), format!("{m:?}"), format!("{m:#?}"), d.as_str().to_owned(), format!("{:?}", m.replace_password(alt)), m.replace_password(alt).to_string()] {
                    ck!(!t.contains("S3cr3t"), "{}: the rendering {t:?} of the masked {s:?} reveals the password", $name);
                }
            }
            cx.obs(7);
        }};
    }
    let r = RiReferenceStr::<S>::new(&s).map_err(|_| format!("valid reference {s:?} rejected"))?;
    go!(r, "reference");
    match r.to_iri() {
        Ok(v) => {
            go!(v, "IRI");
            if !s.contains('#') {
                go!(v.to_absolute(), "absolute");
            }
        }
        Err(v) => go!(v, "relative"),
    }
    classes(cx, &s);
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- M02

/// Runs `$body` with the owned string `$x` of every type `s` belongs to.
macro_rules! every_owned {
    ($S:ident, $cx:expr, $s:expr, |$x:ident, $name:ident| $body:block) => {{
        let s: &str = $s;
        {
            let $name = "reference";
            let mut $x = RiReferenceString::<$S>::try_from(s).map_err(|_| format!("valid reference {s:?} rejected"))?;
            $body
        }
        if model::split(s).scheme.is_some() {
            $cx.hit("iri");
            {
                let $name = "IRI";
                let mut $x = RiString::<$S>::try_from(s).map_err(|_| format!("valid IRI {s:?} rejected"))?;
                $body
            }
        } else {
            $cx.hit("relative");
            let $name = "relative";
            let mut $x = RiRelativeString::<$S>::try_from(s).map_err(|_| format!("valid relative reference {s:?} rejected"))?;
            $body
        }
    }};
}
macro_rules! every_owned_abs {
    ($S:ident, $cx:expr, $s:expr, |$x:ident, $name:ident| $body:block) => {{
        every_owned!($S, $cx, $s, |$x, $name| $body);
        let s: &str = $s;
        if model::v_absolute(<$S as Sx>::SP, s) {
            $cx.hit("absolute");
            let $name = "absolute";
            let mut $x = RiAbsoluteString::<$S>::try_from(s).map_err(|_| format!("valid absolute IRI {s:?} rejected"))?;
            $body
        }
    }};
}

both_specs!(m02, m02_g);
fn m02_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let s = with_authority(&mut cx.rng, sp);
    cx.input(format!("{sp:?} {s:?}"));
    let gone = m_remove_password(&s);
    let blank = m_mask(&s, "");
    every_owned_abs!(S, cx, &s, |x, name| {
        let mut y = x.clone();
        x.remove_password_inline();
        eq!(x.as_str(), gone.as_str(), "{name}: remove_password_inline of {s:?}");
        ck!(model::v_reference(sp, x.as_str()), "{name}: {s:?} without password is invalid: {:?}", x.as_str());
        x.remove_password_inline();
        eq!(x.as_str(), m_remove_password(&gone).as_str(), "{name}: remove_password_inline of {s:?} twice");
        y.remove_nonempty_password_inline();
        eq!(y.as_str(), blank.as_str(), "{name}: remove_nonempty_password_inline of {s:?}");
        y.remove_nonempty_password_inline();
        eq!(y.as_str(), blank.as_str(), "{name}: remove_nonempty_password_inline of {s:?} twice");
        y.remove_password_inline();
        eq!(y.as_str(), gone.as_str(), "{name}: both removals of {s:?}");
        cx.obs(6);
    });
    classes(cx, &s);
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- M03

both_specs!(m03, m03_g);
fn m03_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let s = with_authority(&mut cx.rng, sp);
    let h = new_host(&mut cx.rng, sp);
    cx.input(format!("{sp:?} {s:?} new host {h:?}"));
    let (all, all_r) = m_replace_host(sp, &s, &h, false);
    let (reg, reg_r) = m_replace_host(sp, &s, &h, true);
    every_owned_abs!(S, cx, &s, |x, name| {
        let mut y = x.clone();
        let mut z = x.clone();
        let mut w = x.clone();
        eq!(x.replace_host(&h).map(str::to_owned), all_r, "{name}: result of replace_host({h:?}) on {s:?}");
        eq!(x.as_str(), all.as_str(), "{name}: replace_host({h:?}) on {s:?}");
        ck!(model::v_reference(sp, x.as_str()), "{name}: replace_host({h:?}) on {s:?} left the invalid {:?}", x.as_str());
        match y.try_replace_host(&h) {
            Ok(v) => eq!(v.map(str::to_owned), all_r, "{name}: result of try_replace_host({h:?}) on {s:?}"),
            Err(e) => return Err(format!("{name}: try_replace_host: {e:?}")),
        }
        eq!(y.as_str(), all.as_str(), "{name}: try_replace_host({h:?}) on {s:?}");
        eq!(z.replace_host_reg_name(&h).map(str::to_owned), reg_r, "{name}: result of replace_host_reg_name({h:?}) on {s:?}");
        eq!(z.as_str(), reg.as_str(), "{name}: replace_host_reg_name({h:?}) on {s:?}");
        match w.try_replace_host_reg_name(&h) {
            Ok(v) => eq!(v.map(str::to_owned), reg_r, "{name}: result of try_replace_host_reg_name({h:?}) on {s:?}"),
            Err(e) => return Err(format!("{name}: try_replace_host_reg_name: {e:?}")),
        }
        eq!(w.as_str(), reg.as_str(), "{name}: try_replace_host_reg_name({h:?}) on {s:?}");
        if all_r.is_some() {
            // Only the host changed.
            let a = x.authority_components();
            let p = model::split(&s);
            let ap = model::split_authority(p.authority.unwrap());
            eq!(a.map(|a| (a.userinfo(), a.host(), a.port())), Some((ap.userinfo, h.as_str(), ap.port)), "{name}: authority after replace_host({h:?}) on {s:?}");
        }
        cx.obs(9);
    });
    let p = model::split(&s);
    match p.authority {
        None => cx.hit("no-authority"),
        Some(a) => {
            let ap = model::split_authority(a);
            if all_r.is_none() { cx.hit("invalid-host"); }
            else {
                cx.hit("replaced");
                if reg_r.is_none() { cx.hit("not-reg-name"); }
                if model::is_ipv4(ap.host) { cx.hit("ipv4-old"); }
                if h.len() > ap.host.len() { cx.hit("longer"); }
                if h.len() < ap.host.len() { cx.hit("shorter"); }
                if p.fragment.is_some() { cx.hit("with-fragment"); }
                if ap.userinfo.is_some() { cx.hit("with-userinfo"); }
            }
        }
    }
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- M04

both_specs!(m04, m04_g);
fn m04_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let s = gen::reference(&mut cx.rng, sp, Want::Reference);
    let frags: Vec<Option<String>> = (0..crate::dict::length(&mut cx.rng).map_or_else(|| cx.rng.range(1, 3), |n| n.clamp(1, 20)))
        .map(|_| match cx.rng.below(4) {
            0 => None,
            1 => Some(String::new()),
            _ => Some(gen::fragment(&mut cx.rng, sp)),
        })
        .collect();
    cx.input(format!("{sp:?} {s:?} fragments {frags:?}"));
    every_owned!(S, cx, &s, |x, name| {
        for f in &frags {
            let rf = match f {
                Some(f) => Some(RiFragmentStr::<S>::new(f).map_err(|_| format!("valid fragment {f:?} rejected"))?),
                None => None,
            };
            let before = x.as_str().to_owned();
            x.set_fragment(rf);
            eq!(x.as_str(), m_set_fragment(&before, f.as_deref()).as_str(), "{name}: set_fragment({f:?}) on {before:?}");
            eq!(x.fragment_str(), f.as_deref(), "{name}: fragment_str after set_fragment({f:?}) on {before:?}");
            eq!(x.fragment().map(|v| v.as_str()), f.as_deref(), "{name}: fragment after set_fragment({f:?}) on {before:?}");
            ck!(model::v_reference(sp, x.as_str()), "{name}: set_fragment({f:?}) on {before:?} left the invalid {:?}", x.as_str());
            cx.obs(4);
        }
    });
    if let Ok(v) = RiString::<S>::try_from(s.as_str()) {
        let cut = s.find('#').unwrap_or(s.len());
        let (a, f) = v.clone().into_absolute_and_fragment();
        eq!(a.as_str(), &s[..cut], "into_absolute_and_fragment of {s:?}");
        eq!(f.as_ref().map(|f| f.as_str()), s.get(cut + 1..), "into_absolute_and_fragment of {s:?}");
        let mut back: RiString<S> = a.into();
        back.set_fragment(f.as_deref());
        eq!(back.as_str(), s.as_str(), "split and rejoined {s:?}");
        let (a, f) = v.to_absolute_and_fragment();
        eq!((a.as_str(), f.map(|f| f.as_str())), (&s[..cut], s.get(cut + 1..)), "to_absolute_and_fragment of {s:?}");
        cx.obs(4);
    }
    if s.contains('#') { cx.hit("had-fragment"); } else { cx.hit("none"); }
    for f in &frags {
        match f.as_deref() {
            None => cx.hit("removed"),
            Some("") => cx.hit("empty-fragment"),
            Some(_) => cx.hit("set"),
        }
    }
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- S03

/// Applies `f` to the string as an IRI reference, if it is of the IRI spec.
fn as_iri_spec<S: Spec + 'static>(
    x: RiReferenceString<S>,
    f: impl FnOnce(IriReferenceString) -> IriReferenceString,
) -> (RiReferenceString<S>, bool) {
    let mut slot: Option<RiReferenceString<S>> = Some(x);
    let any: &mut dyn Any = &mut slot;
    match any.downcast_mut::<Option<IriReferenceString>>() {
        Some(o) => {
            *o = Some(f(o.take().unwrap()));
            (slot.unwrap(), true)
        }
        None => (slot.unwrap(), false),
    }
}

both_specs!(s03, s03_g);
fn s03_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let start = gen::reference(&mut cx.rng, sp, Want::Reference);
    let mut x = RiReferenceString::<S>::try_from(start.as_str()).map_err(|_| format!("valid reference {start:?} rejected"))?;
    let mut m = start.clone();
    let mut log = format!("{sp:?} {start:?}");
    let steps = crate::dict::length(&mut cx.rng).map_or_else(|| cx.rng.range(3, 10), |n| n.clamp(1, 60));
    let mut changed = 0;
    for _ in 0..steps {
        let before = m.clone();
        let has_scheme = model::split(&m).scheme.is_some();
        let op = cx.rng.below(15);
        let name: String;
        match op {
            0 => {
                let f = if cx.rng.chance(1, 3) { None } else { Some(gen::fragment(&mut cx.rng, sp)) };
                name = format!("set_fragment({f:?})");
                cx.hit("op:set_fragment");
                let rf = f.as_deref().map(|f| RiFragmentStr::<S>::new(f)).transpose().map_err(|_| "valid fragment rejected".to_string())?;
                // On the reference itself or on the narrower type.
                if cx.rng.chance(1, 2) {
                    x.set_fragment(rf);
                } else {
                    x = match x.into_iri() {
                        Ok(mut v) => { v.set_fragment(rf); v.into() }
                        Err(mut v) => { v.set_fragment(rf); v.into() }
                    };
                }
                m = m_set_fragment(&m, f.as_deref());
            }
            1 => {
                name = "into_iri / into_relative_iri".into();
                cx.hit("op:into_iri");
                x = match x.into_iri() {
                    Ok(v) => { ck!(has_scheme, "{log}: {m:?} became an IRI"); v.into() }
                    Err(v) => { ck!(!has_scheme, "{log}: {m:?} did not become an IRI"); v.into() }
                };
                x = match x.into_relative_iri() {
                    Ok(v) => v.into(),
                    Err(v) => v.into(),
                };
            }
            2 if has_scheme => {
                name = "into_absolute".into();
                cx.hit("op:absolute");
                let Ok(v) = x.into_iri() else { return Err(format!("{log}: {m:?} is not an IRI")) };
                if cx.rng.chance(1, 2) {
                    x = v.into_absolute().into();
                    m = m_set_fragment(&m, None);
                } else {
                    let (a, f) = v.into_absolute_and_fragment();
                    let mut v: RiString<S> = a.into();
                    v.set_fragment(f.as_deref());
                    x = v.into();
                }
            }
            3 if has_scheme => {
                cx.hit("op:normalize");
                let Ok(v) = x.into_iri() else { return Err(format!("{log}: {m:?} is not an IRI")) };
                if cx.rng.chance(2, 3) {
                    name = "normalize".into();
                    x = v.normalize().to_dedicated_string().into();
                    m = model::normalize(sp, &m, Mode::Default).serialize();
                } else {
                    name = "normalize_but_preserve_authorityless_relative_path".into();
                    x = v.normalize_but_preserve_authorityless_relative_path().to_dedicated_string().into();
                    m = model::normalize(sp, &m, Mode::PreserveRootless).serialize();
                }
            }
            4 | 5 => {
                let b = gen::base(&mut cx.rng, sp);
                name = format!("resolve_against({b:?})");
                cx.hit("op:resolve");
                let base = RiAbsoluteString::<S>::try_from(b.as_str()).map_err(|_| format!("valid base {b:?} rejected"))?;
                m = model::resolve(&b, &m).serialize();
                x = x.resolve_against(&base).to_dedicated_string().into();
            }
            6 if has_scheme => {
                let r = gen::relative(&mut cx.rng, sp);
                name = format!("resolve {r:?} against it");
                cx.hit("op:resolve-against-self");
                let Ok(v) = x.into_iri() else { return Err(format!("{log}: {m:?} is not an IRI")) };
                let rf = RiReferenceStr::<S>::new(&r).map_err(|_| format!("valid reference {r:?} rejected"))?;
                x = rf.resolve_against(v.to_absolute()).to_dedicated_string().into();
                m = model::resolve(&m_set_fragment(&m, None), &r).serialize();
            }
            7 => {
                cx.hit("op:remove_password");
                let all = cx.rng.chance(1, 2);
                name = format!("remove_password(all={all})");
                if all { x.remove_password_inline(); m = m_remove_password(&m); } else { x.remove_nonempty_password_inline(); m = m_mask(&m, ""); }
            }
            8 | 9 => {
                let h = new_host(&mut cx.rng, sp);
                let only = cx.rng.chance(1, 3);
                name = format!("replace_host({h:?}, only_reg_name={only})");
                cx.hit("op:replace_host");
                let (nm, nr) = m_replace_host(sp, &m, &h, only);
                let narrow = cx.rng.chance(1, 3);
                if narrow {
                    x = match x.into_iri() {
                        Ok(mut v) => { if only { v.replace_host_reg_name(&h); } else { v.replace_host(&h); } v.into() }
                        Err(mut v) => { if only { v.replace_host_reg_name(&h); } else { v.replace_host(&h); } v.into() }
                    };
                } else {
                    let r = if only { x.replace_host_reg_name(&h) } else { x.replace_host(&h) };
                    eq!(r.map(str::to_owned), nr, "{log}; {name}");
                }
                m = nm;
            }
            10 => {
                name = "mask_password".into();
                cx.hit("op:mask");
                x = x.mask_password().to_dedicated_string();
                m = m_mask(&m, "");
            }
            11 => {
                name = "encode_to_uri".into();
                cx.hit("op:encode_to_uri");
                let way = cx.rng.below(4);
                let (nx, done) = as_iri_spec(x, |mut v| match way {
                    0 => { v.encode_to_uri_inline(); v }
                    1 => v.encode_into_uri().into(),
                    2 => v.encode_to_uri().to_dedicated_string().into(),
                    _ => match v.try_into_uri() { Ok(u) => u.into(), Err(v) => v.encode_into_uri().into() },
                });
                x = nx;
                if done { m = model::iri_to_uri(&m); }
            }
            12 => {
                name = "container round trip".into();
                cx.hit("op:container");
                x = match cx.rng.below(4) {
                    0 => { let b: Box<RiReferenceStr<S>> = x.into(); (*b).to_owned() }
                    1 => { let c: Cow<'static, RiReferenceStr<S>> = x.into(); c.into_owned() }
                    2 => { let mut y = x.clone(); drop(x); y.shrink_to_fit(); y }
                    _ => RiReferenceString::<S>::try_from(String::from(x)).map_err(|_| format!("{log}: {m:?} no longer parses"))?,
                };
            }
            13 => {
                cx.hit("op:builder");
                // Rebuild with one component replaced.
                let mut b = Builder::from(&x);
                let q = if cx.rng.chance(1, 2) { Some(gen::query(&mut cx.rng, sp)) } else { None };
                let sch = if has_scheme && cx.rng.chance(1, 2) { Some(gen::scheme(&mut cx.rng)) } else { None };
                name = format!("builder(query={q:?}, scheme={sch:?})");
                match &q { Some(q) => b.query(q), None => b.unset_query() }
                if let Some(s) = &sch { b.scheme(s); }
                let p = model::split(&m);
                let want = model::join(&model::Parts { query: q.as_deref(), scheme: sch.as_deref().or(p.scheme), ..p });
                let built = match b.build::<RiReferenceStr<S>>() {
                    Ok(v) => v.to_dedicated_string(),
                    Err(e) => return Err(format!("{log}; {name}: build failed: {e}")),
                };
                x = built;
                m = want;
            }
            _ => {
                name = "to_absolute views".into();
                if let Ok(v) = x.to_iri() {
                    let (a, f) = v.to_absolute_and_fragment();
                    ck!(model::v_absolute(sp, a.as_str()), "{log}: to_absolute gives the invalid {:?}", a.as_str());
                    ck!(f.map_or(true, |f| model::v_fragment(sp, f.as_str())), "{log}: invalid fragment");
                }
            }
        }
        log.push_str("; ");
        log.push_str(&name);
        cx.input(log.clone());
        eq!(x.as_str(), m.as_str(), "state after {log}");
        ck!(model::v_reference(sp, x.as_str()), "invalid state {:?} after {log}", x.as_str());
        ck!(sp == Sp::Iri || x.as_str().is_ascii(), "non-ASCII URI after {log}");
        ck!(RiReferenceStr::<S>::new(x.as_str()).is_ok(), "the state {:?} after {log} no longer parses", x.as_str());
        let p = model::split(&m);
        eq!(
            (x.scheme_str(), x.authority_str(), x.path_str(), x.query_str(), x.fragment_str()),
            (p.scheme, p.authority, p.path, p.query, p.fragment),
            "components after {log}"
        );
        cx.obs(5);
        if m != before { changed += 1; }
    }
    if changed >= 3 { cx.hit("changed-thrice"); }
    cx.nontrivial();
    Ok(())
}
