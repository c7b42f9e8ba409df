//! R01, R02, N01..N05: resolution and normalization.

use super::Sx;
use crate::engine::{Cx, Prop, R};
use crate::gen::{self, Want};
use crate::model::{self, Mode, Sp};
use crate::{both_specs, ck, eq};
use iri_string::format::{write_to_slice, ToDedicatedString, ToStringFallible};
use iri_string::resolve::FixedBaseResolver;
use iri_string::types::*;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "R01",
        quick: 3_600_000,
        thorough: 18_000_000,
        case: r01,
        rule: "distinct (base, reference) pairs whose resolution was compared with the RFC 3986 section 5.2 model",
        required: &["spec:uri", "spec:iri", "ref:scheme", "ref:authority", "ref:abs-path", "ref:rel-path", "ref:query", "ref:empty", "base:authority-empty-path", "dots-removed", "pct-dots", "whatwg-prefix", "deep", "enumerated"],
    },
    Prop {
        id: "R02",
        quick: 450_000,
        thorough: 9_000_000,
        case: r02,
        rule: "distinct (base, references) groups resolved through every entry point, with and without normalization",
        required: &["spec:uri", "spec:iri", "reused-resolver", "relative-type", "normalize-after", "preserve-after", "whatwg-prefix", "kept-base-path"],
    },
    Prop {
        id: "N01",
        quick: 1_800_000,
        thorough: 18_000_000,
        case: n01,
        rule: "distinct IRIs whose normalization through every rendering route was compared with the model",
        required: &["spec:uri", "spec:iri", "changed", "unchanged", "case-host", "non-ascii-host", "empty-port", "dots", "pct-decoded", "pct-upper", "whatwg-prefix", "deep", "broken-utf8"],
    },
    Prop {
        id: "N02",
        quick: 1_400_000,
        thorough: 14_000_000,
        case: n02,
        rule: "distinct IRIs whose normalized forms were normalized again and re-validated, and distinct equivalent pairs",
        required: &["spec:uri", "spec:iri", "changed", "equivalent-pair", "preserve"],
    },
    Prop {
        id: "N03",
        quick: 2_700_000,
        thorough: 18_000_000,
        case: n03,
        rule: "distinct IRIs on which the three normalizedness predicates were compared with the observed normalization",
        required: &["spec:uri", "spec:iri", "normalized", "not-normalized", "normalized-not-rfc3986", "normalized-only-preserve", "empty-port", "pct-dots", "enumerated"],
    },
    Prop {
        id: "N04",
        quick: 1_400_000,
        thorough: 14_000_000,
        case: n04,
        rule: "distinct IRIs normalized in the mode preserving authority-less relative paths, compared with the model",
        required: &["spec:uri", "spec:iri", "opaque-preserved", "hierarchical", "authority", "whatwg-prefix", "resolution:relative"],
    },
    Prop {
        id: "N05",
        quick: 1_800_000,
        thorough: 18_000_000,
        case: n05,
        rule: "distinct IRIs and resolution pairs on which the normalizability check was compared with the model",
        required: &["spec:uri", "spec:iri", "ok", "err", "resolve:ok", "resolve:err", "enumerated"],
    },
];

fn iri_s<S: Sx>(s: &str) -> Result<&RiStr<S>, String> {
    RiStr::<S>::new(s).map_err(|_| format!("valid IRI {s:?} rejected"))
}
fn abs_s<S: Sx>(s: &str) -> Result<&RiAbsoluteStr<S>, String> {
    RiAbsoluteStr::<S>::new(s).map_err(|_| format!("valid absolute IRI {s:?} rejected"))
}
fn ref_s<S: Sx>(s: &str) -> Result<&RiReferenceStr<S>, String> {
    RiReferenceStr::<S>::new(s).map_err(|_| format!("valid reference {s:?} rejected"))
}

const PATH_ALPHA: &[&str] = &["a", "/", ".", "..", "%2e", ":"];

/// Mostly relative references, sometimes full IRIs.
fn any_ref(cx: &mut Cx<'_>, sp: Sp) -> String {
    if cx.rng.chance(1, 5) {
        gen::reference(&mut cx.rng, sp, Want::Iri)
    } else {
        gen::relative(&mut cx.rng, sp)
    }
}

fn pair(cx: &mut Cx<'_>, sp: Sp, i: u64) -> (String, String) {
    let n = gen::enum_count(PATH_ALPHA.len(), 6);
    if i < n {
        // Exhaustive short reference paths on bases of every shape.
        let r = gen::enumerate(PATH_ALPHA, i, 6).unwrap();
        if model::v_reference(sp, &r) {
            cx.hit("enumerated");
            let b = cx.rng.pstr(&["s:", "s:a", "s:/", "s:/a", "s:a/b", "s:/a/b", "s:/a/b/", "s://h", "s://h/", "s://h/a/b?q", "s:/.//a", "s:a/../b/c", "s:%2e/a/b"]);
            return (b.to_owned(), r);
        }
    }
    (gen::base(&mut cx.rng, sp), any_ref(cx, sp))
}

both_specs!(r01, r01_g);
fn r01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let (b, r) = pair(cx, sp, i);
    cx.input(format!("{sp:?} base {b:?} reference {r:?}"));
    let base = abs_s::<S>(&b)?;
    let rf = ref_s::<S>(&r)?;
    let want = model::resolve(&b, &r);
    let text = want.serialize();
    let got = rf.resolve_against(base).to_string();
    eq!(got.as_str(), text.as_str(), "resolution of {r:?} against {b:?}");
    // The result is an IRI made of exactly the target components.
    let v = iri_s::<S>(&got)?;
    eq!(v.scheme_str(), want.scheme.as_str(), "scheme of the result");
    eq!(v.authority_str(), want.authority.as_deref(), "authority of the result");
    eq!(v.query_str(), want.query.as_deref(), "query of the result");
    eq!(v.fragment_str(), want.fragment.as_deref(), "fragment of the result");
    cx.obs(5);
    let p = model::split(&r);
    if p.scheme.is_some() { cx.hit("ref:scheme"); }
    else if p.authority.is_some() { cx.hit("ref:authority"); }
    else if p.path.starts_with('/') { cx.hit("ref:abs-path"); }
    else if !p.path.is_empty() { cx.hit("ref:rel-path"); }
    else if p.query.is_some() { cx.hit("ref:query"); }
    else { cx.hit("ref:empty"); }
    let bp = model::split(&b);
    if bp.authority.is_some() && bp.path.is_empty() { cx.hit("base:authority-empty-path"); }
    if model::has_dot_segment(p.path) { cx.hit("dots-removed"); }
    if p.path.contains("%2e") || p.path.contains("%2E") { cx.hit("pct-dots"); }
    if want.needs_whatwg() { cx.hit("whatwg-prefix"); }
    if p.path.matches('/').count() + bp.path.matches('/').count() > 10 { cx.hit("deep"); }
    cx.nontrivial();
    Ok(())
}

/// Renders a lazily evaluated result through every route.
macro_rules! routes {
    ($cx:expr, $n:expr, $owned:ty, $what:expr) => {{
        let n = $n;
        let s = n.to_string();
        let what: &str = $what;
        eq!(n.to_dedicated_string().as_str(), s.as_str(), "{what}: to_dedicated_string");
        eq!(<$owned>::from(&n).as_str(), s.as_str(), "{what}: From<&Normalized>");
        match n.try_to_dedicated_string() {
            Ok(v) => eq!(v.as_str(), s.as_str(), "{what}: try_to_dedicated_string"),
            Err(e) => return Err(format!("{what}: try_to_dedicated_string failed: {e:?}")),
        }
        match n.try_to_string() {
            Ok(v) => eq!(v.as_str(), s.as_str(), "{what}: try_to_string"),
            Err(e) => return Err(format!("{what}: try_to_string failed: {e:?}")),
        }
        let mut buf = vec![0u8; s.len()];
        match write_to_slice(&mut buf, &n) {
            Ok(v) => eq!(v, s.as_str(), "{what}: write_to_slice"),
            Err(_) => return Err(format!("{what}: write_to_slice failed in a buffer of the exact size")),
        }
        super::flags(&n, &s, what)?;
        eq!(<$owned>::from(n).as_str(), s.as_str(), "{what}: From<Normalized>");
        $cx.obs(6);
        s
    }};
}

both_specs!(r02, r02_g);
fn r02_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let (b, first) = pair(cx, sp, i.wrapping_add(u64::MAX / 2));
    let mut refs = vec![first];
    for _ in 0..cx.rng.below(3) {
        refs.push(any_ref(cx, sp));
    }
    cx.input(format!("{sp:?} base {b:?} references {refs:?}"));
    let base = abs_s::<S>(&b)?;
    let bp = model::split(&b);
    let resolver = FixedBaseResolver::new(base);
    eq!(resolver.base().as_str(), b.as_str(), "base of the resolver");
    eq!(resolver.scheme_str(), bp.scheme.unwrap(), "scheme of the resolver's base");
    eq!(resolver.authority_str(), bp.authority, "authority of the resolver's base");
    eq!(resolver.path_str(), bp.path, "path of the resolver's base");
    eq!(resolver.query_str(), bp.query, "query of the resolver's base");
    eq!(resolver.query().map(|q| q.as_str()), bp.query, "query of the resolver's base");
    cx.obs(6);
    if refs.len() > 1 { cx.hit("reused-resolver"); }
    for r in &refs {
        let rf = ref_s::<S>(r)?;
        let want = model::resolve(&b, r);
        let text = want.serialize();
        let s1 = routes!(cx, resolver.resolve(rf), RiString<S>, "FixedBaseResolver::resolve");
        eq!(s1.as_str(), text.as_str(), "FixedBaseResolver::resolve of {r:?}");
        let s2 = routes!(cx, rf.resolve_against(base), RiString<S>, "RiReferenceStr::resolve_against");
        eq!(s2.as_str(), text.as_str(), "RiReferenceStr::resolve_against of {r:?}");
        if let Err(rel) = rf.to_iri() {
            cx.hit("relative-type");
            let s3 = routes!(cx, rel.resolve_against(base), RiString<S>, "RiRelativeStr::resolve_against");
            eq!(s3.as_str(), text.as_str(), "RiRelativeStr::resolve_against of {r:?}");
        }
        // Normalizing while resolving is resolving and then normalizing.
        let norm = model::normalize_target(sp, &want, Mode::Default).serialize();
        let n1 = routes!(cx, resolver.resolve(rf).and_normalize(), RiString<S>, "resolve().and_normalize()");
        eq!(n1.as_str(), norm.as_str(), "resolve().and_normalize() of {r:?}");
        let mut n = rf.resolve_against(base);
        n.enable_normalization();
        eq!(n.to_string(), norm, "enable_normalization() on the resolution of {r:?}");
        let two_step = iri_s::<S>(&text)?.normalize().to_string();
        eq!(n1.as_str(), two_step.as_str(), "normalizing resolution of {r:?} against resolve-then-normalize");
        cx.hit("normalize-after");
        let pres = model::normalize_target(sp, &want, Mode::PreserveRootless).serialize();
        let n2 = resolver.resolve(rf).and_normalize_but_preserve_authorityless_relative_path().to_string();
        match pres_kept(sp, &b, r, &want) {
            // The merged path is relative: its dot segments are either kept
            // (as the mode says) or already gone (two steps).
            Some(kept) => ck!(n2 == pres || n2 == kept, "preserving normalization of the resolution of {r:?}: observed {n2:?}, expected {kept:?} or {pres:?}"),
            None => eq!(n2.as_str(), pres.as_str(), "preserving normalization of the resolution of {r:?}"),
        }
        cx.hit("preserve-after");
        ck!(model::v_iri(sp, &n2), "preserving normalization of the resolution of {r:?} wrote the invalid IRI {n2:?}");
        cx.obs(6);
        if want.needs_whatwg() { cx.hit("whatwg-prefix"); }
        if model::split(r).path.is_empty() && model::split(r).authority.is_none() && model::split(r).scheme.is_none() { cx.hit("kept-base-path"); }
    }
    cx.nontrivial();
    Ok(())
}

/// The text with the dot segments of the merged path kept, if that path is
/// relative and there is no authority.
fn pres_kept(sp: Sp, b: &str, r: &str, t: &model::Target) -> Option<String> {
    if t.authority.is_some() {
        return None;
    }
    let path = model::merged_path(b, r);
    if path.starts_with('/') {
        return None;
    }
    let mut k = model::normalize_target(sp, t, Mode::PreserveRootless);
    k.path = model::pct_normalize(sp, &path);
    Some(k.serialize())
}

/// An IRI for the normalization checks; short paths are enumerated.
fn norm_input(cx: &mut Cx<'_>, sp: Sp, i: u64, with_fragment: bool) -> String {
    let n = gen::enum_count(PATH_ALPHA.len(), 6);
    if i < n {
        let p = gen::enumerate(PATH_ALPHA, i, 6).unwrap();
        let pre = cx.rng.pstr(&["s:", "s://h", "S:", "s://H:"]);
        let s = format!("{pre}{p}");
        if model::v_iri(sp, &s) {
            cx.hit("enumerated");
            return s;
        }
    }
    // Half of the inputs are already close to normalized.
    let s = gen::reference(&mut cx.rng, sp, if with_fragment { Want::Iri } else { Want::Absolute });
    match cx.rng.below(5) {
        0 | 1 => {
            let n = model::normalize(sp, &s, if cx.rng.chance(1, 2) { Mode::Default } else { Mode::PreserveRootless }).serialize();
            if cx.rng.chance(1, 2) {
                // One deviation from the normal form.
                near_normalized(cx, sp, &n)
            } else {
                n
            }
        }
        2 => {
            let t = cx.rng.pstr(&["s:", "s://h", "HTTP://E", "s:/", "s:/.//"]);
            let p = gen::path(&mut cx.rng, sp);
            let c = format!("{t}{p}");
            if model::v_iri(sp, &c) { c } else { s }
        }
        _ => s,
    }
}

fn near_normalized(cx: &mut Cx<'_>, sp: Sp, n: &str) -> String {
    for _ in 0..6 {
        let mut c: Vec<char> = n.chars().collect();
        let at = cx.rng.below(c.len() + 1);
        let ins = match cx.rng.below(6) {
            0 => cx.rng.pstr(&["/.", "/..", "/./", "/../", "./", "../", "/%2e", "/%2E/", "."]).to_owned(),
            1 | 2 => gen::pct(&mut cx.rng),
            3 => cx.rng.pstr(&["A", "Z", ":", "/", "//"]).to_owned(),
            4 => {
                // Flip the case of one character.
                if let Some(x) = c.get_mut(at) {
                    *x = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                }
                String::new()
            }
            _ => {
                if at < c.len() { c.remove(at); }
                String::new()
            }
        };
        let at = at.min(c.len());
        c.splice(at..at, ins.chars());
        let s: String = c.into_iter().collect();
        if model::v_absolute(sp, &s) || (n.contains('#') && model::v_iri(sp, &s)) {
            return s;
        }
    }
    n.to_owned()
}

both_specs!(n01, n01_g);
fn n01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = norm_input(cx, sp, i, true);
    cx.input(format!("{sp:?} {s:?}"));
    let iri = iri_s::<S>(&s)?;
    let want = model::normalize(sp, &s, Mode::Default);
    let text = want.serialize();
    let got = routes!(cx, iri.normalize(), RiString<S>, "RiStr::normalize");
    eq!(got.as_str(), text.as_str(), "normalization of {s:?}");
    if !s.contains('#') {
        let a = abs_s::<S>(&s)?;
        let got = routes!(cx, a.normalize(), RiAbsoluteString<S>, "RiAbsoluteStr::normalize");
        eq!(got.as_str(), text.as_str(), "normalization of the absolute IRI {s:?}");
    }
    cx.obs(2);
    let p = model::split(&s);
    cx.hit(if got == s { "unchanged" } else { "changed" });
    if let Some(a) = p.authority {
        let a = model::split_authority(a);
        if a.port == Some("") { cx.hit("empty-port"); }
        if a.host.bytes().any(|b| b.is_ascii_uppercase()) {
            if model::normalize_host(sp, a.host).bytes().any(|b| b.is_ascii_uppercase() && b != b'%') && !a.host.is_ascii() { cx.hit("non-ascii-host"); } else { cx.hit("case-host"); }
        }
    }
    if model::has_dot_segment(p.path) { cx.hit("dots"); }
    if s.contains("%7e") || s.contains("%41") { cx.hit("pct-decoded"); }
    if s.contains("%e3%81%82") || s.contains("%3a") { cx.hit("pct-upper"); }
    if s.contains("%F0%9F%98/") || s.contains("%FF") || s.contains("%C0%80") { cx.hit("broken-utf8"); }
    if want.needs_whatwg() { cx.hit("whatwg-prefix"); }
    if p.path.matches('/').count() > 9 { cx.hit("deep"); }
    cx.nontrivial();
    Ok(())
}

/// Rewrites an IRI into an equivalent spelling: case of the scheme and of the
/// triplets, encoding of unreserved characters, dot segments.
fn respell(cx: &mut Cx<'_>, sp: Sp, s: &str) -> String {
    let p = model::split(s);
    let respell_pct = |cx: &mut Cx<'_>, t: &str| -> String {
        let b = t.as_bytes();
        let mut o = String::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' {
                let x = &t[i..i + 3];
                o.push_str(&if cx.rng.chance(1, 2) { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() });
                i += 3;
            } else {
                let c = t[i..].chars().next().unwrap();
                if model::unreserved(sp, c) && cx.rng.chance(1, 4) {
                    let mut q = String::new();
                    model::push_pct(&mut q, c);
                    o.push_str(&if cx.rng.chance(1, 2) { q.to_ascii_lowercase() } else { q });
                } else {
                    o.push(c);
                }
                i += c.len_utf8();
            }
        }
        o
    };
    let scheme: String = p.scheme.unwrap().chars().map(|c| if cx.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    let auth = p.authority.map(|a| {
        let a = model::split_authority(a);
        let u = a.userinfo.map(|u| respell_pct(cx, u));
        // IP literals and hosts which could become IPv4 are left alone.
        let h = if a.host.starts_with('[') || !a.host.is_ascii() || a.host.contains('%') { a.host.to_owned() } else { a.host.to_ascii_uppercase() };
        let port = match a.port {
            None if cx.rng.chance(1, 4) => Some(""),
            p => p,
        };
        model::join_authority(u.as_deref(), &h, port)
    });
    let mut path = p.path.to_owned();
    if path.starts_with('/') && cx.rng.chance(1, 2) {
        let ins = cx.rng.pstr(&["/.", "/x/..", "/%2E", "/%2e./y/%2e%2e", "/a/b/../.%2E"]);
        // Between two segments of the path.
        let cuts: Vec<usize> = path.match_indices('/').map(|(k, _)| k).collect();
        let k = *cx.rng.pick(&cuts);
        if !ins.contains("%2e./y") || k == 0 {
            path.insert_str(k, ins);
        }
    }
    let path = respell_pct(cx, &path);
    model::join(&model::Parts {
        scheme: Some(&scheme),
        authority: auth.as_deref(),
        path: &path,
        query: p.query.map(|q| respell_pct(cx, q)).as_deref(),
        fragment: p.fragment.map(|q| respell_pct(cx, q)).as_deref(),
    })
}

both_specs!(n02, n02_g);
fn n02_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = norm_input(cx, sp, i, true);
    cx.input(format!("{sp:?} {s:?}"));
    let iri = iri_s::<S>(&s)?;
    let once = iri.normalize().to_string();
    let again = iri_s::<S>(&once).map_err(|e| format!("normalization of {s:?}: {e}"))?.normalize().to_string();
    eq!(again.as_str(), once.as_str(), "normalizing {s:?} twice");
    ck!(iri_s::<S>(&once)?.is_normalized(), "the normalization {once:?} of {s:?} is not reported as normalized");
    let a = model::split(&s);
    let b = model::split(&once);
    eq!(b.authority.is_some(), a.authority.is_some(), "presence of the authority after normalizing {s:?} into {once:?}");
    eq!(b.query.is_some(), a.query.is_some(), "presence of the query after normalizing {s:?}");
    eq!(b.fragment.is_some(), a.fragment.is_some(), "presence of the fragment after normalizing {s:?}");
    let once_p = iri.normalize_but_preserve_authorityless_relative_path().to_string();
    let v = iri_s::<S>(&once_p).map_err(|e| format!("preserving normalization of {s:?}: {e}"))?;
    eq!(v.normalize_but_preserve_authorityless_relative_path().to_string(), once_p, "normalizing {s:?} twice in the preserving mode");
    ck!(v.is_normalized_but_authorityless_relative_path_preserved(), "the preserving normalization {once_p:?} of {s:?} is not reported as normalized");
    cx.hit("preserve");
    if once != s { cx.hit("changed"); }
    cx.obs(8);
    // An equivalent spelling has the same normal form.
    let e = respell(cx, sp, &s);
    if model::v_iri(sp, &e) && model::normalize(sp, &e, Mode::Default) == model::normalize(sp, &s, Mode::Default) {
        cx.hit("equivalent-pair");
        let n = iri_s::<S>(&e)?.normalize().to_string();
        eq!(n.as_str(), once.as_str(), "normalization of {e:?}, an equivalent spelling of {s:?}");
        cx.obs(1);
    }
    cx.nontrivial();
    Ok(())
}

both_specs!(n03, n03_g);
fn n03_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = norm_input(cx, sp, i, true);
    cx.input(format!("{sp:?} {s:?}"));
    let iri = iri_s::<S>(&s)?;
    let same = iri.normalize().to_string() == s;
    let able = iri.ensure_rfc3986_normalizable().is_ok();
    let same_p = iri.normalize_but_preserve_authorityless_relative_path().to_string() == s;
    macro_rules! preds {
        ($v:expr, $what:literal) => {{
            let v = $v;
            eq!(v.is_normalized(), same, "{}: is_normalized of {s:?}", $what);
            eq!(v.is_normalized_rfc3986(), same && able, "{}: is_normalized_rfc3986 of {s:?}", $what);
            eq!(v.is_normalized_but_authorityless_relative_path_preserved(), same_p, "{}: is_normalized_but_authorityless_relative_path_preserved of {s:?}", $what);
            cx.obs(3);
        }};
    }
    preds!(iri, "IRI");
    // Against the model as well, so that a common error is seen.
    eq!(same, model::normalize(sp, &s, Mode::Default).serialize() == s, "identity of the normalization of {s:?}");
    eq!(same_p, model::normalize(sp, &s, Mode::PreserveRootless).serialize() == s, "identity of the preserving normalization of {s:?}");
    if !s.contains('#') {
        preds!(abs_s::<S>(&s)?, "absolute IRI");
    }
    cx.hit(if same { "normalized" } else { "not-normalized" });
    if same && !able { cx.hit("normalized-not-rfc3986"); }
    if same_p && !same { cx.hit("normalized-only-preserve"); }
    if model::split(&s).authority.map_or(false, |a| model::split_authority(a).port == Some("")) { cx.hit("empty-port"); }
    if s.contains("/%2e") || s.contains("/%2E") { cx.hit("pct-dots"); }
    cx.nontrivial();
    Ok(())
}

both_specs!(n04, n04_g);
fn n04_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = if cx.rng.chance(1, 3) {
        let p = gen::path(&mut cx.rng, sp);
        let c = format!("{}:{}", gen::scheme(&mut cx.rng), p.trim_start_matches('/'));
        if model::v_iri(sp, &c) { c } else { norm_input(cx, sp, i, true) }
    } else {
        norm_input(cx, sp, i, true)
    };
    cx.input(format!("{sp:?} {s:?}"));
    let iri = iri_s::<S>(&s)?;
    let want = model::normalize(sp, &s, Mode::PreserveRootless);
    let text = want.serialize();
    let got = routes!(cx, iri.normalize_but_preserve_authorityless_relative_path(), RiString<S>, "preserving normalization");
    eq!(got.as_str(), text.as_str(), "preserving normalization of {s:?}");
    let mut n = iri.normalize();
    n.enable_normalization_preserving_authorityless_relative_path();
    eq!(n.to_string(), text, "switching the mode to the preserving one on {s:?}");
    n.enable_normalization();
    eq!(n.to_string(), model::normalize(sp, &s, Mode::Default).serialize(), "switching the mode back on {s:?}");
    if !s.contains('#') {
        let a = abs_s::<S>(&s)?;
        eq!(a.normalize_but_preserve_authorityless_relative_path().to_string(), text, "preserving normalization of the absolute IRI {s:?}");
    }
    cx.obs(4);
    if i % 2 == 1 {
        // The same mode applied to a resolution.
        let b = if cx.rng.chance(1, 2) { gen::base(&mut cx.rng, sp) } else { format!("s:{}", gen::path(&mut cx.rng, sp).trim_start_matches('/')) };
        let r = any_ref(cx, sp);
        cx.input(format!("{sp:?} {s:?}; base {b:?} reference {r:?}"));
        let t = model::resolve(&b, &r);
        let two_step = model::normalize_target(sp, &t, Mode::PreserveRootless).serialize();
        let n = ref_s::<S>(&r)?.resolve_against(abs_s::<S>(&b)?).and_normalize_but_preserve_authorityless_relative_path().to_string();
        match pres_kept(sp, &b, &r, &t) {
            Some(kept) => {
                cx.hit("resolution:relative");
                ck!(n == two_step || n == kept, "preserving normalization of the resolution: observed {n:?}, expected {kept:?} or {two_step:?}");
            }
            None => eq!(n, two_step, "preserving normalization of the resolution"),
        }
        ck!(model::v_iri(sp, &n), "preserving normalization of the resolution wrote the invalid IRI {n:?}");
        cx.obs(2);
    }
    let p = model::split(&s);
    if p.authority.is_some() { cx.hit("authority"); }
    else if p.path.starts_with('/') { cx.hit("hierarchical"); }
    else if model::has_dot_segment(p.path) { cx.hit("opaque-preserved"); }
    if want.needs_whatwg() { cx.hit("whatwg-prefix"); }
    cx.nontrivial();
    Ok(())
}

both_specs!(n05, n05_g);
fn n05_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = norm_input(cx, sp, i, true);
    let (b, r) = pair(cx, sp, i);
    cx.input(format!("{sp:?} {s:?}; base {b:?} reference {r:?}"));
    let iri = iri_s::<S>(&s)?;
    let want = !model::normalize(sp, &s, Mode::Default).needs_whatwg();
    eq!(iri.ensure_rfc3986_normalizable().is_ok(), want, "ensure_rfc3986_normalizable of {s:?}");
    eq!(iri.normalize().ensure_rfc3986_normalizable().is_ok(), want, "ensure_rfc3986_normalizable of the normalization of {s:?}");
    if !s.contains('#') {
        let a = abs_s::<S>(&s)?;
        eq!(a.ensure_rfc3986_normalizable().is_ok(), want, "ensure_rfc3986_normalizable of the absolute IRI {s:?}");
        eq!(a.normalize().ensure_rfc3986_normalizable().is_ok(), want, "ensure_rfc3986_normalizable of the normalization of {s:?}");
    }
    cx.hit(if want { "ok" } else { "err" });
    let base = abs_s::<S>(&b)?;
    let rf = ref_s::<S>(&r)?;
    let t = model::resolve(&b, &r);
    let plain = rf.resolve_against(base);
    let want = !t.needs_whatwg();
    eq!(plain.ensure_rfc3986_normalizable().is_ok(), want, "ensure_rfc3986_normalizable of the resolution");
    eq!(FixedBaseResolver::new(base).resolve(rf).ensure_rfc3986_normalizable().is_ok(), want, "ensure_rfc3986_normalizable of the resolution by a resolver");
    let wn = !model::normalize_target(sp, &t, Mode::Default).needs_whatwg();
    eq!(plain.and_normalize().ensure_rfc3986_normalizable().is_ok(), wn, "ensure_rfc3986_normalizable of the normalizing resolution");
    cx.hit(if want { "resolve:ok" } else { "resolve:err" });
    cx.obs(5);
    cx.nontrivial();
    Ok(())
}
