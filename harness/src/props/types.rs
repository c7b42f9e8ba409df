//! S01..S05: acceptance, components, getters.

use super::Sx;
use crate::engine::{Cx, Prop, R};
use crate::gen::{self, Want};
use crate::model::{self, Sp};
use crate::{both_specs, ck, eq};
use iri_string::components::AuthorityComponents;
use iri_string::types::*;
use iri_string::validate;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "S01",
        quick: 3_600_000,
        thorough: 24_000_000,
        case: s01,
        rule: "distinct input strings whose acceptance by every IRI string type and constructor was compared with the grammar model",
        required: &["spec:uri", "spec:iri", "accepted:reference", "rejected:reference", "accepted:iri", "accepted:absolute", "accepted:relative", "bytes:invalid-utf8", "scheme-only-differs", "enumerated"],
    },
    Prop {
        id: "S02",
        quick: 6_000_000,
        thorough: 30_000_000,
        case: s02,
        rule: "distinct component texts whose verdicts by all component validators were compared with the grammar model",
        required: &["spec:uri", "spec:iri", "ok:scheme", "ok:authority", "ok:host", "ok:reg_name", "ok:userinfo", "ok:port", "ok:path", "ok:path_segment", "ok:query", "ok:fragment", "ipv4", "ipv6", "enumerated"],
    },
    Prop {
        id: "S04",
        quick: 4_500_000,
        thorough: 18_000_000,
        case: s04,
        rule: "distinct valid references whose five components were read through every type that accepts them",
        required: &["spec:uri", "spec:iri", "scheme", "no-scheme", "authority", "no-authority", "empty-authority", "query", "empty-query", "fragment", "empty-fragment", "question-in-fragment", "slash-in-query"],
    },
    Prop {
        id: "S05",
        quick: 9_000_000,
        thorough: 18_000_000,
        case: s05,
        rule: "distinct authorities whose userinfo, host, port and reg-name were compared with the model",
        required: &["spec:uri", "spec:iri", "userinfo", "userinfo-with-colon", "port", "empty-port", "ip-literal", "ipv4", "reg-name", "empty-host"],
    },
    Prop {
        id: "E01",
        quick: 2_400_000,
        thorough: 18_000_000,
        case: e01,
        rule: "distinct rejected inputs whose error was compared over every route and checked against the grammar model",
        required: &["spec:uri", "spec:iri", "says:scheme", "says:userinfo", "says:host", "says:path", "says:query", "says:fragment", "says:unexpected fragment", "says:expected an absolute IRI but got a relative IRI", "says:utf-8 bytes", "built:scheme", "built:userinfo", "built:host", "built:port", "built:path", "built:query", "built:fragment", "built:unexpected fragment", "built:expected a relative IRI but got an absolute IRI"],
    },
];

/// Small alphabet that spans the delimiters of the grammar.
const ALPHA: &[&str] = &["a", ":", "/", "?", "#", "[", "]", "@", "%", "2", ".", "\u{e9}", "F"];

macro_rules! accept {
    ($cx:expr, $what:literal, $slice:ident, $owned:ident, $S:ident, $s:expr, $want:expr) => {{
        let s: &str = $s;
        let want: bool = $want;
        let r = $slice::<$S>::new(s);
        ck!(
            r.is_ok() == want,
            "{}: {} of {:?} returned {}, the grammar says {}",
            $what, stringify!($slice), s, if r.is_ok() { "Ok" } else { "Err" }, want
        );
        if let Ok(v) = r {
            ck!(v.as_str().as_ptr() == s.as_ptr() && v.as_str().len() == s.len(), "{}: as_str of {s:?} is another string", $what);
            eq!(v.len(), s.len(), "{}: len of {s:?}", $what);
            eq!(v.is_empty(), s.is_empty(), "{}: is_empty of {s:?}", $what);
            eq!(v.to_string().as_str(), s, "{}: Display", $what);
            let a: &str = v.as_ref();
            eq!(a, s, "{}: AsRef<str>", $what);
        }
        ck!(<&$slice<$S>>::try_from(s).is_ok() == want, "{}: TryFrom<&str> of {s:?} differs from new()", $what);
        match <&$slice<$S>>::try_from(s.as_bytes()) {
            Ok(v) => { ck!(want, "{}: TryFrom<&[u8]> accepts {s:?}", $what); eq!(v.as_str(), s, "{}: TryFrom<&[u8]>", $what); }
            Err(_) => ck!(!want, "{}: TryFrom<&[u8]> rejects {s:?}", $what),
        }
        match $owned::<$S>::try_from(s) {
            Ok(v) => { ck!(want, "{}: owned TryFrom<&str> accepts {s:?}", $what); eq!(v.as_str(), s, "{}: owned TryFrom<&str>", $what); }
            Err(_) => ck!(!want, "{}: owned TryFrom<&str> rejects {s:?}", $what),
        }
        match $owned::<$S>::try_from(s.as_bytes()) {
            Ok(v) => { ck!(want, "{}: owned TryFrom<&[u8]> accepts {s:?}", $what); eq!(v.as_str(), s, "{}: owned TryFrom<&[u8]>", $what); }
            Err(_) => ck!(!want, "{}: owned TryFrom<&[u8]> rejects {s:?}", $what),
        }
        match $owned::<$S>::try_from(s.to_owned()) {
            Ok(v) => { ck!(want, "{}: TryFrom<String> accepts {s:?}", $what); eq!(String::from(v).as_str(), s, "{}: String round trip", $what); }
            Err(e) => { ck!(!want, "{}: TryFrom<String> rejects {s:?}", $what); eq!(e.into_source().as_str(), s, "{}: source returned by the error", $what); }
        }
        match s.parse::<$owned<$S>>() {
            Ok(v) => { ck!(want, "{}: FromStr accepts {s:?}", $what); eq!(v.as_slice().as_str(), s, "{}: FromStr", $what); }
            Err(_) => ck!(!want, "{}: FromStr rejects {s:?}", $what),
        }
        $cx.obs(8);
    }};
}

both_specs!(s01, s01_g);
fn s01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let enumerated = gen::enum_count(ALPHA.len(), 5);
    let s = if i < enumerated {
        cx.hit("enumerated");
        gen::enumerate(ALPHA, i, 5).unwrap()
    } else {
        gen::hostile(&mut cx.rng, sp)
    };
    cx.input(format!("{sp:?} {s:?}"));
    let (r, a, b, c) = (
        model::v_reference(sp, &s),
        model::v_iri(sp, &s),
        model::v_absolute(sp, &s),
        model::v_relative(sp, &s),
    );
    accept!(cx, "reference", RiReferenceStr, RiReferenceString, S, &s, r);
    accept!(cx, "IRI", RiStr, RiString, S, &s, a);
    accept!(cx, "absolute IRI", RiAbsoluteStr, RiAbsoluteString, S, &s, b);
    accept!(cx, "relative reference", RiRelativeStr, RiRelativeString, S, &s, c);
    accept!(cx, "query", RiQueryStr, RiQueryString, S, &s, model::v_query(sp, &s));
    accept!(cx, "fragment", RiFragmentStr, RiFragmentString, S, &s, model::v_fragment(sp, &s));
    eq!(validate::iri_reference::<S>(&s).is_ok(), r, "validate::iri_reference of {s:?}");
    eq!(validate::iri::<S>(&s).is_ok(), a, "validate::iri of {s:?}");
    eq!(validate::absolute_iri::<S>(&s).is_ok(), b, "validate::absolute_iri of {s:?}");
    eq!(validate::relative_ref::<S>(&s).is_ok(), c, "validate::relative_ref of {s:?}");
    // Prefixed forms.
    let want = s.strip_prefix('?').map_or(false, |q| model::v_query(sp, q));
    match RiQueryStr::<S>::from_prefixed(&s) {
        Ok(q) => { ck!(want, "RiQueryStr::from_prefixed accepts {s:?}"); eq!(q.as_str(), &s[1..], "RiQueryStr::from_prefixed"); }
        Err(_) => ck!(!want, "RiQueryStr::from_prefixed rejects {s:?}"),
    }
    let want = s.strip_prefix('#').map_or(false, |q| model::v_fragment(sp, q));
    match RiFragmentStr::<S>::from_prefixed(&s) {
        Ok(q) => { ck!(want, "RiFragmentStr::from_prefixed accepts {s:?}"); eq!(q.as_str(), &s[1..], "RiFragmentStr::from_prefixed"); }
        Err(_) => ck!(!want, "RiFragmentStr::from_prefixed rejects {s:?}"),
    }
    cx.obs(6);
    cx.hit(if r { "accepted:reference" } else { "rejected:reference" });
    if a { cx.hit("accepted:iri"); }
    if b { cx.hit("accepted:absolute"); }
    if c { cx.hit("accepted:relative"); }
    if r && sp == Sp::Iri && !s.is_ascii() { cx.hit("accepted:non-ascii"); }
    if r != model::v_reference(if sp == Sp::Uri { Sp::Iri } else { Sp::Uri }, &s) { cx.hit("scheme-only-differs"); }
    // Bytes that are not UTF-8 are never accepted.
    if i % 4 == 3 {
        let mut b = s.clone().into_bytes();
        let at = cx.rng.below(b.len() + 1);
        let bad: &[u8] = *cx.rng.pick(&[&b"\xff"[..], b"\xc0\xaf", b"\xed\xa0\x80", b"\x80", b"\xe3\x81", b"\xf4\x90\x80\x80", b"\xc3"]);
        b.splice(at..at, bad.iter().copied());
        if std::str::from_utf8(&b).is_err() {
            cx.hit("bytes:invalid-utf8");
            ck!(<&RiReferenceStr<S>>::try_from(&b[..]).is_err(), "reference accepts the bytes {b:02x?}");
            ck!(RiReferenceString::<S>::try_from(&b[..]).is_err(), "owned reference accepts the bytes {b:02x?}");
            ck!(<&RiStr<S>>::try_from(&b[..]).is_err(), "IRI accepts the bytes {b:02x?}");
            ck!(<&RiRelativeStr<S>>::try_from(&b[..]).is_err(), "relative reference accepts the bytes {b:02x?}");
            ck!(<&RiAbsoluteStr<S>>::try_from(&b[..]).is_err(), "absolute IRI accepts the bytes {b:02x?}");
            ck!(<&RiQueryStr<S>>::try_from(&b[..]).is_err(), "query accepts the bytes {b:02x?}");
            ck!(<&RiFragmentStr<S>>::try_from(&b[..]).is_err(), "fragment accepts the bytes {b:02x?}");
            cx.obs(7);
        }
    }
    cx.nontrivial();
    Ok(())
}

const COMP_ALPHA: &[&str] = &["a", "F", ":", "/", "?", "#", "[", "]", "@", "%", "2", ".", "\u{e9}", "\u{e000}", "v"];

both_specs!(s02, s02_g);
fn s02_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = if i < gen::enum_count(COMP_ALPHA.len(), 4) {
        cx.hit("enumerated");
        gen::enumerate(COMP_ALPHA, i, 4).unwrap()
    } else {
        let r = &mut cx.rng;
        let t = match r.below(14) {
            0 => gen::scheme(r),
            1 => gen::userinfo(r, sp),
            2 => gen::host(r, sp),
            3 => gen::ip_literal(r),
            4 => gen::ipv6_raw(r),
            5 => match r.below(4) {
                0 => { let v = gen::ipv6_raw(r); format!("[{}]", gen::mutate(r, &v)) },
                1 => format!("[{}]", gen::ipvfuture_near(r)),
                _ => format!("[{}]", gen::ipv6_near(r)),
            },
            6 => gen::ipv4(r),
            7 => gen::ipv4_like(r),
            8 => gen::authority(r, sp),
            9 => gen::path(r, sp),
            10 => gen::query(r, sp),
            11 => gen::fragment(r, sp),
            12 => gen::port(r),
            13 if r.chance(1, 2) => {
                let c = if r.chance(1, 2) { gen::edge(r) } else { gen::any_char(r) };
                r.pstr(&["aXb", "X", "uX:p", "1X", "/aX", "[vX.a]", "[v1.X]", "[::X]", "%X1", "%1X", "s.X", "h:8X"]).replace('X', &c.to_string())
            }
            _ => gen::soup(r),
        };
        if r.chance(1, 3) { gen::mutate(r, &t) } else { t }
    };
    cx.input(format!("{sp:?} {s:?}"));
    let checks: [(&str, &'static str, bool, bool); 10] = [
        ("scheme", "ok:scheme", validate::scheme(&s).is_ok(), model::v_scheme(&s)),
        ("authority", "ok:authority", validate::authority::<S>(&s).is_ok(), model::v_authority(sp, &s)),
        ("host", "ok:host", validate::host::<S>(&s).is_ok(), model::v_host(sp, &s)),
        ("reg_name", "ok:reg_name", validate::reg_name::<S>(&s).is_ok(), model::v_reg_name(sp, &s)),
        ("userinfo", "ok:userinfo", validate::userinfo::<S>(&s).is_ok(), model::v_userinfo(sp, &s)),
        ("port", "ok:port", validate::port(&s).is_ok(), model::v_port(&s)),
        ("path", "ok:path", validate::path::<S>(&s).is_ok(), model::v_path(sp, &s)),
        ("path_segment", "ok:path_segment", validate::path_segment::<S>(&s).is_ok(), model::v_path_segment(sp, &s)),
        ("query", "ok:query", validate::query::<S>(&s).is_ok(), model::v_query(sp, &s)),
        ("fragment", "ok:fragment", validate::fragment::<S>(&s).is_ok(), model::v_fragment(sp, &s)),
    ];
    for (name, class, got, want) in checks {
        ck!(got == want, "validate::{name} of {s:?} returned ok={got}, the grammar says {want}");
        if want && !s.is_empty() {
            cx.hit(class);
        }
    }
    if model::is_ipv4(&s) { cx.hit("ipv4"); }
    if model::is_ip_literal(&s) { cx.hit("ipv6"); }
    // Embedded in a full reference, the component decides acceptance alone.
    if !s.contains(['/', '?', '#']) {
        let full = format!("//{s}");
        eq!(RiReferenceStr::<S>::new(&full).is_ok(), model::v_authority(sp, &s), "reference {full:?}");
    }
    cx.obs(11);
    cx.nontrivial();
    Ok(())
}

fn inside(whole: &str, part: &str) -> bool {
    let (w, p) = (whole.as_ptr() as usize, part.as_ptr() as usize);
    p >= w && p + part.len() <= w + whole.len()
}

both_specs!(s04, s04_g);
fn s04_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = match i < gen::enum_count(ALPHA.len(), 4) {
        true => gen::enumerate(ALPHA, i, 4).unwrap(),
        false if cx.rng.chance(1, 5) => gen::soup(&mut cx.rng),
        false => gen::reference(&mut cx.rng, sp, Want::Reference),
    };
    cx.input(format!("{sp:?} {s:?}"));
    if !model::v_reference(sp, &s) {
        return Ok(());
    }
    let p = model::split(&s);
    macro_rules! common {
        ($v:expr, $name:literal) => {{
            let v = $v;
            eq!(v.authority_str(), p.authority, "{}: authority_str of {s:?}", $name);
            eq!(v.path_str(), p.path, "{}: path_str of {s:?}", $name);
            eq!(v.query_str(), p.query, "{}: query_str of {s:?}", $name);
            eq!(v.query().map(|q| q.as_str()), p.query, "{}: query of {s:?}", $name);
            for part in [v.authority_str(), Some(v.path_str()), v.query_str()].into_iter().flatten() {
                ck!(part.is_empty() || inside(&s, part), "{}: a component of {s:?} is not a slice of it", $name);
            }
            cx.obs(4);
        }};
    }
    macro_rules! frag {
        ($v:expr, $name:literal) => {{
            let v = $v;
            eq!(v.fragment_str(), p.fragment, "{}: fragment_str of {s:?}", $name);
            eq!(v.fragment().map(|q| q.as_str()), p.fragment, "{}: fragment of {s:?}", $name);
            cx.obs(2);
        }};
    }
    let Ok(r) = RiReferenceStr::<S>::new(&s) else { return Err(format!("valid reference {s:?} rejected")) };
    eq!(r.scheme_str(), p.scheme, "reference: scheme_str of {s:?}");
    common!(r, "reference");
    frag!(r, "reference");
    match (r.to_iri(), p.scheme) {
        (Ok(v), Some(sc)) => {
            eq!(v.as_str(), s.as_str(), "to_iri");
            eq!(v.scheme_str(), sc, "IRI: scheme_str of {s:?}");
            common!(v, "IRI");
            frag!(v, "IRI");
            let (abs, f) = v.to_absolute_and_fragment();
            eq!(f.map(|f| f.as_str()), p.fragment, "to_absolute_and_fragment: fragment of {s:?}");
            let cut = s.find('#').unwrap_or(s.len());
            eq!(abs.as_str(), &s[..cut], "to_absolute_and_fragment of {s:?}");
            eq!(v.to_absolute().as_str(), &s[..cut], "to_absolute of {s:?}");
            eq!(abs.scheme_str(), sc, "absolute IRI: scheme_str of {s:?}");
            common!(abs, "absolute IRI");
            if p.fragment.is_none() {
                ck!(RiAbsoluteStr::<S>::new(&s).is_ok(), "absolute IRI {s:?} rejected");
            }
        }
        (Err(v), None) => {
            eq!(v.as_str(), s.as_str(), "to_iri");
            common!(v, "relative reference");
            frag!(v, "relative reference");
        }
        (x, _) => return Err(format!("to_iri of {s:?} is {x:?}")),
    }
    match (r.to_relative_iri(), p.scheme) {
        (Ok(v), None) => eq!(v.as_str(), s.as_str(), "to_relative_iri"),
        (Err(v), Some(_)) => eq!(v.as_str(), s.as_str(), "to_relative_iri"),
        (x, _) => return Err(format!("to_relative_iri of {s:?} is {x:?}")),
    }
    // Lossless: the observed components rebuild the input.
    let back = model::join(&model::Parts {
        scheme: r.scheme_str(),
        authority: r.authority_str(),
        path: r.path_str(),
        query: r.query_str(),
        fragment: r.fragment_str(),
    });
    eq!(back, s, "components rejoined");
    cx.hit(if p.scheme.is_some() { "scheme" } else { "no-scheme" });
    match p.authority {
        Some("") => cx.hit("empty-authority"),
        Some(_) => cx.hit("authority"),
        None => cx.hit("no-authority"),
    }
    match p.query {
        Some("") => cx.hit("empty-query"),
        Some(q) => { cx.hit("query"); if q.contains('/') { cx.hit("slash-in-query"); } }
        None => {}
    }
    match p.fragment {
        Some("") => cx.hit("empty-fragment"),
        Some(f) => { cx.hit("fragment"); if f.contains('?') { cx.hit("question-in-fragment"); } }
        None => {}
    }
    cx.nontrivial();
    Ok(())
}

const AUTH_ALPHA: &[&str] = &["a", ":", "[", "]", "@", "1", ".", "%41", "::", "255", "[v1.a]"];

both_specs!(s05, s05_g);
fn s05_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let a = if i < gen::enum_count(AUTH_ALPHA.len(), 5) {
        gen::enumerate(AUTH_ALPHA, i, 5).unwrap()
    } else {
        gen::authority(&mut cx.rng, sp)
    };
    if !model::v_authority(sp, &a) {
        return Ok(());
    }
    let sch = if cx.rng.chance(1, 2) { "s:" } else { "" };
    let tail = cx.rng.pstr(&["", "/", "/p@q:1", "?a@b:2", "#c@d:3", "?q/[x", "/a?b#c", "//x@y:9"]).replace('[', "%5B");
    let s = format!("{sch}//{a}{tail}");
    cx.input(format!("{sp:?} {s:?}"));
    let p = model::split_authority(&a);
    let r = match RiReferenceStr::<S>::new(&s) {
        Ok(r) => r,
        Err(_) => return Err(format!("valid reference {s:?} rejected")),
    };
    let reg = if model::is_ip_literal(p.host) || model::is_ipv4(p.host) { None } else { Some(p.host) };
    let check = |c: Option<AuthorityComponents<'_>>, what: &str| -> R {
        let Some(c) = c else { return Err(format!("{what}: no authority components in {s:?}")) };
        eq!(c.userinfo(), p.userinfo, "{what}: userinfo of {s:?}");
        eq!(c.host(), p.host, "{what}: host of {s:?}");
        eq!(c.port(), p.port, "{what}: port of {s:?}");
        eq!(c.reg_name(), reg, "{what}: reg_name of {s:?}");
        Ok(())
    };
    check(r.authority_components(), "reference")?;
    check(AuthorityComponents::from_iri(r), "from_iri")?;
    if sch.is_empty() {
        check(RiRelativeStr::<S>::new(&s).ok().and_then(|v| v.authority_components()), "relative reference")?;
    } else {
        check(RiStr::<S>::new(&s).ok().and_then(|v| v.authority_components()), "IRI")?;
        if !s.contains('#') {
            check(RiAbsoluteStr::<S>::new(&s).ok().and_then(|v| v.authority_components()), "absolute IRI")?;
        }
    }
    cx.obs(12);
    if let Some(u) = p.userinfo {
        cx.hit("userinfo");
        if u.contains(':') { cx.hit("userinfo-with-colon"); }
    }
    match p.port {
        Some("") => cx.hit("empty-port"),
        Some(_) => cx.hit("port"),
        None => {}
    }
    if p.host.is_empty() { cx.hit("empty-host"); }
    if model::is_ip_literal(p.host) { cx.hit("ip-literal"); }
    else if model::is_ipv4(p.host) { cx.hit("ipv4"); }
    else { cx.hit("reg-name"); }
    cx.nontrivial();
    Ok(())
}

/// What a rejected text is measured against.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Reference,
    Iri,
    Absolute,
    Relative,
    Query,
    Fragment,
}

/// Whether the text after the userinfo is not `host [ ":" port ]`.
fn bad_host_port(sp: Sp, auth: &str) -> bool {
    [auth.find('@'), auth.rfind('@')].into_iter().any(|at| {
        let hp = &auth[at.map_or(0, |i| i + 1)..];
        hp.contains('@') || !model::v_authority(sp, hp)
    })
}

/// Whether the part of the message after "invalid IRI: " is true of `s`.
/// `None`: the message says nothing that can be checked.
fn truthful(sp: Sp, kind: Kind, s: &str, says: &str) -> Option<bool> {
    let colon = s.find(':').map(|i| &s[..i]);
    let has_scheme = colon.map_or(false, model::v_scheme);
    // What precedes a colon without being a scheme belongs to the rest.
    let lent;
    let p = model::split(if has_scheme { s } else { lent = format!("s:{s}"); &lent });
    Some(match (kind, says) {
        (Kind::Query, "invalid query") => !model::v_query(sp, s),
        (Kind::Fragment, "invalid fragment") => !model::v_fragment(sp, s),
        (Kind::Query | Kind::Fragment, _) => return None,
        // A text without a scheme where one is needed, or a segment that looks like one.
        (_, "invalid scheme") => !has_scheme && (kind != Kind::Relative || colon.is_some()),
        (_, "invalid userinfo") => p.authority.map_or(false, |a| {
            [a.find('@'), a.rfind('@')].into_iter().flatten().any(|i| !model::v_userinfo(sp, &a[..i]))
        }),
        (_, "invalid host" | "invalid reg-name" | "invalid port" | "invalid authority") => p.authority.map_or(false, |a| bad_host_port(sp, a)),
        (_, "invalid path") => {
            let first = p.path.split('/').next().unwrap_or("");
            !model::v_path(sp, p.path) || p.authority.is_none() && !has_scheme && first.contains(':') || has_scheme && kind == Kind::Relative
        }
        (_, "invalid query") => p.query.map_or(false, |q| !model::v_query(sp, q)),
        (_, "invalid fragment") => p.fragment.map_or(false, |q| !model::v_fragment(sp, q)),
        (_, "unexpected fragment") => kind == Kind::Absolute && p.fragment.is_some(),
        (_, "expected a relative IRI but got an absolute IRI") => kind == Kind::Relative && has_scheme,
        (_, "expected an absolute IRI but got a relative IRI") => matches!(kind, Kind::Iri | Kind::Absolute) && !has_scheme,
        (_, "invalid utf-8 bytes") => false,
        _ => return None,
    })
}

const SAYS: &[&str] = &[
    "says:scheme", "says:userinfo", "says:host", "says:reg-name", "says:port", "says:path", "says:query", "says:fragment",
    "says:unexpected fragment", "says:expected a relative IRI but got an absolute IRI", "says:expected an absolute IRI but got a relative IRI", "says:utf-8 bytes",
];
const BUILT: &[&str] = &[
    "built:scheme", "built:userinfo", "built:host", "built:reg-name", "built:port", "built:path", "built:query", "built:fragment",
    "built:unexpected fragment", "built:expected a relative IRI but got an absolute IRI", "built:expected an absolute IRI but got a relative IRI",
];

fn seen(cx: &mut Cx<'_>, classes: &[&'static str], says: &str) {
    let short = says.strip_prefix("invalid ").unwrap_or(says);
    for c in classes {
        if c.split(':').nth(1) == Some(short) {
            cx.hit(c);
        }
    }
}

macro_rules! routes {
    ($cx:expr, $kind:expr, $slice:ident, $owned:ident, $S:ident, $s:expr) => {{
        let s: &str = $s;
        let name = stringify!($slice);
        if let Err(e) = $slice::<$S>::new(s) {
            let msg = e.to_string();
            ck!(<&$slice<$S>>::try_from(s) == Err(e), "{name}: TryFrom<&str> of {s:?} reports another error than new(): {msg}");
            ck!(<&$slice<$S>>::try_from(s.as_bytes()) == Err(e), "{name}: TryFrom<&[u8]> of {s:?} reports another error than new(): {msg}");
            ck!($owned::<$S>::try_from(s) == Err(e), "{name}: owned TryFrom<&str> of {s:?} reports another error than new(): {msg}");
            match $owned::<$S>::try_from(s.as_bytes()) {
                Err(x) => ck!(x == e, "{name}: owned TryFrom<&[u8]> of {s:?} reports {x}, new() {msg}"),
                Ok(_) => return Err(format!("{name}: owned TryFrom<&[u8]> accepts {s:?}")),
            }
            ck!(s.parse::<$owned<$S>>() == Err(e), "{name}: FromStr of {s:?} reports another error than new(): {msg}");
            let mut given = String::with_capacity(s.len() + $cx.rng.below(3) * 40);
            given.push_str(s);
            let at = (given.as_ptr(), given.capacity());
            match $owned::<$S>::try_from(given) {
                Err(x) => {
                    eq!(x.validation_error(), e, "{name}: TryFrom<String> of {s:?}");
                    eq!(x.to_string(), msg, "{name}: Display of the error of TryFrom<String> of {s:?}");
                    let c = x.clone();
                    eq!((c.validation_error(), c.into_source().as_str()), (e, s), "{name}: a clone of the error of TryFrom<String>");
                    let back = x.into_source();
                    eq!(back.as_str(), s, "{name}: the source in the error of TryFrom<String>");
                    eq!((back.as_ptr(), back.capacity()), at, "{name}: the buffer in the error of TryFrom<String> of {s:?}");
                }
                Ok(_) => return Err(format!("{name}: TryFrom<String> accepts {s:?}")),
            }
            $cx.obs(8);
            let says = msg.strip_prefix("invalid IRI: ").unwrap_or(&msg);
            ck!(truthful(<$S as Sx>::SP, $kind, s, says) != Some(false), "{name}: {s:?} is rejected with {msg:?}, which is not true of it");
            seen($cx, SAYS, says);
            Some(e)
        } else {
            None
        }
    }};
}

both_specs!(e01, e01_g);
fn e01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    if i % 4 == 1 {
        return e01_build::<S>(cx);
    }
    let s = if i % 16 == 0 && i / 16 < gen::enum_count(ALPHA.len(), 4) {
        gen::enumerate(ALPHA, i / 16, 4).unwrap()
    } else if cx.rng.chance(1, 3) {
        let v = gen::reference(&mut cx.rng, sp, Want::Reference);
        gen::mutate(&mut cx.rng, &v)
    } else {
        gen::hostile(&mut cx.rng, sp)
    };
    cx.input(format!("{sp:?} {s:?}"));
    let r = routes!(cx, Kind::Reference, RiReferenceStr, RiReferenceString, S, &s);
    let a = routes!(cx, Kind::Iri, RiStr, RiString, S, &s);
    let b = routes!(cx, Kind::Absolute, RiAbsoluteStr, RiAbsoluteString, S, &s);
    let c = routes!(cx, Kind::Relative, RiRelativeStr, RiRelativeString, S, &s);
    routes!(cx, Kind::Query, RiQueryStr, RiQueryString, S, &s);
    routes!(cx, Kind::Fragment, RiFragmentStr, RiFragmentString, S, &s);
    cx.nontrivial();
    eq!(validate::iri_reference::<S>(&s).err(), r, "validate::iri_reference of {s:?}");
    eq!(validate::iri::<S>(&s).err(), a, "validate::iri of {s:?}");
    eq!(validate::absolute_iri::<S>(&s).err(), b, "validate::absolute_iri of {s:?}");
    eq!(validate::relative_ref::<S>(&s).err(), c, "validate::relative_ref of {s:?}");
    if a.is_none() && c.is_none() {
        return Err(format!("{s:?} is both an absolute IRI and a relative reference"));
    }
    // Component validators complain about their own component.
    let comps: [(&[&str], Result<(), validate::Error>); 8] = [
        (&["scheme"], validate::scheme(&s)),
        (&["userinfo"], validate::userinfo::<S>(&s)),
        (&["host", "reg-name"], validate::host::<S>(&s)),
        (&["reg-name", "host"], validate::reg_name::<S>(&s)),
        (&["port"], validate::port(&s)),
        (&["path"], validate::path::<S>(&s)),
        (&["query"], validate::query::<S>(&s)),
        (&["fragment"], validate::fragment::<S>(&s)),
    ];
    for (names, got) in comps {
        let Err(e) = got else { continue };
        let msg = e.to_string();
        let others = ["scheme", "userinfo", "host", "reg-name", "port", "path", "query", "fragment"];
        let other = others.iter().find(|o| !names.contains(o) && msg == format!("invalid IRI: invalid {o}"));
        ck!(other.is_none(), "the {} validator rejects {s:?} with {msg:?}", names[0]);
        ck!(!msg.ends_with("utf-8 bytes"), "the {} validator rejects {s:?} with {msg:?}", names[0]);
        cx.obs(1);
    }
    // Narrowing conversions that fail hand back what they were given.
    if let Ok(v) = RiReferenceString::<S>::try_from(s.as_str()) {
        macro_rules! narrow {
            ($v:expr, $owned:ident, $slice:ident, $want:expr, $kind:expr, $from:ty) => {
                if $want.is_some() {
                    let slice: &$from = &$v;
                    let Err(e) = <&$slice<S>>::try_from(slice) else { return Err(format!("{} accepts {s:?} by conversion", stringify!($slice))) };
                    let msg = e.to_string();
                    let says = msg.strip_prefix("invalid IRI: ").unwrap_or(&msg);
                    eq!(Some(e), $want, "conversion to {} of {s:?} against new()", stringify!($slice));
                    ck!(truthful(sp, $kind, &s, says) != Some(false), "conversion to {}: {s:?} is rejected with {msg:?}, which is not true of it", stringify!($slice));
                    let Err(o) = $owned::<S>::try_from($v.clone()) else { return Err(format!("{} accepts {s:?} by conversion", stringify!($owned))) };
                    eq!(o.validation_error(), e, "conversion to {} of {s:?}, owned against borrowed", stringify!($owned));
                    eq!(o.to_string(), msg, "Display of a failed conversion of {s:?}");
                    eq!(o.into_source().as_str(), s.as_str(), "source of a failed conversion to {}", stringify!($owned));
                    cx.obs(4);
                }
            };
        }
        narrow!(v, RiString, RiStr, a, Kind::Iri, RiReferenceStr<S>);
        narrow!(v, RiAbsoluteString, RiAbsoluteStr, b, Kind::Absolute, RiReferenceStr<S>);
        narrow!(v, RiRelativeString, RiRelativeStr, c, Kind::Relative, RiReferenceStr<S>);
        if let Ok(w) = RiString::<S>::try_from(s.as_str()) {
            narrow!(w, RiAbsoluteString, RiAbsoluteStr, b, Kind::Absolute, RiStr<S>);
        }
    }
    if i % 8 == 3 {
        let mut b = s.clone().into_bytes();
        let at = cx.rng.below(b.len() + 1);
        let bad: &[u8] = *cx.rng.pick(&[&b"\xff"[..], b"\xc0\xaf", b"\xed\xa0\x80", b"\x80", b"\xe3\x81", b"\xf4\x90\x80\x80", b"\xc3"]);
        b.splice(at..at, bad.iter().copied());
        if std::str::from_utf8(&b).is_err() {
            macro_rules! utf8 {
                ($($t:ty),*) => {$({
                    match <$t>::try_from(&b[..]) {
                        Err(e) => {
                            let msg = e.to_string();
                            // The bytes are not text, so no component of them can be blamed.
                            ck!(msg == "invalid IRI: invalid utf-8 bytes" || !SAYS.iter().any(|c| msg.ends_with(&c[5..])), "{}: the bytes {b:02x?} are rejected with {msg:?}", stringify!($t));
                            seen(cx, SAYS, msg.strip_prefix("invalid IRI: ").unwrap_or(&msg));
                        }
                        Ok(_) => return Err(format!("{} accepts the bytes {b:02x?}", stringify!($t))),
                    }
                    cx.obs(1);
                })*};
            }
            utf8!(&RiReferenceStr<S>, RiReferenceString<S>, &RiStr<S>, RiString<S>, &RiAbsoluteStr<S>, RiAbsoluteString<S>, &RiRelativeStr<S>, RiRelativeString<S>, &RiQueryStr<S>, RiQueryString<S>, &RiFragmentStr<S>, RiFragmentString<S>);
        }
    }
    Ok(())
}

/// The error of a builder names a component that is wrong as it was given.
fn e01_build<S: Sx>(cx: &mut Cx<'_>) -> R {
    use iri_string::build::{Builder, UserinfoBuilder};
    let sp = S::SP;
    let r = &mut cx.rng;
    let near = |r: &mut crate::rng::Rng, t: String| if r.chance(1, 6) { gen::mutate(r, &t) } else { t };
    let t = gen::scheme(r);
    let scheme = r.chance(1, 2).then(|| near(r, t));
    let t = gen::userinfo(r, sp);
    let userinfo = r.chance(1, 3).then(|| near(r, t));
    let user_pass = r.chance(1, 2);
    let t = gen::host(r, sp);
    let host = r.chance(1, 2).then(|| near(r, t));
    let t = gen::port(r);
    let port = r.chance(1, 3).then(|| if r.chance(1, 8) { "8a".to_owned() } else { near(r, t) });
    let t = gen::path(r, sp);
    let path = near(r, t);
    let t = gen::query(r, sp);
    let query = r.chance(1, 3).then(|| near(r, t));
    let t = gen::fragment(r, sp);
    let fragment = r.chance(1, 3).then(|| near(r, t));
    let normalize = r.chance(1, 3);
    let has_auth = userinfo.is_some() || host.is_some() || port.is_some();
    cx.input(format!("{sp:?} builder scheme={scheme:?} userinfo={userinfo:?} as user and password={user_pass} host={host:?} port={port:?} path={path:?} query={query:?} fragment={fragment:?} normalize={normalize}"));
    let mut b = Builder::new();
    if let Some(v) = &scheme { b.scheme(v); }
    let up = userinfo.as_deref().map(|u| u.split_once(':').map_or((u, None), |(a, p)| (a, Some(p))));
    if let Some(v) = &userinfo {
        if user_pass {
            let (u, p) = up.unwrap();
            b.userinfo(UserinfoBuilder::from((u, p)));
        } else {
            b.userinfo(v.as_str());
        }
    }
    if let Some(v) = &host { b.host(v); }
    if let Some(v) = &port { b.port(v.as_str()); }
    b.path(&path);
    if let Some(v) = &query { b.query(v); }
    if let Some(v) = &fragment { b.fragment(v); }
    if normalize { b.normalize(); }
    let bad_scheme = scheme.as_deref().map_or(false, |v| !model::v_scheme(v));
    let bad_user = userinfo.as_deref().map_or(false, |v| !model::v_userinfo(sp, v));
    let bad_host = host.as_deref().map_or(false, |v| !model::v_host(sp, v));
    let bad_port = port.as_deref().map_or(false, |v| !model::v_port(v));
    let bad_query = query.as_deref().map_or(false, |v| !model::v_query(sp, v));
    let bad_fragment = fragment.as_deref().map_or(false, |v| !model::v_fragment(sp, v));
    let mut texts: Vec<(Kind, Result<String, String>)> = Vec::new();
    macro_rules! build {
        ($kind:expr, $t:ty) => {
            texts.push(($kind, b.clone().build::<$t>().map(|v| v.to_string()).map_err(|e| e.to_string())));
        };
    }
    build!(Kind::Reference, RiReferenceStr<S>);
    build!(Kind::Iri, RiStr<S>);
    build!(Kind::Absolute, RiAbsoluteStr<S>);
    build!(Kind::Relative, RiRelativeStr<S>);
    if texts.iter().any(|t| t.1.is_err()) {
        cx.nontrivial();
    }
    for (kind, res) in texts {
        let Err(msg) = res else { continue };
        let says = msg.strip_prefix("invalid IRI: ").unwrap_or(&msg);
        let needs_scheme = matches!(kind, Kind::Iri | Kind::Absolute);
        let ok = match says {
            "invalid scheme" => bad_scheme || needs_scheme && scheme.is_none(),
            "invalid userinfo" => bad_user,
            "invalid host" | "invalid reg-name" => bad_host,
            "invalid port" => bad_port,
            // Whether a path fits depends on its surroundings; a path that is valid and
            // cannot be mistaken for anything else does.
            "invalid path" => !model::v_path(sp, &path) || path.contains(':') || path.contains("//") || path.contains('.') || path.contains('%') || has_auth && !path.is_empty() && !path.starts_with('/'),
            "invalid query" => bad_query,
            "invalid fragment" => bad_fragment,
            "unexpected fragment" => kind == Kind::Absolute && fragment.is_some(),
            "expected a relative IRI but got an absolute IRI" => kind == Kind::Relative && scheme.is_some(),
            "expected an absolute IRI but got a relative IRI" => needs_scheme && scheme.is_none(),
            "invalid utf-8 bytes" => false,
            _ => true,
        };
        ck!(ok, "building a {kind:?} fails with {msg:?}, which is not true of what was given");
        seen(cx, BUILT, says);
        cx.obs(1);
    }
    Ok(())
}
