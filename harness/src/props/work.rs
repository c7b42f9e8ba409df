//! W01: time and stack grow in proportion to the input.
//!
//! The text of a case is a short unit repeated inside some component. Every operation runs on
//! the text at two lengths, on a thread with a small stack, and the processor time of the thread
//! is compared. Verdicts need a confirmation at larger sizes, and the limit lies far from both the
//! linear and the quadratic ratio, so that noise does not matter.

use crate::both_specs;
use crate::ck;
use crate::dict;
use crate::engine::{Cx, Prop, R};
use crate::gen;
use crate::model;
use crate::props::Sx;
use iri_string::build::Builder;
use iri_string::format::{write_to_slice, ToDedicatedString as _};
use iri_string::percent_encode::decode::decode_whatwg_bytes;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::template::context::{AssocVisitor as _, Context, ListVisitor as _, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::fmt::Write as _;
use std::ops::ControlFlow;

pub static PROPS: &[&Prop] = &[&Prop {
    id: "W01",
    quick: 12_000,
    thorough: 300_000,
    case: w01,
    rule: "distinct repeated units and positions; every applicable operation timed at two lengths on a small stack",
    required: &[
        "scheme", "userinfo", "host", "path", "opaque-path", "relative-path", "query", "fragment", "port", "template",
        "raw", "value", "dots", "parse-ok", "parse-error", "normalize", "resolve", "expand", "edit", "map", "percent", "build",
    ],
}];

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// Processor time of the current thread in nanoseconds.
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// Discards what is written.
struct Null(usize);
impl std::fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
fn show<T: std::fmt::Display>(v: T) -> usize {
    let mut n = Null(0);
    let _ = write!(n, "{v}");
    n.0
}

type Op<'a> = (&'static str, &'static str, Box<dyn Fn(&str) -> Option<usize> + Sync + 'a>);

/// Values for every variable name.
struct Any<'a>(&'a str, usize);
impl Context for Any<'_> {
    fn visit<V: Visitor>(&self, visitor: V) -> V::Result {
        match self.1 {
            0 => visitor.visit_string(self.0),
            1 => {
                let mut l = visitor.visit_list();
                for part in self.0.split_inclusive('a') {
                    if let ControlFlow::Break(r) = l.visit_item(part) {
                        return r;
                    }
                }
                l.finish()
            }
            2 => {
                let mut l = visitor.visit_assoc();
                for part in self.0.split_inclusive('a') {
                    if let ControlFlow::Break(r) = l.visit_entry(part, "v") {
                        return r;
                    }
                }
                l.finish()
            }
            _ => visitor.visit_undefined(),
        }
    }
}

fn reference_ops<'a, S: Sx>(dots: bool) -> Vec<Op<'a>> {
    let mut v: Vec<Op<'a>> = Vec::new();
    macro_rules! op {
        ($class:literal, $name:expr, |$s:ident| $e:expr) => {
            v.push(($class, $name, Box::new(move |$s: &str| -> Option<usize> { Some($e) })))
        };
    }
    macro_rules! parse {
        ($($ty:ident)*) => { $( op!("parse", stringify!($ty), |s| match $ty::<S>::new(s) { Ok(v) => v.as_str().len(), Err(e) => show(e) }); )* };
    }
    if !dots {
        parse!(RiStr RiAbsoluteStr RiReferenceStr RiRelativeStr RiQueryStr RiFragmentStr);
        macro_rules! val {
            ($($f:ident)*; $($g:ident)*) => {
                $( op!("parse", stringify!($f), |s| usize::from(iri_string::validate::$f::<S>(s).is_ok())); )*
                $( op!("parse", stringify!($g), |s| usize::from(iri_string::validate::$g(s).is_ok())); )*
            };
        }
        val!(iri iri_reference absolute_iri relative_ref authority host reg_name userinfo path path_segment query fragment; scheme port);
        op!("parse", "owned conversions", |s| {
            let Ok(v) = RiReferenceString::<S>::try_from(s.to_owned()) else { return None };
            match v.clone().into_iri() { Ok(v) => v.len(), Err(v) => v.len() }
        });
        op!("parts", "components", |s| {
            let v = RiReferenceStr::<S>::new(s).ok()?;
            let mut n = v.path_str().len();
            for t in [v.scheme_str(), v.authority_str(), v.query_str(), v.fragment_str()].into_iter().flatten() { n += t.len(); }
            if let Some(a) = v.authority_components() {
                n += a.host().len() + a.userinfo().map_or(0, str::len) + a.port().map_or(0, str::len) + a.reg_name().map_or(0, str::len);
            }
            n
        });
        op!("parts", "compare and hash", |s| {
            use std::hash::{Hash as _, Hasher as _};
            let v = RiReferenceStr::<S>::new(s).ok()?;
            let t = v.to_owned();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v.hash(&mut h);
            h.finish() as usize ^ usize::from(*v == t) ^ v.cmp(&t) as usize
        });
        op!("mask", "masking", |s| {
            let v = RiReferenceStr::<S>::new(s).ok()?;
            let m = v.mask_password();
            show(&m) + show(m.replace_password("*")) + show(m.replace_password_with(str::len)) + show(format_args!("{m:?}")) + m.to_dedicated_string().len()
        });
        op!("edit", "in-place edits", |s| {
            let mut v = RiReferenceString::<S>::try_from(s).ok()?;
            v.remove_password_inline();
            v.set_fragment(Some(RiFragmentStr::new("f").ok()?));
            v.set_fragment(None);
            v.len()
        });
        op!("map", "mapping", |s| {
            let v = IriReferenceString::try_from(s).ok()?;
            let n = show(v.encode_to_uri()) + usize::from(v.as_uri().is_some());
            let mut w = v.clone();
            w.encode_to_uri_inline();
            n + w.len() + v.try_into_uri().map_or(0, |u| u.len())
        });
        op!("build", "building", |s| {
            let v = RiReferenceStr::<S>::new(s).ok()?;
            let b = Builder::from(v);
            b.build::<RiReferenceStr<S>>().map_or(0, show)
        });
        op!("build", "building the parts", |s| {
            let mut n = 0;
            for k in 0..6 {
                let mut b = Builder::new();
                match k { 0 => b.scheme(s), 1 => b.host(s), 2 => b.path(s), 3 => b.query(s), 4 => b.fragment(s), _ => { b.host("h"); b.userinfo(s) } }
                n += b.build::<RiReferenceStr<S>>().map_or(0, show);
            }
            n
        });
    }
    op!("normalize", "normalize", |s| {
        let v = RiStr::<S>::new(s).ok()?;
        show(v.normalize()) + show(v.normalize_but_preserve_authorityless_relative_path())
    });
    op!("normalize", "normalize to an owned value", |s| {
        let v = RiStr::<S>::new(s).ok()?;
        let mut buf = vec![0_u8; s.len() * 3 + 8];
        v.normalize().to_dedicated_string().len() + write_to_slice(&mut buf, &v.normalize()).map_or(0, str::len)
    });
    op!("normalize", "is_normalized", |s| {
        let v = RiStr::<S>::new(s).ok()?;
        usize::from(v.is_normalized()) + usize::from(v.is_normalized_rfc3986()) + usize::from(v.is_normalized_but_authorityless_relative_path_preserved()) + usize::from(v.ensure_rfc3986_normalizable().is_ok())
    });
    op!("normalize", "normalizing builder", |s| {
        let v = RiReferenceStr::<S>::new(s).ok()?;
        let mut b = Builder::from(v);
        b.normalize();
        b.build::<RiReferenceStr<S>>().map_or(0, |x| show(&x) + usize::from(x.ensure_rfc3986_normalizable().is_ok()))
    });
    op!("resolve", "resolve against short bases", |s| {
        let t = RiReferenceStr::<S>::new(s).ok()?;
        let mut n = 0;
        for b in ["s:", "s://h/a/b?q", "s:/x//y", "s:p"] {
            let b = RiAbsoluteStr::<S>::new(b).ok()?;
            n += show(t.resolve_against(b)) + show(t.resolve_against(b).and_normalize()) + show(FixedBaseResolver::new(b).resolve(t));
        }
        n
    });
    op!("resolve", "resolve short references", |s| {
        let b = RiAbsoluteStr::<S>::new(s).ok()?;
        let f = FixedBaseResolver::new(b);
        let mut n = 0;
        for t in ["", "x", "/x", "?q", "#f", "//h", "x/y"] {
            let t = RiReferenceStr::<S>::new(t).ok()?;
            n += show(t.resolve_against(b)) + show(f.resolve(t).and_normalize());
        }
        n
    });
    v
}

fn text_ops<'a, S: Sx>() -> Vec<Op<'a>> {
    let mut v: Vec<Op<'a>> = Vec::new();
    macro_rules! enc {
        ($($f:ident)*) => { $( v.push(("percent", stringify!($f), Box::new(|s: &str| Some(show(PercentEncoded::<_, S>::$f(s)))))); )* };
    }
    enc!(from_reg_name from_user from_password from_path_segment from_path from_query from_fragment unreserve characters);
    v.push(("percent", "decoding", Box::new(|s: &str| {
        let d = decode_whatwg_bytes(s.as_bytes());
        let n = d.to_bytes().map_or(0, |b| b.len()) + d.bytes_fragments().count();
        let c = decode_whatwg_bytes(s.as_bytes());
        Some(n + c.into_string().map_or(0, |s| s.len()))
    })));
    v
}

fn template_ops<'a, S: Sx>() -> Vec<Op<'a>> {
    let mut v: Vec<Op<'a>> = Vec::new();
    v.push(("parse", "UriTemplateStr::new", Box::new(|s: &str| Some(match UriTemplateStr::new(s) { Ok(t) => t.as_str().len(), Err(e) => show(e) }))));
    v.push(("parse", "UriTemplateString", Box::new(|s: &str| Some(match UriTemplateString::try_from(s.to_owned()) { Ok(t) => t.variables().count(), Err(e) => show(e) }))));
    for (k, name) in [(0, "expand with strings"), (1, "expand with lists"), (2, "expand with pairs"), (3, "expand with nothing")] {
        v.push(("expand", name, Box::new(move |s: &str| {
            let t = UriTemplateStr::new(s).ok()?;
            Some(t.expand::<S, _>(&Any("1a%é", k)).map_or(0, show))
        })));
    }
    v.push(("expand", "expand with a ready-made context", Box::new(move |s: &str| {
        let t = UriTemplateStr::new(s).ok()?;
        let mut c = SimpleContext::new();
        for n in t.variables() {
            c.insert(n.as_str(), Value::List(vec!["x".into(), "%".into()]));
        }
        Some(t.expand::<S, _>(&c).map_or(0, show))
    })));
    v
}

fn value_ops<'a, S: Sx>() -> Vec<Op<'a>> {
    let mut v: Vec<Op<'a>> = Vec::new();
    for (k, name) in [(0, "expand a long string"), (1, "expand a long list"), (2, "expand many pairs")] {
        for t in ["{a}", "{+a}", "{#a}", "{?a*}", "{;a}", "{/a*}", "{&a}", "{a:9999}", "{+a:9999}", "{+a*}"] {
            if k != 0 && t.contains(':') { continue; }
            v.push(("expand", name, Box::new(move |s: &str| {
                let t = UriTemplateStr::new(t).ok()?;
                Some(t.expand::<S, _>(&Any(s, k)).map_or(0, show))
            })));
        }
    }
    v
}

const SMALL: usize = 2 << 10;
const SCALE: usize = 16;
/// Linear work scales by 16, quadratic work by 256.
const LIMIT: u64 = 70;
/// With dot segments quadratic work is known and accepted: 8 by 8 against 8 by 8 by 8.
const DOTS_SMALL: usize = 256;
const DOTS_SCALE: usize = 8;
const DOTS_LIMIT: u64 = 220;

fn best(f: &dyn Fn(&str) -> Option<usize>, s: &str, reps: usize) -> Option<u64> {
    let mut b = u64::MAX;
    for _ in 0..reps {
        let t = cpu();
        let n = f(s);
        std::hint::black_box(n);
        n?;
        b = b.min(cpu() - t);
    }
    Some(b)
}

both_specs!(w01, w01_g);
fn w01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    const TOKENS: &[&str] = &[
        "a", "Z", "1", "-", "~", "%41", "%e3%81%82", "%E3", "%f0%9f", "%2f", "%2e", "%", "%zz", "%ff", "%80", "%C0", "%ed%a0%80", "/", ":", "@", "?", "#", "\u{e9}", "\u{3042}", "\u{1f600}",
        "\u{e000}", ".", "..", "/a", "/.", "/..", "//", ";", "=", "&", ",", "+", "[", "]", "{", "}", "{a}", "{+a:3}", "{?a*}", "{a,b}", "a/b", " ", "\u{0}", "x=y",
        "/a/../", "/./", "/a/b/../..", "'", "!",
    ];
    const SAFE: &[&str] = &["a", "Z", "1", "-", "~", "%41", "%e3%81%82", "%E3", "%2F", "b1", "%7e", "%f0%9f%98%80", "%f0%9f", "%ff", "%80", "%e0%80%80"];
    let sp = S::SP;
    let r = &mut cx.rng;
    let place = (i % 13) as usize;
    let mut unit = String::new();
    let safe = r.chance(2, 3);
    let most = if r.chance(1, 4) { 8 } else { 3 };
    for _ in 0..r.range(1, most) {
        match dict::string(r).filter(|s| s.len() < 20) {
            Some(s) if r.chance(1, 3) => unit.push_str(s),
            _ if safe => unit.push_str(match place {
                0 => r.pstr(&["a", "Z", "1", "+", "-", "."]),
                3..=5 => r.pstr(&["/", "a", "/a", "//", "%41", "b", ":", "@", "/.", "/..", "../", "..", "/a/..", "%2e", "=", "\u{3042}"]),
                8 => r.pstr(&["0", "1", "9"]),
                9 | 10 => r.pstr(&["{a}", "{+b:3}", "{?c*}", "{a,b*,c:9}", "x", "%41", "/", "{/d}", "{#e,f}", "\u{3042}", "{&g.h}", "{;%41}"]),
                1 | 2 | 6 | 7 => r.pstr(SAFE),
                _ => r.pstr(TOKENS),
            }),
            _ => unit.push_str(r.pstr(TOKENS)),
        }
        match r.below(24) {
            0 | 1 => unit.push(gen::any_char(r)),
            2 | 3 if place != 0 && place != 8 => unit.push_str(&gen::pct(r)),
            4 | 5 if place != 0 && place != 8 => { let _ = write!(unit, "%{:02x}", r.below(256)); }
            _ => {}
        }
    }
    if unit.is_empty() { unit.push('a'); }
    // Only few cases repeat a unit of dots: these are the slow ones.
    let (class, pre, post) = match place {
        0 => ("scheme", "s", ":x"),
        1 => ("userinfo", r.pstr(&["s://", "//", "s://u:"]), "@h/"),
        2 => ("host", r.pstr(&["s://", "//", "s://u@", "s://["]), r.pstr(&["/p", "", ":1", "]/"])),
        3 => ("path", r.pstr(&["s://h/", "//h/", "s:/"]), r.pstr(&["", "?q#f", "/", "/.", "/..", "//"])),
        4 => ("relative-path", r.pstr(&["r/", "/r", ""]), r.pstr(&["", "?q#f"])),
        5 => ("opaque-path", "s:", r.pstr(&["", "?q#f"])),
        6 => ("query", r.pstr(&["s:?", "?", "s://h?"]), r.pstr(&["", "#f"])),
        7 => ("fragment", r.pstr(&["s:#", "#", "s://h#"]), ""),
        8 => ("port", r.pstr(&["s://h:", "//[::1]:"]), r.pstr(&["", "/"])),
        9 => ("template", "", r.pstr(&["", "{a}"])),
        10 => ("template", r.pstr(&["{", "{?", "x{+"]), r.pstr(&["}", "a}"])),
        11 => ("raw", "", ""),
        _ => ("value", "", ""),
    };
    if place == 10 && safe {
        unit = r.pstr(&["a,", "b*,", "c:3,", "d.e,", "%41*,", "a,b,c,", "x", "x.x", "%41"]).to_owned();
    }
    let make = |n: usize| format!("{pre}{}{post}", unit.repeat(n / unit.len() + 1));
    // A component with dot segments?
    let dots = matches!(place, 0..=8) && {
        let s = make(3 * unit.len());
        let end = s.find(['?', '#']).unwrap_or(s.len());
        s[..end].split('/').any(|x| matches!(x.to_ascii_lowercase().replace("%2e", ".").as_str(), "." | ".."))
    };
    let ops: Vec<Op<'_>> = match place {
        0..=8 => reference_ops::<S>(dots),
        9 | 10 => template_ops::<S>(),
        11 => { let mut v = text_ops::<S>(); v.extend(reference_ops::<S>(false).into_iter().filter(|o| o.0 == "parse")); v }
        _ => value_ops::<S>(),
    };
    cx.input(format!("{sp:?} {class} {pre:?} {unit:?}* {post:?}"));
    let (small, scale, limit) = if dots { (DOTS_SMALL, DOTS_SCALE, DOTS_LIMIT) } else { (SMALL, SCALE, LIMIT) };
    let (a, b) = (make(small), make(small * scale));
    // Nothing else lives on this stack: recursion over the text would not fit.
    let run = || -> Result<Vec<&'static str>, String> {
        let mut done = Vec::new();
        for (kind, name, f) in &ops {
            let (Some(x), Some(y)) = (best(f, &a, 2), best(f, &b, 1)) else { continue };
            done.push(*kind);
            if y > limit * x.max(1) {
                // Once more, with care.
                let (x, y) = (best(f, &a, 9).unwrap_or(1), best(f, &b, 3).unwrap_or(0));
                if y > limit * x.max(1) {
                    let (c, d) = (make(small * 2), make(small * 2 * scale));
                    let (p, q) = (best(f, &c, 9).unwrap_or(1), best(f, &d, 3).unwrap_or(0));
                    if q > limit * p.max(1) {
                        return Err(format!(
                            "{name}: {x} ns for {} bytes but {y} ns for {}, {p} ns for {} but {q} ns for {}: the work is out of proportion to the length",
                            a.len(), b.len(), c.len(), d.len()
                        ));
                    }
                }
            }
        }
        Ok(done)
    };
    let done = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(192 << 10)
            .spawn_scoped(sc, || crate::engine::catch(run))
            .map_err(|e| format!("monitor: no thread: {e}"))?
            .join()
            .map_err(|_| "monitor: the thread did not end".to_string())?
    })?;
    let done = done?;
    cx.obs(done.len() as u64);
    cx.hit(class);
    for k in &done { if *k != "parse" && *k != "parts" && *k != "mask" { cx.hit(k); } }
    if dots { cx.hit("dots"); }
    let ok = match place { 9 | 10 => model::parse_template(&a).is_some(), _ => model::v_reference(sp, &a) };
    cx.hit(if ok { "parse-ok" } else { "parse-error" });
    cx.nontrivial();
    Ok(())
}
