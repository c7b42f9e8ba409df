//! P01, P02: percent-encoding and decoding.

use super::Sx;
use crate::engine::{Cx, Prop, R};
use crate::gen;
use crate::model::{self, Sp};
use crate::{both_specs, ck, eq};
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::percent_encode::{PercentEncoded, PercentEncodedForIri, PercentEncodedForUri};
use iri_string::validate;
use std::borrow::Cow;
use std::fmt;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P01",
        quick: 400_000,
        thorough: 8_000_000,
        case: p01,
        rule: "distinct texts encoded for all nine contexts, compared with the model, re-validated and decoded back",
        required: &["spec:uri", "spec:iri", "ascii-all", "non-ascii", "private", "percent", "chunked", "every-char"],
    },
    Prop {
        id: "P02",
        quick: 9_600_000,
        thorough: 24_000_000,
        case: p02,
        rule: "distinct byte strings decoded through every accessor and compared with the WHATWG percent-decode model",
        required: &["nothing-to-decode", "decoded", "stray", "stray-then-decoded", "not-utf8-input", "not-utf8-output", "long", "enumerated"],
    },
];

/// Displays a text in chunks of the given sizes.
pub struct Chunked<'a>(pub &'a str, pub &'a [u8]);
impl fmt::Display for Chunked<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut rest = self.0;
        let mut k = 0;
        while !rest.is_empty() {
            let n = if self.1.is_empty() { 1 } else { self.1[k % self.1.len()] as usize };
            k += 1;
            if n == 0 {
                // One character through write_char.
                let c = rest.chars().next().unwrap();
                fmt::Write::write_char(f, c)?;
                rest = &rest[c.len_utf8()..];
                continue;
            }
            let at = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
            f.write_str(&rest[..at])?;
            if k % 5 == 0 {
                f.write_str("")?;
            }
            rest = &rest[at..];
        }
        Ok(())
    }
}

pub fn chunk_plan(r: &mut crate::engine::Rng) -> Vec<u8> {
    (0..r.range(1, 4)).map(|_| *r.pick(&[0u8, 1, 1, 2, 3, 5, 17])).collect()
}

both_specs!(p01, p01_g);
fn p01_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let s = if i < 0x4400 {
        // Every character of the Unicode range, 64 at a time.
        cx.hit("every-char");
        (0..64u32).filter_map(|k| char::from_u32(i as u32 * 64 + k)).collect()
    } else {
        gen::raw_text(&mut cx.rng)
    };
    cx.input(format!("{sp:?} {s:?}"));
    let plan = chunk_plan(&mut cx.rng);
    let ur = |c| model::unreserved(sp, c);
    let sd = model::sub_delim;
    type K<'a> = Box<dyn Fn(char) -> bool + 'a>;
    type V<'a> = Option<Box<dyn Fn(&str) -> (bool, bool) + 'a>>;
    macro_rules! ctx {
        ($name:ident, $keep:expr, $valid:expr) => {{
            let keep: K<'_> = Box::new($keep);
            let valid: V<'_> = $valid;
            let want = model::pct_encode(&s, &*keep);
            let got = PercentEncoded::<_, S>::$name(s.as_str()).to_string();
            eq!(got.as_str(), want.as_str(), "{} of {s:?}", stringify!($name));
            super::flags(&PercentEncoded::<_, S>::$name(s.as_str()), &got, "percent-encoded display")?;
            let got2 = PercentEncoded::<_, S>::$name(Chunked(&s, &plan)).to_string();
            eq!(got2.as_str(), want.as_str(), "{} of {s:?} written in chunks {plan:?}", stringify!($name));
            let alias = if sp == Sp::Uri { PercentEncodedForUri::$name(&s).to_string() } else { PercentEncodedForIri::$name(&s).to_string() };
            eq!(alias.as_str(), want.as_str(), "{} of {s:?} through the alias", stringify!($name));
            if let Some(valid) = valid {
                let (lib, model) = valid(&got);
                ck!(lib && model, "{} of {s:?} is {got:?}, which is not valid there", stringify!($name));
            }
            match decode_whatwg_bytes(got.as_bytes()).into_string() {
                Ok(back) => eq!(back.as_str(), s.as_str(), "decoding {} of {s:?}", stringify!($name)),
                Err(e) => return Err(format!("decoding {} of {s:?}: {e}", stringify!($name))),
            }
            cx.obs(5);
        }};
    }
    ctx!(from_reg_name, move |c| ur(c) || sd(c), Some(Box::new(|g| (validate::host::<S>(g).is_ok(), model::v_host(sp, g)))));
    ctx!(from_user, move |c| ur(c) || sd(c), Some(Box::new(|g| (validate::userinfo::<S>(g).is_ok() && !g.contains(':'), model::v_userinfo(sp, g)))));
    ctx!(from_password, move |c| ur(c) || sd(c), Some(Box::new(|g| (validate::userinfo::<S>(g).is_ok(), model::v_userinfo(sp, g)))));
    ctx!(from_path_segment, move |c| model::pchar(sp, c), Some(Box::new(|g| (validate::path_segment::<S>(g).is_ok(), model::v_path_segment(sp, g)))));
    ctx!(from_path, move |c| model::pchar(sp, c) || c == '/', Some(Box::new(|g| (validate::path::<S>(g).is_ok(), model::v_path(sp, g)))));
    ctx!(from_query, move |c| model::pchar(sp, c) || c == '/' || c == '?' || (sp == Sp::Iri && model::iprivate(c)), Some(Box::new(|g| (validate::query::<S>(g).is_ok(), model::v_query(sp, g)))));
    ctx!(from_fragment, move |c| model::pchar(sp, c) || c == '/' || c == '?', Some(Box::new(|g| (validate::fragment::<S>(g).is_ok(), model::v_fragment(sp, g)))));
    ctx!(unreserve, ur, Some(Box::new(|g| (validate::path_segment::<S>(g).is_ok(), model::v_path_segment(sp, g)))));
    ctx!(characters, move |c| ur(c) || sd(c) || model::gen_delim(c) || (sp == Sp::Iri && model::iprivate(c)), None);
    if s.is_ascii() { cx.hit("ascii-all"); } else { cx.hit("non-ascii"); }
    if s.chars().any(model::iprivate) { cx.hit("private"); }
    if s.contains('%') { cx.hit("percent"); }
    if plan.len() > 1 { cx.hit("chunked"); }
    cx.nontrivial();
    Ok(())
}

const ALPHA: &[&str] = &["%", "4", "1", "a", "F", "g", "\u{e9}", "%E3"];

fn p02(cx: &mut Cx<'_>, i: u64) -> R {
    let b: Vec<u8> = if i < gen::enum_count(ALPHA.len(), 6) {
        cx.hit("enumerated");
        gen::enumerate(ALPHA, i, 6).unwrap().into_bytes()
    } else {
        let r = &mut cx.rng;
        match r.below(6) {
            0 => {
                let n = r.below(60);
                (0..n).map(|_| if r.chance(1, 4) { b'%' } else { r.below(256) as u8 }).collect()
            }
            1 => {
                // Longer than the blocks of a vectorized search.
                let n = r.range(30, 300);
                let mut v: Vec<u8> = (0..n).map(|_| *r.pick(b"abcdef0123456789")).collect();
                for _ in 0..r.below(6) {
                    let at = r.below(v.len());
                    v[at] = b'%';
                }
                v
            }
            _ => gen::raw_text(r).into_bytes(),
        }
    };
    cx.input(format!("{:?}", String::from_utf8_lossy(&b)));
    let want = model::whatwg_decode(&b);
    let d = decode_whatwg_bytes(&b);
    eq!(d.not_yet_decoded(), &b[..], "not_yet_decoded");
    let nothing = want == b && !has_triplet(&b);
    match d.to_bytes() {
        Some(v) => { ck!(nothing, "to_bytes of {b:02x?} claims there is nothing to decode"); eq!(v, &b[..], "to_bytes"); }
        None => ck!(!nothing, "to_bytes of {b:02x?} returned None though nothing is to be decoded"),
    }
    let got = d.into_bytes();
    eq!(&got[..], &want[..], "into_bytes of {b:02x?} ({:?})", String::from_utf8_lossy(&b));
    if nothing {
        ck!(matches!(got, Cow::Borrowed(_)), "into_bytes of {b:02x?} allocated though nothing is to be decoded");
    }
    match (d.into_string(), String::from_utf8(want.clone())) {
        (Ok(a), Ok(w)) => eq!(a, w, "into_string"),
        (Err(_), Err(_)) => {}
        (a, w) => return Err(format!("into_string of {b:02x?} is {a:?}, expected {w:?}")),
    }
    // The fragments cover the input in order and concatenate to the output.
    let mut out = Vec::new();
    let mut at = 0usize;
    let mut it = d.bytes_fragments();
    let mut stray = 0;
    loop {
        eq!(it.not_yet_decoded(), &b[at..], "remaining input of the fragments of {b:02x?}");
        match it.next() {
            None => break,
            Some(DecodedFragment::Direct(v)) => {
                ck!(!v.is_empty(), "an empty direct fragment in {b:02x?}");
                ck!(!v.contains(&b'%'), "a direct fragment of {b:02x?} contains a percent");
                out.extend_from_slice(v);
                at += v.len();
            }
            Some(DecodedFragment::DecodedByte(v)) => { out.push(v); at += 3; }
            Some(DecodedFragment::StrayPercent) => { out.push(b'%'); at += 1; stray += 1; }
        }
        ck!(at <= b.len(), "the fragments of {b:02x?} exceed the input");
        cx.obs(1);
    }
    eq!(at, b.len(), "input covered by the fragments of {b:02x?}");
    eq!(&out[..], &want[..], "concatenated fragments of {b:02x?}");
    ck!(it.next().is_none(), "the exhausted fragments of {b:02x?} yield again");
    cx.obs(6);
    if nothing { cx.hit("nothing-to-decode"); } else { cx.hit("decoded"); }
    if stray > 0 { cx.hit("stray"); if !nothing { cx.hit("stray-then-decoded"); } }
    if std::str::from_utf8(&b).is_err() { cx.hit("not-utf8-input"); }
    if std::str::from_utf8(&want).is_err() { cx.hit("not-utf8-output"); }
    if b.len() > 64 { cx.hit("long"); }
    cx.nontrivial();
    Ok(())
}

fn has_triplet(b: &[u8]) -> bool {
    b.windows(3).any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit())
}
