//! C04: serde.

use super::Sx;
use crate::engine::{Cx, Prop, R};
use crate::gen;
use crate::model;
use crate::{both_specs, ck, eq};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;

pub static PROPS: &[Prop] = &[Prop {
    id: "C04",
    quick: 300_000,
    thorough: 6_000_000,
    case: c04,
    rule: "distinct strings deserialized into every string type and serialized back",
    required: &["spec:uri", "spec:iri", "accepted", "rejected", "borrowed", "escaped", "template", "not-a-string"],
}];

both_specs!(c04, c04_g);
fn c04_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let r = &mut cx.rng;
    let s = match r.below(4) {
        0 => gen::template_near(r),
        1 => gen::raw_text(r),
        _ => gen::hostile(r, sp),
    };
    cx.input(format!("{sp:?} {s:?}"));
    let json = serde_json::to_string(&s).unwrap();
    // A document in which the text is not borrowed.
    let escaped: String = {
        let mut o = String::from("\"");
        for (k, u) in s.encode_utf16().enumerate() {
            if k == 0 || u > 0x7e || u < 0x20 || u == 0x22 || u == 0x5c {
                o.push_str(&format!("\\u{u:04x}"));
            } else {
                o.push(u as u8 as char);
            }
        }
        o.push('"');
        o
    };
    let plain = !json.contains('\\');
    macro_rules! ty {
        ($str:ty, $string:ty, $ok:expr, $what:expr) => {{
            let ok: bool = $ok;
            for (how, doc) in [("plain", &json), ("escaped", &escaped)] {
                match serde_json::from_str::<$string>(doc) {
                    Ok(v) => {
                        ck!(ok, "{} accepted {s:?} from a {how} document", $what);
                        eq!(v.as_str(), s.as_str(), "text of the deserialized {}", $what);
                        eq!(serde_json::to_string(&v).unwrap(), json.clone(), "serialized {}", $what);
                        if how == "escaped" { cx.hit("escaped"); }
                    }
                    Err(_) => ck!(!ok, "{} rejected {s:?} from a {how} document", $what),
                }
            }
            eq!(serde_json::from_slice::<$string>(json.as_bytes()).is_ok(), ok, "{} from bytes", $what);
            eq!(serde_json::from_value::<$string>(serde_json::Value::String(s.clone())).is_ok(), ok, "{} from an owned value", $what);
            match serde_json::from_str::<&$str>(&json) {
                Ok(v) => {
                    ck!(ok, "borrowed {} accepted {s:?}", $what);
                    eq!(v.as_str(), s.as_str(), "text of the borrowed {}", $what);
                    eq!(serde_json::to_string(v).unwrap(), json.clone(), "serialized borrowed {}", $what);
                    let p = v.as_str().as_ptr() as usize;
                    let d = json.as_ptr() as usize;
                    ck!(s.is_empty() || (p > d && p + s.len() < d + json.len()), "the borrowed {} does not borrow from the document", $what);
                    cx.hit("borrowed");
                }
                Err(_) => ck!(!ok || !plain, "borrowed {} rejected {s:?}", $what),
            }
            if ok { cx.hit("accepted"); } else { cx.hit("rejected"); }
            cx.obs(6);
        }};
    }
    ty!(RiReferenceStr<S>, RiReferenceString<S>, model::v_reference(sp, &s), "reference");
    ty!(RiStr<S>, RiString<S>, model::v_iri(sp, &s), "IRI");
    ty!(RiAbsoluteStr<S>, RiAbsoluteString<S>, model::v_absolute(sp, &s), "absolute IRI");
    ty!(RiRelativeStr<S>, RiRelativeString<S>, model::v_relative(sp, &s), "relative reference");
    ty!(RiQueryStr<S>, RiQueryString<S>, model::v_query(sp, &s), "query");
    ty!(RiFragmentStr<S>, RiFragmentString<S>, model::v_fragment(sp, &s), "fragment");
    let tok = model::parse_template(&s).is_some();
    ty!(UriTemplateStr, UriTemplateString, tok, "template");
    if tok { cx.hit("template"); }
    if i % 16 == 0 {
        for doc in ["null", "1", "[]", "{}", "true", "[\"a:\"]", "[104,116]"] {
            ck!(serde_json::from_str::<RiReferenceString<S>>(doc).is_err(), "{doc} was accepted as a reference");
            ck!(serde_json::from_str::<&RiStr<S>>(doc).is_err(), "{doc} was accepted as a borrowed IRI");
            ck!(serde_json::from_str::<UriTemplateString>(doc).is_err(), "{doc} was accepted as a template");
        }
        cx.hit("not-a-string");
    }
    cx.nontrivial();
    Ok(())
}
