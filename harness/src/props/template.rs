//! T01..T04: URI templates.

use super::pct::{chunk_plan, Chunked};
use super::Sx;
use crate::engine::{Cx, Prop, Rng, R};
use crate::gen;
use crate::model::{self, Mod, Sp, Tok, Val};
use crate::{both_specs, ck, eq};
use iri_string::template::context::{
    visit_value_naive, VisitValueNaive, AssocVisitor, Context, DynamicContext, ListVisitor, VarName, VisitPurpose, Visitor,
};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::borrow::{Borrow, Cow};
use std::collections::BTreeMap;
use std::fmt;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::sync::Arc;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "T01",
        quick: 6_000_000,
        thorough: 24_000_000,
        case: t01,
        rule: "distinct strings offered as template and as variable name, compared with the RFC 6570 grammar model; accepted ones are walked and expanded",
        required: &["accepted", "rejected", "accepted-with-expression", "non-ascii-literal", "non-ascii-rejected", "max-length", "explode", "pct-literal", "varname-ok", "varname-bad", "enumerated", "not-utf8"],
    },
    Prop {
        id: "T02",
        quick: 500_000,
        thorough: 10_000_000,
        case: t02,
        rule: "distinct (template, variables) pairs whose expansion was compared with the RFC 6570 model, as text and through every entry point",
        required: &[
            "spec:uri", "spec:iri", "systematic", "op:none", "op:+", "op:#", "op:.", "op:/", "op:;", "op:?", "op:&", "undefined", "string", "list", "assoc", "empty-string", "empty-item", "prefix", "prefix-cut",
            "explode", "type-error", "non-ascii-literal", "triplets-in-value",
        ],
    },
    Prop {
        id: "T03",
        quick: 400_000,
        thorough: 8_000_000,
        case: t03,
        rule: "distinct (template, variables, write plan) triples expanded with values delivered in different pieces and through different interfaces",
        required: &["spec:uri", "spec:iri", "chunked", "dynamic", "naive", "sink-chunks", "prefix", "triplet-split", "composite", "converted", "not-converted"],
    },
    Prop {
        id: "T04",
        quick: 400_000,
        thorough: 8_000_000,
        case: t04,
        rule: "distinct expansions whose recorded callback traces were checked against the trace specification of the context protocol",
        required: &["spec:uri", "spec:iri", "dynamic", "static", "type-error", "sink-error", "repeated-variable", "two-expansions", "event:typecheck", "event:expand"],
    },
    Prop {
        id: "T05",
        quick: 200_000,
        thorough: 4_000_000,
        case: t05,
        rule: "distinct histories of a ready-made context (insertions, removals, clearing, cloning) and distinct values handed over through the naive-visit implementations, compared with a map and with explicit values",
        required: &["insert", "replace", "remove", "clear", "clone", "bad-name", "number", "option", "array", "set", "map", "hash", "nested-ref", "owned-string", "refused"],
    },
    Prop {
        id: "T06",
        quick: 1_000_000,
        thorough: 20_000_000,
        case: t06,
        rule: "distinct ill-formed templates and distinct failing expansions whose error position was compared with the construct at fault",
        required: &["at-unclosed", "at-expression", "at-operator", "at-varspec", "at-triplet", "at-character", "at-utf8", "expands", "wrong-type", "sink-error"],
    },
];

fn variables(toks: &[Tok]) -> Vec<&str> {
    toks.iter()
        .flat_map(|t| match t {
            Tok::Lit(_) => &[][..],
            Tok::Expr(_, v) => &v[..],
        })
        .map(|v| v.name.as_str())
        .collect()
}

// ---------------------------------------------------------------- T01

const ALPHA: &[&str] = &["{", "}", "a", ".", ",", ":", "*", "1", "%41", "+", "\u{e9}", "0"];

fn t01(cx: &mut Cx<'_>, i: u64) -> R {
    let s = if i < gen::enum_count(ALPHA.len(), 5) {
        cx.hit("enumerated");
        gen::enumerate(ALPHA, i, 5).unwrap()
    } else if i % 5 == 0 {
        // Exhaustive over expression bodies.
        let n = gen::enum_count(ALPHA.len(), 6);
        format!("{{{}}}", gen::enumerate(ALPHA, (i / 5) % n, 6).unwrap())
    } else {
        let r = &mut cx.rng;
        match r.below(9) {
            0 | 1 => gen::template(r),
            2..=4 => gen::template_near(r),
            5 => {
                let c = gen::any_char(r);
                format!("{}{c}{}", gen::template(r), gen::template(r))
            }
            6 => gen::raw_text(r),
            7 => gen::varname_near(r),
            _ => gen::template_soup(r),
        }
    };
    cx.input(format!("{s:?}"));
    let want = model::parse_template(&s);
    let ok = want.is_some();
    let got = UriTemplateStr::new(&s);
    match (&got, &want) {
        (Ok(t), Some(_)) => eq!(t.as_str(), s.as_str(), "as_str"),
        (Err(e), None) => { let _ = e.to_string(); }
        (Ok(_), None) => return Err(format!("{s:?} was accepted as a template, but the grammar rejects it")),
        (Err(e), Some(_)) => return Err(format!("{s:?} is a template, but was rejected: {e}")),
    }
    // Every constructor gives the same verdict and keeps the text.
    eq!(<&UriTemplateStr>::try_from(s.as_str()).is_ok(), ok, "TryFrom<&str> of {s:?}");
    eq!(<&UriTemplateStr>::try_from(s.as_bytes()).is_ok(), ok, "TryFrom<&[u8]> of {s:?}");
    eq!(UriTemplateString::try_from(s.as_str()).is_ok(), ok, "owned TryFrom<&str> of {s:?}");
    eq!(UriTemplateString::try_from(s.as_bytes()).is_ok(), ok, "owned TryFrom<&[u8]> of {s:?}");
    eq!(s.parse::<UriTemplateString>().is_ok(), ok, "FromStr of {s:?}");
    match UriTemplateString::try_from(s.clone()) {
        Ok(t) => {
            ck!(ok, "TryFrom<String> accepted {s:?}");
            eq!(String::from(t), s, "text of the owned template");
        }
        Err(e) => {
            ck!(!ok, "TryFrom<String> rejected {s:?}");
            let _ = (e.to_string(), e.validation_error());
            eq!(e.into_source(), s, "source of the failed conversion");
        }
    }
    cx.obs(7);
    if cx.index % 7 == 0 {
        let mut b = s.clone().into_bytes();
        let at = cx.rng.below(b.len() + 1);
        b.insert(at, *cx.rng.pick(&[0xffu8, 0x80, 0xc3, 0xf0, 0xed]));
        if std::str::from_utf8(&b).is_err() {
            cx.hit("not-utf8");
            ck!(<&UriTemplateStr>::try_from(&b[..]).is_err(), "{b:02x?} accepted");
            ck!(UriTemplateString::try_from(&b[..]).is_err(), "{b:02x?} accepted as an owned template");
        }
    }
    // The same text as a variable name.
    let vok = model::v_varname(&s);
    match VarName::new(&s) {
        Ok(v) => {
            ck!(vok, "{s:?} was accepted as a variable name");
            eq!(v.as_str(), s.as_str(), "name");
            cx.hit("varname-ok");
        }
        Err(_) => {
            ck!(!vok, "{s:?} was rejected as a variable name");
            cx.hit("varname-bad");
        }
    }
    let mut sc = SimpleContext::new();
    ck!(sc.insert(s.as_str(), "v").is_none(), "insert into an empty context returned a value");
    if vok {
        let n = VarName::new(&s).unwrap();
        ck!(matches!(sc.get(n), Some(Value::String(v)) if v == "v"), "value of {s:?} after insert");
        ck!(matches!(sc.insert(s.as_str(), vec!["x"].into_iter().map(String::from).map(Value::String).next().unwrap()), Some(Value::String(v)) if v == "v"), "old value of {s:?}");
        ck!(matches!(sc.insert(s.as_str(), Value::Undefined), Some(Value::String(v)) if v == "x"), "old value of {s:?} on removal");
        ck!(sc.get(n).is_none(), "{s:?} is still there after removal");
        // A valid name makes a valid template.
        let t = format!("{{{s}}}");
        let t = UriTemplateStr::new(&t).map_err(|e| format!("{t:?} rejected: {e}"))?;
        eq!(t.variables().map(|v| v.as_str()).collect::<Vec<_>>(), vec![s.as_str()], "variables of {t}");
    }
    if let (Ok(t), Some(toks)) = (got, want) {
        cx.hit("accepted");
        let vars: Vec<&str> = t.variables().map(|v| v.as_str()).collect();
        eq!(&vars, &variables(&toks), "variables of {s:?}");
        if !vars.is_empty() { cx.hit("accepted-with-expression"); }
        for v in t.variables() {
            ck!(VarName::new(v.as_str()).is_ok(), "variable name {v:?} of {s:?} is not a name");
        }
        for tok in &toks {
            match tok {
                Tok::Lit(l) => {
                    if !l.is_ascii() { cx.hit("non-ascii-literal"); }
                    if l.contains('%') { cx.hit("pct-literal"); }
                }
                Tok::Expr(_, v) => for v in v {
                    match v.modifier { Mod::None => {} Mod::Prefix(_) => cx.hit("max-length"), Mod::Explode => cx.hit("explode") }
                },
            }
        }
        // Expansion of an accepted template never panics, with any context.
        let none = SimpleContext::new();
        let e = t.expand::<iri_string::spec::UriSpec, _>(&none).map_err(|e| format!("expansion of {s:?} without variables: {e}"))?;
        eq!(Ok(e.to_string()), model::expand(Sp::Uri, &toks, &|_| Val::Undef, false), "expansion of {s:?} without variables");
        let mut all = SimpleContext::new();
        for v in &vars {
            all.insert(*v, "\u{e9}/a");
        }
        let get = |_: &str| Val::Str("\u{e9}/a".into());
        let e = t.expand::<iri_string::spec::IriSpec, _>(&all).map_err(|e| format!("expansion of {s:?}: {e}"))?;
        eq!(Ok(e.to_string()), model::expand(Sp::Iri, &toks, &get, false), "expansion of {s:?} with strings");
        // Templates concatenate.
        let mut o: UriTemplateString = t.to_owned();
        o.append(t);
        eq!(o.as_str(), format!("{s}{s}").as_str(), "append");
        ck!(UriTemplateStr::new(o.as_str()).is_ok(), "{o:?} is not a template");
        eq!(o.variables().count(), 2 * vars.len(), "variables of the concatenation");
        let same = [
            String::from(&*Box::<UriTemplateStr>::from(t).as_str()),
            Arc::<UriTemplateStr>::from(t).as_str().into(),
            Rc::<UriTemplateStr>::from(t).as_str().into(),
            Cow::<UriTemplateStr>::from(t).as_str().into(),
            t.to_string(),
            UriTemplateString::from(t).as_slice().as_str().into(),
        ];
        for x in same {
            eq!(x, s, "text of a container");
        }
        ck!(*t == *s.as_str() && t == s.as_str() && t.to_owned() == s, "comparison of {s:?}");
        eq!((t.len(), t.is_empty()), (s.len(), s.is_empty()), "length of {s:?}");
        let k = t.to_owned();
        let b1: &str = k.borrow();
        let b2: &UriTemplateStr = k.borrow();
        let a1: &str = k.as_ref();
        let a2: &UriTemplateStr = k.as_ref();
        let a3: &str = t.as_ref();
        let a4: &UriTemplateStr = t.as_ref();
        let a5: &str = t.into();
        for (x, what) in [
            (b1, "Borrow<str>"), (b2.as_str(), "Borrow<UriTemplateStr>"), (a1, "AsRef<str>"), (a2.as_str(), "AsRef<UriTemplateStr>"), (a3, "AsRef<str> of the slice"),
            (a4.as_str(), "AsRef<UriTemplateStr> of the slice"), (a5, "Into<&str>"), (k.as_str(), "Deref"),
        ] {
            eq!(x, s.as_str(), "{what}");
        }
        let mut k2 = k.clone();
        ck!(k2.capacity() >= s.len(), "capacity");
        k2.shrink_to_fit();
        eq!(k2.as_str(), s.as_str(), "shrink_to_fit");
        eq!(Box::<UriTemplateStr>::from(k.clone()).as_str(), s.as_str(), "owned into Box");
        eq!(Cow::<'_, UriTemplateStr>::from(k.clone()).as_str(), s.as_str(), "owned into Cow");
        super::flags(t, &s, "template Display")?;
        super::flags(&k, &s, "owned template Display")?;
        cx.obs(14);
        cx.obs(10 + vars.len() as u64);
    } else {
        cx.hit("rejected");
        if !s.is_ascii() { cx.hit("non-ascii-rejected"); }
    }
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- variables

pub type Vars = BTreeMap<String, Val>;

pub fn gen_vars(r: &mut Rng) -> Vars {
    let hot = crate::dict::dict().hot_strs.iter().map(String::as_str).filter(|s| model::v_varname(s));
    gen::VARNAMES.iter().copied().chain(hot).map(|n| (n.to_owned(), gen::val(r))).collect()
}
fn get<'a>(v: &'a Vars) -> impl Fn(&str) -> Val + 'a {
    move |n| v.get(n).cloned().unwrap_or(Val::Undef)
}
pub fn simple(v: &Vars) -> SimpleContext {
    let mut c = SimpleContext::new();
    for (k, v) in v {
        let v = match v {
            Val::Undef => Value::Undefined,
            Val::Str(s) => Value::String(s.clone()),
            Val::List(l) => Value::List(l.clone()),
            Val::Assoc(l) => Value::Assoc(l.clone()),
        };
        c.insert(k.as_str(), v);
    }
    c
}
/// Both readings of the RFC; equal unless an empty joined list follows `;`.
fn expected(sp: Sp, toks: &[Tok], v: &Vars) -> Result<[String; 2], ()> {
    Ok([model::expand(sp, toks, &get(v), false)?, model::expand(sp, toks, &get(v), true)?])
}

// ---------------------------------------------------------------- T02

const SYS_OPS: [&str; 8] = ["", "+", "#", ".", "/", ";", "?", "&"];
const SYS_MODS: [&str; 8] = ["", "*", ":1", ":2", ":3", ":5", ":12", ":9999"];
const SYS_STR: [&str; 22] = [
    "", "a", "ab", "a b", "\u{e9}", "\u{3042}\u{3044}x", "%", "%4", "%41", "%c3%a9z", "%E3%81%82%E3%81%84", "%ff%41", "a%zz", "%F0%41%E3", "%%41", ":/?#[]@", "!$&'()*+,;=", "\u{1f600}%",
    "\u{e000}", "%e3\u{e9}", "\u{7f}{}", "%41%",
];

fn sys_vals() -> Vec<Val> {
    let mut v: Vec<Val> = SYS_STR.iter().map(|s| Val::Str((*s).into())).collect();
    let l = |x: &[&str]| Val::List(x.iter().map(|s| (*s).to_string()).collect());
    let a = |x: &[(&str, &str)]| Val::Assoc(x.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect());
    v.push(Val::Undef);
    v.extend([
        l(&[]), l(&[""]), l(&["a"]), l(&["", ""]), l(&["", "a"]), l(&["a", ""]), l(&["a,b", "%41", "\u{e9}"]), l(&["x", "", "y"]),
        a(&[]), a(&[("", "")]), a(&[("k", "v")]), a(&[("k", "")]), a(&[("", "v")]), a(&[("k", ""), ("l", "w")]), a(&[("a=b", "c;d"), ("%41", "%4"), ("\u{e9}", "\u{3042}")]), a(&[("k", "v"), ("k", "v")]),
    ]);
    v
}

both_specs!(t02, t02_g);
fn t02_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let vals = sys_vals();
    let nv = vals.len() as u64;
    // operator x modifier x value x (alone | before | after another variable)
    let sys = 8 * 8 * nv * 4;
    let (t, vars): (String, Vars) = if i < 2 * sys {
        cx.hit("systematic");
        let k = i / 2;
        let op = SYS_OPS[(k % 8) as usize];
        let m = SYS_MODS[(k / 8 % 8) as usize];
        let v = vals[(k / 64 % nv) as usize].clone();
        let mut vars = Vars::new();
        vars.insert("x".into(), v);
        vars.insert("y".into(), Val::Str("1".into()));
        vars.insert("z".into(), vals[cx.rng.below(vals.len())].clone());
        let t = match k / 64 / nv {
            0 => format!("{{{op}x{m}}}"),
            1 => format!("a{{{op}x{m},y}}/"),
            2 => format!("{{{op}y,x{m}}}{{x}}"),
            _ => format!("{{{op}z,x{m},z*}}\u{e9}"),
        };
        (t, vars)
    } else {
        let r = &mut cx.rng;
        let mut t = gen::template(r);
        if r.chance(1, 6) {
            t.push_str(r.pstr(&["\u{e9}", "\u{3042}%41", "\u{e000}", "\u{1f600}{a}", "%e3\u{e9}"]));
        }
        if r.chance(1, 6) {
            t.insert_str(0, r.pstr(&["\u{e9}", "\u{3042}\u{e000}", "%41\u{10fffd}"]));
        }
        (t, gen_vars(r))
    };
    cx.input(format!("{sp:?} {t:?} with {vars:?}"));
    let toks = model::parse_template(&t).ok_or("the generator made an ill-formed template")?;
    let want = expected(sp, &toks, &vars);
    let tpl = UriTemplateStr::new(&t).map_err(|e| format!("{t:?} rejected: {e}"))?;
    let mut ctx = simple(&vars);
    let got = tpl.expand::<S, _>(&ctx).map(|e| e.to_string());
    let text = match (&got, &want) {
        (Ok(g), Ok(w)) => {
            ck!(w.contains(g), "expansion of {t:?}: observed {g:?}, expected {:?}", w[0]);
            Some(g.clone())
        }
        (Err(e), Err(())) => {
            let _ = e.to_string();
            None
        }
        (Ok(g), Err(())) => return Err(format!("expansion of {t:?} gave {g:?}, but a prefix modifier meets a composite value")),
        (Err(e), Ok(w)) => return Err(format!("expansion of {t:?} failed ({e}), expected {:?}", w[0])),
    };
    eq!(tpl.expand_dynamic_to_string::<S, _>(&mut ctx).ok(), text.clone(), "expand_dynamic_to_string of {t:?}");
    let mut buf = String::from("<");
    let r = tpl.expand_dynamic::<S, _, _>(&mut buf, &mut ctx);
    eq!(r.is_ok(), text.is_some(), "expand_dynamic of {t:?}");
    if let Some(x) = &text {
        eq!(&buf[1..], x.as_str(), "text written by expand_dynamic of {t:?}");
        // The result of an expansion never has characters illegal in a URI or IRI.
        ck!(x.chars().all(|c| model::unreserved(sp, c) || model::sub_delim(c) || model::gen_delim(c) || c == '%' || (sp == Sp::Iri && model::iprivate(c))),
            "expansion of {t:?} has an illegal character: {x:?}");
        let b = x.as_bytes();
        ck!((0..b.len()).all(|i| b[i] != b'%' || (i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit())), "expansion of {t:?} has a stray percent: {x:?}");
    }
    cx.obs(5);
    // Coverage.
    for tok in &toks {
        match tok {
            Tok::Lit(l) => if !l.is_ascii() { cx.hit("non-ascii-literal"); },
            Tok::Expr(op, specs) => {
                cx.hit(match op { None => "op:none", Some('+') => "op:+", Some('#') => "op:#", Some('.') => "op:.", Some('/') => "op:/", Some(';') => "op:;", Some('?') => "op:?", _ => "op:&" });
                for s in specs {
                    let v = vars.get(&s.name).cloned().unwrap_or(Val::Undef);
                    match &v {
                        Val::Undef => cx.hit("undefined"),
                        Val::Str(x) => {
                            cx.hit("string");
                            if x.is_empty() { cx.hit("empty-string"); }
                            if x.contains("%41") || x.contains("%E3") { cx.hit("triplets-in-value"); }
                            if let Mod::Prefix(n) = s.modifier {
                                cx.hit("prefix");
                                if x.chars().count() > n { cx.hit("prefix-cut"); }
                            }
                        }
                        Val::List(l) => { cx.hit("list"); if l.iter().any(String::is_empty) { cx.hit("empty-item"); } }
                        Val::Assoc(_) => cx.hit("assoc"),
                    }
                    if s.modifier == Mod::Explode { cx.hit("explode"); }
                }
            }
        }
    }
    if text.is_none() { cx.hit("type-error"); }
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- T03

/// Delivers values in pieces.
struct Pieces<'a> {
    vars: &'a Vars,
    plan: &'a [u8],
    style: usize,
}
impl Context for Pieces<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let c = |s: &'_ str| -> String { s.to_owned() };
        let val = self.vars.get(v.var_name().as_str()).unwrap_or(&Val::Undef);
        match (val, self.style) {
            (Val::Undef, 0) => v.visit_undefined(),
            // An empty composite is an undefined value.
            (Val::Undef, 1) => v.visit_list().finish(),
            (Val::Undef, 2) => v.visit_assoc_direct(Vec::<(String, String)>::new()),
            (Val::Undef, 3) => visit_value_naive(v, None::<&str>),
            (Val::Undef, _) => visit_value_naive(v, ()),
            (Val::Str(s), 0) => v.visit_string(s),
            (Val::Str(s), 1 | 2) => v.visit_string(Chunked(s, self.plan)),
            (Val::Str(s), 3) => visit_value_naive(v, Some(s.as_str())),
            (Val::Str(s), _) => visit_value_naive(v, Cow::Borrowed(s.as_str())),
            (Val::List(l), 0) => v.visit_list_direct(l),
            (Val::List(l), 1) => {
                let mut lv = v.visit_list();
                for x in l {
                    if let ControlFlow::Break(b) = lv.visit_item(Chunked(x, self.plan)) {
                        return b;
                    }
                }
                lv.finish()
            }
            (Val::List(l), 2) => v.visit_list().visit_items_and_finish(l.iter().map(|x| Chunked(x, self.plan))),
            (Val::List(l), 3) => visit_value_naive(v, l),
            (Val::List(l), _) => visit_value_naive(v, &l[..]),
            (Val::Assoc(l), 0) => v.visit_assoc_direct(l.iter().map(|(a, b)| (c(a), b))),
            (Val::Assoc(l), 1) => {
                let mut av = v.visit_assoc();
                for (k, x) in l {
                    if let ControlFlow::Break(b) = av.visit_entry(Chunked(k, self.plan), Chunked(x, self.plan)) {
                        return b;
                    }
                }
                av.finish()
            }
            (Val::Assoc(l), 2) => v.visit_assoc().visit_entries_and_finish(l.iter().map(|(k, x)| (Chunked(k, self.plan), Chunked(x, &[])))),
            (Val::Assoc(l), _) => {
                let m: BTreeMap<&str, &str> = l.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                if m.len() == l.len() && m.keys().copied().eq(l.iter().map(|(k, _)| k.as_str())) {
                    visit_value_naive(v, m)
                } else {
                    v.visit_assoc_direct(l.iter().map(|(a, b)| (a, b)))
                }
            }
        }
    }
}

/// Counts what it is given, in pieces.
#[derive(Default)]
struct Sink {
    text: String,
    writes: usize,
    /// Fail once more than this many bytes would have been written.
    limit: Option<usize>,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        if self.limit.is_some_and(|l| self.text.len() + s.len() > l) {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

both_specs!(t03, t03_g);
fn t03_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let r = &mut cx.rng;
    let mut t = String::new();
    while !t.contains('{') {
        t = gen::template(r);
    }
    let mut vars = gen_vars(r);
    if r.chance(1, 3) {
        // One expression around a value with triplets.
        let v = format!("{}{}{}", gen::raw_text(r), gen::pct(r), gen::raw_text(r));
        vars.insert("var".into(), Val::Str(v));
        t = format!("{}{{{}var{}}}{}", r.pstr(&["", "x"]), r.pstr(&["", "+", "#", "?", ";", "/", ".", "&"]), r.pstr(&["", "*", ":1", ":2", ":3", ":4", ":8"]), r.pstr(&["", "{+var:2}"]));
    }
    let plan = chunk_plan(r);
    cx.input(format!("{sp:?} {t:?} with {vars:?} in pieces {plan:?}"));
    let toks = model::parse_template(&t).ok_or("the generator made an ill-formed template")?;
    let want = expected(sp, &toks, &vars).ok();
    let tpl = UriTemplateStr::new(&t).map_err(|e| format!("{t:?} rejected: {e}"))?;
    let sc = simple(&vars);
    let reference = tpl.expand::<S, _>(&sc).ok().map(|e| e.to_string());
    if let (Ok(e), Some(text)) = (tpl.expand::<S, _>(&sc), &reference) {
        super::flags(&e, text, "expansion")?;
    }
    ck!(reference.is_some() == want.is_some() && reference.as_ref().is_none_or(|g| want.as_ref().unwrap().contains(g)),
        "expansion of {t:?}: observed {reference:?}, expected {want:?}");
    for style in 0..5 {
        let mut ctx = Pieces { vars: &vars, plan: &plan, style };
        let a = tpl.expand::<S, _>(&ctx).ok().map(|e| e.to_string());
        eq!(&a, &reference, "expansion of {t:?} with values delivered in style {style} (against whole strings)");
        let mut sink = Sink::default();
        let ok = tpl.expand_dynamic::<S, _, _>(&mut sink, &mut ctx).is_ok();
        eq!(ok.then_some(sink.text), reference.clone(), "dynamic expansion of {t:?} with values delivered in style {style} (against whole strings)");
        eq!(tpl.expand_dynamic_to_string::<S, _>(&mut ctx).ok(), reference.clone(), "expand_dynamic_to_string of {t:?} in style {style}");
        cx.obs(3);
        if sink.writes > 1 { cx.hit("sink-chunks"); }
    }
    // Rendering twice, in a padded formatter, and into a bounded buffer.
    if let Some(text) = &reference {
        let e = tpl.expand::<S, _>(&sc).unwrap();
        eq!(format!("{e}|{e}"), format!("{text}|{text}"), "rendering {t:?} twice");
        macro_rules! conv {
            ($t:ident, $valid:path) => {
                match $t::<S>::try_from(tpl.expand::<S, _>(&sc).unwrap()) {
                    Ok(x) => {
                        ck!($valid(sp, text), "expansion {text:?} was taken as {}", stringify!($t));
                        eq!(x.as_str(), text.as_str(), "text of the converted expansion");
                        cx.hit("converted");
                    }
                    Err(x) => {
                        ck!(!$valid(sp, text), "expansion {text:?} was refused as {}", stringify!($t));
                        eq!(x.into_source(), text.clone(), "source of the refused expansion");
                        cx.hit("not-converted");
                    }
                }
            };
        }
        conv!(RiReferenceString, model::v_reference);
        conv!(RiString, model::v_iri);
        conv!(RiAbsoluteString, model::v_absolute);
        conv!(RiRelativeString, model::v_relative);
        cx.obs(5);
    }
    cx.hit("chunked");
    cx.hit("dynamic");
    cx.hit("naive");
    for tok in &toks {
        if let Tok::Expr(_, specs) = tok {
            for s in specs {
                if matches!(s.modifier, Mod::Prefix(_)) { cx.hit("prefix"); }
                match vars.get(&s.name) {
                    Some(Val::Str(v)) if v.contains('%') && plan.iter().any(|n| *n < 3) => cx.hit("triplet-split"),
                    Some(Val::List(_) | Val::Assoc(_)) => cx.hit("composite"),
                    _ => {}
                }
            }
        }
    }
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- T04

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Start,
    End,
    Typecheck(String),
    Expand(String),
}
struct Traced<'a> {
    vars: &'a Vars,
    log: Vec<Ev>,
    /// Number of expansions started; values may depend on it.
    epoch: usize,
}
impl DynamicContext for Traced<'_> {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        let n = v.var_name().as_str().to_owned();
        self.log.push(match v.purpose() {
            VisitPurpose::Typecheck => Ev::Typecheck(n.clone()),
            _ => Ev::Expand(n.clone()),
        });
        if n == "epoch" {
            return v.visit_string(self.epoch);
        }
        deliver(v, self.vars.get(&n))
    }
    fn on_expansion_start(&mut self) {
        self.epoch += 1;
        self.log.push(Ev::Start);
    }
    fn on_expansion_end(&mut self) {
        self.log.push(Ev::End);
    }
}
fn deliver<V: Visitor>(v: V, val: Option<&Val>) -> V::Result {
    match val.unwrap_or(&Val::Undef) {
        Val::Undef => v.visit_undefined(),
        Val::Str(s) => v.visit_string(s),
        Val::List(l) => v.visit_list_direct(l),
        Val::Assoc(l) => v.visit_assoc_direct(l.iter().map(|(a, b)| (a, b))),
    }
}
struct TracedStatic<'a> {
    vars: &'a Vars,
    log: std::cell::RefCell<Vec<Ev>>,
}
impl Context for TracedStatic<'_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let n = v.var_name().as_str().to_owned();
        self.log.borrow_mut().push(match v.purpose() {
            VisitPurpose::Typecheck => Ev::Typecheck(n.clone()),
            _ => Ev::Expand(n.clone()),
        });
        deliver(v, self.vars.get(&n))
    }
}

/// Variable specifications before the first type error.
fn before_error(toks: &[Tok], vars: &Vars) -> usize {
    let mut n = 0;
    for t in toks {
        if let Tok::Expr(_, specs) = t {
            for s in specs {
                let composite = match vars.get(&s.name) {
                    Some(v @ (Val::List(_) | Val::Assoc(_))) => !v.undefined(),
                    _ => false,
                };
                if composite && matches!(s.modifier, Mod::Prefix(_)) {
                    return n;
                }
                n += 1;
            }
        }
    }
    n
}

/// The trace specification: `Start`, visits, `End`; the visits for expansion are
/// exactly the first `n` variable specifications in order; a type check of a
/// variable is for a variable of the template.
fn check_trace(what: &str, t: &str, log: &[Ev], order: &[&str], n: std::ops::RangeInclusive<usize>, framed: bool) -> R {
    let inner = if framed {
        ck!(log.len() >= 2 && log[0] == Ev::Start && log[log.len() - 1] == Ev::End, "{what} of {t:?}: the trace {log:?} is not framed by start and end");
        &log[1..log.len() - 1]
    } else {
        log
    };
    let mut seen = Vec::new();
    for e in inner {
        match e {
            Ev::Start | Ev::End => return Err(format!("{what} of {t:?}: repeated start or end in {log:?}")),
            Ev::Typecheck(n) => ck!(order.contains(&n.as_str()), "{what} of {t:?}: {n:?} was visited, which is not in the template"),
            Ev::Expand(n) => seen.push(n.as_str()),
        }
    }
    ck!(n.contains(&seen.len()), "{what} of {t:?}: {} variables were visited for expansion, expected {n:?}: {log:?}", seen.len());
    ck!(order.starts_with(&seen), "{what} of {t:?}: variables visited for expansion {seen:?}, expected {order:?}");
    Ok(())
}

both_specs!(t04, t04_g);
fn t04_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let r = &mut cx.rng;
    let mut t = gen::template(r);
    let mut epochs = 0;
    if r.chance(1, 3) {
        t.push_str("{epoch}");
        epochs = 1;
    }
    let vars = gen_vars(r);
    cx.input(format!("{sp:?} {t:?} with {vars:?}"));
    let toks = model::parse_template(&t).ok_or("the generator made an ill-formed template")?;
    let tpl = UriTemplateStr::new(&t).map_err(|e| format!("{t:?} rejected: {e}"))?;
    let order = variables(&toks);
    let total = order.len();
    let n = before_error(&toks, &vars);
    let fails = n < total;
    let mut ctx = Traced { vars: &vars, log: Vec::new(), epoch: 0 };
    for round in 1..=2usize {
        let mut with = vars.clone();
        with.insert("epoch".into(), Val::Str(round.to_string()));
        ctx.log.clear();
        let got = tpl.expand_dynamic_to_string::<S, _>(&mut ctx);
        eq!(ctx.epoch, round, "expansions announced to the context");
        match (&got, expected(sp, &toks, &with)) {
            (Ok(g), Ok(w)) => ck!(w.contains(g), "dynamic expansion of {t:?}: observed {g:?}, expected {:?}", w[0]),
            (Err(_), Err(())) => {}
            (g, w) => return Err(format!("dynamic expansion of {t:?}: observed {g:?}, expected {w:?}")),
        }
        eq!(got.is_err(), fails, "failure of the dynamic expansion of {t:?}");
        let range = if fails { 0..=n } else { total..=total };
        check_trace("dynamic expansion", &t, &ctx.log, &order, range, true)?;
        cx.obs(ctx.log.len() as u64 + 2);
        for e in &ctx.log {
            match e {
                Ev::Typecheck(_) => cx.hit("event:typecheck"),
                Ev::Expand(_) => cx.hit("event:expand"),
                _ => {}
            }
        }
    }
    cx.hit("dynamic");
    cx.hit("two-expansions");
    // A failing sink.
    let mut with = vars.clone();
    with.insert("epoch".into(), Val::Str("3".into()));
    if let Ok(want) = expected(sp, &toks, &with) {
        let limit = cx.rng.below(want[0].len() + 2);
        let mut sink = Sink { limit: Some(limit), ..Sink::default() };
        ctx.log.clear();
        let res = tpl.expand_dynamic::<S, _, _>(&mut sink, &mut ctx);
        ck!(want.iter().any(|w| w.starts_with(&sink.text)), "text written to a failing sink {:?} is not a prefix of {:?}", sink.text, want[0]);
        ck!(sink.text.len() <= limit, "the failing sink was given more than it took");
        if res.is_ok() {
            ck!(want.contains(&sink.text), "expansion of {t:?} into a sink that fails after {limit} bytes reported success with {:?} of {:?}", sink.text, want[0]);
        } else {
            ck!(want.iter().any(|w| w.len() > limit), "expansion of {t:?} failed though the sink took everything");
            cx.hit("sink-error");
        }
        let range = if res.is_ok() { total..=total } else { 0..=total };
        check_trace("dynamic expansion to a failing sink", &t, &ctx.log, &order, range, true)?;
        cx.obs(4);
    }
    if epochs == 0 {
        // Static contexts: nothing is visited for expansion before rendering.
        let st = TracedStatic { vars: &vars, log: Default::default() };
        let e = tpl.expand::<S, _>(&st);
        eq!(e.is_err(), fails, "failure of the static expansion of {t:?}");
        check_trace("checking the static expansion", &t, &st.log.borrow(), &order, 0..=0, false)?;
        if let Ok(e) = e {
            for _ in 0..2 {
                st.log.borrow_mut().clear();
                let text = e.to_string();
                ck!(expected(sp, &toks, &vars).is_ok_and(|w| w.contains(&text)), "static expansion of {t:?} gave {text:?}");
                check_trace("rendering the static expansion", &t, &st.log.borrow(), &order, total..=total, false)?;
                cx.obs(2);
            }
        }
        cx.hit("static");
    }
    if fails { cx.hit("type-error"); }
    let mut o = order.clone();
    o.sort_unstable();
    o.dedup();
    if o.len() < total { cx.hit("repeated-variable"); }
    if total > 0 { cx.nontrivial(); }
    Ok(())
}

// ---------------------------------------------------------------- T05

/// Hands over one value of a standard type under the name `x`.
struct Naive<T>(T);
impl<T: VisitValueNaive> Context for Naive<T> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        if v.var_name().as_str() == "x" {
            visit_value_naive(v, &self.0)
        } else {
            v.visit_undefined()
        }
    }
}
/// Shows a number, so that the value is a `Display` type that is no string.
struct Shown(i64);
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

both_specs!(t05, t05_g);
fn t05_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    // A history of the ready-made context against a map.
    let r = &mut cx.rng;
    let mut log: Vec<String> = Vec::new();
    let mut seen: Vec<&'static str> = Vec::new();
    let mut live: Vec<(SimpleContext, Vars)> = vec![(if r.chance(1, 2) { SimpleContext::new() } else { SimpleContext::default() }, Vars::new())];
    let same = |v: Option<&Value>, m: Option<&Val>| match (v, m) {
        (None | Some(Value::Undefined), None) => true,
        (Some(Value::String(a)), Some(Val::Str(b))) => a == b,
        (Some(Value::List(a)), Some(Val::List(b))) => a == b,
        (Some(Value::Assoc(a)), Some(Val::Assoc(b))) => a == b,
        _ => false,
    };
    let mut fail: Option<String> = None;
    for _ in 0..r.range(1, 12) {
        let at = r.below(live.len());
        match r.below(12) {
            0 => {
                live[at].0.clear();
                live[at].1.clear();
                log.push(format!("[{at}] clear"));
                seen.push("clear");
            }
            1 if live.len() < 4 => {
                let c = (live[at].0.clone(), live[at].1.clone());
                live.push(c);
                log.push(format!("[{at}] clone"));
                seen.push("clone");
            }
            _ => {
                let k = match r.below(8) {
                    0 => r.pstr(&["", " ", "a b", "a.", ".a", "a..b", "%4", "a-b", "x:", "x*", "\u{e9}", "%zz", "{x}", "+x", "x,y", "a%"]).to_owned(),
                    1 => gen::varname(r),
                    _ => r.pstr(&["x", "X", "y", "x.y", "%41", "A", "x_1", "1"]).to_owned(),
                };
                let v = gen::val(r);
                let ok = model::v_varname(&k);
                log.push(format!("[{at}] insert {k:?} = {v:?}"));
                let (c, m) = &mut live[at];
                let old = match (&v, r.below(2)) {
                    (Val::Str(s), 0) => c.insert(k.as_str(), s.as_str()),
                    (Val::Str(s), _) => c.insert(k.clone(), s.clone()),
                    (Val::Undef, _) => c.insert(k.clone(), Value::Undefined),
                    (Val::List(l), _) => c.insert(k.as_str(), Value::List(l.clone())),
                    (Val::Assoc(l), _) => c.insert(k.as_str(), Value::Assoc(l.clone())),
                };
                let mold = if !ok { None } else if matches!(v, Val::Undef) { m.remove(&k) } else { m.insert(k.clone(), v.clone()) };
                seen.push(match (&v, ok, &mold) {
                    (_, false, _) => "bad-name",
                    (Val::Undef, _, Some(_)) => "remove",
                    (_, _, Some(_)) => "replace",
                    _ => "insert",
                });
                if !same(old.as_ref(), mold.as_ref()) {
                    fail = Some(format!("{k:?}: old value {old:?}, expected {mold:?}"));
                }
            }
        }
        for (n, (c, m)) in live.iter().enumerate() {
            for k in m.keys().map(String::as_str).chain(["x", "X", "y", "x.y", "%41", "A", "x_1", "1"]) {
                let name = VarName::new(k).map_err(|e| format!("{k:?} is no name: {e}"))?;
                if !same(c.get(name), m.get(k)) {
                    fail = Some(format!("[{n}] {k:?} is {:?}, expected {:?}", c.get(name), m.get(k)));
                }
            }
        }
        if fail.is_some() { break; }
    }
    let op = r.pstr(&["", "+", "#", ".", "/", ";", "?", "&"]);
    let ex = r.pstr(&["", "*"]);
    let big = r.next();
    cx.input(format!("{sp:?} {} then {{{op}x{ex}}} with the number {big}", log.join("; ")));
    if let Some(f) = fail { return Err(f); }
    for s in seen { cx.hit(s); }
    let t = format!("{{{op}x{ex},y*,x.y{ex},%41,A*}}{{?X*}}{{x_1}}{{1{ex}}}");
    let tpl = UriTemplateStr::new(&t).map_err(|e| format!("{t:?} rejected: {e}"))?;
    let toks = model::parse_template(&t).ok_or("ill-formed template")?;
    for (c, m) in &live {
        let got = tpl.expand::<S, _>(c).map_err(|e| format!("expansion of {t:?}: {e}"))?.to_string();
        let want = expected(sp, &toks, m).map_err(|()| "no expansion")?;
        ck!(want.contains(&got), "expansion of {t:?} with the context after this history: observed {got:?}, expected {:?}", want[0]);
        cx.obs(2 + log.len() as u64);
    }
    // Standard types as values.
    let ex = cx.rng.pstr(&["", "*", "", "*", ":1", ":4", ":9999"]);
    let t = format!("{{{op}x{ex}}}");
    let tpl = UriTemplateStr::new(&t).map_err(|e| format!("{t:?} rejected: {e}"))?;
    let toks = model::parse_template(&t).ok_or("ill-formed template")?;
    macro_rules! naive {
        ($v:expr, $want:expr, $hit:literal) => {{
            let v = Naive($v);
            let mut m = Vars::new();
            m.insert("x".into(), $want);
            let want = expected(sp, &toks, &m);
            let got = tpl.expand::<S, _>(&v).map(|e| e.to_string());
            let mut v = v;
            let dynamic = tpl.expand_dynamic_to_string::<S, _>(&mut v);
            match (&got, &dynamic, &want) {
                (Ok(g), Ok(d), Ok(w)) => {
                    ck!(w.contains(g), "expansion of {t:?} with {} of type {}: observed {g:?}, expected {:?}", stringify!($v), $hit, w[0]);
                    ck!(w.contains(d), "dynamic expansion of {t:?} with {}: observed {d:?}, expected {:?}", stringify!($v), w[0]);
                }
                (Err(_), Err(_), Err(())) => cx.hit("refused"),
                _ => return Err(format!("expansion of {t:?} with {} of type {}: observed {got:?} and dynamically {dynamic:?}, expected {want:?}", stringify!($v), $hit)),
            }
            cx.hit($hit);
            cx.obs(2);
        }};
    }
    let st = |v: &dyn fmt::Display| Val::Str(v.to_string());
    let n = big;
    naive!(n as u8, st(&(n as u8)), "number");
    naive!(n as u16, st(&(n as u16)), "number");
    naive!(n as u32, st(&(n as u32)), "number");
    naive!(n, st(&n), "number");
    naive!(u128::from(n) << 31, st(&(u128::from(n) << 31)), "number");
    naive!(n as usize, st(&n), "number");
    naive!(n as i8, st(&(n as i8)), "number");
    naive!(n as i16, st(&(n as i16)), "number");
    naive!(n as i32, st(&(n as i32)), "number");
    naive!(n as i64, st(&(n as i64)), "number");
    naive!(-i128::from(n) << 31, st(&(-i128::from(n) << 31)), "number");
    naive!(n as isize, st(&(n as isize)), "number");
    let s = gen::raw_text(&mut cx.rng);
    let w = || Val::Str(s.clone());
    naive!(s.as_str(), w(), "nested-ref");
    naive!(&&&s.as_str(), w(), "nested-ref");
    naive!(s.clone(), w(), "owned-string");
    naive!(s.clone().into_boxed_str(), w(), "owned-string");
    naive!(Cow::<'_, str>::Owned(s.clone()), w(), "owned-string");
    naive!(Cow::Borrowed(s.as_str()), w(), "owned-string");
    naive!(Some(s.as_str()), w(), "option");
    naive!(Some(Some(&n)), st(&n), "option");
    naive!(None::<u8>, Val::Undef, "option");
    naive!(Some(None::<String>), Val::Undef, "option");
    naive!((), Val::Undef, "option");
    let len = if cx.rng.chance(1, 16) { cx.rng.range(5, 70) } else { cx.rng.below(5) };
    let items: Vec<Shown> = (0..len).map(|k| Shown(n as i64 >> (k % 64))).collect();
    let texts: Vec<String> = items.iter().map(|x| x.to_string()).collect();
    naive!(&items[..], Val::List(texts.clone()), "array");
    naive!(&items, Val::List(texts.clone()), "array");
    naive!(texts.clone(), Val::List(texts.clone()), "array");
    naive!(Some(texts.clone()), Val::List(texts.clone()), "array");
    naive!([&s, &s, "k"], Val::List(vec![s.clone(), s.clone(), "k".into()]), "array");
    naive!([0u8; 0], Val::List(vec![]), "array");
    naive!([n], Val::List(vec![n.to_string()]), "array");
    naive!([&s], Val::List(vec![s.clone()]), "array");
    naive!([Shown(0), Shown(1), Shown(2), Shown(3)], Val::List(["<0>", "<1>", "<2>", "<3>"].map(String::from).to_vec()), "array");
    naive!([n as u8; 33], Val::List(vec![(n as u8).to_string(); 33]), "array");
    naive!(&&[Some(7u8).map_or(0, |x| x); 3], Val::List(vec!["7".into(); 3]), "array");
    let set: std::collections::BTreeSet<String> = texts.iter().cloned().collect();
    naive!(set.clone(), Val::List(set.iter().cloned().collect()), "set");
    let map: BTreeMap<String, u64> = texts.iter().cloned().zip(n..=u64::MAX).collect();
    let pairs = |it: &mut dyn Iterator<Item = (&String, &u64)>| Val::Assoc(it.map(|(k, v)| (k.clone(), v.to_string())).collect());
    naive!(map.clone(), pairs(&mut map.iter()), "map");
    naive!(Some(&map), pairs(&mut map.iter()), "map");
    let hset: std::collections::HashSet<String> = texts.iter().cloned().collect();
    naive!(&hset, Val::List(hset.iter().cloned().collect()), "hash");
    let hmap: std::collections::HashMap<String, u64> = texts.iter().cloned().zip(0..).collect();
    naive!(&hmap, pairs(&mut hmap.iter()), "hash");
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- T06

/// The byte position that an error names.
fn location(e: &dyn fmt::Display) -> Result<usize, String> {
    let t = e.to_string();
    t.rsplit_once("(at ")
        .and_then(|(_, t)| t.split_once("-th byte)"))
        .and_then(|(n, _)| n.parse().ok())
        .ok_or_else(|| format!("the template error {t:?} names no position"))
}

/// The first ill-formed construct: the earliest and the latest position to name.
fn fault(s: &str) -> Option<(usize, usize, &'static str)> {
    let mut i = 0;
    while i < s.len() {
        let rest = &s[i..];
        if let Some(inner) = rest.strip_prefix('{') {
            let Some(end) = inner.find('}') else { return Some((i, s.len(), "at-unclosed")) };
            let body = &inner[..end];
            let (mut at, close) = (i + 1, i + 1 + end);
            let list = match body.chars().next() {
                None => return Some((i, close, "at-expression")),
                Some('=' | ',' | '!' | '@' | '|') => return Some((i, i + 1, "at-operator")),
                Some('+' | '#' | '.' | '/' | ';' | '?' | '&') => { at += 1; &body[1..] }
                Some(_) => body,
            };
            for spec in list.split(',') {
                if model::parse_template(&format!("{{{spec}}}")).map_or(true, |t| variables(&t).len() != 1) || spec.starts_with(['+', '#', '.', '/', ';', '?', '&']) {
                    return Some((at, at + spec.len(), "at-varspec"));
                }
                at += spec.len() + 1;
            }
            i = close + 1;
        } else if rest.starts_with('%') {
            let hex = rest.bytes().skip(1).take(2).take_while(u8::is_ascii_hexdigit).count();
            if hex < 2 { return Some((i, i + 1 + hex, "at-triplet")); }
            i += 3;
        } else {
            let c = rest.chars().next()?;
            if !model::is_literal_char(c) { return Some((i, i, "at-character")); }
            i += c.len_utf8();
        }
    }
    None
}

/// The pieces of a well-formed template with the offsets of their variables.
fn pieces(t: &str) -> Vec<(usize, usize, Vec<(usize, usize)>)> {
    let (mut v, mut i) = (Vec::new(), 0);
    while i < t.len() {
        if t[i..].starts_with('{') {
            let end = i + t[i..].find('}').unwrap_or(0);
            let mut at = i + 1;
            if t[at..].starts_with(['+', '#', '.', '/', ';', '?', '&']) { at += 1; }
            let specs = t[at..end].split(',').map(|s| { let p = (at, at + s.len()); at += s.len() + 1; p }).collect();
            v.push((i, end, specs));
            i = end + 1;
        } else {
            let end = t[i..].find('{').map_or(t.len(), |n| i + n);
            v.push((i, end, Vec::new()));
            i = end;
        }
    }
    v
}

struct Limited(usize);
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}

both_specs!(t06, t06_g);
fn t06_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let r = &mut cx.rng;
    if i % 2 == 0 {
        // Rejected texts.
        let s = match r.below(6) {
            0..=2 => gen::template_near(r),
            3 => gen::template_soup(r),
            4 => format!("{}{}{}", gen::template(r), r.pstr(&["{", "}", "%", "%4", "{a:0}", "{+a,b:12345}", "{a,}", "{!x}", "{}", "{+}", " ", "\u{fffd}", "{a", "{a:1*}", "{a,b,c..d}", "{%4}", "%\u{e9}", "{\u{e9}}", "{x,\u{e9}}"]), gen::template(r)),
            _ => { let c = gen::any_char(r); format!("{}{c}{}", gen::template(r), gen::template(r)) }
        };
        cx.input(format!("{s:?}"));
        let want = fault(&s);
        eq!(want.is_none(), model::parse_template(&s).is_some(), "monitor: two readings of the grammar for {s:?}");
        let got = UriTemplateStr::new(&s).err();
        eq!(got.is_some(), want.is_some(), "rejection of {s:?}");
        if let (Some(e), Some((lo, hi, class))) = (got, want) {
            let n = location(&e)?;
            ck!(lo <= n && n <= hi, "the error for {s:?} names byte {n}, but the first ill-formed construct lies at {lo}..={hi}");
            cx.hit(class);
            macro_rules! same {
                ($e:expr, $what:literal) => { match $e { Ok(_) => return Err(format!("{} accepted {s:?}", $what)), Err(e) => eq!(location(&e)?, n, "position named by {} for {s:?}", $what) } };
            }
            same!(<&UriTemplateStr>::try_from(s.as_str()), "TryFrom<&str>");
            same!(<&UriTemplateStr>::try_from(s.as_bytes()), "TryFrom<&[u8]>");
            same!(UriTemplateString::try_from(s.as_str()), "owned TryFrom<&str>");
            same!(UriTemplateString::try_from(s.as_bytes()), "owned TryFrom<&[u8]>");
            same!(s.parse::<UriTemplateString>(), "FromStr");
            same!(UriTemplateString::try_from(s.clone()).map_err(|e| e.validation_error()), "TryFrom<String>");
            same!(UriTemplateString::try_from(s.clone()), "the Display of the creation error");
            cx.obs(10);
        }
        // Text that is not UTF-8.
        let mut b = s.into_bytes();
        let at = cx.rng.below(b.len() + 1);
        b.insert(at, *cx.rng.pick(&[0xff_u8, 0x80, 0xc3, 0xf0, 0xed]));
        if let Err(u) = std::str::from_utf8(&b) {
            let (x, y) = (<&UriTemplateStr>::try_from(&b[..]).err(), UriTemplateString::try_from(&b[..]).err());
            for e in [x, y] {
                let e = e.ok_or("bytes that are not UTF-8 accepted")?;
                eq!(location(&e)?, u.valid_up_to(), "position named for {b:02x?}");
            }
            cx.hit("at-utf8");
        }
        // Names of variables.
        let name = if cx.rng.chance(1, 2) { gen::template_soup(&mut cx.rng) } else { cx.rng.pstr(gen::VARNAMES).to_owned() };
        if let Err(e) = VarName::new(&name) {
            let n = location(&e)?;
            ck!(n <= name.len(), "the error for the variable name {name:?} names byte {n}");
        }
        cx.nontrivial();
        return Ok(());
    }
    // Failing expansions.
    let mut t = gen::template(r);
    if r.chance(1, 2) {
        let k = r.pstr(&["{list:3}", "{x,keys:1}", "{+list,var:9,keys:2}", "{?a,b,empty_keys:4,x}", "{&list*,list:10}", "{;empty_list:1}"]);
        let at = pieces(&t).get(r.below(8)).map_or(t.len(), |p| p.0);
        t.insert_str(at, k);
    }
    let mut vars = gen_vars(r);
    for (k, v) in [("list", Val::List(vec!["x".into(), "\u{e9}".into()])), ("keys", Val::Assoc(vec![("k".into(), "v".into())])), ("empty_list", Val::List(vec![])), ("empty_keys", Val::Assoc(vec![]))] {
        if r.chance(3, 4) { vars.insert(k.into(), v); }
    }
    let left = r.below(120);
    cx.input(format!("{sp:?} {t:?} with {vars:?} into {left} bytes"));
    let toks = model::parse_template(&t).ok_or("the generator made an ill-formed template")?;
    let tpl = UriTemplateStr::new(&t).map_err(|e| format!("{t:?} rejected: {e}"))?;
    let spans = pieces(&t);
    eq!(spans.len(), toks.len(), "monitor: pieces of {t:?}");
    let mut bad = None;
    for (k, tok) in toks.iter().enumerate() {
        let Tok::Expr(_, specs) = tok else { continue };
        for (spec, at) in specs.iter().zip(&spans[k].2) {
            if bad.is_none() && matches!(spec.modifier, Mod::Prefix(_)) && matches!(vars.get(&spec.name), Some(v @ (Val::List(_) | Val::Assoc(_))) if !v.undefined()) {
                bad = Some((k, *at));
            }
        }
    }
    let c = simple(&vars);
    let st = tpl.expand::<S, _>(&c);
    let dy = tpl.expand_dynamic_to_string::<S, _>(&mut c.clone());
    match (&st, &dy, bad) {
        (Ok(_), Ok(_), None) => cx.hit("expands"),
        (Err(a), Err(b), Some((_, (lo, hi)))) => {
            for (e, what) in [(a, "expand"), (b, "expand_dynamic_to_string")] {
                let n = location(e)?;
                ck!(lo <= n && n <= hi, "{what}: the error for {t:?} names byte {n}, but the variable with the wrong type is at {lo}..={hi}");
            }
            cx.hit("wrong-type");
        }
        _ => return Err(format!("{t:?}: expansion {:?}, dynamic {:?}, wrong type at {bad:?}", st.is_ok(), dy.is_ok())),
    }
    cx.obs(2);
    // A sink that fails after some bytes: the error points at the piece being written, or
    // at the wrong type that comes before.
    let mut sink = Limited(left);
    let got = tpl.expand_dynamic::<S, _, _>(&mut sink, &mut c.clone());
    let end = bad.map_or(toks.len(), |b| b.0);
    let mut stop = None;
    for reading in [false, true] {
        let mut n = 0;
        let mut at = None;
        for k in 0..end {
            n += model::expand(sp, &toks[k..=k], &get(&vars), reading).map_err(|()| "monitor: unexpected type error".to_string())?.len();
            if n > left { at = Some(k); break; }
        }
        // The pieces of an expression before the wrong type are written as well.
        if reading && at != stop { stop = None; cx.hit("ambiguous"); cx.nontrivial(); return Ok(()); }
        stop = at;
    }
    match (&got, stop, bad) {
        (Ok(()), None, None) => {}
        (Err(e), Some(k), _) => {
            let (n, p) = (location(e)?, &spans[k]);
            // An expression ends with its brace, a literal before the next piece.
            let last = if p.2.is_empty() { p.1 - 1 } else { p.1 };
            ck!(p.0 <= n && n <= last, "the sink failed while byte {}..={last} of {t:?} was written, but the error names byte {n}", p.0);
            cx.hit("sink-error");
        }
        (Err(e), None, Some((k, (_, hi)))) => {
            let n = location(e)?;
            ck!(spans[k].0 <= n && n <= hi, "the error for {t:?} names byte {n} outside {}..={hi}", spans[k].0);
        }
        _ => return Err(format!("{t:?} into {left} bytes: {:?}, expected failure at piece {stop:?} or wrong type at {bad:?}", got.is_ok())),
    }
    cx.nontrivial();
    Ok(())
}
