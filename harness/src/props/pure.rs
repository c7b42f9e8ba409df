//! D01: results depend only on the arguments.
//!
//! The same calls are made again after other calls, in the same memory with
//! other contents, on several threads at once, through values shared by or
//! moved between threads, from inside callbacks the library makes (Display
//! implementations, writers, template contexts), and after a callback has
//! abandoned a call by an error or a panic. The log of everything observed
//! has to be the one recorded before.
//!
//! The same workload runs under ThreadSanitizer (bin/d01.py), where a data
//! race is a violation even if no result changed.

use crate::engine::{catch, Cx, Prop, Rng, R};
use crate::gen;
use crate::model::{Sp, Val};
use crate::observe::{self, Case};
use crate::{ck, eq};
use iri_string::build::{Builder, UserinfoBuilder};
use iri_string::convert::MappedToUri;
use iri_string::format::{CapacityOverflowError, ToDedicatedString};
use iri_string::mask_password::{PasswordMasked, PasswordReplaced};
use iri_string::normalize::Normalized;
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, DynamicContext, ListVisitor, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Barrier, OnceLock};

pub static PROPS: &[Prop] = &[Prop {
    id: "D01",
    quick: 60_000,
    thorough: 2_000_000,
    case: d01,
    rule: "distinct (mode, inputs) whose complete observation log was recorded twice under different circumstances and compared",
    required: &[
        "mode:history", "mode:place", "mode:threads", "mode:shared", "mode:moved", "mode:callback", "auto traits",
        "act:observe", "act:panic", "act:fail", "callback fired", "observed inside a callback", "abandoned by a panic", "abandoned by an error",
        "op:normalize", "op:resolve", "op:resolve-normalize", "op:mask", "op:replace", "op:map", "op:encode", "op:build", "op:expand", "op:expand-dynamic",
        "callback:display", "callback:context", "callback:sink",
    ],
}];

fn seed() -> u64 {
    static S: OnceLock<u64> = OnceLock::new();
    *S.get_or_init(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64)
}

fn log_of(sp: Sp, c: &Case) -> String {
    let (a, b) = observe::observe_case(sp, c, true);
    a.text.unwrap() + &b.text.unwrap()
}

/// Logs recorded before this process made any other call of the library.
const CANARIES: u64 = 48;
fn canaries() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        (0..CANARIES)
            .map(|i| {
                let (sp, c) = observe::make(seed() ^ 0xCA11, i);
                log_of(sp, &c)
            })
            .collect()
    })
}

fn same(got: &str, want: &str, c: &Case, what: &str) -> R {
    if got == want {
        return Ok(());
    }
    let (g, w) = got
        .lines()
        .chain([""])
        .zip(want.lines().chain([""]))
        .find(|(a, b)| a != b)
        .unwrap_or(("", ""));
    Err(format!("{what}: for {:?} (base {:?}, host {:?}, template {:?}, raw {:?}) now {g:?}, before {w:?}", c.s, c.base, c.host, c.tpl, c.raw))
}

fn pick(r: &mut Rng) -> (Sp, Case) {
    observe::make(seed() ^ 0xD01, r.next() % 1_000_000_007)
}

fn d01(cx: &mut Cx<'_>, i: u64) -> R {
    canaries();
    match i % 16 {
        0 if i % 512 == 0 => auto_traits(cx),
        0..=3 => history(cx),
        4..=6 => place(cx),
        7 => threads(cx),
        8 => shared(cx),
        9 => moved(cx),
        _ => callback(cx),
    }
}

/// The same arguments again after other calls.
fn history(cx: &mut Cx<'_>) -> R {
    cx.hit("mode:history");
    let (sp, c) = pick(&mut cx.rng);
    cx.input(format!("history {:?} base {:?} template {:?} raw {:?}", c.s, c.base, c.tpl, c.raw));
    let first = log_of(sp, &c);
    let n = cx.rng.below(4);
    for _ in 0..n {
        let (osp, mut o) = pick(&mut cx.rng);
        // Some of the calls in between are about nearly the same values.
        match cx.rng.below(4) {
            0 => o.s = alter(&mut cx.rng, &c.s),
            1 => { o.base = c.base.clone(); o.tpl = alter(&mut cx.rng, &c.tpl); }
            2 => { o = c.clone(); o.s = alter(&mut cx.rng, &c.s); o.raw = alter(&mut cx.rng, &c.raw); o.vars = pick(&mut cx.rng).1.vars; }
            _ => {}
        }
        let other_first = log_of(osp, &o);
        if cx.rng.chance(1, 4) {
            same(&log_of(osp, &o.clone()), &other_first, &o, "the same calls twice in a row")?;
        }
    }
    let again = if cx.rng.chance(1, 2) { c.clone() } else { Case { s: with_room(&c.s), base: with_room(&c.base), tpl: with_room(&c.tpl), ..c.clone() } };
    same(&log_of(sp, &again), &first, &c, "the same calls after others")?;
    let k = cx.rng.next() % CANARIES;
    let (sp, c) = observe::make(seed() ^ 0xCA11, k);
    same(&log_of(sp, &c), &canaries()[k as usize], &c, "the same calls since the process began")?;
    cx.obs(3 + n as u64);
    cx.nontrivial();
    Ok(())
}

fn with_room(s: &str) -> String {
    let mut t = String::with_capacity(s.len() + 33);
    t.push_str(s);
    t
}

/// Another text of the same length.
fn alter(r: &mut Rng, s: &str) -> String {
    let mut b = s.to_owned().into_bytes();
    for _ in 0..1 + r.below(2) {
        if b.is_empty() {
            break;
        }
        let k = r.below(b.len());
        if b[k].is_ascii() {
            b[k] = *r.pick(b"ab1:/?#[]@%.{}, xA-,+");
        }
    }
    String::from_utf8(b).expect("ASCII replaced by ASCII")
}

/// Other contents of the same length at the same address.
fn place(cx: &mut Cx<'_>) -> R {
    cx.hit("mode:place");
    let (sp, mut c) = pick(&mut cx.rng);
    let mut d = c.clone();
    d.s = alter(&mut cx.rng, &c.s);
    if cx.rng.chance(1, 2) {
        d.base = alter(&mut cx.rng, &c.base);
        d.tpl = alter(&mut cx.rng, &c.tpl);
    }
    if cx.rng.chance(1, 2) {
        d.raw = alter(&mut cx.rng, &c.raw);
        d.host = alter(&mut cx.rng, &c.host);
    }
    cx.input(format!("place {:?} then {:?}; base {:?} then {:?}; template {:?} then {:?}", c.s, d.s, c.base, d.base, c.tpl, d.tpl));
    let (want_c, want_d) = (log_of(sp, &c), log_of(sp, &d.clone()));
    for round in 0..2 {
        same(&log_of(sp, &c), &want_c, &c, "texts in memory that held others before")?;
        let old = c.clone();
        for (to, from) in [(&mut c.s, &d.s), (&mut c.base, &d.base), (&mut c.tpl, &d.tpl), (&mut c.raw, &d.raw), (&mut c.host, &d.host)] {
            to.clear();
            to.push_str(from);
        }
        same(&log_of(sp, &c), &want_d, &c, "texts in memory that held others before")?;
        if round == 0 {
            for (to, from) in [(&mut c.s, &old.s), (&mut c.base, &old.base), (&mut c.tpl, &old.tpl), (&mut c.raw, &old.raw), (&mut c.host, &old.host)] {
                to.clear();
                to.push_str(from);
            }
        }
    }
    cx.obs(4);
    cx.nontrivial();
    Ok(())
}

/// The same arguments on several threads at once.
fn threads(cx: &mut Cx<'_>) -> R {
    cx.hit("mode:threads");
    const N: usize = 4;
    let mut cases: Vec<(Sp, Case)> = (0..N).map(|_| pick(&mut cx.rng)).collect();
    if cx.rng.chance(1, 2) {
        // Related cases.
        let (_, c0) = cases[0].clone();
        cases[1].1.s = alter(&mut cx.rng, &c0.s);
        cases[2].1.base = c0.base.clone();
        cases[3].1.tpl = c0.tpl.clone();
    }
    cx.input(format!("threads {:?}", cases.iter().map(|c| (&c.1.s, &c.1.base, &c.1.tpl)).collect::<Vec<_>>()));
    let want: Vec<String> = cases.iter().map(|(sp, c)| log_of(*sp, c)).collect();
    let start = Barrier::new(N);
    let (cases, want, start) = (&cases, &want, &start);
    let found: Vec<Result<R, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..N)
            .map(|t| {
                sc.spawn(move || {
                    start.wait();
                    catch(|| {
                        for k in 0..2 * N {
                            // Odd rounds: all threads on the same case.
                            let j = if k % 2 == 0 { (t + k / 2) % N } else { k / 2 };
                            same(&log_of(cases[j].0, &cases[j].1), &want[j], &cases[j].1, "on several threads at once")?;
                        }
                        Ok(())
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for f in found {
        f??;
    }
    cx.obs((2 * N * N) as u64);
    cx.nontrivial();
    Ok(())
}

/// Shared by threads although the compiler may not have been asked: whether
/// the types are `Sync` is checked by `auto_traits`.
struct Shared<T>(T);
// SAFETY: only used for types that are `Sync` as far as the library promises.
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

fn value(v: &Val) -> Value {
    match v {
        Val::Undef => Value::Undefined,
        Val::Str(s) => Value::String(s.clone()),
        Val::List(l) => Value::List(l.clone()),
        Val::Assoc(l) => Value::Assoc(l.clone()),
    }
}

fn simple(c: &Case) -> SimpleContext {
    let mut ctx = SimpleContext::new();
    for (k, v) in &c.vars {
        ctx.insert(k.clone(), value(v));
    }
    ctx
}

/// The same values used by several threads at once.
fn shared(cx: &mut Cx<'_>) -> R {
    cx.hit("mode:shared");
    let (sp, c) = pick(&mut cx.rng);
    cx.input(format!("shared {:?} base {:?} template {:?}", c.s, c.base, c.tpl));
    match sp {
        Sp::Uri => shared_in::<UriSpec>(cx, &c),
        Sp::Iri => shared_in::<IriSpec>(cx, &c),
    }
}

fn shared_in<S: Spec + 'static>(cx: &mut Cx<'_>, c: &Case) -> R {
    let base_text = if RiAbsoluteStr::<S>::new(&c.base).is_ok() { c.base.clone() } else { "http://u:p@h:1/a/./b?q".to_owned() };
    let base = RiAbsoluteStr::<S>::new(&base_text).map_err(|_| "base".to_string())?;
    let r = RiReferenceStr::<S>::new(&c.s).ok();
    let owned = r.map(|r| r.to_owned());
    let resolver = FixedBaseResolver::new(base);
    let tpl = UriTemplateString::try_from(c.tpl.as_str()).ok();
    let ctx = simple(c);
    let expanded = tpl.as_ref().and_then(|t| t.expand::<S, _>(&ctx).ok());
    let normalized = base.normalize();
    let masked = r.map(|r| r.mask_password());
    let resolved = r.map(|r| r.resolve_against(base).and_normalize());
    let mapped = IriReferenceStr::new(&c.s).ok().map(MappedToUri::from);
    let mut builder = r.map_or_else(Builder::new, Builder::from);
    builder.host("h.example");
    if c.ops & 1 != 0 {
        builder.normalize();
    }
    let built = builder.clone().build::<RiReferenceStr<S>>().ok();
    let encoded = PercentEncoded::<_, S>::from_query(c.raw.as_str());
    let all = Shared((&resolver, &tpl, &ctx, &expanded, &normalized, &masked, &resolved, &mapped, &builder, &built, &encoded, &owned));
    let all = &all;
    let observe = move || {
        let (resolver, tpl, ctx, expanded, normalized, masked, resolved, mapped, builder, built, encoded, owned) = all.0;
        let mut o = String::new();
        let mut put = |v: Option<&dyn fmt::Display>| match v {
            Some(v) => { let _ = writeln!(o, "{v}"); }
            None => o.push_str("none\n"),
        };
        put(Some(&resolver.base()));
        put(owned.as_deref().map(|r| resolver.resolve(r)).as_ref().map(|v| v as &dyn fmt::Display));
        put(tpl.as_ref().and_then(|t| t.expand::<S, _>(ctx).ok()).as_ref().map(|v| v as &dyn fmt::Display));
        put(expanded.as_ref().map(|v| v as &dyn fmt::Display));
        put(Some(normalized));
        put(masked.as_ref().map(|v| v as &dyn fmt::Display));
        put(masked.as_ref().map(|v| v.replace_password("x")).as_ref().map(|v| v as &dyn fmt::Display));
        put(resolved.as_ref().map(|v| v as &dyn fmt::Display));
        put(mapped.as_ref().map(|v| v as &dyn fmt::Display));
        put(built.as_ref().map(|v| v as &dyn fmt::Display));
        let mut b = builder.clone();
        b.port("80");
        put(b.build::<RiReferenceStr<S>>().ok().as_ref().map(|v| v as &dyn fmt::Display));
        put(Some(encoded));
        if let Some(v) = owned {
            let _ = writeln!(o, "{:?} {:?} {:?}", v.authority_components(), v.path_str(), v.mask_password().to_dedicated_string());
        }
        if let Some(t) = tpl {
            let _ = writeln!(o, "{:?}", t.variables().map(|v| v.as_str().to_owned()).collect::<Vec<_>>());
        }
        o
    };
    let want = observe();
    const N: usize = 4;
    let start = Barrier::new(N);
    let start = &start;
    let found: Vec<Result<R, String>> = std::thread::scope(|sc| {
        let want = want.as_str();
        let hs: Vec<_> = (0..N)
            .map(|_| {
                sc.spawn(move || {
                    start.wait();
                    catch(|| {
                        for _ in 0..3 {
                            same(&observe(), want, c, "values shared by several threads")?;
                        }
                        Ok(())
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for f in found {
        f??;
    }
    same(&observe(), &want, c, "values after they were shared")?;
    cx.obs(3 * N as u64 + 1);
    cx.nontrivial();
    Ok(())
}

/// Values made on one thread, edited on another, used again here.
fn moved(cx: &mut Cx<'_>) -> R {
    cx.hit("mode:moved");
    let (sp, c) = pick(&mut cx.rng);
    cx.input(format!("moved {:?} host {:?} fragment {:?} template {:?}", c.s, c.host, c.frag, c.tpl));
    match sp {
        Sp::Uri => moved_in::<UriSpec>(cx, &c),
        Sp::Iri => moved_in::<IriSpec>(cx, &c),
    }
}

fn edit<S: Spec>(v: &mut RiReferenceString<S>, t: &mut Option<UriTemplateString>, c: &Case, step: u64) -> String {
    let mut o = String::new();
    match step % 6 {
        0 => { let _ = v.replace_host(&c.host); }
        1 => v.set_fragment(RiFragmentStr::new(&c.frag).ok()),
        2 => v.remove_nonempty_password_inline(),
        3 => v.set_fragment(None),
        4 => { let _ = v.replace_host_reg_name("x.example"); }
        _ => v.remove_password_inline(),
    }
    if let Some(t) = t {
        if t.as_str().len() < 4000 {
            let u = t.clone();
            t.append(&u);
        }
        let _ = write!(o, "{t} {:?} ", t.expand::<S, _>(&simple(c)).map(|e| e.to_string()).ok());
    }
    let _ = write!(o, "{v} {:?} {:?} {:?}", v.authority_components(), v.fragment_str(), v.mask_password().to_dedicated_string());
    o
}

fn moved_in<S: Spec + 'static>(cx: &mut Cx<'_>, c: &Case) -> R {
    let Ok(start) = RiReferenceString::<S>::try_from(c.s.as_str()) else {
        // Rejections are values, too.
        let here = format!("{:?}", RiReferenceString::<S>::try_from(c.s.clone()).map_err(|e| e.into_source()));
        let s = c.s.clone();
        let there = std::thread::spawn(move || Shared(RiReferenceString::<S>::try_from(s))).join().map_err(|_| "panicked on another thread".to_string())?;
        eq!(format!("{:?}", there.0.map_err(|e| e.into_source())), here, "rejected on another thread");
        return Ok(());
    };
    let steps: Vec<u64> = (0..4).map(|_| cx.rng.next()).collect();
    let tpl = UriTemplateString::try_from(c.tpl.as_str()).ok();
    let (mut v, mut t) = (start.clone(), tpl.clone());
    let want: Vec<String> = steps.iter().map(|s| edit(&mut v, &mut t, c, *s)).collect();
    let (mut v, mut t) = (start, tpl);
    let mut got = Vec::new();
    for (k, s) in steps.iter().enumerate() {
        if k % 2 == 0 {
            let pack = Shared((v, t));
            let s = *s;
            let joined = std::thread::scope(|sc| {
                sc.spawn(move || {
                    let mut pack = pack;
                    let (v, t) = (&mut pack.0 .0, &mut pack.0 .1);
                    let o = edit(v, t, c, s);
                    (pack, o)
                })
                .join()
            });
            let (pack, o) = joined.map_err(|_| "panicked on another thread".to_string())?;
            (v, t) = pack.0;
            got.push(o);
        } else {
            got.push(edit(&mut v, &mut t, c, *s));
        }
    }
    for (g, w) in got.iter().zip(&want) {
        same(g, w, c, "edited on alternating threads, against one thread")?;
    }
    cx.obs(got.len() as u64);
    cx.nontrivial();
    Ok(())
}

// ---- callbacks ----

#[derive(Clone, Copy, PartialEq, Eq)]
enum Act {
    Nothing,
    /// Use the library in the middle of the call.
    Observe,
    Panic,
    Fail,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum From_ {
    Sink,
    Display,
    Context,
}

struct Hook<'a> {
    act: Cell<Act>,
    /// The event at which to act, among the events from `at_from`.
    at: u64,
    at_from: From_,
    seen: Cell<u64>,
    fired: Cell<u64>,
    sp: Sp,
    inner: &'a Case,
    inner_log: &'a str,
    bad: RefCell<Option<String>>,
}
impl Hook<'_> {
    fn event(&self, from: From_) -> fmt::Result {
        if self.act.get() == Act::Nothing || from != self.at_from {
            return Ok(());
        }
        let n = self.seen.get();
        self.seen.set(n + 1);
        if n != self.at {
            return Ok(());
        }
        self.fired.set(self.fired.get() + 1);
        match self.act.get() {
            Act::Observe => {
                // Not from within itself.
                self.act.set(Act::Nothing);
                let r = same(&log_of(self.sp, self.inner), self.inner_log, self.inner, "calls made from inside a callback of the library");
                self.act.set(Act::Observe);
                if let Err(e) = r {
                    *self.bad.borrow_mut() = Some(e);
                }
                Ok(())
            }
            Act::Panic => resume_unwind(Box::new("given up by the caller")),
            Act::Fail => Err(fmt::Error),
            Act::Nothing => Ok(()),
        }
    }
}

struct Sink<'a, 'b>(String, &'a Hook<'b>);
impl fmt::Write for Sink<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1.event(From_::Sink)?;
        self.0.push_str(s);
        Ok(())
    }
}

/// A caller's Display implementation; writes its text in pieces.
struct Shown<'a, 'b>(&'a str, &'a Hook<'b>);
impl fmt::Display for Shown<'_, '_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut cut = self.0.len() / 2;
        while !self.0.is_char_boundary(cut) {
            cut -= 1;
        }
        f.write_str(&self.0[..cut])?;
        self.1.event(From_::Display)?;
        f.write_str(&self.0[cut..])
    }
}

struct Ctx<'a, 'b>(&'a Case, &'a Hook<'b>);
impl Context for Ctx<'_, '_> {
    fn visit<V: Visitor>(&self, v: V) -> V::Result {
        let n = v.var_name().as_str().to_owned();
        // A context has no way to report an error.
        let _ = self.1.event(From_::Context);
        let s = |t| Shown(t, self.1);
        match self.0.vars.get(&n).unwrap_or(&Val::Undef) {
            Val::Undef => v.visit_undefined(),
            Val::Str(t) => v.visit_string(s(t)),
            Val::List(l) => {
                let mut lv = v.visit_list();
                for x in l {
                    let _ = self.1.event(From_::Context);
                    if let std::ops::ControlFlow::Break(b) = lv.visit_item(s(x)) {
                        return b;
                    }
                }
                lv.finish()
            }
            Val::Assoc(l) => {
                let mut av = v.visit_assoc();
                for (k, x) in l {
                    let _ = self.1.event(From_::Context);
                    if let std::ops::ControlFlow::Break(b) = av.visit_entry(s(k), s(x)) {
                        return b;
                    }
                }
                av.finish()
            }
        }
    }
}
struct Dynamic<'a, 'b>(Ctx<'a, 'b>);
impl DynamicContext for Dynamic<'_, '_> {
    fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result {
        self.0.visit(v)
    }
    fn on_expansion_start(&mut self) {
        let _ = self.0 .1.event(From_::Context);
    }
    fn on_expansion_end(&mut self) {
        let _ = self.0 .1.event(From_::Context);
    }
}

enum Ended {
    Done,
    Failed,
    Panicked,
}

/// One rendering with the hook armed, then the same rendering undisturbed.
fn through(h: &Hook<'_>, plain: &str, mut render: impl FnMut(&mut Sink<'_, '_>) -> fmt::Result, what: &str) -> Result<Ended, String> {
    let act = h.act.get();
    let mut sink = Sink(String::new(), h);
    let r = catch_unwind(AssertUnwindSafe(|| render(&mut sink)));
    let text = sink.0;
    h.act.set(Act::Nothing);
    let ended = match r {
        Ok(Ok(())) => {
            eq!(text.as_str(), plain, "{what} with a callback that uses the library, against without");
            Ended::Done
        }
        Ok(Err(_)) => {
            ck!(act == Act::Fail && h.fired.get() > 0, "{what} reports an error that no callback reported");
            ck!(plain.starts_with(&text), "{what} abandoned by an error: wrote {text:?}, of {plain:?}");
            Ended::Failed
        }
        Err(p) => {
            let ours = p.downcast_ref::<&str>() == Some(&"given up by the caller");
            ck!(ours, "{what} panicked although no callback did");
            ck!(plain.starts_with(&text), "{what} abandoned by a panic: wrote {text:?}, of {plain:?}");
            Ended::Panicked
        }
    };
    let mut sink = Sink(String::new(), h);
    let r = catch_unwind(AssertUnwindSafe(|| render(&mut sink)));
    ck!(matches!(r, Ok(Ok(()))), "{what} fails after a rendering that a callback abandoned or interrupted");
    eq!(sink.0.as_str(), plain, "{what} again after a rendering that a callback abandoned or interrupted");
    h.act.set(act);
    Ok(ended)
}

fn callback(cx: &mut Cx<'_>) -> R {
    cx.hit("mode:callback");
    let (sp, mut c) = pick(&mut cx.rng);
    let (isp, inner) = if cx.rng.chance(1, 3) { (sp, c.clone()) } else { pick(&mut cx.rng) };
    if cx.rng.chance(1, 3) {
        c.tpl = gen::template(&mut cx.rng);
    }
    let inner_log = log_of(isp, &inner);
    let act = *cx.rng.pick(&[Act::Observe, Act::Observe, Act::Panic, Act::Fail]);
    let from = *cx.rng.pick(&[From_::Sink, From_::Sink, From_::Display, From_::Context]);
    cx.hit(match act { Act::Observe => "act:observe", Act::Panic => "act:panic", Act::Fail => "act:fail", Act::Nothing => "act:nothing" });
    cx.hit(match from { From_::Sink => "callback:sink", From_::Display => "callback:display", From_::Context => "callback:context" });
    let op = cx.rng.below(13);
    let h = Hook {
        act: Cell::new(Act::Nothing),
        at: if cx.rng.chance(1, 2) { 0 } else { cx.rng.below(6) as u64 },
        at_from: from,
        seen: Cell::new(0),
        fired: Cell::new(0),
        sp: isp,
        inner: &inner,
        inner_log: &inner_log,
        bad: RefCell::new(None),
    };
    cx.input(format!("callback op {op} {:?} base {:?} template {:?} raw {:?}; inner {:?} base {:?} template {:?}", c.s, c.base, c.tpl, c.raw, inner.s, inner.base, inner.tpl));
    match sp {
        Sp::Uri => callback_in::<UriSpec>(cx, &c, &h, op, act)?,
        Sp::Iri => callback_in::<IriSpec>(cx, &c, &h, op, act)?,
    }
    if let Some(e) = h.bad.take() {
        return Err(e);
    }
    if h.fired.get() > 0 {
        cx.hit("callback fired");
        if act == Act::Observe {
            cx.hit("observed inside a callback");
        }
        same(&log_of(isp, &inner), &inner_log, &inner, "calls after one that a callback abandoned or interrupted")?;
        cx.obs(4);
        cx.nontrivial();
    }
    Ok(())
}

fn callback_in<S: Spec>(cx: &mut Cx<'_>, c: &Case, h: &Hook<'_>, op: usize, act: Act) -> R {
    macro_rules! rendered {
        ($what:literal, $v:expr) => {{
            let v = $v;
            let plain = v.to_string();
            h.act.set(act);
            cx.hit(concat!("op:", $what));
            match through(h, &plain, |s| write!(s, "{v}"), $what)? {
                Ended::Done => {}
                Ended::Failed => cx.hit("abandoned by an error"),
                Ended::Panicked => cx.hit("abandoned by a panic"),
            }
        }};
    }
    let base = RiAbsoluteStr::<S>::new(&c.base).ok();
    let r = RiReferenceStr::<S>::new(&c.s).ok();
    match (op, base, r) {
        (0, Some(b), _) => rendered!("normalize", b.normalize()),
        (1, Some(b), Some(r)) => rendered!("resolve", r.resolve_against(b)),
        (2, Some(b), Some(r)) => rendered!("resolve-normalize", FixedBaseResolver::new(b).resolve(r).and_normalize()),
        (3, _, Some(r)) => rendered!("mask", r.mask_password()),
        (4, Some(b), _) => {
            let text = c.raw.as_str();
            rendered!("replace", b.mask_password().replace_password_with(|p| {
                let _ = h.event(From_::Display);
                let _ = p.len();
                Shown(text, h)
            }));
        }
        (5, _, _) => {
            if let Ok(i) = IriReferenceStr::new(&c.s) {
                rendered!("map", MappedToUri::from(i));
            }
        }
        (6, _, _) => rendered!("encode", PercentEncoded::<_, S>::from_path_segment(Shown(&c.raw, h))),
        (7, _, Some(r)) => {
            let mut b = Builder::from(r);
            if c.ops & 1 != 0 {
                b.normalize();
            }
            if let Ok(v) = b.build::<RiReferenceStr<S>>() {
                rendered!("build", v);
            }
        }
        (8 | 9, _, _) => {
            if let Ok(t) = UriTemplateStr::new(&c.tpl) {
                let ctx = Ctx(c, h);
                // A type error is found before anything is rendered.
                if let Ok(e) = t.expand::<S, _>(&ctx) {
                    rendered!("expand", e);
                };
            }
        }
        (10 | 11, _, _) => {
            if let Ok(t) = UriTemplateStr::new(&c.tpl) {
                let mut plain = Sink(String::new(), h);
                if t.expand_dynamic::<S, _, _>(&mut plain, &mut Dynamic(Ctx(c, h))).is_ok() {
                    h.act.set(act);
                    cx.hit("op:expand-dynamic");
                    let plain = plain.0;
                    let render = |s: &mut Sink<'_, '_>| t.expand_dynamic::<S, _, _>(s, &mut Dynamic(Ctx(c, h))).map_err(|_| fmt::Error);
                    match through(h, &plain, render, "expand-dynamic")? {
                        Ended::Done => {}
                        Ended::Failed => cx.hit("abandoned by an error"),
                        Ended::Panicked => cx.hit("abandoned by a panic"),
                    }
                }
            }
        }
        (_, _, Some(r)) => {
            if let Some(p) = r.authority_str() {
                rendered!("encode", PercentEncoded::<_, S>::from_user(Shown(p, h)));
            }
        }
        _ => {}
    }
    Ok(())
}

// ---- auto traits ----

/// Compiles whether or not the type implements the trait.
trait Not {
    const YES: bool = false;
}
struct IsSend<T: ?Sized>(std::marker::PhantomData<*const T>);
struct IsSync<T: ?Sized>(std::marker::PhantomData<*const T>);
impl<T: ?Sized> Not for IsSend<T> {}
impl<T: ?Sized> Not for IsSync<T> {}
impl<T: ?Sized + Send> IsSend<T> {
    const YES: bool = true;
}
impl<T: ?Sized + Sync> IsSync<T> {
    const YES: bool = true;
}

/// The same question about a type that cannot be named, asked of a value.
struct Probe<'a, T>(&'a T);
trait SyncYes {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send + Sync> SyncYes for Probe<'_, T> {}
trait SyncNo {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> SyncNo for &Probe<'_, T> {}

macro_rules! traits {
    ($($t:ty),* $(,)?) => {
        [$((stringify!($t), IsSend::<$t>::YES, IsSync::<$t>::YES)),*]
    };
}

fn auto_traits(cx: &mut Cx<'_>) -> R {
    cx.hit("auto traits");
    cx.input("auto traits".to_owned());
    macro_rules! per_spec {
        ($s:ty) => {
            traits![
                RiStr<$s>, RiAbsoluteStr<$s>, RiReferenceStr<$s>, RiRelativeStr<$s>, RiQueryStr<$s>, RiFragmentStr<$s>,
                RiString<$s>, RiAbsoluteString<$s>, RiReferenceString<$s>, RiRelativeString<$s>, RiQueryString<$s>, RiFragmentString<$s>,
                Box<RiStr<$s>>, std::sync::Arc<RiReferenceStr<$s>>, std::borrow::Cow<'static, RiReferenceStr<$s>>,
                FixedBaseResolver<'static, $s>, Normalized<'static, RiStr<$s>>, Normalized<'static, RiAbsoluteStr<$s>>,
                PasswordMasked<'static, RiReferenceStr<$s>>, PasswordReplaced<'static, RiReferenceStr<$s>, String>,
                PercentEncoded<String, $s>, iri_string::build::Built<'static, RiReferenceStr<$s>>,
                MappedToUri<'static, RiReferenceStr<$s>>,
                iri_string::types::CreationError<String>
            ]
        };
    }
    let lists = [
        &per_spec!(UriSpec)[..],
        &per_spec!(IriSpec)[..],
        &traits![
            UriTemplateStr, UriTemplateString, SimpleContext, Value, Builder<'static>, UserinfoBuilder<'static>,
            iri_string::build::PortBuilder<'static>, iri_string::components::AuthorityComponents<'static>,
            iri_string::validate::Error, iri_string::normalize::Error, iri_string::template::Error,
            iri_string::template::CreationError<String>, CapacityOverflowError,
            iri_string::percent_encode::decode::PercentDecodedWhatwgBytes<'static>,
            iri_string::percent_encode::decode::PercentDecodedBytesFragments<'static>,
            iri_string::percent_encode::decode::DecodedFragment<'static>,
            iri_string::template::UriTemplateVariables<'static>, iri_string::template::context::VarName<'static>,
        ][..],
    ];
    let mut n = 0;
    for (t, send, sync) in lists.into_iter().flatten() {
        ck!(*send, "{t} cannot be moved to another thread any more");
        ck!(*sync, "{t} cannot be shared with another thread any more");
        n += 2;
    }
    let (t, ctx) = (UriTemplateStr::new("{x}").map_err(|e| e.to_string())?, SimpleContext::new());
    let e = t.expand::<UriSpec, _>(&ctx).map_err(|e| e.to_string())?;
    ck!((&Probe(&e)).sync(), "an expanded template cannot be shared with another thread any more");
    ck!(!(&Probe(&Cell::new(1_u8))).sync(), "the probe does not work");
    // The probe itself tells the two apart.
    ck!(!IsSync::<Cell<u8>>::YES && IsSend::<Cell<u8>>::YES && !IsSend::<std::rc::Rc<u8>>::YES, "the probe does not work");
    cx.obs(n);
    cx.nontrivial();
    Ok(())
}
