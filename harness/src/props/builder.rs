//! B01..B03: the builder.

use super::Sx;
use crate::engine::{Cx, Prop, Rng, R};
use crate::gen::{self, Want};
use crate::model::{self, Parts, Sp, Target};
use crate::{both_specs, ck, eq};
use iri_string::build::{Buildable, Builder, Built, PortBuilder, UserinfoBuilder};
use iri_string::format::ToDedicatedString;
use iri_string::types::*;
use std::fmt;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "B01",
        quick: 1_800_000,
        thorough: 18_000_000,
        case: b01,
        rule: "distinct setter histories whose outcome for all four types was compared with the model of acceptable component sets",
        required: &[
            "spec:uri", "spec:iri", "built", "rejected", "bad-scheme", "bad-userinfo", "bad-host", "bad-port", "bad-path", "bad-query", "bad-fragment", "colon-in-user",
            "ambiguous:rootless-with-authority", "ambiguous:double-slash", "ambiguous:colon-first", "unset", "ip", "int-port",
        ],
    },
    Prop {
        id: "B02",
        quick: 600_000,
        thorough: 12_000_000,
        case: b02,
        rule: "distinct setter histories built with normalization, compared with the normalization model and re-normalized",
        required: &["spec:uri", "spec:iri", "built", "rejected", "changed", "whatwg", "relative-path", "no-scheme", "empty-port", "authority", "int-port"],
    },
    Prop {
        id: "B03",
        quick: 600_000,
        thorough: 12_000_000,
        case: b03,
        rule: "distinct existing references rebuilt unchanged and with replaced components",
        required: &["spec:uri", "spec:iri", "identity", "modified", "authority", "userinfo", "port", "from:iri", "from:absolute", "from:relative", "rejected"],
    },
    Prop {
        id: "M05",
        quick: 150_000,
        thorough: 6_000_000,
        case: m05,
        rule: "distinct pairs of builder histories, references and built values that differ only in a non-empty password, whose diagnostic renderings were compared",
        required: &["spec:uri", "spec:iri", "direct", "pair", "from-reference", "built", "masked", "later-history", "normalizing"],
    },
];

#[derive(Clone, Debug, PartialEq)]
enum User {
    None,
    Direct(String),
    Pair(String, Option<String>),
}
#[derive(Clone, Debug, PartialEq)]
enum Host {
    Str(String),
    Ip(IpAddr),
}
#[derive(Clone, Debug, PartialEq)]
enum Port {
    None,
    U8(u8),
    U16(u16),
    Str(String),
}
#[derive(Clone, Debug)]
enum Op {
    Scheme(String),
    UnsetScheme,
    Path(String),
    UnsetAuthority,
    Userinfo(User, bool),
    UnsetUserinfo,
    Host(String),
    Ip(IpAddr, bool),
    Port(Port, bool),
    UnsetPort,
    Query(String),
    UnsetQuery,
    Fragment(String),
    UnsetFragment,
    Normalize,
    UnsetNormalize,
}

#[derive(Clone, Debug)]
struct MAuth {
    user: User,
    host: Host,
    port: Port,
}
impl Default for MAuth {
    fn default() -> Self {
        MAuth { user: User::None, host: Host::Str(String::new()), port: Port::None }
    }
}
#[derive(Clone, Debug, Default)]
struct MB {
    scheme: Option<String>,
    auth: Option<MAuth>,
    path: String,
    query: Option<String>,
    fragment: Option<String>,
    normalize: bool,
}

fn apply<'a>(b: &mut Builder<'a>, op: &'a Op) {
    match op {
        Op::Scheme(v) => b.scheme(v),
        Op::UnsetScheme => b.unset_scheme(),
        Op::Path(v) => b.path(v),
        Op::UnsetAuthority => b.unset_authority(),
        Op::Userinfo(User::None, _) => b.userinfo(UserinfoBuilder::default()),
        Op::Userinfo(User::Direct(v), owned) => {
            if *owned { b.userinfo(v) } else { b.userinfo(v.as_str()) }
        }
        Op::Userinfo(User::Pair(u, Some(p)), owned) => {
            if *owned { b.userinfo((u.as_str(), p.as_str())) } else { b.userinfo((u.as_str(), Some(p.as_str()))) }
        }
        Op::Userinfo(User::Pair(u, None), _) => b.userinfo((u.as_str(), None)),
        Op::UnsetUserinfo => b.unset_userinfo(),
        Op::Host(v) => b.host(v),
        Op::Ip(IpAddr::V4(v), true) => b.ip_address(*v),
        Op::Ip(IpAddr::V6(v), true) => b.ip_address(*v),
        Op::Ip(v, false) => b.ip_address(*v),
        Op::Port(Port::None, _) => b.port(PortBuilder::default()),
        Op::Port(Port::U8(v), _) => b.port(*v),
        Op::Port(Port::U16(v), _) => b.port(*v),
        Op::Port(Port::Str(v), owned) => {
            if *owned { b.port(v) } else { b.port(v.as_str()) }
        }
        Op::UnsetPort => b.unset_port(),
        Op::Query(v) => b.query(v),
        Op::UnsetQuery => b.unset_query(),
        Op::Fragment(v) => b.fragment(v),
        Op::UnsetFragment => b.unset_fragment(),
        Op::Normalize => b.normalize(),
        Op::UnsetNormalize => b.unset_normalize(),
    }
}

impl MB {
    fn a(&mut self) -> &mut MAuth {
        self.auth.get_or_insert_with(MAuth::default)
    }
    fn apply(&mut self, op: &Op) {
        match op.clone() {
            Op::Scheme(v) => self.scheme = Some(v),
            Op::UnsetScheme => self.scheme = None,
            Op::Path(v) => self.path = v,
            Op::UnsetAuthority => self.auth = None,
            Op::Userinfo(v, _) => self.a().user = v,
            Op::UnsetUserinfo => self.a().user = User::None,
            Op::Host(v) => self.a().host = Host::Str(v),
            Op::Ip(v, _) => self.a().host = Host::Ip(v),
            Op::Port(v, _) => self.a().port = v,
            Op::UnsetPort => self.a().port = Port::None,
            Op::Query(v) => self.query = Some(v),
            Op::UnsetQuery => self.query = None,
            Op::Fragment(v) => self.fragment = Some(v),
            Op::UnsetFragment => self.fragment = None,
            Op::Normalize => self.normalize = true,
            Op::UnsetNormalize => self.normalize = false,
        }
    }
    fn of(text: &str) -> MB {
        let p = model::split(text);
        MB {
            scheme: p.scheme.map(Into::into),
            auth: p.authority.map(|a| {
                let a = model::split_authority(a);
                MAuth {
                    user: a.userinfo.map_or(User::None, |u| User::Direct(u.into())),
                    host: Host::Str(a.host.into()),
                    port: a.port.map_or(Port::None, |p| Port::Str(p.into())),
                }
            }),
            path: p.path.into(),
            query: p.query.map(Into::into),
            fragment: p.fragment.map(Into::into),
            normalize: false,
        }
    }
    /// Every reason for which these components cannot be built, whatever the type.
    fn faults(&self, sp: Sp) -> Vec<&'static str> {
        let mut v = Vec::new();
        if self.scheme.as_deref().is_some_and(|s| !model::v_scheme(s)) {
            v.push("bad-scheme");
        }
        if let Some(a) = &self.auth {
            match &a.user {
                User::None => {}
                User::Direct(u) => {
                    if !model::v_userinfo(sp, u) {
                        v.push("bad-userinfo");
                    }
                }
                User::Pair(u, p) => {
                    if u.contains(':') {
                        v.push("colon-in-user");
                    }
                    if !model::v_userinfo(sp, u) || p.as_deref().is_some_and(|p| !model::v_userinfo(sp, p)) {
                        v.push("bad-userinfo");
                    }
                }
            }
            if let Host::Str(h) = &a.host {
                if !model::v_host(sp, h) {
                    v.push("bad-host");
                }
            }
            if let Port::Str(p) = &a.port {
                if !model::v_port(p) {
                    v.push("bad-port");
                }
            }
        }
        if !model::v_path(sp, &self.path) {
            v.push("bad-path");
        }
        if self.query.as_deref().is_some_and(|q| !model::v_query(sp, q)) {
            v.push("bad-query");
        }
        if self.fragment.as_deref().is_some_and(|q| !model::v_fragment(sp, q)) {
            v.push("bad-fragment");
        }
        if self.auth.is_some() {
            if !self.path.is_empty() && !self.path.starts_with('/') {
                v.push("ambiguous:rootless-with-authority");
            }
        } else if self.path.starts_with("//") {
            if !self.normalize {
                v.push("ambiguous:double-slash");
            }
        } else if self.scheme.is_none() && self.path.split('/').next().unwrap().contains(':') {
            v.push("ambiguous:colon-first");
        }
        v
    }
    fn user_text(&self) -> Option<String> {
        match &self.auth.as_ref()?.user {
            User::None => None,
            User::Direct(u) => Some(u.clone()),
            User::Pair(u, None) => Some(u.clone()),
            User::Pair(u, Some(p)) => Some(format!("{u}:{p}")),
        }
    }
    fn host_text(&self) -> Option<String> {
        Some(match &self.auth.as_ref()?.host {
            Host::Str(s) => s.clone(),
            Host::Ip(IpAddr::V4(v)) => v.to_string(),
            Host::Ip(IpAddr::V6(v)) => format!("[{v}]"),
        })
    }
    fn port_text(&self) -> Option<String> {
        match &self.auth.as_ref()?.port {
            Port::None => None,
            Port::U8(v) => Some(v.to_string()),
            Port::U16(v) => Some(v.to_string()),
            Port::Str(v) => Some(v.clone()),
        }
    }
    fn auth_text(&self) -> Option<String> {
        self.auth.as_ref()?;
        Some(model::join_authority(self.user_text().as_deref(), &self.host_text().unwrap(), self.port_text().as_deref()))
    }
    fn plain(&self) -> String {
        let a = self.auth_text();
        model::join(&Parts {
            scheme: self.scheme.as_deref(),
            authority: a.as_deref(),
            path: &self.path,
            query: self.query.as_deref(),
            fragment: self.fragment.as_deref(),
        })
    }
    /// The normalized text; `true` if it needs the WHATWG `/.` prefix.
    fn normalized(&self, sp: Sp) -> (String, bool) {
        let t = Target {
            scheme: self.scheme.clone().unwrap_or_default(),
            authority: self.auth_text(),
            path: self.path.clone(),
            query: self.query.clone(),
            fragment: self.fragment.clone(),
        };
        let n = if self.scheme.is_none() && self.auth.is_none() && !self.path.starts_with('/') {
            // A relative path: dot segments are meaningful.
            let mut n = model::normalize_target(sp, &t, model::Mode::PreserveRootless);
            n.path = model::pct_normalize(sp, &self.path);
            n
        } else {
            model::normalize_target(sp, &t, model::Mode::Default)
        };
        let w = n.needs_whatwg();
        let path = if w { format!("/.{}", n.path) } else { n.path.clone() };
        let s = model::join(&Parts {
            scheme: self.scheme.as_ref().map(|_| n.scheme.as_str()),
            authority: n.authority.as_deref(),
            path: &path,
            query: n.query.as_deref(),
            fragment: n.fragment.as_deref(),
        });
        (s, w)
    }
    fn fits(&self, want: Want) -> bool {
        match want {
            Want::Reference => true,
            Want::Iri => self.scheme.is_some(),
            Want::Absolute => self.scheme.is_some() && self.fragment.is_none(),
            Want::Relative => self.scheme.is_none(),
        }
    }
}

fn maybe_damage(r: &mut Rng, sp: Sp, s: String) -> String {
    match r.below(40) {
        0 => gen::mutate(r, &s),
        1 => {
            let extra = *r.pick(&["/", "?", "#", ":", "@", "[", "]", "%", "%4", "%zz", " ", "\u{e9}", "\u{e000}", "\\", "\"", "//", "^", "|", "\u{7f}", "\u{202e}"]);
            let at = s.char_indices().map(|(i, _)| i).chain([s.len()]).nth(r.below(s.chars().count() + 1)).unwrap();
            let mut s = s;
            s.insert_str(at, extra);
            s
        }
        2 => gen::path(r, if sp == Sp::Uri { Sp::Iri } else { Sp::Uri }),
        _ => s,
    }
}

fn gen_user(r: &mut Rng, sp: Sp) -> User {
    let part = |r: &mut Rng| {
        let u = gen::userinfo(r, sp);
        let u = if r.chance(9, 10) { u.replace(':', "") } else { u };
        maybe_damage(r, sp, u)
    };
    match r.below(8) {
        0 => User::None,
        1..=3 => {
            let u = gen::userinfo(r, sp);
            User::Direct(maybe_damage(r, sp, u))
        }
        4 => User::Pair(part(r), None),
        _ => {
            let u = part(r);
            let p = gen::userinfo(r, sp);
            User::Pair(u, Some(maybe_damage(r, sp, p)))
        }
    }
}
fn gen_ip(r: &mut Rng) -> IpAddr {
    if r.chance(1, 3) {
        IpAddr::V4(Ipv4Addr::from(r.next() as u32))
    } else {
        let mut g = [0u16; 8];
        for x in &mut g {
            if r.chance(1, 2) {
                *x = r.next() as u16;
            }
        }
        match r.below(6) {
            0 => IpAddr::V6(Ipv6Addr::LOCALHOST),
            1 => IpAddr::V6(Ipv4Addr::from(r.next() as u32).to_ipv6_mapped()),
            _ => IpAddr::V6(Ipv6Addr::from(g)),
        }
    }
}
fn gen_op(r: &mut Rng, sp: Sp, unset: bool) -> Op {
    if unset && r.chance(1, 5) {
        return match r.below(6) {
            0 => Op::UnsetScheme,
            1 => Op::UnsetAuthority,
            2 => Op::UnsetUserinfo,
            3 => Op::UnsetPort,
            4 => Op::UnsetQuery,
            _ => Op::UnsetFragment,
        };
    }
    let own = r.chance(1, 2);
    match r.below(9) {
        0 => { let s = gen::scheme(r); Op::Scheme(maybe_damage(r, sp, s)) }
        1 | 2 => { let s = gen::path(r, sp); Op::Path(maybe_damage(r, sp, s)) }
        3 => Op::Userinfo(gen_user(r, sp), own),
        4 => { let s = gen::host(r, sp); Op::Host(maybe_damage(r, sp, s)) }
        5 => if r.chance(1, 2) { Op::Ip(gen_ip(r), own) } else { let s = gen::host(r, sp); Op::Host(s) },
        6 => Op::Port(
            match r.below(6) {
                0 => Port::None,
                1 => Port::U8(r.next() as u8),
                2 | 3 => Port::U16(*r.pick(&[0u16, 1, 80, 443, 9999, 10000, 65535, 8080, 255, 256])),
                _ => {
                    let p = gen::port(r);
                    Port::Str(if r.chance(1, 12) { (*r.pick(&["-1", "+1", " 1", "0x1", "1e1", "\u{661}", "a", "1 ", "1:", "8%30"])).to_string() } else { p })
                }
            },
            own,
        ),
        7 => { let s = gen::query(r, sp); Op::Query(maybe_damage(r, sp, s)) }
        _ => { let s = gen::fragment(r, sp); Op::Fragment(maybe_damage(r, sp, s)) }
    }
}
/// A history that usually ends in a buildable state.
fn gen_ops(r: &mut Rng, sp: Sp) -> Vec<Op> {
    if r.chance(3, 5) {
        let want = *r.pick(&[Want::Reference, Want::Iri, Want::Absolute, Want::Relative]);
        let p = gen::parts(r, sp, want);
        let mut ops = Vec::new();
        if let Some(s) = p.scheme { ops.push(Op::Scheme(s)); }
        let own = r.chance(1, 2);
        if let Some(a) = p.authority {
            match a.userinfo {
                None => {}
                Some(u) => match u.find(':') {
                    Some(c) if r.chance(1, 2) => ops.push(Op::Userinfo(User::Pair(u[..c].into(), Some(u[c + 1..].into())), own)),
                    _ => ops.push(Op::Userinfo(User::Direct(u), own)),
                },
            }
            if r.chance(1, 6) { ops.push(Op::Ip(gen_ip(r), own)); } else { ops.push(Op::Host(a.host)); }
            if let Some(p) = a.port {
                ops.push(Op::Port(if r.chance(1, 3) { Port::U16(r.next() as u16) } else { Port::Str(p) }, own));
            }
        }
        ops.push(Op::Path(p.path));
        if let Some(s) = p.query { ops.push(Op::Query(s)); }
        if let Some(s) = p.fragment { ops.push(Op::Fragment(s)); }
        for i in (1..ops.len()).rev() {
            let j = r.below(i + 1);
            ops.swap(i, j);
        }
        for _ in 0..r.below(3) {
            if r.chance(1, 3) {
                let o = gen_op(r, sp, true);
                let at = r.below(ops.len() + 1);
                ops.insert(at, o);
            }
        }
        ops
    } else {
        let n = r.range(0, 9);
        (0..n).map(|_| gen_op(r, sp, true)).collect()
    }
}

/// What is observed of one build.
fn built_text<'a, T, O>(b: Built<'a, T>) -> Result<(String, bool), String>
where
    T: ?Sized + Buildable<'a>,
    Built<'a, T>: fmt::Display + ToDedicatedString<Target = O> + Norm,
    O: for<'x> From<&'x Built<'a, T>> + From<Built<'a, T>> + AsRef<str>,
{
    let text = b.to_string();
    super::flags(&b, &text, "built value")?;
    let n = b.norm();
    let c = b.clone();
    let all = [
        ("to_dedicated_string", b.to_dedicated_string().as_ref().to_owned()),
        ("try_to_dedicated_string", b.try_to_dedicated_string().map_err(|e| e.to_string())?.as_ref().to_owned()),
        ("From<&Built>", O::from(&b).as_ref().to_owned()),
        ("From<Built>", O::from(b).as_ref().to_owned()),
        ("display of the clone", c.to_string()),
    ];
    for (how, t) in all {
        eq!(t, text.clone(), "{how} against Display");
    }
    Ok((text, n))
}
pub trait Norm {
    fn norm(&self) -> bool;
}
macro_rules! norm {
    ($($t:ident),*) => { $(
        impl<S: iri_string::spec::Spec> Norm for Built<'_, $t<S>> {
            fn norm(&self) -> bool { self.ensure_rfc3986_normalizable().is_ok() }
        }
    )* };
}
norm!(RiReferenceStr, RiStr, RiAbsoluteStr, RiRelativeStr);

/// Builds the four types and compares with the model. Returns whether any was built.
fn judge<S: Sx>(cx: &mut Cx<'_>, b: &Builder<'_>, m: &MB, why: &str) -> Result<bool, String> {
    let sp = S::SP;
    let faults = m.faults(sp);
    let (want_text, whatwg) = if m.normalize && faults.is_empty() { m.normalized(sp) } else { (m.plain(), false) };
    // Without scheme and authority the `/.` prefix is a choice: refusing is fine, too.
    let free = whatwg && m.scheme.is_none() && m.auth.is_none();
    let mut any = false;
    macro_rules! one {
        ($t:ident, $want:expr, $valid:path) => {{
            let name = stringify!($t);
            let expect = faults.is_empty() && m.fits($want);
            match (b.clone().build::<$t<S>>(), expect) {
                (Err(_), false) => {}
                (Err(_), true) if free => {}
                (Ok(x), false) => {
                    return Err(format!("{why}: {name} was built ({:?}) from unacceptable components ({faults:?}) {m:?}", x.to_string()));
                }
                (Err(e), true) => return Err(format!("{why}: {name} refused ({e}) though the components {m:?} are acceptable")),
                (Ok(x), true) => {
                    any = true;
                    let (text, normalizable) = built_text(x).map_err(|e| format!("{why}: {name}: {e}"))?;
                    eq!(text.as_str(), want_text.as_str(), "{why}: {name} built from {m:?}");
                    ck!($t::<S>::new(&text).is_ok(), "{why}: {name}: the library does not accept its own {text:?}");
                    ck!($valid(sp, &text), "{why}: {name}: {text:?} is not valid");
                    if m.normalize || m.scheme.is_some() {
                        let mut t = m.clone();
                        t.normalize = true;
                        if t.scheme.is_some() || t.auth.is_some() || t.path.starts_with('/') {
                            eq!(normalizable, !t.normalized(sp).1, "{why}: {name}: ensure_rfc3986_normalizable of {m:?}");
                        }
                    }
                    if !m.normalize {
                        // Nothing moved between the components.
                        let r = RiReferenceStr::<S>::new(&text).map_err(|e| e.to_string())?;
                        eq!(r.scheme_str(), m.scheme.as_deref(), "{why}: scheme of {text:?}");
                        eq!(r.authority_str(), m.auth_text().as_deref(), "{why}: authority of {text:?}");
                        eq!(r.path_str(), m.path.as_str(), "{why}: path of {text:?}");
                        eq!(r.query_str(), m.query.as_deref(), "{why}: query of {text:?}");
                        eq!(r.fragment().map(|f| f.as_str()), m.fragment.as_deref(), "{why}: fragment of {text:?}");
                        if let Some(a) = r.authority_components() {
                            eq!(a.userinfo(), m.user_text().as_deref(), "{why}: userinfo of {text:?}");
                            eq!(Some(a.host()), m.host_text().as_deref(), "{why}: host of {text:?}");
                            eq!(a.port(), m.port_text().as_deref(), "{why}: port of {text:?}");
                        }
                    }
                    cx.obs(10);
                }
            }
            cx.obs(1);
        }};
    }
    one!(RiReferenceStr, Want::Reference, model::v_reference);
    one!(RiStr, Want::Iri, model::v_iri);
    one!(RiAbsoluteStr, Want::Absolute, model::v_absolute);
    one!(RiRelativeStr, Want::Relative, model::v_relative);
    if any {
        cx.hit("built");
    } else {
        cx.hit("rejected");
    }
    if faults.len() == 1 {
        cx.hit(faults[0]);
    }
    if whatwg && any {
        cx.hit("whatwg");
    }
    Ok(any)
}

fn classify(cx: &mut Cx<'_>, ops: &[Op]) {
    for o in ops {
        match o {
            Op::Ip(..) => cx.hit("ip"),
            Op::Port(Port::U16(_) | Port::U8(_), _) => cx.hit("int-port"),
            Op::UnsetScheme | Op::UnsetAuthority | Op::UnsetUserinfo | Op::UnsetPort | Op::UnsetQuery | Op::UnsetFragment => cx.hit("unset"),
            _ => {}
        }
    }
}

both_specs!(b01, b01_g);
fn b01_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let mut ops = gen_ops(&mut cx.rng, sp);
    if cx.rng.chance(1, 10) {
        ops.insert(0, Op::Normalize);
        ops.push(Op::UnsetNormalize);
    }
    cx.input(format!("{sp:?} {ops:?}"));
    let mut b = Builder::new();
    let mut m = MB::default();
    for o in &ops {
        apply(&mut b, o);
        m.apply(o);
    }
    classify(cx, &ops);
    judge::<S>(cx, &b, &m, "built")?;
    cx.nontrivial();
    Ok(())
}

both_specs!(b02, b02_g);
fn b02_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let mut ops = gen_ops(&mut cx.rng, sp);
    let at = cx.rng.below(ops.len() + 1);
    ops.insert(at, Op::Normalize);
    cx.input(format!("{sp:?} {ops:?}"));
    let mut b = Builder::new();
    let mut m = MB::default();
    for o in &ops {
        apply(&mut b, o);
        m.apply(o);
    }
    classify(cx, &ops);
    let any = judge::<S>(cx, &b, &m, "built with normalization")?;
    if any {
        let (want, w) = m.normalized(sp);
        if want != m.plain() {
            cx.hit("changed");
        }
        if m.scheme.is_none() {
            cx.hit("no-scheme");
            if m.auth.is_none() && !m.path.starts_with('/') && !m.path.is_empty() {
                cx.hit("relative-path");
            }
        }
        if let Some(a) = &m.auth {
            cx.hit("authority");
            if a.port == Port::Str(String::new()) {
                cx.hit("empty-port");
            }
        }
        // Building what was built changes nothing.
        if let Ok(r) = RiReferenceStr::<S>::new(want.as_str()) {
            let mut again = Builder::from(r);
            again.normalize();
            match again.build::<RiReferenceStr<S>>() {
                Ok(x) => eq!(x.to_string(), want, "normalized build of the normalized text"),
                Err(e) if w && m.scheme.is_none() => { let _ = e; }
                Err(e) => return Err(format!("normalized build of {want:?}: {e}")),
            }
        }
        // The result agrees with normalization after building.
        if m.scheme.is_some() {
            let mut plain = b.clone();
            plain.unset_normalize();
            if let Ok(x) = plain.build::<RiStr<S>>() {
                let x = x.to_dedicated_string();
                eq!(x.normalize().to_string(), want, "normalize() of the plain build {x}");
            }
        }
        cx.obs(2);
    }
    cx.nontrivial();
    Ok(())
}

both_specs!(b03, b03_g);
fn b03_g<S: Sx>(cx: &mut Cx<'_>, _i: u64) -> R {
    let sp = S::SP;
    let want = *cx.rng.pick(&[Want::Reference, Want::Iri, Want::Absolute, Want::Relative]);
    let s = gen::reference(&mut cx.rng, sp, want);
    let ops: Vec<Op> = (0..cx.rng.below(4)).map(|_| gen_op(&mut cx.rng, sp, true)).collect();
    cx.input(format!("{sp:?} {s:?} {ops:?}"));
    let m0 = MB::of(&s);
    if let Some(a) = &m0.auth {
        cx.hit("authority");
        if a.user != User::None { cx.hit("userinfo"); }
        if a.port != Port::None { cx.hit("port"); }
    }
    let mut m = m0.clone();
    for o in &ops {
        m.apply(o);
    }
    macro_rules! from {
        ($str:ident, $string:ident) => {{
            let x = $str::<S>::new(&s).map_err(|e| format!("{s:?}: {e}"))?;
            let o: $string<S> = x.to_owned();
            for b0 in [Builder::from(x), Builder::from(&o)] {
                let same = b0.clone().build::<$str<S>>().map_err(|e| format!("rebuilding {s:?}: {e}"))?;
                eq!(same.to_string(), s, "rebuilt unchanged");
                let mut b = b0.clone();
                for op in &ops {
                    apply(&mut b, op);
                }
                judge::<S>(cx, &b, &m, "modified")?;
                // The original builder is unaffected by changes to its clone.
                let same = b0.build::<RiReferenceStr<S>>().map_err(|e| format!("rebuilding {s:?}: {e}"))?;
                eq!(same.to_string(), s, "rebuilt after its clone was modified");
                cx.obs(2);
            }
        }};
    }
    from!(RiReferenceStr, RiReferenceString);
    match want {
        Want::Reference => {}
        Want::Iri => { cx.hit("from:iri"); from!(RiStr, RiString) }
        Want::Absolute => { cx.hit("from:absolute"); from!(RiAbsoluteStr, RiAbsoluteString) }
        Want::Relative => { cx.hit("from:relative"); from!(RiRelativeStr, RiRelativeString) }
    }
    // Removing everything that is there leaves the rest alone.
    let r = RiReferenceStr::<S>::new(&s).map_err(|e| e.to_string())?;
    let mut b = Builder::from(r);
    let mut n = m0.clone();
    for op in [Op::UnsetFragment, Op::UnsetQuery] {
        n.apply(&op);
        match op { Op::UnsetFragment => b.unset_fragment(), _ => b.unset_query() }
        let got = b.clone().build::<RiReferenceStr<S>>().map_err(|e| format!("{s:?} after {op:?}: {e}"))?;
        eq!(got.to_string(), n.plain(), "{s:?} after {op:?}");
        cx.obs(1);
    }
    if ops.is_empty() { cx.hit("identity"); } else { cx.hit("modified"); }
    cx.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- M05

/// Every diagnostic rendering of a value.
fn debugs<T: fmt::Debug + ?Sized>(v: &T) -> Vec<String> {
    let mut all = super::debug_flags(v);
    all.extend([format!("{v:?}"), format!("{v:#?}"), format!("{v:300?}"), format!("{v:.1?}")]);
    all
}

both_specs!(m05, m05_g);
/// Non-interference: what `Debug` shows does not depend on a non-empty password.
fn m05_g<S: Sx>(cx: &mut Cx<'_>, i: u64) -> R {
    let sp = S::SP;
    let mut pw = |r: &mut Rng| loop {
        let p = gen::userinfo(r, sp);
        if !p.is_empty() {
            break p;
        }
    };
    let (p, q) = (pw(&mut cx.rng), pw(&mut cx.rng));
    let user = gen::userinfo(&mut cx.rng, sp).replace(':', "");
    let style = cx.rng.below(4);
    let (dp, dq) = (format!("{user}:{p}"), format!("{user}:{q}"));
    let ops = gen_ops(&mut cx.rng, sp);
    let ops: Vec<Op> = ops.into_iter().filter(|o| !matches!(o, Op::Userinfo(..) | Op::UnsetUserinfo)).collect();
    let cut = cx.rng.below(ops.len() + 1);
    if cut < ops.len() { cx.hit("later-history"); }
    let norm = cx.rng.chance(1, 4);
    let host = gen::host(&mut cx.rng, sp);
    cx.input(format!("{sp:?} style {style} user {user:?} passwords {p:?} and {q:?} after {cut} of {ops:?}"));
    let tail = { let q = gen::query(&mut cx.rng, sp); format!("/{}", if i % 2 == 0 { String::new() } else { format!("?{q}") }) };
    let (rp, rq) = (format!("s://{dp}@{host}{tail}"), format!("s://{dq}@{host}{tail}"));
    let ui = |d: &'_ str, pass: &'_ str| -> Vec<String> {
        let u: UserinfoBuilder<'_> = match style {
            0 => d.into(),
            1 => (user.as_str(), pass).into(),
            _ => (user.as_str(), Some(pass)).into(),
        };
        debugs(&u)
    };
    eq!(ui(&dp, &p), ui(&dq, &q), "Debug of two userinfo builders that differ in the password");
    cx.hit(if style == 0 { "direct" } else { "pair" });
    let build = |text: &str, d: &str, pass: &str| -> Result<(Vec<Vec<String>>, bool), String> {
        let r = RiReferenceStr::<S>::new(text).map_err(|e| format!("valid {text:?} rejected: {e}"))?;
        let mut b = if style == 3 { Builder::from(r) } else { Builder::new() };
        let mut seen: Vec<Vec<String>> = vec![debugs(&b)];
        for o in &ops[..cut] { apply(&mut b, o); }
        match style {
            0 => b.userinfo(d),
            1 => b.userinfo((user.as_str(), pass)),
            2 => b.userinfo((user.as_str(), Some(pass))),
            _ => {}
        }
        seen.push(debugs(&b));
        for o in &ops[cut..] { apply(&mut b, o); }
        if norm { b.normalize(); }
        seen.push(debugs(&b));
        seen.push(debugs(&b.clone()));
        let mut built = false;
        if let Ok(x) = b.clone().build::<RiReferenceStr<S>>() { seen.push(debugs(&x)); built = true; }
        if let Ok(x) = b.clone().build::<RiStr<S>>() { seen.push(debugs(&x)); }
        if let Ok(x) = b.clone().build::<RiAbsoluteStr<S>>() { seen.push(debugs(&x)); }
        if let Ok(x) = b.build::<RiRelativeStr<S>>() { seen.push(debugs(&x)); }
        Ok((seen, built))
    };
    let (vp, bp) = build(&rp, &dp, &p)?;
    let (vq, bq) = build(&rq, &dq, &q)?;
    eq!(bp, bq, "buildability with two valid passwords");
    eq!(vp, vq, "Debug of two builders or built values that differ in the password");
    cx.obs(10 + 5 * vp.len() as u64);
    if bp { cx.hit("built"); }
    if style == 3 { cx.hit("from-reference"); }
    if norm { cx.hit("normalizing"); }
    // Masked views.
    let (x, y) = (RiStr::<S>::new(&rp).map_err(|e| e.to_string())?, RiStr::<S>::new(&rq).map_err(|e| e.to_string())?);
    eq!(debugs(&x.mask_password()), debugs(&y.mask_password()), "Debug of two masked values that differ in the password");
    eq!(x.mask_password().to_string(), y.mask_password().to_string(), "Display of two masked values that differ in the password");
    eq!(debugs(&x.mask_password().replace_password("*")), debugs(&y.mask_password().replace_password("*")), "Debug of two values with replaced password");
    let (x, y): (&RiReferenceStr<S>, &RiReferenceStr<S>) = (x.as_ref(), y.as_ref());
    eq!(debugs(&x.mask_password()), debugs(&y.mask_password()), "Debug of two masked references that differ in the password");
    cx.hit("masked");
    cx.obs(20);
    cx.nontrivial();
    Ok(())
}
