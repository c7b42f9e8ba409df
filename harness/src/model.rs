//! Reference models, written from the RFCs and independent of the library.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp {
    Uri,
    Iri,
}

// ---------------------------------------------------------------- characters

/// `ucschar` of RFC 3987.
pub fn ucschar(c: char) -> bool {
    let u = c as u32;
    matches!(u, 0xA0..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFEF)
        || ((0x1_0000..=0xD_FFFF).contains(&u) && (u & 0xFFFF) <= 0xFFFD)
        || (0xE_1000..=0xE_FFFD).contains(&u)
}

/// `iprivate` of RFC 3987.
pub fn iprivate(c: char) -> bool {
    matches!(c as u32, 0xE000..=0xF8FF | 0xF_0000..=0xF_FFFD | 0x10_0000..=0x10_FFFD)
}

pub fn unreserved(sp: Sp, c: char) -> bool {
    c.is_ascii_alphanumeric() || "-._~".contains(c) || (sp == Sp::Iri && ucschar(c))
}
pub fn sub_delim(c: char) -> bool {
    "!$&'()*+,;=".contains(c)
}
pub fn gen_delim(c: char) -> bool {
    ":/?#[]@".contains(c)
}
pub fn pchar(sp: Sp, c: char) -> bool {
    unreserved(sp, c) || sub_delim(c) || c == ':' || c == '@'
}

/// Every `%` starts a triplet and every other character satisfies `ok`.
pub fn pct_str(s: &str, ok: impl Fn(char) -> bool) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            if i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
                i += 3;
            } else {
                return false;
            }
        } else {
            let c = s[i..].chars().next().unwrap();
            if !ok(c) {
                return false;
            }
            i += c.len_utf8();
        }
    }
    true
}

// ---------------------------------------------------------------- components

pub fn v_scheme(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map_or(false, |c| c.is_ascii_alphabetic())
        && c.all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))
}
pub fn v_userinfo(sp: Sp, s: &str) -> bool {
    pct_str(s, |c| unreserved(sp, c) || sub_delim(c) || c == ':')
}
fn reg_name_chars(sp: Sp, s: &str) -> bool {
    pct_str(s, |c| unreserved(sp, c) || sub_delim(c))
}
pub fn is_ipv4(s: &str) -> bool {
    let v: Vec<&str> = s.split('.').collect();
    v.len() == 4
        && v.iter().all(|o| {
            !o.is_empty()
                && o.len() <= 3
                && o.bytes().all(|b| b.is_ascii_digit())
                && (o.len() == 1 || !o.starts_with('0'))
                && o.parse::<u32>().unwrap() <= 255
        })
}
pub fn is_ipv6(s: &str) -> bool {
    fn groups(s: &str, allow_v4: bool) -> Option<usize> {
        if s.is_empty() {
            return Some(0);
        }
        let v: Vec<&str> = s.split(':').collect();
        let mut n = 0;
        for (i, g) in v.iter().enumerate() {
            if (1..=4).contains(&g.len()) && g.bytes().all(|b| b.is_ascii_hexdigit()) {
                n += 1;
            } else if allow_v4 && i + 1 == v.len() && is_ipv4(g) {
                n += 2;
            } else {
                return None;
            }
        }
        Some(n)
    }
    match s.find("::") {
        None => groups(s, true) == Some(8),
        Some(i) => {
            let (l, r) = (&s[..i], &s[i + 2..]);
            match (groups(l, false), groups(r, true)) {
                (Some(a), Some(b)) => a + b <= 7,
                _ => false,
            }
        }
    }
}
pub fn is_ipvfuture(s: &str) -> bool {
    let Some(rest) = s.strip_prefix(['v', 'V']) else {
        return false;
    };
    let Some((ver, addr)) = rest.split_once('.') else {
        return false;
    };
    !ver.is_empty()
        && ver.bytes().all(|b| b.is_ascii_hexdigit())
        && !addr.is_empty()
        && addr
            .chars()
            .all(|c| unreserved(Sp::Uri, c) || sub_delim(c) || c == ':')
}
pub fn is_ip_literal(s: &str) -> bool {
    s.strip_prefix('[')
        .and_then(|s| s.strip_suffix(']'))
        .map_or(false, |s| is_ipv6(s) || is_ipvfuture(s))
}
pub fn v_host(sp: Sp, s: &str) -> bool {
    is_ip_literal(s) || reg_name_chars(sp, s)
}
/// A host which is a registered name and is not an IP address.
pub fn v_reg_name(sp: Sp, s: &str) -> bool {
    reg_name_chars(sp, s) && !is_ipv4(s)
}
pub fn v_port(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Auth<'a> {
    pub userinfo: Option<&'a str>,
    pub host: &'a str,
    pub port: Option<&'a str>,
}
/// Splits `[userinfo@]host[:port]`.
pub fn split_authority(a: &str) -> Auth<'_> {
    let (userinfo, hp) = match a.split_once('@') {
        Some((u, r)) => (Some(u), r),
        None => (None, a),
    };
    let host_len = if hp.starts_with('[') {
        hp.find(']').map_or(hp.len(), |i| i + 1)
    } else {
        hp.find(':').unwrap_or(hp.len())
    };
    let (host, rest) = hp.split_at(host_len);
    Auth {
        userinfo,
        host,
        port: rest.strip_prefix(':'),
    }
}
pub fn join_authority(userinfo: Option<&str>, host: &str, port: Option<&str>) -> String {
    let mut o = String::new();
    if let Some(u) = userinfo {
        o.push_str(u);
        o.push('@');
    }
    o.push_str(host);
    if let Some(p) = port {
        o.push(':');
        o.push_str(p);
    }
    o
}
pub fn v_authority(sp: Sp, a: &str) -> bool {
    let p = split_authority(a);
    p.userinfo.map_or(true, |u| v_userinfo(sp, u))
        && v_host(sp, p.host)
        && p.port.map_or(true, v_port)
        && join_authority(p.userinfo, p.host, p.port) == a
}
pub fn v_path(sp: Sp, s: &str) -> bool {
    pct_str(s, |c| pchar(sp, c) || c == '/')
}
pub fn v_path_segment(sp: Sp, s: &str) -> bool {
    pct_str(s, |c| pchar(sp, c))
}
pub fn v_query(sp: Sp, s: &str) -> bool {
    pct_str(s, |c| {
        pchar(sp, c) || c == '/' || c == '?' || (sp == Sp::Iri && iprivate(c))
    })
}
pub fn v_fragment(sp: Sp, s: &str) -> bool {
    pct_str(s, |c| pchar(sp, c) || c == '/' || c == '?')
}

// ---------------------------------------------------------------- references

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Parts<'a> {
    pub scheme: Option<&'a str>,
    pub authority: Option<&'a str>,
    pub path: &'a str,
    pub query: Option<&'a str>,
    pub fragment: Option<&'a str>,
}

/// The regular expression of RFC 3986 Appendix B.
pub fn split(s: &str) -> Parts<'_> {
    let (s, fragment) = match s.split_once('#') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let (s, query) = match s.split_once('?') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let (scheme, s) = match s.find([':', '/']) {
        Some(i) if i > 0 && s.as_bytes()[i] == b':' => (Some(&s[..i]), &s[i + 1..]),
        _ => (None, s),
    };
    let (authority, path) = match s.strip_prefix("//") {
        Some(r) => {
            let i = r.find('/').unwrap_or(r.len());
            (Some(&r[..i]), &r[i..])
        }
        None => (None, s),
    };
    Parts {
        scheme,
        authority,
        path,
        query,
        fragment,
    }
}

pub fn join(p: &Parts<'_>) -> String {
    let mut o = String::new();
    if let Some(s) = p.scheme {
        o.push_str(s);
        o.push(':');
    }
    if let Some(a) = p.authority {
        o.push_str("//");
        o.push_str(a);
    }
    o.push_str(p.path);
    if let Some(q) = p.query {
        o.push('?');
        o.push_str(q);
    }
    if let Some(f) = p.fragment {
        o.push('#');
        o.push_str(f);
    }
    o
}

pub fn v_reference(sp: Sp, s: &str) -> bool {
    let p = split(s);
    p.scheme.map_or(true, v_scheme)
        && p.authority.map_or(true, |a| v_authority(sp, a))
        && v_path(sp, p.path)
        && (p.scheme.is_some()
            || p.authority.is_some()
            || !p.path.split('/').next().unwrap().contains(':'))
        && p.query.map_or(true, |q| v_query(sp, q))
        && p.fragment.map_or(true, |f| v_fragment(sp, f))
}
pub fn v_iri(sp: Sp, s: &str) -> bool {
    v_reference(sp, s) && split(s).scheme.is_some()
}
pub fn v_absolute(sp: Sp, s: &str) -> bool {
    v_iri(sp, s) && split(s).fragment.is_none()
}
pub fn v_relative(sp: Sp, s: &str) -> bool {
    v_reference(sp, s) && split(s).scheme.is_none()
}

// ---------------------------------------------------------------- dot removal

fn dots(seg: &str) -> usize {
    // Number of dots of a dot segment, 0 for other segments.
    let t = seg.replace("%2e", ".").replace("%2E", ".");
    match t.as_str() {
        "." => 1,
        ".." => 2,
        _ => 0,
    }
}
pub fn has_dot_segment(path: &str) -> bool {
    path.split('/').any(|s| dots(s) > 0)
}

/// `remove_dot_segments` of RFC 3986 section 5.2.4 (steps 2A to 2E), with the
/// percent-encoded dots recognized as the WHATWG URL Standard does.
pub fn remove_dot_segments(input: &str) -> String {
    let mut inp = input;
    let mut out = String::new();
    while !inp.is_empty() {
        let body = usize::from(inp.starts_with('/'));
        let end = inp[body..].find('/').map_or(inp.len(), |i| i + body);
        let n = dots(&inp[body..end]);
        if n > 0 {
            if body == 0 {
                // 2A, 2D
                inp = if end < inp.len() { &inp[end + 1..] } else { "" };
                continue;
            }
            // 2B, 2C
            if n == 2 {
                let cut = out.rfind('/').unwrap_or(0);
                out.truncate(cut);
            }
            inp = if end < inp.len() { &inp[end..] } else { "/" };
        } else {
            // 2E
            out.push_str(&inp[..end]);
            inp = &inp[end..];
        }
    }
    out
}

// ---------------------------------------------------------------- resolution

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Target {
    pub scheme: String,
    pub authority: Option<String>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
}

impl Target {
    /// True if the components cannot be serialized without the WHATWG `/.` trick.
    pub fn needs_whatwg(&self) -> bool {
        self.authority.is_none() && self.path.starts_with("//")
    }
    pub fn serialize(&self) -> String {
        let path = if self.needs_whatwg() {
            format!("/.{}", self.path)
        } else {
            self.path.clone()
        };
        join(&Parts {
            scheme: Some(&self.scheme),
            authority: self.authority.as_deref(),
            path: &path,
            query: self.query.as_deref(),
            fragment: self.fragment.as_deref(),
        })
    }
}

fn own(s: Option<&str>) -> Option<String> {
    s.map(str::to_owned)
}

/// RFC 3986 section 5.2.2 (strict).
/// The path before dot segments are removed.
pub fn merged_path(base: &str, reference: &str) -> String {
    let b = split(base);
    let r = split(reference);
    if r.scheme.is_some() || r.authority.is_some() || r.path.starts_with('/') {
        return r.path.to_owned();
    }
    if r.path.is_empty() {
        return b.path.to_owned();
    }
    if b.authority.is_some() && b.path.is_empty() {
        return format!("/{}", r.path);
    }
    let cut = b.path.rfind('/').map_or(0, |i| i + 1);
    format!("{}{}", &b.path[..cut], r.path)
}
pub fn resolve(base: &str, reference: &str) -> Target {
    let b = split(base);
    let r = split(reference);
    let scheme;
    let authority;
    let path;
    let query;
    if let Some(s) = r.scheme {
        scheme = s;
        authority = r.authority;
        path = remove_dot_segments(r.path);
        query = r.query;
    } else {
        scheme = b.scheme.unwrap();
        if r.authority.is_some() {
            authority = r.authority;
            path = remove_dot_segments(r.path);
            query = r.query;
        } else {
            authority = b.authority;
            if r.path.is_empty() {
                path = b.path.to_owned();
                query = if r.query.is_some() { r.query } else { b.query };
            } else {
                query = r.query;
                path = if r.path.starts_with('/') {
                    remove_dot_segments(r.path)
                } else {
                    let merged = if b.authority.is_some() && b.path.is_empty() {
                        format!("/{}", r.path)
                    } else {
                        match b.path.rfind('/') {
                            Some(i) => format!("{}{}", &b.path[..=i], r.path),
                            None => r.path.to_owned(),
                        }
                    };
                    remove_dot_segments(&merged)
                };
            }
        }
    }
    Target {
        scheme: scheme.to_owned(),
        authority: own(authority),
        path,
        query: own(query),
        fragment: own(r.fragment),
    }
}

// ---------------------------------------------------------------- normalization

fn hexval(b: u8) -> u8 {
    (b as char).to_digit(16).unwrap() as u8
}

/// The triplet at the start of `b`, if any.
fn triplet(b: &[u8]) -> Option<u8> {
    if b.len() >= 3 && b[0] == b'%' && b[1].is_ascii_hexdigit() && b[2].is_ascii_hexdigit() {
        Some(hexval(b[1]) << 4 | hexval(b[2]))
    } else {
        None
    }
}

/// Decodes one UTF-8 character from consecutive triplets.
pub fn triplets_char(b: &[u8]) -> Option<(char, usize)> {
    let first = triplet(b)?;
    let need = match first {
        0..=0x7f => 1,
        0xc2..=0xdf => 2,
        0xe0..=0xef => 3,
        0xf0..=0xf4 => 4,
        _ => return None,
    };
    let mut buf = [0u8; 4];
    for (i, slot) in buf.iter_mut().enumerate().take(need) {
        *slot = triplet(b.get(i * 3..)?)?;
    }
    let c = std::str::from_utf8(&buf[..need]).ok()?.chars().next()?;
    Some((c, need * 3))
}

/// Percent-encoding normalization: upper-case hexadecimal digits, unreserved
/// characters decoded.
pub fn pct_normalize(sp: Sp, s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if triplet(&b[i..]).is_some() {
            match triplets_char(&b[i..]) {
                Some((c, n)) if unreserved(sp, c) => {
                    o.push(c);
                    i += n;
                }
                Some((_, n)) => {
                    o.push_str(&s[i..i + n].to_ascii_uppercase());
                    i += n;
                }
                None => {
                    o.push_str(&s[i..i + 3].to_ascii_uppercase());
                    i += 3;
                }
            }
        } else {
            let c = s[i..].chars().next().unwrap();
            o.push(c);
            i += c.len_utf8();
        }
    }
    o
}

/// Host case normalization: only hosts which are US-ASCII (after decoding) are lower-cased.
pub fn normalize_host(sp: Sp, host: &str) -> String {
    let b = host.as_bytes();
    let mut ascii = true;
    let mut i = 0;
    while i < b.len() {
        if let Some(v) = triplet(&b[i..]) {
            ascii &= v < 0x80;
            i += 3;
        } else {
            ascii &= b[i] < 0x80;
            i += 1;
        }
    }
    let n = pct_normalize(sp, host);
    if !ascii {
        return n;
    }
    // Lower-case everything but the triplets.
    let b = n.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if triplet(&b[i..]).is_some() {
            o.push_str(&n[i..i + 3]);
            i += 3;
        } else {
            o.push(b[i].to_ascii_lowercase() as char);
            i += 1;
        }
    }
    o
}

pub fn normalize_authority(sp: Sp, a: &str) -> String {
    let p = split_authority(a);
    let u = p.userinfo.map(|u| pct_normalize(sp, u));
    join_authority(
        u.as_deref(),
        &normalize_host(sp, p.host),
        p.port.filter(|p| !p.is_empty()),
    )
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Default,
    /// Rootless paths without an authority are kept (modulo case/pct).
    PreserveRootless,
}

pub fn normalize_target(sp: Sp, t: &Target, mode: Mode) -> Target {
    let opaque =
        mode == Mode::PreserveRootless && t.authority.is_none() && !t.path.starts_with('/');
    let path = if opaque {
        pct_normalize(sp, &t.path)
    } else {
        pct_normalize(sp, &remove_dot_segments(&t.path))
    };
    Target {
        scheme: t.scheme.to_ascii_lowercase(),
        authority: t.authority.as_deref().map(|a| normalize_authority(sp, a)),
        path,
        query: t.query.as_deref().map(|q| pct_normalize(sp, q)),
        fragment: t.fragment.as_deref().map(|q| pct_normalize(sp, q)),
    }
}

pub fn target_of(s: &str) -> Target {
    let p = split(s);
    Target {
        scheme: p.scheme.unwrap().to_owned(),
        authority: own(p.authority),
        path: p.path.to_owned(),
        query: own(p.query),
        fragment: own(p.fragment),
    }
}

pub fn normalize(sp: Sp, iri: &str, mode: Mode) -> Target {
    normalize_target(sp, &target_of(iri), mode)
}

// ---------------------------------------------------------------- conversions

/// RFC 3987 section 3.1.
pub fn iri_to_uri(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii() {
            o.push(c);
        } else {
            push_pct(&mut o, c);
        }
    }
    o
}
pub fn push_pct(o: &mut String, c: char) {
    let mut b = [0u8; 4];
    for x in c.encode_utf8(&mut b).bytes() {
        o.push('%');
        o.push(char::from_digit(u32::from(x >> 4), 16).unwrap().to_ascii_uppercase());
        o.push(char::from_digit(u32::from(x & 15), 16).unwrap().to_ascii_uppercase());
    }
}
pub fn pct_encode(s: &str, keep: impl Fn(char) -> bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if keep(c) {
            o.push(c);
        } else {
            push_pct(&mut o, c);
        }
    }
    o
}

/// `percent-decode` of the WHATWG URL Standard.
pub fn whatwg_decode(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match triplet(&b[i..]) {
            Some(v) => {
                o.push(v);
                i += 3;
            }
            None => {
                o.push(b[i]);
                i += 1;
            }
        }
    }
    o
}

// ---------------------------------------------------------------- templates

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mod {
    None,
    Prefix(usize),
    Explode,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct VarSpec {
    pub name: String,
    pub modifier: Mod,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tok {
    Lit(String),
    Expr(Option<char>, Vec<VarSpec>),
}

pub fn v_varname(s: &str) -> bool {
    // varname = varchar *( ["."] varchar ); varchar = ALPHA / DIGIT / "_" / pct-encoded
    let b = s.as_bytes();
    let mut i = 0;
    let mut can_dot = false;
    let mut last_dot = true;
    while i < b.len() {
        if b[i] == b'.' {
            if !can_dot {
                return false;
            }
            can_dot = false;
            last_dot = true;
            i += 1;
            continue;
        }
        if triplet(&b[i..]).is_some() {
            i += 3;
        } else if b[i].is_ascii_alphanumeric() || b[i] == b'_' {
            i += 1;
        } else {
            return false;
        }
        can_dot = true;
        last_dot = false;
    }
    !last_dot
}

pub fn is_literal_char(c: char) -> bool {
    // RFC 6570 section 2.1 with erratum 6937 (the apostrophe is allowed).
    match c as u32 {
        0x21 | 0x23 | 0x24 | 0x26 | 0x27 | 0x28..=0x3B | 0x3D | 0x3F..=0x5B | 0x5D | 0x5F
        | 0x61..=0x7A | 0x7E => true,
        _ => ucschar(c) || iprivate(c),
    }
}

/// Parses an RFC 6570 template; `None` if it is ill-formed.
pub fn parse_template(s: &str) -> Option<Vec<Tok>> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut lit = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'{' {
            let end = s[i..].find('}')? + i;
            let body = &s[i + 1..end];
            let (op, list) = match body.chars().next()? {
                c @ ('+' | '#' | '.' | '/' | ';' | '?' | '&') => (Some(c), &body[1..]),
                '=' | ',' | '!' | '@' | '|' => return None,
                _ => (None, body),
            };
            let mut specs = Vec::new();
            for v in list.split(',') {
                let (name, modifier) = if let Some(n) = v.strip_suffix('*') {
                    (n, Mod::Explode)
                } else if let Some((n, l)) = v.split_once(':') {
                    if l.is_empty()
                        || l.len() > 4
                        || l.starts_with('0')
                        || !l.bytes().all(|b| b.is_ascii_digit())
                    {
                        return None;
                    }
                    (n, Mod::Prefix(l.parse().unwrap()))
                } else {
                    (v, Mod::None)
                };
                if !v_varname(name) {
                    return None;
                }
                specs.push(VarSpec {
                    name: name.to_owned(),
                    modifier,
                });
            }
            if !lit.is_empty() {
                out.push(Tok::Lit(std::mem::take(&mut lit)));
            }
            out.push(Tok::Expr(op, specs));
            i = end + 1;
        } else if triplet(&b[i..]).is_some() {
            lit.push_str(&s[i..i + 3]);
            i += 3;
        } else {
            let c = s[i..].chars().next().unwrap();
            if !is_literal_char(c) {
                return None;
            }
            lit.push(c);
            i += c.len_utf8();
        }
    }
    if !lit.is_empty() {
        out.push(Tok::Lit(lit));
    }
    Some(out)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    Undef,
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}
impl Val {
    pub fn undefined(&self) -> bool {
        match self {
            Val::Undef => true,
            Val::Str(_) => false,
            Val::List(v) => v.is_empty(),
            Val::Assoc(v) => v.is_empty(),
        }
    }
}

/// One displayed unit per "character" for the purpose of the prefix modifier.
fn units(sp: Sp, v: &str, reserved: bool) -> Vec<String> {
    let b = v.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if reserved && triplet(&b[i..]).is_some() {
            // Existing triplets pass through; a character counts once.
            let n = triplets_char(&b[i..]).map_or(3, |(_, n)| n);
            o.push(v[i..i + n].to_owned());
            i += n;
            continue;
        }
        let c = v[i..].chars().next().unwrap();
        let keep = unreserved(sp, c)
            || (reserved
                && (sub_delim(c) || gen_delim(c) || (sp == Sp::Iri && iprivate(c))));
        let mut u = String::new();
        if keep {
            u.push(c);
        } else {
            push_pct(&mut u, c);
        }
        o.push(u);
        i += c.len_utf8();
    }
    o
}
pub fn encode_value(sp: Sp, v: &str, reserved: bool, max: Option<usize>) -> String {
    let u = units(sp, v, reserved);
    let n = max.unwrap_or(u.len()).min(u.len());
    u[..n].concat()
}

/// RFC 6570 section 3.2.1. `Err` if a prefix modifier meets a composite value.
///
/// `bare_empty_list`: how a named, unexploded composite whose joined value is
/// empty is written (the RFC is ambiguous for `;`): true for `ifemp`.
pub fn expand(
    sp: Sp,
    toks: &[Tok],
    get: &dyn Fn(&str) -> Val,
    bare_empty_list: bool,
) -> Result<String, ()> {
    let mut o = String::new();
    for t in toks {
        let (op, specs) = match t {
            Tok::Lit(l) => {
                // Section 3.1: like a reserved expansion.
                o.push_str(&encode_value(sp, l, true, None));
                continue;
            }
            Tok::Expr(op, s) => (op, s),
        };
        let (first, sep, named, ifemp, reserved) = match op {
            None => ("", ",", false, "", false),
            Some('+') => ("", ",", false, "", true),
            Some('#') => ("#", ",", false, "", true),
            Some('.') => (".", ".", false, "", false),
            Some('/') => ("/", "/", false, "", false),
            Some(';') => (";", ";", true, "", false),
            Some('?') => ("?", "&", true, "=", false),
            Some('&') => ("&", "&", true, "=", false),
            Some(_) => unreachable!(),
        };
        let enc = |v: &str| encode_value(sp, v, reserved, None);
        let mut any = false;
        for vs in specs {
            let v = get(&vs.name);
            if v.undefined() {
                continue;
            }
            let named_value = |val: String| {
                if val.is_empty() {
                    ifemp.to_owned()
                } else {
                    format!("={val}")
                }
            };
            let text = match (&v, vs.modifier) {
                (Val::Undef, _) => unreachable!(),
                (Val::Str(s), m) => {
                    let max = match m {
                        Mod::Prefix(n) => Some(n),
                        _ => None,
                    };
                    let e = encode_value(sp, s, reserved, max);
                    if named {
                        format!("{}{}", vs.name, named_value(e))
                    } else {
                        e
                    }
                }
                (_, Mod::Prefix(_)) => return Err(()),
                (Val::List(l), Mod::None) => {
                    let e = l.iter().map(|x| enc(x)).collect::<Vec<_>>().join(",");
                    if !named {
                        e
                    } else if e.is_empty() && !bare_empty_list {
                        format!("{}=", vs.name)
                    } else {
                        format!("{}{}", vs.name, named_value(e))
                    }
                }
                (Val::Assoc(l), Mod::None) => {
                    let e = l
                        .iter()
                        .map(|(k, x)| format!("{},{}", enc(k), enc(x)))
                        .collect::<Vec<_>>()
                        .join(",");
                    if named {
                        format!("{}{}", vs.name, named_value(e))
                    } else {
                        e
                    }
                }
                (Val::List(l), Mod::Explode) => l
                    .iter()
                    .map(|x| {
                        if named {
                            format!("{}{}", vs.name, named_value(enc(x)))
                        } else {
                            enc(x)
                        }
                    })
                    .collect::<Vec<_>>()
                    .join(sep),
                (Val::Assoc(l), Mod::Explode) => l
                    .iter()
                    .map(|(k, x)| {
                        if named {
                            format!("{}{}", enc(k), named_value(enc(x)))
                        } else {
                            format!("{}={}", enc(k), enc(x))
                        }
                    })
                    .collect::<Vec<_>>()
                    .join(sep),
            };
            o.push_str(if any { sep } else { first });
            any = true;
            o.push_str(&text);
        }
    }
    Ok(o)
}

// ---------------------------------------------------------------- self test

/// The models reproduce the examples of the RFCs.
pub fn selftest() {
    let base = "http://a/b/c/d;p?q";
    for (r, want) in [
        ("g:h", "g:h"), ("g", "http://a/b/c/g"), ("./g", "http://a/b/c/g"), ("g/", "http://a/b/c/g/"),
        ("/g", "http://a/g"), ("//g", "http://g"), ("?y", "http://a/b/c/d;p?y"), ("g?y", "http://a/b/c/g?y"),
        ("#s", "http://a/b/c/d;p?q#s"), ("g#s", "http://a/b/c/g#s"), ("g?y#s", "http://a/b/c/g?y#s"),
        (";x", "http://a/b/c/;x"), ("g;x", "http://a/b/c/g;x"), ("g;x?y#s", "http://a/b/c/g;x?y#s"),
        ("", "http://a/b/c/d;p?q"), (".", "http://a/b/c/"), ("./", "http://a/b/c/"), ("..", "http://a/b/"),
        ("../", "http://a/b/"), ("../g", "http://a/b/g"), ("../..", "http://a/"), ("../../", "http://a/"),
        ("../../g", "http://a/g"), ("../../../g", "http://a/g"), ("../../../../g", "http://a/g"),
        ("/./g", "http://a/g"), ("/../g", "http://a/g"), ("g.", "http://a/b/c/g."), (".g", "http://a/b/c/.g"),
        ("g..", "http://a/b/c/g.."), ("..g", "http://a/b/c/..g"), ("./../g", "http://a/b/g"),
        ("./g/.", "http://a/b/c/g/"), ("g/./h", "http://a/b/c/g/h"), ("g/../h", "http://a/b/c/h"),
        ("g;x=1/./y", "http://a/b/c/g;x=1/y"), ("g;x=1/../y", "http://a/b/c/y"), ("http:g", "http:g"),
    ] {
        assert_eq!(resolve(base, r).serialize(), want, "{r}");
    }
    assert_eq!(remove_dot_segments("/a/b/c/./../../g"), "/a/g");
    assert_eq!(remove_dot_segments("mid/content=5/../6"), "mid/6");
    assert_eq!(
        normalize(Sp::Uri, "eXAMPLE://a/./b/../b/%63/%7bfoo%7d", Mode::Default).serialize(),
        "example://a/b/c/%7Bfoo%7D"
    );
    for s in ["::", "1::", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "::1.2.3.4", "::ffff:1.2.3.4"] {
        assert!(is_ipv6(s), "{s}");
    }
    for s in ["", ":", ":::", "1", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1::2::3", "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8", "1:", ":1", "12345::", "1.2.3.4::", "1:2:3:4:5:6:7:1.2.3.4"] {
        assert!(!is_ipv6(s), "{s}");
    }
    let get = |n: &str| -> Val {
        let l = |v: &[&str]| Val::List(v.iter().map(|s| (*s).to_string()).collect());
        match n {
            "count" => l(&["one", "two", "three"]),
            "dom" => l(&["example", "com"]),
            "dub" => Val::Str("me/too".into()),
            "hello" => Val::Str("Hello World!".into()),
            "half" => Val::Str("50%".into()),
            "var" => Val::Str("value".into()),
            "who" => Val::Str("fred".into()),
            "base" => Val::Str("http://example.com/home/".into()),
            "path" => Val::Str("/foo/bar".into()),
            "list" => l(&["red", "green", "blue"]),
            "keys" => Val::Assoc([("semi", ";"), ("dot", "."), ("comma", ",")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()),
            "v" => Val::Str("6".into()),
            "x" => Val::Str("1024".into()),
            "y" => Val::Str("768".into()),
            "empty" => Val::Str(String::new()),
            "empty_keys" => Val::Assoc(vec![]),
            _ => Val::Undef,
        }
    };
    for (t, want) in [
        ("{count}", "one,two,three"), ("{count*}", "one,two,three"), ("{/count}", "/one,two,three"),
        ("{/count*}", "/one/two/three"), ("{;count}", ";count=one,two,three"),
        ("{;count*}", ";count=one;count=two;count=three"), ("{?count}", "?count=one,two,three"),
        ("{?count*}", "?count=one&count=two&count=three"), ("{&count*}", "&count=one&count=two&count=three"),
        ("{var}", "value"), ("{hello}", "Hello%20World%21"), ("{half}", "50%25"), ("O{empty}X", "OX"), ("O{undef}X", "OX"),
        ("{x,y}", "1024,768"), ("{x,hello,y}", "1024,Hello%20World%21,768"), ("?{x,empty}", "?1024,"),
        ("?{x,undef}", "?1024"), ("?{undef,y}", "?768"), ("{var:3}", "val"), ("{var:30}", "value"),
        ("{list}", "red,green,blue"), ("{keys}", "semi,%3B,dot,.,comma,%2C"), ("{keys*}", "semi=%3B,dot=.,comma=%2C"),
        ("{+hello}", "Hello%20World!"), ("{+half}", "50%25"), ("{base}index", "http%3A%2F%2Fexample.com%2Fhome%2Findex"),
        ("{+base}index", "http://example.com/home/index"), ("{+path:6}here", "/foo/bhere"), ("{+keys}", "semi,;,dot,.,comma,,"),
        ("{+keys*}", "semi=;,dot=.,comma=,"), ("{#x,hello,y}", "#1024,Hello%20World!,768"), ("{#path,x}/here", "#/foo/bar,1024/here"),
        ("foo{#empty}", "foo#"), ("foo{#undef}", "foo"), ("X{.var}", "X.value"), ("X{.empty}", "X."), ("X{.list*}", "X.red.green.blue"),
        ("X{.keys*}", "X.semi=%3B.dot=..comma=%2C"), ("X{.empty_keys}", "X"), ("{/var,empty}", "/value/"), ("{/var,x}/here", "/value/1024/here"),
        ("{/var:1,var}", "/v/value"), ("{/list*,path:4}", "/red/green/blue/%2Ffoo"), ("{/keys*}", "/semi=%3B/dot=./comma=%2C"),
        ("{;x,y,empty}", ";x=1024;y=768;empty"), ("{;v,empty,who}", ";v=6;empty;who=fred"), ("{;hello:5}", ";hello=Hello"),
        ("{;keys}", ";keys=semi,%3B,dot,.,comma,%2C"), ("{;keys*}", ";semi=%3B;dot=.;comma=%2C"), ("{?x,y,empty}", "?x=1024&y=768&empty="),
        ("{?var:3}", "?var=val"), ("{?keys*}", "?semi=%3B&dot=.&comma=%2C"), ("{&x,y,empty}", "&x=1024&y=768&empty="), ("{&var:3}", "&var=val"),
    ] {
        let toks = parse_template(t).expect(t);
        assert_eq!(expand(Sp::Uri, &toks, &get, false).as_deref(), Ok(want), "{t}");
    }
}
