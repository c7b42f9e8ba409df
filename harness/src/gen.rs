//! Workload generators: grammar-valid strings with hostile palettes, mutations,
//! small-alphabet soup and exhaustive enumeration of short strings.

use crate::dict;
use crate::engine::Rng;
use crate::model::{self, Sp};

// ---------------------------------------------------------------- characters

/// Non-ASCII characters around every boundary of `ucschar` and `iprivate`.
pub const EDGE: &[char] = &[
    '\u{80}', '\u{9f}', '\u{a0}', '\u{a1}', '\u{e9}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{3042}',
    '\u{3044}', '\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{f8fe}', '\u{f8ff}', '\u{f900}', '\u{fdce}',
    '\u{fdcf}', '\u{fdd0}', '\u{fdef}', '\u{fdf0}', '\u{fdf1}', '\u{ffee}', '\u{ffef}', '\u{fff0}', '\u{fffd}',
    '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10001}', '\u{1f600}', '\u{1fffd}', '\u{1fffe}', '\u{1ffff}',
    '\u{20000}', '\u{2fffd}', '\u{2fffe}', '\u{30000}', '\u{3fffd}', '\u{3ffff}', '\u{40000}', '\u{7fffd}',
    '\u{7fffe}', '\u{80000}', '\u{cfffd}', '\u{d0000}', '\u{dfffd}', '\u{dfffe}', '\u{e0000}', '\u{e0001}',
    '\u{e0fff}', '\u{e1000}', '\u{e1001}', '\u{efffd}', '\u{efffe}', '\u{f0000}', '\u{f0001}', '\u{ffffd}',
    '\u{ffffe}', '\u{100000}', '\u{100001}', '\u{10fffd}', '\u{10fffe}', '\u{10ffff}', '\u{200e}', '\u{2028}',
];

/// Any character next to a boundary of the `ucschar`/`iprivate` ranges, of any plane.
pub fn edge(r: &mut Rng) -> char {
    if r.chance(1, 2) {
        return *r.pick(EDGE);
    }
    let plane = r.below(17) as u32 * 0x1_0000;
    let low = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 0xffff,
        3 | 4 => 0xfffe,
        5 | 6 => 0xfffd,
        7 => 0xfffc,
        8 => 0x1000 - r.below(2) as u32,
        _ => r.below(0x1_0000) as u32,
    };
    char::from_u32(plane + low).unwrap_or('\u{d7ff}')
}

/// True rarely: the caller makes something unusually large.
fn big(r: &mut Rng, den: usize) -> bool {
    // Interpreters get small inputs only.
    !cfg!(miri) && r.chance(1, den)
}

/// A length around the limits of counters, buffers and vector registers.
fn big_len(r: &mut Rng) -> usize {
    if r.chance(1, 80) {
        // Positions and lengths that do not fit into 16 bits.
        return *r.pick(&[65_532, 65_536, 65_540, 70_000, 131_072]) + r.below(8);
    }
    let k = *r.pick(&[16, 32, 48, 64, 64, 128, 128, 255, 256, 256, 300, 512, 1024, 4096]);
    k - 3 + r.below(7)
}

/// ASCII characters that no component (or few components) accept.
const BAD_ASCII: &[char] = &[
    '\0', '\t', '\n', '\u{1f}', ' ', '"', '<', '>', '\\', '^', '`', '{', '|', '}', '\u{7f}', '[', ']', '%', '#', '/', '?', ':', '@',
];

pub fn any_char(r: &mut Rng) -> char {
    if let Some(c) = dict::character(r) {
        return c;
    }
    match r.below(10) {
        0..=2 => (b'!' + r.below(94) as u8) as char,
        3 => *r.pick(BAD_ASCII),
        4 | 5 => edge(r),
        6 => (b'a' + r.below(26) as u8) as char,
        7 => (r.below(0x80) as u8) as char,
        8 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) {
                break c;
            }
        },
    }
}

const PCT: &[&str] = &[
    "%20", "%2E", "%2e", "%2F", "%2f", "%3A", "%3a", "%40", "%25", "%00", "%7F", "%7f", "%7E", "%7e", "%41", "%5A", "%5a",
    "%61", "%7a", "%30", "%2D", "%2d", "%5F", "%5f", "%60", "%5B", "%7B", "%21", "%23", "%3F", "%3f", "%2B", "%3D", "%26",
    "%E3%81%82", "%e3%81%82", "%E3%81", "%E3%81%C2", "%E3", "%E3%41%82", "%F0%9F%98%80", "%f0%9f%98%80", "%F0%9F", "%F0%9F%98",
    "%EE%80%80", "%F3%B0%80%80", "%F4%8F%BF%BD", "%F4%90%80%80", "%C0%80", "%C1%BF", "%C2%A0", "%C2%9F", "%C3%A9",
    "%ED%A0%80", "%ED%9F%BF", "%EF%B7%90", "%EF%B7%8F", "%EF%BF%BE", "%EF%BF%BD", "%EF%BF%AF", "%E0%80%80", "%F0%80%80%80",
    "%FF", "%ff", "%80", "%bf", "%F5%80%80%80", "%F0%90%80%80", "%f0%90%80%80", "%F3%A0%80%80", "%F3%A1%80%80", "%EF%A4%80", "%EE%80%80",
    "%F8%88%80%80%80", "%e3%81%82%e3%81%84", "%C3%A9%c3%a9%C3", "%252e", "%252E", "%EF%BF%B0",
];

pub fn pct(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        // An over-long encoding of an ASCII character.
        let c = if r.chance(3, 4) { r.pstr(&["a", "A", "z", "0", "-", ".", "_", "~", "/", ":"]).as_bytes()[0] } else { r.below(128) as u8 };
        let (hi, lo) = (0x80 | c >> 6, 0x80 | c & 0x3f);
        let v = match r.below(3) {
            0 => vec![0xc0 | c >> 6, lo],
            1 => vec![0xe0, hi, lo],
            _ => vec![0xf0, 0x80, hi, lo],
        };
        let up = r.chance(1, 2);
        v.into_iter().map(|b| if up { format!("%{b:02X}") } else { format!("%{b:02x}") }).collect()
    } else if r.chance(2, 3) {
        r.pstr(PCT).to_owned()
    } else if r.chance(1, 2) {
        // A character encoded with random case of the digits.
        let c = any_char(r);
        let mut o = String::new();
        model::push_pct(&mut o, c);
        if r.chance(1, 3) {
            o.truncate(o.len() - 3 * r.below(c.len_utf8()));
        }
        o.chars()
            .map(|c| if r.chance(1, 2) { c.to_ascii_lowercase() } else { c })
            .collect()
    } else {
        let up = r.chance(1, 2);
        let v = r.below(256);
        if up { format!("%{v:02X}") } else { format!("%{v:02x}") }
    }
}

/// A broken percent sequence.
pub fn bad_pct(r: &mut Rng) -> &'static str {
    r.pstr(&["%", "%%", "%4", "%g1", "%1g", "%zz", "%2", "%é", "%4é", "%あ", "%%41", "%4%41", "%-1", "%+1", "% 1", "%1 ", "%\u{ff11}1"])
}

fn token(r: &mut Rng, sp: Sp, ok: &dyn Fn(char) -> bool, allow_pct: bool) -> String {
    if let Some(s) = dict::string(r) {
        if model::pct_str(s, ok) && (allow_pct || !s.contains('%')) {
            return s.to_owned();
        }
    }
    if let Some(c) = dict::character(r).filter(|c| ok(*c)) {
        return c.to_string();
    }
    if let Some(n) = dict::length(r) {
        let c = *r.pick(&['a', 'Z', '1', '-']);
        if ok(c) {
            return c.to_string().repeat(n);
        }
    }
    loop {
        match r.below(if allow_pct { 13 } else { 9 }) {
            0..=2 => {
                let c = *r.pick(&['a', 'b', 'z', 'A', 'Z', '0', '9', '-', '.', '_', '~', 'f', 'F', '1']);
                if ok(c) {
                    return c.to_string();
                }
            }
            3 | 4 => {
                let c = *r.pick(&['!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '=', ':', '@', '/', '?']);
                if ok(c) {
                    return c.to_string();
                }
            }
            5 | 6 if sp == Sp::Iri => {
                let c = edge(r);
                if ok(c) {
                    return c.to_string();
                }
            }
            7 if sp == Sp::Iri => {
                // Runs longer than the library's internal buffers.
                if r.chance(1, 6) {
                    let c = *r.pick(&['\u{3042}', '\u{e9}', '\u{1f600}']);
                    return c.to_string().repeat(r.range(5, 40));
                }
            }
            8 => {
                if r.chance(1, 8) {
                    let c = *r.pick(&['a', '-', 'Z']);
                    if ok(c) {
                        return c.to_string().repeat(r.range(8, 80));
                    }
                }
            }
            9..=12 => return pct(r),
            _ => {}
        }
    }
}

/// A string of characters accepted by `ok` and percent-encoded triplets.
pub fn component(r: &mut Rng, sp: Sp, max: usize, ok: &dyn Fn(char) -> bool) -> String {
    if let Some(s) = r.echo().filter(|s| model::pct_str(s, ok)) {
        return s;
    }
    let o = component_new(r, sp, max, ok);
    r.remember(&o);
    o
}
fn component_new(r: &mut Rng, sp: Sp, max: usize, ok: &dyn Fn(char) -> bool) -> String {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => r.range(1, 3),
        _ => r.range(1, max),
    };
    let n = dict::length(r).filter(|n| *n < 100).unwrap_or(n);
    let p = r.chance(3, 4);
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(&token(r, sp, ok, p));
    }
    if big(r, 150) {
        let len = big_len(r);
        let one = token(r, sp, ok, p);
        if r.chance(1, 2) {
            // One token, repeated.
            while o.len() < len {
                o.push_str(&one);
            }
        } else {
            let v: Vec<String> = (0..r.range(2, 6)).map(|_| token(r, sp, ok, p)).collect();
            while o.len() < len {
                let k = r.below(v.len());
                o.push_str(&v[k]);
            }
        }
        if r.chance(1, 2) {
            o.push_str(&token(r, sp, ok, p));
        }
    }
    o
}

pub fn scheme(r: &mut Rng) -> String {
    if let Some(s) = r.echo().filter(|s| model::v_scheme(s)) {
        return s;
    }
    let o = scheme_new(r);
    r.remember(&o);
    o
}
fn scheme_new(r: &mut Rng) -> String {
    if let Some(s) = dict::string(r).filter(|s| model::v_scheme(s)) {
        return s.to_owned();
    }
    match r.below(6) {
        0 => "http".into(),
        1 if r.chance(1, 2) => r.pstr(&["https", "HTTPS", "ftp", "FILE", "ws", "wss", "data", "tel", "news", "blob", "about", "ldap", "ssh", "telnet", "tag", "cid", "sip", "URN", "MailTo", "nfs"]).into(),
        1 => r.pstr(&["a", "A", "urn", "mailto", "HtTp", "x-y", "a+b.c-1", "file", "H2", "view-source", "javascript"]).into(),
        2 => "s".into(),
        _ => {
            let mut o = String::new();
            o.push(*r.pick(&['a', 'Z', 'z', 'A', 'm']));
            let n = if let Some(n) = dict::length(r) { n } else if big(r, 60) { big_len(r) } else if r.chance(1, 6) { r.below(24) } else { r.below(6) };
            for _ in 0..n {
                o.push(if r.chance(1, 2) {
                    *r.pick(&['a', 'Z', '0', '9', '+', '-', '.', 'z', 'A'])
                } else {
                    *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.") as char
                });
            }
            o
        }
    }
}

pub fn userinfo(r: &mut Rng, sp: Sp) -> String {
    let o = userinfo_new(r, sp);
    r.remember(&o);
    o
}
fn userinfo_new(r: &mut Rng, sp: Sp) -> String {
    match r.below(8) {
        0 => r.pstr(&["", ":", "user", "user:", ":pass", "user:pass", "a:b:c", "::", "u%3Ap", "user:pa%40ss", "U%41:%7e", "user:p%3A:q"]).into(),
        1..=3 => {
            let f = |c| model::unreserved(sp, c) || model::sub_delim(c);
            format!("{}:{}", component(r, sp, 5, &f), component(r, sp, 5, &f))
        }
        4 => component(r, sp, 5, &|c| model::unreserved(sp, c) || model::sub_delim(c)),
        _ => component(r, sp, 6, &|c| model::unreserved(sp, c) || model::sub_delim(c) || c == ':'),
    }
}

pub fn ipv4(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        let v: Vec<String> = (0..4).map(|_| r.below(256).to_string()).collect();
        return v.join(".");
    }
    let v: Vec<String> = (0..4)
        .map(|_| r.pstr(&["0", "1", "9", "10", "99", "100", "127", "199", "200", "249", "250", "255"]).to_owned())
        .collect();
    v.join(".")
}
/// Near-misses of IPv4 addresses; valid registered names.
pub fn ipv4_like(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        let n = *r.pick(&[4, 4, 4, 4, 3, 5]);
        let odd = r.below(n);
        let v: Vec<String> = (0..n)
            .map(|k| {
                if k != odd && r.chance(4, 5) {
                    return r.below(256).to_string();
                }
                match r.below(7) {
                    5 => {
                        // One odd character in place of a digit.
                        let mut d: Vec<char> = r.below(256).to_string().chars().collect();
                        let at = r.below(d.len());
                        d[at] = r.pstr(&["-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", "a", "f", "A", "z"]).chars().next().unwrap();
                        d.into_iter().collect()
                    }
                    6 => r.pstr(&["", "-", "+1", "1-", "%31", "~", "1e1", "00", "0x1", "-0"]).to_owned(),
                    0 => format!("0{}", r.below(300)),
                    1 => r.range(250, 270).to_string(),
                    2 => r.range(256, 1100).to_string(),
                    3 => format!("{:03}", r.below(300)),
                    _ => r.below(300).to_string(),
                }
            })
            .collect();
        return v.join(".");
    }
    r.pstr(&[
        "256.0.0.1", "1.2.3", "1.2.3.4.5", "1.2.3.4.", "01.2.3.4", "1.2.3.04", "00.0.0.0", "1.2.3.1000", "1.2.3.%34", "1.2.3.4a", "0x1.2.3.4",
        "1..2.3", ".1.2.3.4", "1.2.3.", "999.999.999.999", "260.1.1.1", "1.2.3.256", "1.2.3.300", "000.0.0.0", "1.2.003.4", "192.168.1.001",
    ])
    .to_owned()
}
pub fn ipv6_raw(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pstr(&[
            "::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "2001:db8::7", "FE80::ABCD", "::ffff:1.2.3.4",
            "1:2:3:4:5:6:1.2.3.4", "::1.2.3.4", "abcd:EF01::", "1::8", "1:2::7:8", "1:2:3:4:5::8", "::255.255.255.255", "0:0:0:0:0:0:0:0",
            "1:2:3::1.2.3.4", "1::3:4:5:6:7:8", "1:2:3:4:5::1.2.3.4", "::FFFF:0.0.0.0", "fe80::A",
        ])
        .to_owned(),
        _ => {
            // Random structure.
            let v4 = r.chance(1, 4);
            let tail = if v4 { 2 } else { 0 };
            let g = h16;
            let mut s;
            if r.chance(1, 3) {
                let v: Vec<String> = (0..8 - tail).map(|_| g(r)).collect();
                s = v.join(":");
                if v4 {
                    s.push(':');
                }
            } else {
                let total = r.below(8 - tail);
                let left = r.below(total + 1);
                let l: Vec<String> = (0..left).map(|_| g(r)).collect();
                let rt: Vec<String> = (0..total - left).map(|_| g(r)).collect();
                s = format!("{}::{}", l.join(":"), rt.join(":"));
                if v4 && total > left {
                    s.push(':');
                }
            }
            if v4 {
                s.push_str(&ipv4(r));
            }
            s
        }
    }
}
fn h16(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        r.pstr(&["0", "1", "a", "F", "12", "aB", "0a0", "fff", "ABCD", "0000", "12e4"]).to_owned()
    } else {
        (0..r.range(1, 4)).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect()
    }
}
/// The text of an IPv6 literal with a random number of groups and elisions;
/// valid or just not.
pub fn ipv6_near(r: &mut Rng) -> String {
    let n = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 7, 7, 8, 8, 8, 9]);
    let mut v: Vec<String> = (0..n).map(|_| h16(r)).collect();
    for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 2]) {
        // An empty group in the middle, or two at an end.
        let at = r.below(v.len() + 1);
        v.insert(at, String::new());
        if at == 0 || at == v.len() - 1 {
            if r.chance(9, 10) {
                v.insert(at, String::new());
            }
        }
    }
    match r.below(8) {
        0 | 1 => v.push(ipv4(r)),
        2 => v.push(ipv4_like(r)),
        3 => {
            // One bad group.
            if !v.is_empty() {
                let k = r.below(v.len());
                v[k] = match r.below(5) {
                    0 => "12345".into(),
                    1 => "g".into(),
                    2 => "00000".into(),
                    3 => ipv4(r),
                    _ => format!("{}{}", h16(r), r.pstr(&["%", "é", ".", "-", "x", "]", "[", "%31"])),
                };
            }
        }
        _ => {}
    }
    if v.len() > 2 && v[v.len() - 1].is_empty() && !v[v.len() - 2].is_empty() && r.chance(1, 2) {
        v.push(String::new());
    }
    v.join(":")
}
/// The text of an IPvFuture literal, valid or just not.
pub fn ipvfuture_near(r: &mut Rng) -> String {
    let ver: String = (0..r.below(4)).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect();
    let addr: String = (0..r.below(5)).map(|_| *r.pick(&['a', ':', '.', '-', '~', '!', '=', '$', 'Z', '9', '_', '*'])).collect();
    let s = format!("{}{}{}{}", r.pstr(&["v", "V", "v", "V", "x", ""]), ver, r.pstr(&[".", ".", ".", ".", "", ":"]), addr);
    if r.chance(1, 4) { mutate(r, &s) } else { s }
}
pub fn ip_literal(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        let s = format!("[{}]", if r.chance(3, 4) { ipv6_near(r) } else { ipvfuture_near(r) });
        if model::is_ip_literal(&s) {
            return s;
        }
    }
    if r.chance(1, 4) {
        r.pstr(&["[v1.a]", "[vF.:]", "[V0.~!$:]", "[v12aB.x:y]", "[v9.-._~]", "[V1F.A:b]", "[v1.V]"]).to_owned()
    } else {
        format!("[{}]", ipv6_raw(r))
    }
}

pub fn host(r: &mut Rng, sp: Sp) -> String {
    if let Some(s) = r.echo().filter(|s| model::v_host(sp, s)) {
        return s;
    }
    let o = host_new(r, sp);
    r.remember(&o);
    o
}
fn host_new(r: &mut Rng, sp: Sp) -> String {
    if let Some(s) = dict::string(r).filter(|s| model::v_host(sp, s)) {
        return s.to_owned();
    }
    match r.below(16) {
        0 => String::new(),
        1 => ipv4(r),
        2 => ipv4_like(r),
        3 | 4 => ip_literal(r),
        5 => "example.com".into(),
        6 => r.pstr(&["EXAMPLE.Com", "h", "H", "a.b.", "localhost", "xn--a", "A%41", "%65xample", "EX%41MPLE", "ex%c3%a9", "%C3%89X", "a%2Fb", "A%3a", "%41%42.C", "A%E3%81%82B", "a%7eB", "%7F", "A%7f"]).into(),
        7 if sp == Sp::Iri => r.pstr(&["\u{e9}", "\u{c9}X.com", "日本.JP", "\u{3042}%41", "A\u{1f600}B", "%C3%89\u{c9}", "\u{ff21}A"]).into(),
        _ => component(r, sp, 5, &|c| model::unreserved(sp, c) || model::sub_delim(c)),
    }
}

pub fn port(r: &mut Rng) -> String {
    if let Some(s) = r.echo().filter(|s| s.bytes().all(|b| b.is_ascii_digit())) {
        return s;
    }
    let o = port_new(r);
    r.remember(&o);
    o
}
fn port_new(r: &mut Rng) -> String {
    if let Some(s) = dict::string(r).filter(|s| s.bytes().all(|b| b.is_ascii_digit())) {
        return s.to_owned();
    }
    if let Some(n) = dict::length(r) {
        return (0..n).map(|_| *r.pick(b"0123456789") as char).collect();
    }
    if r.chance(1, 12) {
        return r.pstr(&["21", "22", "23", "25", "70", "81", "389", "636", "8000", "8443", "3128", "08", "0443", "65534", "4294967296", "4294967376", "18446744073709551616", "256"]).into();
    }
    if r.chance(1, 3) {
        let n = if big(r, 20) { big_len(r) } else { *r.pick(&[1, 2, 3, 4, 5, 5, 6, 10, 20]) };
        return (0..n).map(|_| *r.pick(b"0123456789") as char).collect();
    }
    r.pstr(&["", "0", "80", "443", "8080", "65535", "65536", "00080", "99999999999999999999", "1"]).to_owned()
}

#[derive(Clone, Debug, Default)]
pub struct AuthParts {
    pub userinfo: Option<String>,
    pub host: String,
    pub port: Option<String>,
}
impl AuthParts {
    pub fn text(&self) -> String {
        model::join_authority(self.userinfo.as_deref(), &self.host, self.port.as_deref())
    }
}

pub fn auth_parts(r: &mut Rng, sp: Sp) -> AuthParts {
    AuthParts {
        userinfo: if r.chance(2, 5) { Some(userinfo(r, sp)) } else { None },
        host: host(r, sp),
        port: if r.chance(1, 3) { Some(port(r)) } else { None },
    }
}
pub fn authority(r: &mut Rng, sp: Sp) -> String {
    auth_parts(r, sp).text()
}

const SEG: &[&str] = &[
    "", "", ".", "..", ".", "..", "%2e", "%2E", ".%2e", "%2E.", "%2e%2E", "%2E%2e", "a", "b", "c", "...", ".a", "a.", "..a", "a..",
    "%2e%2e%2e", ".%2", "b:c", ":", "a:b", "%41", "%7e", "@", ";x=1", "%2F", "%25%32%65", "%2e%2ea", ".%2E.", "x.y", "%252e",
];

pub fn segment(r: &mut Rng, sp: Sp) -> String {
    if let Some(s) = r.echo().filter(|s| model::pct_str(s, |c| model::pchar(sp, c))) {
        return s;
    }
    if r.chance(3, 4) {
        loop {
            let s = r.pstr(SEG);
            if s != ".%2" {
                return s.to_owned();
            }
        }
    }
    component(r, sp, 4, &|c| model::pchar(sp, c))
}

/// Any sequence of segments; may be rootless, absolute, start with `//`.
pub fn path(r: &mut Rng, sp: Sp) -> String {
    if let Some(s) = r.echo().filter(|s| model::pct_str(s, |c| model::pchar(sp, c) || c == '/')) {
        return s;
    }
    let o = path_new(r, sp);
    r.remember(&o);
    o
}
fn path_new(r: &mut Rng, sp: Sp) -> String {
    let hot = dict::length(r);
    let n = match r.below(10) {
        0 => return String::new(),
        1 => return "/".into(),
        2..=9 if hot.is_some() => hot.unwrap_or(1).max(1),
        2..=6 => r.range(1, 5),
        7 | 8 => r.range(3, 12),
        // Deeper than any internal fixed-size table.
        _ if big(r, 40) => *r.pick(&[60, 64, 120, 127, 128, 129, 250, 254, 255, 256, 257, 258, 300, 513]) + r.below(4),
        _ => r.range(9, 40),
    };
    let mut v: Vec<String> = (0..n).map(|_| segment(r, sp)).collect();
    if r.chance(1, 2) {
        v.insert(0, String::new());
    }
    if r.chance(1, 8) {
        v.insert(0, String::new());
    }
    if n > 8 && r.chance(1, 2) {
        for _ in 0..r.range(1, n) {
            v.push("..".into());
        }
        v.push(segment(r, sp));
    }
    v.join("/")
}

pub fn query(r: &mut Rng, sp: Sp) -> String {
    component(r, sp, 6, &|c| model::pchar(sp, c) || c == '/' || c == '?' || (sp == Sp::Iri && model::iprivate(c)))
}
pub fn fragment(r: &mut Rng, sp: Sp) -> String {
    component(r, sp, 6, &|c| model::pchar(sp, c) || c == '/' || c == '?')
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    Reference,
    Iri,
    Absolute,
    Relative,
}

#[derive(Clone, Debug, Default)]
pub struct RefParts {
    pub scheme: Option<String>,
    pub authority: Option<AuthParts>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
}
impl RefParts {
    pub fn text(&self) -> String {
        let a = self.authority.as_ref().map(AuthParts::text);
        model::join(&model::Parts {
            scheme: self.scheme.as_deref(),
            authority: a.as_deref(),
            path: &self.path,
            query: self.query.as_deref(),
            fragment: self.fragment.as_deref(),
        })
    }
    /// Makes the path fit the other components.
    pub fn fix_path(&mut self) {
        if self.authority.is_some() {
            if !self.path.is_empty() && !self.path.starts_with('/') {
                self.path.insert(0, '/');
            }
        } else {
            while self.path.starts_with("//") {
                self.path.remove(0);
            }
            if self.scheme.is_none() && self.path.split('/').next().unwrap().contains(':') {
                self.path.insert_str(0, "./");
            }
        }
    }
}

/// Components that assemble to a valid string of the wanted type.
pub fn parts(r: &mut Rng, sp: Sp, want: Want) -> RefParts {
    let scheme = match want {
        Want::Iri | Want::Absolute => Some(scheme(r)),
        Want::Relative => None,
        Want::Reference => if r.chance(1, 2) { Some(scheme(r)) } else { None },
    };
    let authority = if r.chance(1, 2) { Some(auth_parts(r, sp)) } else { None };
    let path = path(r, sp);
    let query = if r.chance(2, 5) { Some(query(r, sp)) } else { None };
    let fragment = if want != Want::Absolute && r.chance(2, 5) { Some(fragment(r, sp)) } else { None };
    let mut p = RefParts { scheme, authority, path, query, fragment };
    p.fix_path();
    p
}

pub fn reference(r: &mut Rng, sp: Sp, want: Want) -> String {
    parts(r, sp, want).text()
}

/// A base for resolution: mostly small, sometimes hostile.
pub fn base(r: &mut Rng, sp: Sp) -> String {
    if r.chance(1, 3) {
        r.pstr(&[
            "http://a/b/c/d;p?q", "s:", "s:/", "s:a", "s:a/b", "s:/a/b/", "s:/.//a", "s:/..//a", "s://h", "s://h/", "s://h?q", "s://", "s:///", "s://h//",
            "s:/a", "s:/a//b", "s:.", "s:..", "s:../a", "s:a/../..//b", "s:%2e//x", "s:/%2E%2e//x?y", "s://h/%2e/..", "s:?q", "s:a?q", "s:a:b", "s:.//a", "s:..//a/b", "s:/./a/..//b",
        ])
        .to_owned()
    } else {
        reference(r, sp, Want::Absolute)
    }
}

pub fn relative(r: &mut Rng, sp: Sp) -> String {
    if r.chance(1, 4) {
        r.pstr(&[
            "", "?", "#", "?y", "#s", ".", "..", "./", "../", "/", "//", "///", "//h", "/.", "/..", "/.//", "/..//a", "..//a", ".//a", "../..//a", "./a:b", "a/..//b", "g", "/g",
            "%2e", "%2E%2e/", "/%2e//a", "g/../..//h", "../../../../../..//x", "////a", "//h//a", "//h/..//a", "?a/../b", "..?q#f", ".//", "..//",
        ])
        .to_owned()
    } else {
        reference(r, sp, Want::Relative)
    }
}

// ---------------------------------------------------------------- hostile strings

/// Damages a string (at character boundaries).
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        let at = r.below(c.len() + 1);
        match r.below(8) {
            0 | 1 => c.insert(at, *r.pick(BAD_ASCII)),
            2 => c.insert(at, any_char(r)),
            3 => {
                let v: Vec<char> = bad_pct(r).chars().collect();
                c.splice(at..at, v);
            }
            4 if !c.is_empty() => {
                c.remove(at.min(c.len() - 1));
            }
            5 if !c.is_empty() => {
                let n = c.len() - 1;
                c[at.min(n)] = any_char(r);
            }
            6 if c.len() > 1 => {
                let a = r.below(c.len());
                let b = r.below(c.len());
                c.swap(a, b);
            }
            7 => c.truncate(at),
            _ => c.insert(at, *r.pick(&[':', '/', '?', '#', '@', '[', ']', '%'])),
        }
    }
    c.into_iter().collect()
}

const SOUP: &[&str] = &[
    ":", "/", "?", "#", "[", "]", "@", "%", "a", "A", "1", ".", "..", "//", "::", "[::1]", "[v1.a]", "%41", "%2e", "é", "\u{e000}", "\u{fffe}", "-", "+", "s:", "s://", "v", "!", "~",
    "1.2.3.4", " ", "\\", "{", "\"", "255", "%E3%81", "a:b",
];
pub fn soup(r: &mut Rng) -> String {
    let n = r.below(10);
    (0..n).map(|_| r.pstr(SOUP)).collect()
}

/// The `idx`-th string over `alphabet` in order of length.
pub fn enumerate(alphabet: &[&str], mut idx: u64, max_len: u32) -> Option<String> {
    let k = alphabet.len() as u64;
    for len in 0..=max_len {
        let n = k.pow(len);
        if idx < n {
            let mut o = String::new();
            for _ in 0..len {
                o.push_str(alphabet[(idx % k) as usize]);
                idx /= k;
            }
            return Some(o);
        }
        idx -= n;
    }
    None
}
pub fn enum_count(alphabet_len: usize, max_len: u32) -> u64 {
    (0..=max_len).map(|l| (alphabet_len as u64).pow(l)).sum()
}

/// A mix of valid, damaged and arbitrary text for a type.
pub fn hostile(r: &mut Rng, sp: Sp) -> String {
    match r.below(12) {
        0..=3 => reference(r, sp, Want::Reference),
        4 => reference(r, Sp::Iri, Want::Reference),
        10 => {
            // Literals in brackets, valid or just not.
            let h = match r.below(4) {
                0..=2 => ipv6_near(r),
                _ => ipvfuture_near(r),
            };
            format!("{}//{}[{}]{}", r.pstr(&["", "s:"]), r.pstr(&["", "", "u@", "u:p@"]), h, r.pstr(&["", ":", ":80", "/", "/p", "?q", "#f", ":8x", "a"]))
        }
        11 => {
            // One character of any kind somewhere in an otherwise plain text.
            let c = if r.chance(1, 2) { edge(r) } else { any_char(r) };
            let t = r.pstr(&["s:aXb", "s://uXu@h/", "//hXh", "s://h/pXp", "?qXq", "#fXf", "aXb/c", "sX:a", "s1.X+:a", "s://h:8X/", "s://[vX.a]", "s://[v1.aX]", "s://[1:X::]", "X", "s:/a%X1", "s:/a%1X"]);
            t.replace('X', &c.to_string())
        }
        5..=7 => {
            let s = reference(r, sp, Want::Reference);
            mutate(r, &s)
        }
        _ => soup(r),
    }
}

/// Arbitrary (usually not IRI-safe) text, for percent-encoding and templates.
pub fn raw_text(r: &mut Rng) -> String {
    if let Some(s) = r.echo() {
        return s;
    }
    let o = raw_text_new(r);
    r.remember(&o);
    o
}
fn raw_text_new(r: &mut Rng) -> String {
    let hot = dict::length(r);
    let n = match r.below(6) {
        1..=4 if hot.is_some() => hot.unwrap_or(1),
        1 if big(r, 20) => big_len(r) / 2,
        0 => 0,
        1..=3 => r.range(1, 4),
        4 => r.range(1, 12),
        _ => r.range(1, 40),
    };
    let mut o = String::new();
    for _ in 0..n {
        if let Some(s) = dict::string(r) {
            o.push_str(s);
            continue;
        }
        match r.below(10) {
            0 | 1 => o.push_str(&pct(r)),
            2 => o.push_str(bad_pct(r)),
            3 => o.push_str(r.pstr(&["a", "z", "A", "0", "-._~", ":/?#[]@", "!$&'()*+,;="])),
            4 if r.chance(1, 5) => {
                let c = any_char(r);
                let k = if big(r, 20) { big_len(r) } else { r.range(5, 40) };
                o.push_str(&c.to_string().repeat(k));
            }
            _ => o.push(any_char(r)),
        }
    }
    o
}

// ---------------------------------------------------------------- templates

pub const VARNAMES: &[&str] = &["a", "b", "var", "list", "keys", "empty", "undef", "x.y", "a1", "_", "%41", "%C3%A9", "n.%2e.z", "a.b.c", "A", "0"];

pub fn varname(r: &mut Rng) -> String {
    if let Some(s) = r.echo().filter(|s| model::v_varname(s)) {
        return s;
    }
    let o = varname_new(r);
    r.remember(&o);
    o
}
fn varname_new(r: &mut Rng) -> String {
    let hot = dict::length(r);
    if let Some(s) = dict::string(r).filter(|s| model::v_varname(s)) {
        return s.to_owned();
    }
    if hot.is_some() || r.chance(1, 6) {
        let n = if let Some(n) = hot { n.max(1) } else if big(r, 20) { big_len(r) } else { r.range(1, 12) };
        let mut o = String::new();
        for k in 0..n {
            if k > 0 && r.chance(1, 5) {
                o.push('.');
            }
            if r.chance(1, 8) {
                o.push_str(&format!("%{:02X}", r.below(256)));
            } else {
                o.push(*r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") as char);
            }
        }
        return o;
    }
    r.pstr(VARNAMES).to_owned()
}
/// A variable name with at most one edit, which usually spoils it.
pub fn varname_near(r: &mut Rng) -> String {
    let mut s = varname(r);
    while s.len() < 40 && r.chance(1, 2) {
        s.push_str(r.pstr(&["", "", ".", "_"]));
        s.push_str(&varname(r));
    }
    let mut at = r.below(s.len() + 1);
    match r.below(8) {
        0 => {}
        1 => s.push('.'),
        2 => s.insert(0, '.'),
        3 => s.insert(at, '.'),
        4 => s.insert_str(at, ".."),
        5 => {
            if let Some(k) = s[at..].find('.') {
                s.insert(at + k, '.');
            }
        }
        6 => s.truncate(at),
        _ => {
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert(at, any_char(r));
        }
    }
    s
}
fn prefix_len(r: &mut Rng) -> String {
    if let Some(n) = dict::length(r).filter(|n| (1..10_000).contains(n)) {
        return n.to_string();
    }
    match r.below(4) {
        0 => r.range(1, 9999).to_string(),
        1 => r.range(1, 30).to_string(),
        2 => r.range(1, 300).to_string(),
        _ => r.pstr(&["1", "2", "3", "5", "10", "9999", "7", "21", "42", "1000"]).to_owned(),
    }
}

pub fn varspec(r: &mut Rng, prefix_ok: bool) -> String {
    let n = varname(r);
    match r.below(6) {
        0 | 1 => format!("{n}*"),
        2 | 3 if prefix_ok => format!("{n}:{}", prefix_len(r)),
        _ => n,
    }
}
pub fn expr(r: &mut Rng) -> String {
    let op = r.pstr(&["", "", "+", "#", ".", "/", ";", "?", "&"]);
    let hot = dict::length(r);
    let n = match r.below(5) {
        _ if hot.is_some() => hot.unwrap_or(1).clamp(1, 100),
        0..=2 => 1,
        3 => 2,
        _ if big(r, 20) => r.range(6, 40),
        _ => r.range(1, 5),
    };
    let p = r.chance(3, 4);
    let v: Vec<String> = (0..n).map(|_| varspec(r, p)).collect();
    format!("{{{op}{}}}", v.join(","))
}
/// A literal with characters outside ASCII.
fn wide_literal(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pstr(&["é", "あ", "😀", "\u{e000}", "\u{10fffd}", "\u{a0}", "aéb", "%e3é", "é%41", "あ\u{e000}", "\u{f0000}x", "ß/ü"]).to_owned(),
        1 => r.pstr(&["é", "日本語", "r\u{e9}sum\u{e9}", "\u{100000}"]).to_owned(),
        _ => {
            let c = any_char(r);
            if model::is_literal_char(c) { c.to_string() } else { "ö".to_owned() }
        }
    }
}
/// A well-formed template.
pub fn template(r: &mut Rng) -> String {
    let n = if let Some(n) = dict::length(r) { n.min(200) } else if big(r, 60) { r.range(6, 60) } else { r.below(5) };
    let mut o = String::new();
    for _ in 0..n {
        if let Some(s) = dict::string(r).filter(|s| s.is_ascii() && model::parse_template(s).is_some()) {
            o.push_str(s);
        } else if let Some(s) = r.echo().filter(|s| model::pct_str(s, model::is_literal_char)) {
            o.push_str(&s);
        } else if r.chance(1, 16) {
            o.push_str(&wide_literal(r));
        } else if r.chance(2, 3) {
            o.push_str(&expr(r));
        } else {
            o.push_str(r.pstr(&["/", "a", "http://example.com/", "?", "#", "%41", "%e3%81%82", "&x=", "!", "'", "~", "-._", ":", "[", "]", "@", "()", "*", "+,;=", "$", "Z", "%2e", "%7B"]));
        }
    }
    o
}
const TSOUP: &[&str] = &[
    "{", "}", "{a}", "a", ",", ":", "*", ".", "..", "1", "9999", "10000", "0", "%", "%41", "%e", "+", "#", "/", ";", "?", "&", "=", "!", "@", "|", "'", "\"", "<", ">", "\\", "^", "`", " ", "_", "-",
    "~", "{+", "{;", "é", "あ", "\u{1f600}", "%é", "%4あ", "{a:", "{a*", "\u{7f}", "\0", ":3", "a.b", "%zz", "00",
];
pub fn template_soup(r: &mut Rng) -> String {
    let n = r.below(10);
    (0..n).map(|_| r.pstr(TSOUP)).collect()
}
/// An expression body with adversarial variable specifications.
pub fn template_near(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        // Lengths that are nearly a prefix modifier.
        let n: String = (0..r.range(0, 6)).map(|_| if r.chance(4, 5) { r.pstr(&["1", "2", "9", "0", "5", "8"]).to_owned() } else { any_char(r).to_string() }).collect();
        return format!("{}{{{}{}:{n}{}}}", r.pstr(&["", "a"]), r.pstr(&["", "", "+", "?"]), r.pstr(&["a", "abc", "a.b", "%41"]), r.pstr(&["", "", ",b", "*", ":1"]));
    }
    let t = template(r);
    if r.chance(1, 2) {
        mutate(r, &t)
    } else {
        let body: String = (0..r.range(1, 7))
            .map(|_| r.pstr(&["a", "b", ".", ",", ":", "*", "1", "0", "9", "10", "%41", "%", "_", "+", "-", "~", "é", ";", "99"]))
            .collect();
        format!("{}{{{}}}{}", r.pstr(&["", "a", "/"]), body, r.pstr(&["", "b", "{x}"]))
    }
}

pub fn val(r: &mut Rng) -> model::Val {
    use model::Val;
    let items = |r: &mut Rng| if let Some(n) = dict::length(r) { n.min(300) } else if r.chance(1, 6) { 0 } else if big(r, 60) { r.range(5, 200) } else { r.range(1, 4) };
    match r.below(10) {
        0 => Val::Undef,
        1..=5 => Val::Str(tval(r)),
        6 | 7 => Val::List((0..items(r)).map(|_| tval(r)).collect()),
        _ => Val::Assoc((0..items(r)).map(|_| (tval(r), tval(r))).collect()),
    }
}
fn tval(r: &mut Rng) -> String {
    if let Some(s) = r.echo() {
        return s;
    }
    let o = tval_new(r);
    r.remember(&o);
    o
}
fn tval_new(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 | 2 => r.pstr(&["value", "Hello World!", "50%", "me/too", "a,b", ";", "=", "&", "%41", "%E3%81%82x", "あい", "\u{1f600}a", "a%", "%4", "é%C3%A9é", "\u{e000}", "\u{fffe}", "[]", "%zz%41"]).into(),
        _ => raw_text(r),
    }
}

// ---------------------------------------------------------------- small inputs

/// Cheap to generate and short: for interpreters.
pub fn mini(r: &mut Rng, sp: Sp, want: Want) -> String {
    let iri = sp == Sp::Iri;
    let mut s = String::new();
    let scheme = match want {
        Want::Iri | Want::Absolute => true,
        Want::Relative => false,
        Want::Reference => r.chance(1, 2),
    };
    if scheme {
        s.push_str(r.pstr(&["s", "http", "A", "x-y.z+1"]));
        s.push(':');
    }
    let auth = r.chance(3, 5);
    if auth {
        s.push_str("//");
        s.push_str(r.pstr(&["", "", "u@", "u:p@", ":@", "u:@", "u:p:q@", "%75:%70@"]));
        if iri && r.chance(1, 3) {
            s.push_str(r.pstr(&["\u{3b1}", "\u{e9}:\u{3b1}@h", "\u{10000}.x"]));
        } else {
            s.push_str(r.pstr(&["", "h", "Ho%5ast", "127.0.0.1", "[::1]", "[V1.a]", "example.com"]));
        }
        s.push_str(r.pstr(&["", "", ":", ":80"]));
    }
    let path = if iri && r.chance(1, 3) {
        r.pstr(&["/\u{3b1}", "/\u{e9}/../%C3%a9", "/a\u{efffd}", "/%e3%81%82\u{3042}"])
    } else {
        r.pstr(&["", "/", "/a", "/a/./b/../c", "/..//a", "/%7e%2F", "/a/", "/%e3%81%82%E3"])
    };
    s.push_str(path);
    if r.chance(1, 2) {
        s.push_str(r.pstr(&["?", "?q", "?a=b&c", "?%41"]));
        if iri && r.chance(1, 3) {
            s.push_str("\u{10fffd}\u{e000}");
        }
    }
    if want != Want::Absolute && r.chance(1, 2) {
        s.push_str(r.pstr(&["#", "#f", "#a/b?c", "#%41"]));
        if iri && r.chance(1, 3) {
            s.push_str("\u{3b1}\u{3b2}");
        }
    }
    s
}
