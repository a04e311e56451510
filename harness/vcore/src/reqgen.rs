//! Generation of requests (and of the planned behaviour of instrumented parts) for a type.

use crate::model::BodyKind;
use crate::session::{HPlan, Item, Out, PPlan, Plan, StepPlan, Wake};
use vspec::dict::dict;
use vspec::pat::{Pat, Seg};
use vspec::rng::Rng;
use vspec::spec::*;

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub version: http::Version,
    pub body: BodyKind,
    pub plan: Plan,
    pub nonce: u64,
}

/// Knobs for request generation.
#[derive(Clone, Copy, Debug)]
pub struct ReqOpts {
    pub step_err: u32,
    pub pend: u32,
    pub panic: u32,
    pub hang: u32,
    pub stream_err: u32,
    pub seg_bad: u32,
    /// percentage of requests whose path was mutated
    pub mutate: u32,
    pub wrong_method: u32,
    /// percentage of requests made extreme in some respect
    pub hostile: u32,
}
impl Default for ReqOpts {
    fn default() -> Self {
        ReqOpts {
            step_err: 8,
            pend: 30,
            panic: 0,
            hang: 3,
            stream_err: 6,
            seg_bad: 12,
            mutate: 30,
            wrong_method: 30,
            hostile: 1,
        }
    }
}

/// Raw path and query of a request target, extracted by hand.
pub fn split_target(t: &str) -> (String, Option<String>) {
    let t = t.split('#').next().unwrap();
    let pq = if t.starts_with('/') || t.starts_with('*') {
        t.to_string()
    } else if let Some(i) = t.find("://") {
        let after = &t[i + 3..];
        match after.find(|c| c == '/' || c == '?') {
            Some(j) if after[j..].starts_with('/') => after[j..].to_string(),
            Some(j) => format!("/{}", &after[j..]),
            None => "/".to_string(),
        }
    } else {
        String::new()
    };
    match pq.find('?') {
        Some(i) => (pq[..i].to_string(), Some(pq[i + 1..].to_string())),
        None => (pq, None),
    }
}

fn seg_char_ok(b: u8) -> bool {
    match b {
        0x21 | 0x24..=0x2E | 0x30..=0x3B | 0x3D | 0x40..=0x5F | 0x61..=0x7A | 0x7C | 0x7E => true,
        _ => false,
    }
}

/// Percent-encodes whatever can't be part of a path.
pub fn sanitize(path: &str) -> String {
    let mut o = String::new();
    for b in path.bytes() {
        if b == b'/' || seg_char_ok(b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{:02X}", b));
        }
    }
    o
}

/// What some other convention than that of URIs, forms or JSON gives a meaning to.
const TOKENS: &[&str] = &[
    "&amp;", "&#38;", "&lt;", ";", "%26", "%3D", "%2B", "%0A", "%0D%0A", "%00", "%u0041", "+", "[]", "[0]", "[x]", "%5B%5D", ".", "..",
    "null", "undefined", "NaN", "nil", "on", "off", "yes", "_method=DELETE", "_method=POST", "method=PUT", "format=json", "utf8=%E2%9C%93", "_=1",
    "callback=x", "debug=1", "?", "\\u0041", "%E2%80%A8", "%C3%A9", "e%CC%81", "%EF%BB%BF", "%ED%A0%80", "%C0%AF", "%25", "%2525",
    "${x}", "$(x)", "`x`", "<!--", "--", "'", "\"", ",", "|", "~", ":", "!", "@", "*", "**", "%2a", ";jsessionid=1", ".json", ".html", "index.html",
    "%2e%2e", "%2e", "%5c", "\\", "=", "==", "&", "&&", "&=", "=&", "a=", "=a", "%", "%4", "%4G", "%%", "0x10", "1_000", "1,5", "+1", "1.0", "1e2",
    "/*", "//", "%23", "#x", " ", "\t", "%20", "%09", "%c2%a0", "%7F", "%80",
];

/// `text` with some token put somewhere.
fn spice(r: &mut Rng, text: &str) -> String {
    let mut t = text.to_string();
    for _ in 0..r.weighted(&[0, 6, 2, 1]) {
        let at: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
        let edges: Vec<usize> = at.iter().copied().filter(|i| *i == 0 || *i == t.len() || "&=/;,\"".contains(t[*i..].chars().next().unwrap())).collect();
        let i = if r.pct(60) { *r.pick(&edges) } else { *r.pick(&at) };
        t.insert_str(i, r.pick(TOKENS));
    }
    t
}

const WEIRD: &[&str] = &[
    "a", "b", "0", "42", "%2F", "%20", "%", "..", ".", "a.b", "A", "null", "-1", "+1", "255", "256", "4294967296",
    "true", "1e3", "a+b", "*", "{id}", "~", "\\d", "[a]", "(x)", "x%41", "%E2%82%AC", "=", "a=b&c", ";v=1", "|", "^$",
    "99999999999999999999999999999999999999999", "00", "aa", "users", "me",
];

pub fn seg_text(r: &mut Rng, t: SegTy, bad: u32) -> String {
    if r.pct(bad) {
        return r.pick(WEIRD).to_string();
    }
    match t {
        SegTy::Str | SegTy::PathBuf => match r.below(4) {
            0 => r.pick(WEIRD).to_string(),
            _ => {
                let n = r.range(1, 6);
                (0..n)
                    .map(|_| *r.pick(&['a', 'b', 'c', 'Z', '0', '9', '-', '.', '_', '~', '+', '%', '*', '(', '$', '\\', '@']))
                    .collect()
            }
        },
        SegTy::U8 => r.below(256).to_string(),
        SegTy::U32 => (r.u64() as u32).to_string(),
        SegTy::I64 => (r.u64() as i64).to_string(),
        SegTy::U128 => format!("{}", (r.u64() as u128) * (r.u64() as u128)),
        SegTy::Bool => r.pick(&["true", "false"]).to_string(),
        SegTy::Char => r.pick(&["a", "Z", "0", "$", "~", "*"]).to_string(),
        SegTy::Ip => r.pick(&["127.0.0.1", "10.0.0.255", "::1", "fe80::1"]).to_string(),
        SegTy::Even => r.pick(&["ab", "1234", "xyzw", "%2", "a1"]).to_string(),
        SegTy::NoDigit => r.pick(&["abc", "x", "Foo", "%a", "a.b", "me"]).to_string(),
        SegTy::Upper => r.pick(&["Abc", "X1", "ZZ", "A%20"]).to_string(),
        SegTy::Never => "never".into(),
    }
}

/// A path for pattern `p` of variant `v`.
fn path_for(r: &mut Rng, v: &VarSpec, p: &Pat, bad: u32) -> String {
    match p {
        Pat::Star => "*".into(),
        Pat::Segs(segs) => {
            let mut o = String::new();
            for s in segs {
                o.push('/');
                match s {
                    Seg::Lit(l) => o.push_str(l),
                    Seg::Ph(n) | Seg::Rest(n) => {
                        let ty = match v.field(n).map(|f| f.role) {
                            Some(Role::Seg(t)) => t,
                            _ => SegTy::Str,
                        };
                        if let Seg::Rest(_) = s {
                            match r.below(6) {
                                0 => {}
                                1 => {
                                    o.push_str(&seg_text(r, ty, bad));
                                    o.push('/');
                                    o.push_str(&seg_text(r, SegTy::Str, bad));
                                }
                                2 => {
                                    o.push('/');
                                    o.push_str(&seg_text(r, ty, bad));
                                }
                                3 => {
                                    o.push_str("a//b/");
                                }
                                _ => o.push_str(&seg_text(r, ty, bad)),
                            }
                        } else {
                            o.push_str(&seg_text(r, ty, bad));
                        }
                    }
                }
            }
            o
        }
    }
}

/// The byte which the percent escape at `i` stands for.
fn escape_at(p: &str, i: usize) -> Option<u8> {
    let b = p.as_bytes();
    if b[i] != b'%' || i + 2 >= b.len() || !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
        return None;
    }
    u8::from_str_radix(&p[i + 1..i + 3], 16).ok()
}

/// Near misses of `path`, including those a regex would accept if a literal weren't escaped.
fn mutate(r: &mut Rng, path: &str) -> String {
    let mut p = path.to_string();
    let segs: Vec<String> = p.split('/').skip(1).map(|s| s.to_string()).collect();
    let join = |s: &[String]| -> String { s.iter().map(|x| format!("/{}", x)).collect() };
    match r.below(24) {
        22 | 23 => p = format!("/{}", spice(r, &p[1.min(p.len())..])),
        0 => p.push('/'),
        1 => {
            if p.ends_with('/') && p.len() > 1 {
                p.pop();
            } else {
                p.push_str("/");
            }
        }
        2 => p = format!("/{}", p),
        3 => p = p.replacen('/', "//", r.range(1, 3)),
        4 => {
            // flip case of one letter
            let idx: Vec<usize> = p.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
            if !idx.is_empty() {
                let i = *r.pick(&idx);
                let c = p.as_bytes()[i] as char;
                let f = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                p.replace_range(i..i + 1, &f.to_string());
            }
        }
        5 => p.push_str(r.pick(&["x", ".", "%20", "0", "$", "a", "*", "\\n"])),
        6 => p = format!("/x{}", p),
        7 => p = format!("/{}{}", r.pick(&["x", ".", "^", "a"]), &p[1.min(p.len())..]),
        8 => {
            // another spelling of the same characters, as far as URIs are concerned
            match r.below(4) {
                0 => {
                    // undo one percent escape, or flip the case of its digits
                    let idx: Vec<usize> = (0..p.len()).filter(|i| escape_at(&p, *i).is_some()).collect();
                    if !idx.is_empty() {
                        let i = *r.pick(&idx);
                        let b = escape_at(&p, i).unwrap();
                        let up = format!("%{:02X}", b);
                        let new = match p[i..i + 3] == up {
                            true if r.pct(50) => format!("%{:02x}", b),
                            false if r.pct(50) => up,
                            _ if b < 0x80 => (b as char).to_string(),
                            _ => format!("%25{:02X}", b),
                        };
                        p.replace_range(i..i + 3, &new);
                    }
                }
                k => {
                    let idx: Vec<usize> = p
                        .char_indices()
                        .filter(|(i, c)| c.is_ascii() && *i > 0 && (k != 1 || !c.is_ascii_alphanumeric()))
                        .map(|(i, _)| i)
                        .collect();
                    if !idx.is_empty() {
                        let i = *r.pick(&idx);
                        let b = p.as_bytes()[i];
                        let e = if r.pct(50) { format!("%{:02X}", b) } else { format!("%{:02x}", b) };
                        p.replace_range(i..i + 1, &e);
                    }
                }
            }
        }
        9 => {
            if segs.len() > 1 {
                let i = r.below(segs.len());
                let mut s = segs.clone();
                s.remove(i);
                p = join(&s);
            }
        }
        10 => {
            if !segs.is_empty() {
                let i = r.below(segs.len());
                let mut s = segs.clone();
                let d = s[i].clone();
                s.insert(i, d);
                p = join(&s);
            }
        }
        11 => {
            let mut s = segs.clone();
            s.reverse();
            p = join(&s);
        }
        12 => {
            if !segs.is_empty() {
                let i = r.below(segs.len());
                let mut s = segs.clone();
                s.insert(i, r.pick(&["", ".", "..", "x"]).to_string());
                p = join(&s);
            }
        }
        13 => {
            // regex neighbours
            p = match r.below(8) {
                0 => p.replace('.', "x"),
                1 => p.replace('+', ""),
                2 => p.replace("a+b", "aab"),
                3 => p.replace("a*b", "b"),
                4 => p.replace('(', "").replace(')', ""),
                5 => p.replace("[a]", "a"),
                6 => p.replace("\\d", "5"),
                _ => p.replace("a|b", r.pick(&["a", "b"])),
            }
        }
        14 => p = p.replace('$', "").replace('^', ""),
        15 => p = p.to_uppercase(),
        16 => p = p.to_lowercase(),
        17 => {
            if !segs.is_empty() {
                let i = r.below(segs.len());
                let mut s = segs.clone();
                s[i] = r.pick(WEIRD).to_string();
                p = join(&s);
            }
        }
        18 => {
            if !segs.is_empty() {
                let i = r.below(segs.len());
                let mut s = segs.clone();
                s[i] = String::new();
                p = join(&s);
            }
        }
        19 => {
            // cut anywhere
            let cut = r.range(1, p.len().max(1));
            if p.is_char_boundary(cut) {
                p.truncate(cut);
            }
        }
        20 => p.push_str("/a/b/c"),
        _ => {
            // one character replaced
            let i = r.below(p.len().max(1));
            if i > 0 && p.is_char_boundary(i) && p.is_char_boundary(i + 1) {
                p.replace_range(i..i + 1, r.pick(&["a", "b", ".", "0", "/"]));
            }
        }
    }
    if p.is_empty() {
        p.push('/');
    }
    p
}

pub fn query_text(r: &mut Rng, t: Option<QTy>) -> Option<String> {
    let q = plain_query(r, t)?;
    Some(if r.pct(15) { spice(r, &q) } else { q })
}

fn plain_query(r: &mut Rng, t: Option<QTy>) -> Option<String> {
    let val = |r: &mut Rng| -> String {
        r.pick(&[
            "1", "255", "256", "-1", "x", "", "hello+world", "%20", "a%26b", "%zz", "%", "true", "false", "asc", "desc",
            "70000", "%E2%82%AC", "%FF", "=", "a=b", "4294967296", "+", "\\", "'", "a/b?c",
        ])
        .to_string()
    };
    let key = |r: &mut Rng| -> String {
        r.pick(&["a", "b", "order", "page-no", "flag", "c", "", "%61", "A", "a[]", "zz"]).to_string()
    };
    if r.pct(15) {
        return None;
    }
    if r.pct(12) {
        return Some(String::new());
    }
    if let Some(t) = t {
        if r.pct(60) {
            let s = match t.base {
                QBase::S1 | QBase::New => {
                    let a = if r.pct(80) { r.below(1000).to_string() } else { val(r) };
                    let b = val(r);
                    match r.below(4) {
                        0 => format!("b={}&a={}", b, a),
                        1 => format!("a={}&b={}&c=3", a, b),
                        _ => format!("a={}&b={}", a, b),
                    }
                }
                QBase::S2 => format!(
                    "{}{}{}",
                    if r.pct(50) { format!("a={}&", r.below(300)) } else { String::new() },
                    if r.pct(50) { format!("b={}&", val(r)) } else { String::new() },
                    if r.pct(50) { format!("flag={}", r.pick(&["true", "false", "1"])) } else { "z=1".into() }
                ),
                QBase::S3 => format!("order={}&page-no={}", r.pick(&["asc", "desc", "Asc"]), r.pick(&["0", "-5", "32767", "40000"])),
                QBase::PairsU => (0..r.range(0, 4)).map(|i| format!("{}k{}={}", if i > 0 { "&" } else { "" }, i, r.below(70000))).collect(),
                QBase::Unit => String::new(),
                QBase::Flat => format!("{}page={}&{}", r.pick(&["", "x=1&", "=&"]), r.pick(&["1", "x", ""]), r.pick(&["", "y=2", "page=3", "z"])),
                QBase::Trans => format!("a={}&flag={}", r.pick(&["1", "255", "256"]), r.pick(&["true", "false", "1"])),
                QBase::Enums => (0..r.range(0, 3)).map(|i| format!("{}{}={}", if i > 0 { "&" } else { "" }, r.pick(&["asc", "desc", "Asc", "as%63"]), r.pick(&["x", "1", ""]))).collect(),
                QBase::Nums => (0..r.range(0, 3)).map(|i| format!("{}{}={}", if i > 0 { "&" } else { "" }, r.pick(&["1", "255", "256", "+1", "01", "%31"]), r.pick(&["1.5", "-0", "inf", "NaN", "1e400", "", "x"]))).collect(),
                _ => (0..r.range(0, 5))
                    .map(|i| format!("{}{}={}", if i > 0 { "&" } else { "" }, key(r), val(r)))
                    .collect(),
            };
            return Some(s);
        }
    }
    if r.chance(1, 150) {
        // long, but well-formed
        let n = r.range(50, 1500);
        return Some(match t.map(|t| t.base) {
            Some(QBase::S1) | Some(QBase::New) => format!("{}=1&a=7&b={}", "c".repeat(n), "x".repeat(n * 8)),
            Some(QBase::PairsU) => (0..n).map(|i| format!("key{}={}&", i, i)).collect(),
            _ => (0..n).map(|i| format!("key{}=val%20{}&", i, i)).collect(),
        });
    }
    if r.pct(20) {
        return Some(
            r.pick(&["&", "&", "&&", "&&&", "a=1;b=2", ";", "+", "&=&", "%26", "a=1&", "&a=1&b=x", "=", "a", "a&b", "?", "??a=1", "a=1?b=2", "/users/1", "a=1&a=2&b=x", "%", "a=%F0%9F%98%80", "a==b", "&a=1&&b=2&"])
                .to_string(),
        );
    }
    let n = r.range(1, 4);
    Some(
        (0..n)
            .map(|i| format!("{}{}={}", if i > 0 { "&" } else { "" }, key(r), val(r)))
            .collect(),
    )
}

/// What clients and proxies send along; none of it means anything to hyperdrive.
const HEADERS: &[(&str, &[u8])] = &[
    ("content-type", b"application/json"),
    ("content-type", b"application/x-www-form-urlencoded"),
    ("content-type", b"application/x-www-form-urlencoded; charset=iso-8859-1"),
    ("content-type", b"application/json; charset=ISO-8859-1"),
    ("content-type", b"application/json; charset=utf-16"),
    ("content-type", b"text/plain"),
    ("content-type", b"text/html; charset=latin1"),
    ("content-type", b"multipart/form-data; boundary=x"),
    ("content-type", b"application/json\xe9"),
    ("content-type", b"\xff\xfe"),
    ("content-type", b""),
    ("content-type", b"*/*"),
    ("content-length", b"0"),
    ("content-length", b"3"),
    ("content-length", b"007"),
    ("content-length", b"999999"),
    ("content-length", b"18446744073709551615"),
    ("content-length", b"9223372036854775807"),
    ("content-length", b"-1"),
    ("content-length", b"x\xff"),
    ("content-encoding", b"gzip"),
    ("content-encoding", b"identity"),
    ("content-location", b"/a/b"),
    ("content-range", b"bytes 0-1/2"),
    ("content-md5", b"AAAA"),
    ("if-none-match", b"*"),
    ("if-match", b"\"x\""),
    ("if-modified-since", b"Thu, 01 Jan 1970 00:00:00 GMT"),
    ("range", b"bytes=0-0"),
    ("accept", b"*/*"),
    ("accept", b"application/json;q=0"),
    ("accept-encoding", b"gzip, br"),
    ("accept-charset", b"iso-8859-1"),
    ("accept-language", b"de"),
    ("authorization", b"Basic YTpi"),
    ("authorization", b"Bearer \xff"),
    ("cache-control", b"no-cache"),
    ("connection", b"close"),
    ("connection", b"keep-alive"),
    ("connection", b"upgrade, x-a"),
    ("connection", b""),
    ("keep-alive", b"timeout=5"),
    ("proxy-connection", b"close"),
    ("te", b"trailers"),
    ("trailer", b"x-a"),
    ("date", b"Thu, 01 Jan 1970 00:00:00 GMT"),
    ("from", b"a@b"),
    ("origin", b"null"),
    ("origin", b"http://evil.example"),
    ("referer", b"http://localhost/users/me"),
    ("user-agent", b"curl/7.0"),
    ("host", b"example.com"),
    ("host", b""),
    ("host", b"users"),
    ("cookie", b"a=1"),
    ("cookie", b"b=2"),
    ("x-a", b"\xff\x80"),
    ("x-a", b""),
    ("x-a", b" padded "),
    ("x-b", b"a, b,c"),
    ("x-original-url", b"/admin"),
    ("x-rewrite-url", b"/"),
    ("x-forwarded-prefix", b"/a"),
    ("x-forwarded-proto", b"https"),
    ("x-forwarded-for", b"127.0.0.1"),
    ("x-forwarded-host", b"users"),
    ("forwarded", b"for=1.2.3.4;proto=https"),
    ("via", b"1.1 x"),
    ("x-requested-with", b"XMLHttpRequest"),
    ("x-request-id", b"0"),
    ("transfer-encoding", b"chunked"),
    ("transfer-encoding", b"identity"),
    ("upgrade", b"websocket"),
    ("upgrade", b"h2c"),
    ("sec-websocket-key", b"AAAA"),
    ("expect", b"100-continue"),
    ("max-forwards", b"0"),
    ("dnt", b"1"),
    ("upgrade-insecure-requests", b"1"),
    ("pragma", b"no-cache"),
    ("prefer", b"return=minimal"),
];

/// A body which is long, and (where there's something to decode) well-formed.
fn long_body(r: &mut Rng, t: Option<BTy>) -> Vec<u8> {
    let n = *r.pick(&[70_000usize, 140_000, 1_100_000, 2_300_000]);
    match t {
        Some(BTy::JsonVec) => format!("[{}7]", "7,".repeat(n / 2)).into_bytes(),
        Some(BTy::JsonVal) | Some(BTy::JsonStr) | Some(BTy::JsonIgn) => format!("\"{}\"", "xyz\\u00e9".repeat(n / 9)).into_bytes(),
        Some(BTy::JsonS) => format!("{{\"a\": 1, {} \"b\": \"{}\"}}", " ".repeat(n / 2), "x".repeat(n / 2)).into_bytes(),
        Some(BTy::JsonOpt) => format!("{}7{}", " ".repeat(n / 2), "\n".repeat(n / 2)).into_bytes(),
        Some(BTy::FormPairs) => format!("{}z=1", "a=b%20c&".repeat(n / 8)).into_bytes(),
        Some(BTy::FormMap) => (0..n / 9).map(|i| format!("k{}=v&", i)).collect::<String>().into_bytes(),
        Some(BTy::FormS) => format!("a=7&b={}", "x".repeat(n)).into_bytes(),
        _ => {
            let b = r.u64() as u8;
            (0..n).map(|i| (i as u8).wrapping_mul(b)).collect()
        }
    }
}

pub fn body_bytes(r: &mut Rng, t: Option<BTy>) -> Vec<u8> {
    if r.chance(1, 1500) {
        return long_body(r, t);
    }
    let mut b = plain_body(r, t);
    if r.pct(8) {
        // around and inside of what's otherwise fine
        match r.below(11) {
            8 | 9 | 10 => {
                if let Ok(t) = std::str::from_utf8(&b) {
                    b = spice(r, t).into_bytes();
                }
            }
            0 => b = [&b"\xef\xbb\xbf"[..], &b].concat(),
            1 => b.extend(r.pick(&[&b"\n"[..], b"\r\n", b" ", b"\0", b"\t\t", b"\x0c", b"\xc2\xa0"]).iter()),
            2 => b.extend(r.pick(&[&b"x"[..], b"}", b"]", b",", b"null", b"&", b"=", b"{}"]).iter()),
            3 => b = [&r.pick(&[&b"\n"[..], b"\r\n", b" ", b"\0", b"&", b"?", b")]}',\n"])[..], &b].concat(),
            4 => b.insert(r.below(b.len() + 1), 0xe9),
            5 => b.insert(r.below(b.len() + 1), b'\n'),
            6 => b.clear(),
            _ => b = [&b[..], &b].concat(),
        }
    }
    b
}

fn plain_body(r: &mut Rng, t: Option<BTy>) -> Vec<u8> {
    let junk: &[&[u8]] = &[
        b"", b"{", b"null", b"[1,2", b"\xff\xfe", b"a=1&b=2", b"[1,2,3]", b"{\"a\":1,\"b\":\"x\"}", b"\"str\"", b"a=%zz", b" 1 2", b"[1] x",
        b"b=\xe2\x82\xac&a=7", b"\0\0\0", b"a=1", b"1e999", b"[[[[[[[[[[[[[[[[",
    ];
    if r.pct(20) {
        return r.pick(junk).to_vec();
    }
    let s = match t {
        Some(BTy::JsonVec) => {
            let n = r.range(0, 12);
            format!(
                "[{}]",
                (0..n).map(|_| r.below(1 << 20).to_string()).collect::<Vec<_>>().join(", ")
            )
        }
        Some(BTy::JsonS) => {
            let inner = |r: &mut Rng, d: &str| {
                format!(
                    "{{\"a\": {}, \"b\": \"{}\", \"c\": [{}], \"d\": {}}}",
                    r.below(100000),
                    r.pick(&["x", "hé€😀llo", "\\u0041\\n", "{}", "a=1&b=2"]),
                    (0..r.below(5)).map(|i| (i as i64 - 2).to_string()).collect::<Vec<_>>().join(","),
                    d
                )
            };
            let i = inner(r, "null");
            if r.pct(40) {
                inner(r, &i)
            } else {
                i
            }
        }
        Some(BTy::JsonVal) => r
            .pick(&[
                "{\"k\": [1, 2.5, null, true, {\"x\": \"y\"}], \"z\": -3}",
                "[]",
                "\"text with spaces and \\u20ac\"",
                "12345678901234567890",
                "{\"a\":{\"b\":{\"c\":[{}]}}}",
                " \n\t{ } ",
                "true",
                "-0.0",
                "[\"é\", \"€\", \"😀\"]",
            ])
            .to_string(),
        Some(BTy::FormPairs) => {
            let n = r.range(0, 6);
            (0..n)
                .map(|i| {
                    format!(
                        "{}{}={}",
                        if i > 0 { "&" } else { "" },
                        r.pick(&["a", "b", "k%20y", "x+y", ""]),
                        r.pick(&["1", "hello+world", "%E2%82%AC", "é", "", "a%3Db"])
                    )
                })
                .collect()
        }
        Some(BTy::FormUnit) => r.pick(&["", "", "a=1", "&"]).to_string(),
        Some(BTy::FormMap) => (0..r.range(0, 4))
            .map(|_| format!("{}={}&", r.pick(&["a", "b", "c%20", "\u{e9}", ""]), r.pick(&["1", "x+y", "%FF", "%", "\u{20ac}"])))
            .collect(),
        Some(BTy::FormNum) => format!("{}", r.pick(&["x=1&y=2.5", "y=-0&x=3", "x=1", "x=256&y=1", "x=1&y=NaN", "x=+1&y=1e3", "x=1&y=2&z=3", "x=1&x=2&y=1"])),
        Some(BTy::JsonOpt) => r.pick(&["null", "0", "255", "256", "", " null ", "-1", "1.0", "\"1\"", "nul"]).to_string(),
        Some(BTy::JsonStr) => r.pick(&["\"\"", "\"x\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\u{1f600}\"", "x", "null", "\"\\x\"", "\"a\nb\""]).to_string(),
        Some(BTy::JsonEnum) => r
            .pick(&["\"Unit\"", "{\"New\": 7}", "{\"New\": 300}", "{\"Tup\": [1, \"x\"]}", "{\"Rec\": {\"f\": 1.5}}", "{\"Rec\": {\"f\": 1, \"g\": 2}}", "\"Nope\"", "{\"Unit\": null}", "{\"New\": 1, \"New\": 2}", "{}"])
            .to_string(),
        Some(BTy::JsonIgn) => r.pick(&["null", "{\"a\": [1, {}]}", "[1,]", "{\"a\"}", "1 2", "\"\\ud800\"", "1e400", "[[[]]]"]).to_string(),
        Some(BTy::FormS) => format!("a={}&b={}", r.below(1000), r.pick(&["x", "hello+w%C3%B6rld", "", "é"])),
        _ => {
            let n = match r.below(5) {
                0 => 0,
                1 => r.range(200, 3000),
                _ => r.range(1, 40),
            };
            return (0..n).map(|_| r.u64() as u8).collect();
        }
    };
    let mut b = s.into_bytes();
    if r.pct(8) && !b.is_empty() {
        let cut = r.below(b.len());
        b.truncate(cut);
    }
    b
}

fn pends(r: &mut Rng, p: u32) -> Vec<Wake> {
    if !r.pct(p) {
        return vec![];
    }
    (0..r.range(1, 3))
        .map(|_| if r.pct(50) { Wake::Own } else { Wake::External })
        .collect()
}

pub fn body_kind(r: &mut Rng, bytes: Vec<u8>, o: &ReqOpts) -> BodyKind {
    match r.below(10) {
        0 | 1 if bytes.is_empty() => return BodyKind::Empty,
        0 | 1 | 2 => return BodyKind::Full(bytes),
        _ => {}
    }
    let mut items = vec![];
    let mut rest = &bytes[..];
    let style = *r.pick(if rest.len() > 50_000 { &[0, 1, 3] } else { &[0, 1, 2] });
    // thousands of chunks don't need a pause before each
    let few = rest.len() > 20_000;
    while !rest.is_empty() {
        if !few || r.pct(1) {
            for p in pends(r, o.pend) {
                items.push(Item::Pend(p));
            }
        }
        if r.pct(6) {
            items.push(Item::Chunk(vec![]));
        }
        let n = match style {
            0 => 1.max(rest.len().min(1 + rest.len() / 40)),
            1 => r.range(1, rest.len()),
            3 => rest.len().min(1 + bytes.len() / 20_000),
            _ => r.range(1, rest.len().min(7)),
        };
        items.push(Item::Chunk(rest[..n].to_vec()));
        rest = &rest[n..];
    }
    for p in pends(r, o.pend) {
        items.push(Item::Pend(p));
    }
    let nonce = r.u64() % 100_000;
    if r.pct(o.stream_err) {
        let i = r.below(items.len() + 1);
        items.truncate(i);
        items.push(Item::Err(nonce));
    } else if r.pct(o.hang) {
        let i = r.below(items.len() + 1);
        items.truncate(i);
        items.push(Item::Hang);
    } else if r.pct(o.panic) {
        let i = r.below(items.len() + 1);
        items.truncate(i);
        items.push(Item::Panic(nonce));
    }
    BodyKind::Stream(items)
}

/// Now and then, a status that the tree under test mentions.
fn dict_status(r: &mut Rng) -> Option<u16> {
    let fit: Vec<usize> = dict().numbers.iter().copied().filter(|n| *n >= 100 && *n <= 599).collect();
    if fit.is_empty() || !r.pct(25) {
        return None;
    }
    Some(*r.pick(&fit) as u16)
}

/// Any status an error may have, other than that of `wrong_method`.
fn error_status(r: &mut Rng) -> u16 {
    if let Some(s) = dict_status(r) {
        if s >= 400 && s != 405 {
            return s;
        }
    }
    if r.pct(50) {
        return *r.pick(&[400, 401, 403, 404, 418, 500, 503, 599]);
    }
    loop {
        let s = if r.pct(70) { *r.pick(&[402, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 421, 422, 423, 424, 426, 428, 429, 431, 451, 501, 502, 504, 505, 506, 507, 508, 510, 511]) } else { r.range(400, 599) as u16 };
        if s != 405 {
            return s;
        }
    }
}

fn out(r: &mut Rng, o: &ReqOpts, allow_405: bool) -> Out {
    let code = r.u64() % 1_000_000;
    if r.pct(o.panic) {
        return if r.pct(50) { Out::Panic(code) } else { Out::PanicCall(code) };
    }
    if !r.pct(o.step_err) {
        return Out::Ok;
    }
    match r.below(if allow_405 { 6 } else { 4 }) {
        0 | 1 => Out::Err(code),
        2 => Out::Hyper(error_status(r)),
        3 => Out::HyperSrc(error_status(r), format!("source {}", code)),
        _ => {
            let mut ms: Vec<&'static str> = METHODS.to_vec();
            r.shuffle(&mut ms);
            ms.truncate(r.below(4));
            Out::Wrong(ms)
        }
    }
}

/// What a response may say; none of it is hyperdrive's business.
const RESPONSE_HEADERS: &[(&str, &[u8])] = &[
    ("content-length", b"0"),
    ("content-length", b"5"),
    ("content-length", b"12345"),
    ("content-length", b"x"),
    ("transfer-encoding", b"chunked"),
    ("transfer-encoding", b"gzip, chunked"),
    ("connection", b"close"),
    ("connection", b"upgrade"),
    ("keep-alive", b"timeout=5"),
    ("upgrade", b"websocket"),
    ("trailer", b"x-t"),
    ("te", b"trailers"),
    ("date", b"Thu, 01 Jan 1970 00:00:00 GMT"),
    ("server", b"x"),
    ("via", b"1.1 x"),
    ("content-encoding", b"gzip"),
    ("content-language", b"de"),
    ("content-location", b"/a"),
    ("content-range", b"bytes 0-1/2"),
    ("content-type", b""),
    ("content-type", b"application/json"),
    ("content-disposition", b"attachment"),
    ("content-md5", b"AAAA"),
    ("content-security-policy", b"default-src 'none'"),
    ("cache-control", b"no-store"),
    ("cache-control", b"private"),
    ("pragma", b"no-cache"),
    ("expires", b"0"),
    ("age", b"7"),
    ("etag", b"W/\"x\""),
    ("last-modified", b"Thu, 01 Jan 1970 00:00:00 GMT"),
    ("vary", b"*"),
    ("accept-ranges", b"bytes"),
    ("allow", b""),
    ("allow", b"GET, HEAD"),
    ("location", b"http://example.com/\xff"),
    ("refresh", b"0"),
    ("retry-after", b"5"),
    ("warning", b"199 - \"x\""),
    ("www-authenticate", b"Basic"),
    ("proxy-authenticate", b"Basic"),
    ("link", b"</a>; rel=next"),
    ("strict-transport-security", b"max-age=0"),
    ("access-control-allow-origin", b"*"),
    ("access-control-allow-methods", b"GET"),
    ("x-powered-by", b"x"),
    ("x-frame-options", b"DENY"),
    ("x-content-type-options", b"nosniff"),
    ("x-panic", b"0"),
    ("x-error", b"1"),
    ("x-request-id", b"7"),
    ("x-method", b"GET"),
    ("set-cookie", b""),
    ("status", b"404"),
];

fn handler_plan(r: &mut Rng, o: &ReqOpts) -> HPlan {
    let mut headers = vec![];
    for _ in 0..r.weighted(&[3, 2, 1, 1]) {
        let (n, v): (&str, &[u8]) = if r.pct(40) { *r.pick(RESPONSE_HEADERS) } else { *r.pick(&[
            ("content-type", &b"text/html"[..]),
            ("set-cookie", b"a=1"),
            ("set-cookie", b"b=\xff"),
            ("allow", b"FOO"),
            ("etag", b"\"x\""),
            ("x-resp", b""),
            ("location", b"/a"),
        ]) };
        headers.push((n.to_string(), v.to_vec()));
    }
    if !dict().words.is_empty() && r.pct(20) {
        let n = header_name(r).unwrap_or_else(|| r.pick(RESPONSE_HEADERS).0.to_string());
        let v = header_value(r);
        headers.push((n, v));
    }
    let n = r.below(60);
    let bytes: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    HPlan {
        pends: pends(r, o.pend),
        out: out(r, o, true),
        status: match dict_status(r) {
            Some(s) => s,
            None => match r.below(4) {
            0 => *r.pick(&[204, 205, 304, 203, 207, 100, 101, 302, 410, 413, 416, 431, 501, 503, 505]),
            1 => 100 + (r.u64() % 500) as u16,
            _ => *r.pick(&[200, 200, 201, 202, 206, 299, 301, 400, 404, 405, 418, 500, 599]),
            },
        },
        headers,
        version: *r.pick(&[http::Version::HTTP_11, http::Version::HTTP_11, http::Version::HTTP_10, http::Version::HTTP_2]),
        ext: if r.pct(40) { Some(r.u64()) } else { None },
        body: match r.below(4) {
            0 => None,
            1 | 2 => Some(Err(bytes)),
            _ => {
                let mut o2 = *o;
                o2.panic = 0;
                o2.hang = 0;
                match body_kind(r, bytes, &o2) {
                    BodyKind::Stream(i) => Some(Ok(i)),
                    BodyKind::Full(b) => Some(Err(b)),
                    BodyKind::Empty => None,
                }
            }
        },
        yields: r.below(4),
    }
}

/// `(type index, variant, route)` of all routes reachable from type `ti`.
fn reachable<'a>(case: &'a CaseSpec, ti: usize, out: &mut Vec<(usize, &'a VarSpec, &'a Route)>) {
    for v in &case.types[ti].vars {
        for r in &v.routes {
            out.push((ti, v, r));
        }
        if let Some(f) = v.forward() {
            if let Role::Forward(FwTy::Type(i)) = f.role {
                reachable(case, i, out);
            }
        }
    }
}

pub fn gen_req(r: &mut Rng, case: &CaseSpec, ti: usize, o: &ReqOpts) -> Req {
    let mut all = vec![];
    reachable(case, ti, &mut all);
    let own: Vec<_> = all.iter().filter(|x| x.0 == ti).cloned().collect();
    let pool = if !own.is_empty() && r.pct(60) { &own } else { &all };
    let target = if pool.is_empty() { None } else { Some(*r.pick(pool)) };

    let mut path = match target {
        Some((_, v, route)) => path_for(r, v, &route.pat, o.seg_bad),
        None => format!("/{}", r.pick(WEIRD)),
    };
    if r.pct(o.mutate) {
        path = mutate(r, &path);
        if r.pct(20) {
            path = mutate(r, &path);
        }
    } else if r.pct(4) {
        path = (0..r.range(1, 4)).map(|_| format!("/{}", r.pick(WEIRD))).collect();
    }
    if path != "*" {
        if !path.starts_with('/') {
            path = format!("/{}", path);
        }
        path = sanitize(&path);
    }
    if r.pct(2) {
        path = r.pick(&["*", "/*", "/", "//", "/%2A"]).to_string();
    }

    let method = match target {
        Some((_, _, route)) if !r.pct(o.wrong_method) => {
            if route.method == "GET" && r.pct(30) {
                "HEAD".to_string()
            } else {
                route.method.to_string()
            }
        }
        _ => match r.below(8) {
            0 => r
                .pick(&["get", "Get", "PROPFIND", "FOO", "M-SEARCH", "GETT", "GE", "head", "post", "X", "PATCHY", "!", "connect"])
                .to_string(),
            1 | 2 => "HEAD".to_string(),
            3 => "GET".to_string(),
            _ => r.pick(METHODS).to_string(),
        },
    };

    // what the targeted variant wants
    let (qt, bt) = match target {
        Some((_, v, _)) => (
            v.query().map(|f| match f.role {
                Role::Query(q) => q,
                _ => unreachable!(),
            }),
            v.body().map(|f| match f.role {
                Role::Body(b) => b,
                _ => unreachable!(),
            }),
        ),
        None => (None, None),
    };
    let query = query_text(r, qt);
    let mut target = path.clone();
    if let Some(q) = &query {
        let q: String = q
            .bytes()
            .map(|b| match b {
                0x21 | 0x24..=0x3B | 0x3D | 0x3F..=0x5F | 0x61..=0x7A | 0x7C | 0x7E => (b as char).to_string(),
                _ => format!("%{:02X}", b),
            })
            .collect();
        target.push('?');
        target.push_str(&q);
    }
    if path.starts_with('/') && r.pct(10) {
        target = format!(
            "{}://{}{}",
            r.pick(&["http", "https"]),
            r.pick(&["localhost", "example.com:8080", "users", "127.0.0.1"]),
            target
        );
    } else if r.pct(1) {
        target = r.pick(&["example.com:80", "users", "localhost"]).to_string();
    }

    let mut headers: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..r.weighted(&[3, 2, 2, 1, 1, 1]) {
        if r.pct(12) {
            // one field whose value others of this request contradict or agree with
            let m = r.pick(METHODS).to_string();
            let n = r.pick(&["x-http-method-override", "x-http-method", "x-method-override", "access-control-request-method", "allow"]);
            headers.push((n.to_string(), m.into_bytes()));
            continue;
        }
        let (n, v) = *r.pick(HEADERS);
        let v = match r.below(10) {
            // any field may have any value
            0 => r.pick(HEADERS).1.to_vec(),
            1 => match r.below(6) {
                0 => vec![0xff],
                1 => b"caf\xe9".to_vec(),
                2 => vec![],
                3 => vec![*r.pick(&[b'a', b',', b';', b'=', b'"', 0xe9]); r.range(1, 4000)],
                4 => "\u{20ac} \u{1f600}".as_bytes().to_vec(),
                _ => spice(r, &String::from_utf8_lossy(v)).into_bytes().into_iter().filter(|b| *b >= 32 && *b != 127).collect(),
            },
            _ => v.to_vec(),
        };
        headers.push((n.to_string(), v));
    }
    let bytes = body_bytes(r, bt);
    let body = body_kind(r, bytes, o);
    let plan = Plan {
        guards: (0..12)
            .map(|_| StepPlan {
                pends: pends(r, o.pend),
                out: out(r, o, false),
                read: true,
            })
            .collect(),
        body: StepPlan {
            pends: pends(r, o.pend),
            out: out(r, o, false),
            read: r.pct(85),
        },
        probes: (0..2)
            .map(|_| StepPlan {
                pends: pends(r, o.pend),
                out: {
                    let mut o2 = *o;
                    o2.step_err = o.step_err * 3;
                    out(r, &o2, true)
                },
                read: r.pct(60),
            })
            .collect(),
        handler: handler_plan(r, o),
        panic: PPlan { kind: r.below(4) as u8 },
    };
    let mut q = Req {
        method,
        target,
        headers,
        version: *r.pick(&[
            http::Version::HTTP_11,
            http::Version::HTTP_11,
            http::Version::HTTP_10,
            http::Version::HTTP_2,
            http::Version::HTTP_09,
        ]),
        body,
        plan,
        nonce: 1000 + (r.u64() % 1_000_000) * 100,
    };
    if r.pct(o.hostile) {
        for _ in 0..r.range(1, 2) {
            make_hostile(r, &mut q, bt);
        }
    }
    if !dict().is_empty() && r.pct(25) {
        for _ in 0..r.weighted(&[0, 5, 2, 1]) {
            sprinkle(r, &mut q);
        }
    }
    q
}

/// A word of the tree under test that can be a header's name.
fn header_name(r: &mut Rng) -> Option<String> {
    let w = dict().word(r)?.to_lowercase();
    let w = if r.pct(20) { format!("x-{}", w) } else { w };
    http::header::HeaderName::from_bytes(w.as_bytes()).ok().map(|n| n.as_str().to_string())
}

/// A value, likely one of the words of the tree under test.
fn header_value(r: &mut Rng) -> Vec<u8> {
    let v: Vec<u8> = match r.below(6) {
        0 | 1 => dict().word(r).unwrap_or_default().into_bytes(),
        2 => r.pick(METHODS).as_bytes().to_vec(),
        3 => r.pick(&["", "0", "1", "2", "3", "7", "42", "true", "false", "yes", "close", "a", "*", "-1", "100"]).as_bytes().to_vec(),
        4 => match dict().number(r, 100_000) {
            Some(n) => n.to_string().into_bytes(),
            None => r.below(1000).to_string().into_bytes(),
        },
        _ => r.pick(HEADERS).1.to_vec(),
    };
    v.into_iter().filter(|b| *b >= 32 && *b != 127).collect()
}

/// Puts words of the tree under test into the request, or makes something as big as one of its numbers.
fn sprinkle(r: &mut Rng, q: &mut Req) {
    let (path, query) = split_target(&q.target);
    let origin = q.target.starts_with('/');
    let fits = |r: &mut Rng, q: &mut Req, path: String, query: Option<String>| {
        if origin {
            let t = match query {
                Some(x) => format!("{}?{}", path, x.bytes().map(|b| match b {
                    0x21 | 0x24..=0x3B | 0x3D | 0x3F..=0x5F | 0x61..=0x7A | 0x7C | 0x7E => (b as char).to_string(),
                    _ => format!("%{:02X}", b),
                }).collect::<String>()),
                None => path,
            };
            if t.len() < 65_000 {
                q.target = t;
            }
        } else {
            let _ = r;
        }
    };
    if !dict().words.is_empty() && r.pct(65) {
        let w = dict().word(r).unwrap();
        match r.below(9) {
            0 => {
                let mut segs: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
                let i = r.below(segs.len());
                let w = sanitize(&w.trim_matches('/'));
                match r.below(4) {
                    0 if i > 0 => segs.insert(i, w),
                    1 => segs.push(w),
                    2 => {
                        let t = format!("{}{}", segs[i], w);
                        let l = segs.len();
                        if i > 0 { segs[i] = t } else { segs[l - 1].push_str(&w) }
                    }
                    _ => {
                        let l = segs.len();
                        segs[if i > 0 { i } else { l - 1 }] = w
                    }
                }
                fits(r, q, segs.join("/"), query)
            }
            1 => {
                let old = query.unwrap_or_default();
                let v = match r.below(4) {
                    0 => String::new(),
                    1 => r.pick(METHODS).to_string(),
                    2 => dict().word(r).unwrap(),
                    _ => r.below(20).to_string(),
                };
                let pair = match r.below(5) {
                    0 => w.clone(),
                    1 => format!("x={}", w),
                    _ => format!("{}={}", w, v),
                };
                let x = match r.below(3) {
                    _ if old.is_empty() => pair,
                    0 => format!("{}&{}", pair, old),
                    1 => format!("{}{}", old, w),
                    _ => format!("{}&{}", old, pair),
                };
                fits(r, q, path, Some(x))
            }
            2 => {
                if http::Method::from_bytes(w.as_bytes()).is_ok() {
                    q.method = w;
                }
            }
            3 => {
                let b = w.as_bytes();
                match &mut q.body {
                    BodyKind::Full(x) => {
                        let i = r.below(x.len() + 1);
                        x.splice(i..i, b.iter().copied());
                    }
                    BodyKind::Stream(items) => {
                        let i = r.below(items.len() + 1);
                        items.insert(i, Item::Chunk(b.to_vec()));
                    }
                    e => *e = BodyKind::Full(b.to_vec()),
                }
            }
            4 => {
                let i = r.below(q.headers.len() + 1);
                let n = r.pick(HEADERS).0.to_string();
                q.headers.insert(i, (n, header_value(r)));
            }
            _ => {
                // one field, twice, or one and another
                for _ in 0..r.weighted(&[0, 5, 1, 1]) {
                    if let Some(n) = header_name(r) {
                        let v = header_value(r);
                        q.headers.push((n, v));
                    }
                }
            }
        }
        return;
    }
    match r.below(8) {
        0 | 1 => {
            if let Some(n) = dict().number(r, 1 << 21) {
                let old = match &q.body {
                    BodyKind::Full(x) if !x.is_empty() => x.clone(),
                    _ => b"a=1&".to_vec(),
                };
                // padding which a form and JSON both may have where it stands
                let bytes: Vec<u8> = match r.below(3) {
                    0 if old.len() < n => [&old[..], &vec![b' '; n - old.len()][..]].concat(),
                    1 => vec![b'a'; n],
                    _ => old.iter().copied().cycle().take(n).collect(),
                };
                q.body = if r.pct(50) {
                    BodyKind::Full(bytes)
                } else {
                    let k = r.range(1, bytes.len().max(1));
                    BodyKind::Stream(bytes.chunks(k).map(|c| Item::Chunk(c.to_vec())).collect())
                };
            }
        }
        2 => {
            if let Some(n) = dict().number(r, 20_000) {
                let mut left = n;
                if let BodyKind::Full(x) = &q.body {
                    let x = x.clone();
                    let k = (x.len() / n.max(1)).max(1);
                    let mut items: Vec<Item> = x.chunks(k).map(|c| Item::Chunk(c.to_vec())).collect();
                    left = left.saturating_sub(items.len());
                    items.extend((0..left).map(|_| Item::Chunk(if r.pct(50) { vec![] } else { vec![b' '] })));
                    q.body = BodyKind::Stream(items);
                }
            }
        }
        3 => {
            if let Some(n) = dict().number(r, 60_000) {
                let mut x = query.unwrap_or_default();
                while x.len() < n {
                    x.push(*r.pick(&['a', 'a', 'a', '&', '=', '1']));
                }
                fits(r, q, path, Some(x))
            }
        }
        4 => {
            if let Some(n) = dict().number(r, 5_000) {
                let x = (0..n).map(|i| format!("k{}={}", i, r.below(9))).collect::<Vec<_>>().join("&");
                fits(r, q, path, Some(x))
            }
        }
        5 => {
            if let Some(n) = dict().number(r, 60_000) {
                let mut segs: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
                let i = segs.len() - 1;
                let l = segs[i].len();
                segs[i].push_str(&"a".repeat(n.saturating_sub(l)));
                fits(r, q, segs.join("/"), query)
            }
        }
        6 => {
            if let Some(n) = dict().number(r, 10_000) {
                let k = path.split('/').count();
                let p = format!("{}{}", path, r.pick(&["/a", "/", "/9"]).repeat(n.saturating_sub(k)));
                fits(r, q, p, query)
            }
        }
        _ => {
            if let Some(n) = dict().number(r, 8_000) {
                if r.pct(50) && n < 200 {
                    let k = q.headers.len();
                    for i in k..n {
                        q.headers.push((format!("x-{}", i % 50), b"v".to_vec()));
                    }
                } else {
                    let (h, _) = *r.pick(HEADERS);
                    q.headers.push((h.to_string(), vec![b'v'; n]));
                }
            }
        }
    }
}

/// Extreme but representable requests.
fn make_hostile(r: &mut Rng, q: &mut Req, bt: Option<BTy>) {
    let (path, query) = split_target(&q.target);
    let path = if path.starts_with('/') { path } else { "/".to_string() };
    let set = |q: &mut Req, path: String, query: Option<String>| {
        q.target = match query {
            Some(x) => format!("{}?{}", path, x),
            None => path,
        };
        // http::Uri takes at most 65534 bytes
        let mut n = q.target.len().min(65_000);
        while !q.target.is_char_boundary(n) {
            n -= 1;
        }
        q.target.truncate(n);
    };
    let big = *r.pick(&[300usize, 4_000, 20_000, 60_000]);
    match r.below(16) {
        0 => {
            // one segment becomes very long
            let mut segs: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
            let i = r.range(1, segs.len() - 1);
            let unit = *r.pick(&["a", "9", "%", "%E2%82%AC", ".", "-", "%00", "0", "\\", "(a|", "[[", "+"]);
            segs[i] = unit.repeat(big / unit.len() + 1);
            set(q, segs.join("/"), query)
        }
        1 => {
            let unit = *r.pick(&["/", "/a", "/..", "/.", "/%2F", "/;", "//"]);
            let tail = unit.repeat(big / unit.len() + 1);
            let p = if r.pct(50) { format!("{}{}", path, tail) } else { format!("{}{}", tail, path) };
            set(q, p, query)
        }
        2 => {
            // every byte the URI type may take
            let mut segs: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
            let i = r.range(1, segs.len() - 1);
            segs[i] = (0..r.range(1, 12)).map(|_| (0x21 + r.below(0x5e) as u8) as char).filter(|c| *c != '/' && *c != '?' && *c != '#').collect();
            set(q, segs.join("/"), query)
        }
        3 => {
            let segs: Vec<String> = path
                .split('/')
                .map(|s| if s.is_empty() { s.to_string() } else { r.pick(&["%", "%%", "%zz", "%0", "%FF", "%C0%80", "%ED%A0%80", "%00", "-0", "+1", "0x10", "1e400", "NaN", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "18446744073709551616", "00000000000000000000000000000000000000000000001", "1_000", "::ffff:1.2.3.4", "1.2.3.4.5", "tRUE"]).to_string() })
                .collect();
            set(q, segs.join("/"), query)
        }
        4 => {
            let unit = *r.pick(&["a=1&", "&", "=&", "a[]=1&", "%=&", "a=%&", "a=%FF&", "b=x&", "a=%00&", "+", "=", "a=1;", "%E2%82&"]);
            let x = unit.repeat(big / unit.len() + 1);
            set(q, path, Some(x))
        }
        5 => {
            let x: String = (0..r.range(1, 60)).map(|_| (0x21 + r.below(0x5e) as u8) as char).filter(|c| *c != '#').collect();
            set(q, path, Some(x))
        }
        6 => {
            let x = format!("a={}&b={}", r.pick(&["4294967296", "-1", "1e9", "", "%31", "99999999999999999999999999"]), r.pick(&["%FF%FE", "%", "%E2%82", "%u1234", "\u{e9}"]));
            set(q, path, Some(x.chars().filter(|c| c.is_ascii()).collect()))
        }
        7 => {
            q.method = r
                .pick(&["!#$%&'*+-.^_`|~", "GET.", "get", "CONNECT", "TRACE", "PRI", "OPTIONSX", "\u{1}"])
                .to_string();
            if r.pct(40) {
                q.method = r.pick(&["G", "GET", "HEAD", "-"]).repeat(r.range(1, 2000));
            }
        }
        8 => {
            for i in 0..r.range(1, 60) {
                let v: Vec<u8> = (0..r.below(40)).map(|_| *r.pick(&[b' ', b'a', 0xff, 0x80, b'\t', b'"', b',', b';'])).collect();
                q.headers.push((format!("x-{}", i % 7), v));
            }
        }
        9 => {
            let v = vec![b'v'; r.range(1, 8_000)];
            q.headers.push(("content-type".into(), v));
            if r.pct(50) {
                q.headers.push(("content-length".into(), r.pick(&["18446744073709551615", "9223372036854775808", "4611686018427387904"]).as_bytes().to_vec()));
            }
            q.headers.push(("content-length".into(), b"-5".to_vec()));
            q.headers.push(("content-length".into(), b"18446744073709551616".to_vec()));
        }
        10 | 11 | 12 => {
            let n = *r.pick(&[10usize, 127, 128, 129, 1_000, 30_000]);
            let bytes: Vec<u8> = match r.below(12) {
                0 => vec![b'['; n],
                1 => b"{\"a\":".repeat(n),
                2 => [&b"[".repeat(n)[..], &b"]".repeat(n)[..]].concat(),
                3 => b"1e999999".to_vec(),
                4 => b"\"\\ud800\"".to_vec(),
                5 => b"\"\xff\xfe\"".to_vec(),
                6 => [&b"\""[..], &vec![b'x'; n * 10][..], &b"\""[..]].concat(),
                7 => vec![b'9'; n],
                8 => b"a=1&".repeat(n),
                9 => vec![b'%'; n],
                10 => vec![0; n],
                _ => (0..n).map(|_| r.u64() as u8).collect(),
            };
            let o = ReqOpts {
                stream_err: 5,
                hang: 0,
                ..ReqOpts::default()
            };
            q.body = if bt.is_some() || r.pct(30) { body_kind(r, bytes, &o) } else { BodyKind::Full(bytes) };
        }
        13 => {
            q.target = r
                .pick(&["http://[::1]:80/a", "http://a@b:1/", "http://example.com", "http://example.com?x", "https://x/", "a", "a:b", "[::1]:9", "*", "/?", "/??", "/#a", "http://users:0/a/b/c", "http://-/"])
                .to_string();
        }
        14 => {
            q.version = *r.pick(&[http::Version::HTTP_09, http::Version::HTTP_10, http::Version::HTTP_2]);
            q.target = format!("http://{}{}", r.pick(&["a:1", "[::]", "u:p@h:1", "xn--a"]), path);
        }
        _ => {
            let x = path.repeat(r.range(2, 30));
            set(q, x, query)
        }
    }
}
