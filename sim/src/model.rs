//! The reference: what a correct server does with the bytes a client sends. Written from the
//! documentation and the properties, sharing no code with the server.
use crate::app::{identify, Ext, View};
use crate::plan::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    /// a complete well-formed request: its chain runs
    Valid,
    /// to be answered with one of these, without running anything
    Refuse(Vec<u16>),
    /// ends before the request is complete
    Incomplete,
    /// outside of what the properties speak about
    Unspec,
}

#[derive(Clone, Debug)]
pub struct ChainItem {
    pub route: u32,
    pub vars: BTreeMap<String, String>,
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub class: Class,
    pub view: Option<View>,
    pub cookies_unspec: bool,
    pub query_unspec: bool,
    /// what runs, in order
    pub chain: Vec<ChainItem>,
    /// everything that matches method and path, wherever the chain stops
    pub matching: Vec<u32>,
    /// bytes of head and body
    pub need: usize,
    /// bytes the client delivers in all (plain connections)
    pub delivered: usize,
    /// a refusal that may come only after the body has arrived
    pub may_wait: bool,
    pub panics: bool,
}

pub fn faithful() -> bool {
    cfg!(feature = "f_faithful")
}

fn is_token(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}

pub fn normalise(p: &str) -> Option<Vec<String>> {
    let mut v: Vec<String> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop()?;
            }
            x => v.push(x.to_string()),
        }
    }
    Some(v)
}

fn unhex(s: &str) -> String {
    String::from_utf8_lossy(&unhex_bytes(s)).into_owned()
}
/// percent escapes stand for the bytes of UTF-8
fn unhex_bytes(s: &str) -> Vec<u8> {
    let c = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] == b'%' && i + 2 < c.len() && c[i + 1].is_ascii_hexdigit() && c[i + 2].is_ascii_hexdigit() {
            let d = |b: u8| (b as char).to_digit(16).unwrap() as u8;
            o.push(d(c[i + 1]) * 16 + d(c[i + 2]));
            i += 3;
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

fn query_map(q: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for t in q.split('&') {
        if t.is_empty() {
            continue;
        }
        match t.find('=') {
            Some(0) => {}
            Some(i) => {
                m.insert(unhex(&t[..i]), unhex(&t[i + 1..]));
            }
            None => {
                m.insert(unhex(t), String::new());
            }
        }
    }
    m
}

fn query_ext(q: &str) -> BTreeMap<String, Ext> {
    let mut m: BTreeMap<String, Ext> = BTreeMap::new();
    for t in q.split('&') {
        if t.is_empty() {
            continue;
        }
        let (n, v) = match t.find('=') {
            Some(0) => continue,
            Some(i) => (&t[..i], unhex(&t[i + 1..])),
            None => {
                m.insert(unhex(t), Ext::Str(String::new()));
                continue;
            }
        };
        if let (true, Some(b)) = (n.ends_with(']'), n.rfind('[')) {
            let (name, key) = (n[..b].to_string(), n[b + 1..n.len() - 1].to_string());
            if key.is_empty() {
                if let Ext::Arr(a) = m.entry(name).or_insert_with(|| Ext::Arr(vec![])) {
                    a.push(v);
                }
            } else if let Ext::Obj(o) = m.entry(name).or_insert_with(|| Ext::Obj(BTreeMap::new())) {
                o.insert(key, v);
            }
            continue;
        }
        m.insert(unhex(n), Ext::Str(v));
    }
    // one name in several forms: what becomes of it is open, of the others it is not
    let mut form: BTreeMap<String, u8> = BTreeMap::new();
    for t in q.split('&') {
        let n = t.split('=').next().unwrap_or("");
        let (name, f) = match (n.ends_with(']'), n.rfind('[')) {
            (true, Some(b)) => (n[..b].to_string(), if b + 2 == n.len() { 1 } else { 2 }),
            _ => (unhex(n), 0),
        };
        let was = *form.entry(name.clone()).or_insert(f);
        if was != f {
            m.insert(name, Ext::Open);
        }
    }
    m
}

fn unspec_query(q: &str) -> bool {
    if !q.is_ascii() || q.contains('#') {
        return true;
    }
    // escapes that do not make up UTF-8
    if q.split(|c| c == '&' || c == '=').any(|t| String::from_utf8(unhex_bytes(t)).is_err()) {
        return true;
    }
    // names in brackets are not unescaped, mixed forms are left open
    q.split('&').any(|t| {
        let n = t.split('=').next().unwrap_or("");
        (n.contains('[') || n.contains(']')) && (n.contains('%') || !t.contains('=') || n.starts_with('['))
    })
}

fn cookie_list(v: &str) -> Vec<(String, String)> {
    let mut o = vec![];
    for t in v.split("; ") {
        if let Some(i) = t.find('=') {
            let n = t[..i].trim();
            if !n.is_empty() {
                o.push((n.to_string(), t[i + 1..].trim().to_string()));
            }
        }
    }
    o
}

const KNOWN: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT"];

pub struct Parsed {
    pub class: Class,
    pub view: Option<View>,
    pub cookies_unspec: bool,
    pub query_unspec: bool,
    pub need: usize,
    pub may_wait: bool,
}

/// Judges a byte stream that is everything the server will ever get on a connection.
pub fn parse(b: &[u8]) -> Parsed {
    let mut p =
        Parsed { class: Class::Incomplete, view: None, cookies_unspec: false, query_unspec: false, need: usize::MAX, may_wait: false };
    let end = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(e) => e,
        None => return p,
    };
    p.need = end + 4;
    let bad = |mut p: Parsed, v: &[u16]| {
        p.class = Class::Refuse(v.to_vec());
        p
    };
    let unspec = |mut p: Parsed| {
        p.class = Class::Unspec;
        p
    };
    let head = match std::str::from_utf8(&b[..end]) {
        Ok(h) => h,
        Err(_) => return bad(p, &[400]),
    };
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap();
    let toks: Vec<&str> = first.split(' ').collect();
    if toks.len() < 3 {
        // whatever else is wrong
        return bad(p, &[400]);
    }
    // headers
    let mut headers: BTreeMap<String, String> = BTreeMap::new();
    let mut raw = vec![];
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let mut open = false;
    for l in lines {
        let i = match l.find(':') {
            Some(i) => i,
            None => return bad(p, &[400]),
        };
        let name = &l[..i];
        if name.is_empty() {
            return bad(p, &[400]);
        }
        if !name.chars().all(is_token) {
            if faithful() {
                return bad(p, &[400]);
            }
            open = true;
        }
        let val = l[i + 1..].trim_matches([' ', '\t']);
        if val.chars().any(|c| (c as u32) < 0x20 && c != '\t' || c == '\x7f') {
            if faithful() {
                return bad(p, &[400]);
            }
            open = true;
        }
        let k = name.to_ascii_lowercase();
        *seen.entry(k.clone()).or_insert(0) += 1;
        headers
            .entry(k)
            .and_modify(|v| {
                v.push_str(", ");
                v.push_str(val);
            })
            .or_insert_with(|| val.to_string());
        raw.push((name.to_string(), val.to_string()));
    }
    // request line
    let (method, target, version) = (toks[0], toks[1], toks[2]);
    let known = KNOWN.contains(&method);
    let refusals: &[u16] = if known { &[400] } else { &[400, 501] };
    if toks.len() > 3 {
        return if faithful() { bad(p, refusals) } else { unspec(p) };
    }
    if !version.starts_with("HTTP/") {
        if faithful() || version.len() < 5 {
            return bad(p, refusals);
        }
        open = true;
    }
    let (path, query) = match target.find('?') {
        Some(i) => (&target[..i], &target[i + 1..]),
        None => (target, ""),
    };
    let chunks = match normalise(path) {
        Some(c) => c,
        None => return bad(p, refusals),
    };
    let ver = version.get(5..).unwrap_or("");
    let (v11, v10) = (version == "HTTP/1.1", version == "HTTP/1.0");
    if !v11 && !v10 {
        open = true;
    }
    if target.is_empty() || !target.starts_with('/') || target.contains('#') || target.chars().any(|c| c.is_control() || !c.is_ascii()) {
        open = true;
    }
    if headers.contains_key("transfer-encoding")
        || headers.contains_key("expect")
        || headers.contains_key("upgrade")
        || ["content-length", "cookie", "host"].iter().any(|h| seen.get(*h).copied().unwrap_or(0) > 1)
    {
        open = true;
    }
    let mut blen: u128 = 0;
    if let Some(v) = headers.get("content-length") {
        let t = v.trim();
        if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
            if t.starts_with('+') || open {
                return unspec(p);
            }
            return bad(p, refusals);
        }
        match t.parse::<u128>() {
            Ok(n) if n <= u64::MAX as u128 => blen = n,
            _ => return if open { unspec(p) } else { bad(p, refusals) },
        }
    }
    if open {
        return unspec(p);
    }
    let complete = (b.len() - p.need) as u128 >= blen;
    if v11 && !headers.contains_key("host") {
        p.may_wait = !complete;
        return bad(p, refusals);
    }
    if !known {
        p.may_wait = !complete;
        let odd = method.is_empty() || !method.chars().all(is_token);
        return if odd || !complete { bad(p, &[400, 501]) } else { bad(p, &[501]) };
    }
    if !complete {
        p.need = usize::try_from(p.need as u128 + blen).unwrap_or(usize::MAX);
        return p;
    }
    let body = b[p.need..p.need + blen as usize].to_vec();
    p.need += blen as usize;
    let mut view = View {
        method: method.to_string(),
        version: ver.to_string(),
        chunks,
        headers,
        body,
        query: query_map(query),
        ..Default::default()
    };
    p.query_unspec = unspec_query(query);
    if cfg!(feature = "f_raw") {
        view.raw = raw;
    }
    if cfg!(feature = "f_cookies") {
        if let Some(c) = view.headers.get("cookie") {
            p.cookies_unspec = c.split("; ").any(|t| t.contains(';') || t.contains('"')) || !c.is_ascii();
            view.cookies = cookie_list(c);
        }
    }
    if cfg!(feature = "f_ext") {
        view.ext = query_ext(query);
    }
    p.class = Class::Valid;
    p.view = Some(view);
    p
}

pub fn routes(plan: &Plan) -> Vec<&RoutePlan> {
    let mut v = vec![];
    for o in &plan.app.ops {
        match o {
            RegOp::Route(r) => v.push(r),
            RegOp::Merge(rs) => v.extend(rs.iter()),
        }
    }
    v
}
pub fn route<'a>(plan: &'a Plan, id: u32) -> Option<&'a RoutePlan> {
    routes(plan).into_iter().find(|r| r.id == id)
}

pub fn matches(pattern: &str, chunks: &[String]) -> Option<BTreeMap<String, String>> {
    let p = normalise(pattern)?;
    if p.len() != chunks.len() {
        return None;
    }
    let mut vars = BTreeMap::new();
    for (a, b) in p.iter().zip(chunks) {
        if let Some(n) = a.strip_prefix(':') {
            if !cfg!(feature = "f_vars") {
                return None;
            }
            vars.insert(n.to_string(), b.clone());
        } else if a != b {
            return None;
        }
    }
    Some(vars)
}

pub fn chain(plan: &Plan, v: &View) -> (Vec<ChainItem>, Vec<u32>, bool) {
    let mut c = vec![];
    let mut all = vec![];
    let mut stopped = false;
    let mut panics = false;
    for r in routes(plan) {
        let vars = match r.method.as_str() {
            "USE" => Some(BTreeMap::new()),
            "ALL" => matches(&r.path, &v.chunks),
            m if m == v.method => matches(&r.path, &v.chunks),
            _ => None,
        };
        if let Some(vars) = vars {
            all.push(r.id);
            if !stopped {
                c.push(ChainItem { route: r.id, vars });
                if r.acts.contains(&Act::Panic) {
                    stopped = true;
                    panics = true;
                }
                stopped |= r.stop;
            }
        }
    }
    (c, all, panics)
}

pub fn expect(plan: &Plan, c: &ClientPlan) -> Expect {
    let mut bytes = c.req.render(c.id);
    let mut unspec = false;
    if c.tls {
        // what arrives is decided by the wire; a cut or damaged wire leaves the request incomplete
        if c.flip_at.is_some() {
            unspec = true;
        }
        let never = c.stall.map_or(false, |(_, rel)| rel >= plan.phases);
        if c.limit.is_some() || never {
            unspec = true;
        }
    } else {
        if c.to_tls_port {
            unspec = true;
        }
        let mut n = bytes.len();
        if let Some(l) = c.limit {
            n = n.min(l as usize);
        }
        if let Some((at, rel)) = c.stall {
            if rel >= plan.phases {
                n = n.min(at as usize);
            }
        }
        bytes.truncate(n);
        if let Some((off, bit)) = c.flip_at {
            if let Some(x) = bytes.get_mut(off as usize) {
                *x ^= 1 << (bit & 7);
            }
        }
    }
    let p = parse(&bytes);
    let mut e = Expect {
        class: if unspec { Class::Unspec } else { p.class },
        view: p.view,
        cookies_unspec: p.cookies_unspec,
        query_unspec: p.query_unspec,
        chain: vec![],
        matching: vec![],
        need: p.need,
        delivered: bytes.len(),
        may_wait: p.may_wait,
        panics: false,
    };
    if e.class == Class::Valid && e.view.as_ref().and_then(identify) != Some(c.id) {
        // damaged beyond recognition, though still a request
        e.class = Class::Unspec;
    }
    if let Some(v) = &e.view {
        let (c, m, pn) = chain(plan, v);
        e.chain = c;
        e.matching = m;
        e.panics = pn;
    }
    e
}

// ---- responses ------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub enum BodyX {
    Bytes(Vec<u8>),
    File(u32),
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: BTreeMap<String, String>,
    pub cookies: Vec<String>,
    pub body: BodyX,
    pub version: String,
}

/// What the handlers' actions amount to; None if they leave no body. `files` are the outcomes of
/// the file openings, in order.
pub fn assemble(plan: &Plan, e: &Expect, files: &[(u32, bool)]) -> Option<Resp> {
    let v = e.view.as_ref()?;
    let who = identify(v).unwrap_or(99999);
    let mut status = 200;
    let mut h: BTreeMap<String, String> = BTreeMap::new();
    let mut cookies = vec![];
    let mut body: Option<BodyX> = None;
    let mut charset: Option<String> = None;
    let mut nf = 0;
    let mut version = "HTTP/1.1".to_string();
    for it in &e.chain {
        let r = route(plan, it.route)?;
        for a in &r.acts {
            let mut sent: Option<Vec<u8>> = None;
            match a {
                Act::Status(s) => status = *s,
                Act::Set(k, x) => {
                    h.insert(k.to_ascii_lowercase(), x.clone());
                }
                Act::Token => {
                    h.insert("x-token".into(), token(who));
                }
                Act::Type(t) => {
                    h.insert("content-type".into(), t.clone());
                }
                Act::Cookie(a, b) => {
                    if cfg!(feature = "f_cookies") {
                        cookies.push(format!("{}={}", a, b));
                    }
                }
                Act::CookieEx(a, b, f) => {
                    if cfg!(feature = "f_cookies") {
                        let mut c = format!("{}={}", a, b);
                        for (k, t) in ["; HttpOnly", "; Secure", "; Path=/", "; Domain=octane.test", "; Max-Age=3600", "; Expires=Wed, 21 Oct 2015 07:28:00 GMT", "; SameSite=Lax"].iter().enumerate() {
                            if f & (1 << k) != 0 {
                                c.push_str(t);
                            }
                        }
                        cookies.push(c);
                    }
                }
                Act::Reflect(n) => {
                    let x = h.get(&n.to_ascii_lowercase()).cloned().unwrap_or_else(|| "none".into());
                    h.insert("x-seen".into(), x);
                }
                Act::Version => version = format!("HTTP/{}", v.version),
                Act::Redirect(l) => {
                    status = 302;
                    h.insert("location".into(), l.clone());
                }
                Act::Attach => {
                    h.insert("content-disposition".into(), "attachment".into());
                }
                Act::AttachName(n) => {
                    h.insert("content-disposition".into(), format!("attachment; filename={:?}", n));
                    h.insert("content-type".into(), mime(n).into());
                }
                Act::Charset(c) => charset = Some(c.clone()),
                Act::Send(n) => sent = Some(pattern(who, 'r', *n as usize)),
                Act::Text(t) => sent = Some(t.clone().into_bytes()),
                Act::Echo => sent = Some(v.body.clone()),
                Act::SendFile(i) => {
                    let ok = files.get(nf).map_or(false, |(k, ok)| k == i && *ok);
                    nf += 1;
                    if ok {
                        h.insert("content-type".into(), mime(&plan.files[*i as usize].name).into());
                        body = Some(BodyX::File(*i));
                    } else {
                        status = 500;
                        sent = Some(b"nofile".to_vec());
                    }
                }
                Act::Panic => return None,
                Act::Yield(_) => {}
            }
            if sent.is_some() || matches!(a, Act::SendFile(_)) {
                // the server's own
                h.remove("content-length");
                h.remove("date");
            }
            if let Some(s) = sent {
                body = Some(BodyX::Bytes(s));
                if !h.contains_key("content-type") {
                    let mut t = "text/html".to_string();
                    if let Some(c) = &charset {
                        t.push_str(&format!(";charset={:?}", c));
                    }
                    h.insert("content-type".into(), t);
                }
            }
        }
    }
    Some(Resp { status, headers: h, cookies, body: body?, version })
}

pub struct Got {
    pub version: String,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Got {
    pub fn all(&self, n: &str) -> Vec<&str> {
        self.headers.iter().filter(|(a, _)| a == n).map(|(_, b)| b.as_str()).collect()
    }
}

/// parses what a client received as one HTTP response up to end of stream
pub fn parse_response(b: &[u8]) -> Result<Got, String> {
    let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no end of head")?;
    let head = std::str::from_utf8(&b[..end]).map_err(|_| "head is not text")?;
    let mut l = head.split("\r\n");
    let sl = l.next().unwrap();
    let t: Vec<&str> = sl.splitn(3, ' ').collect();
    if t.len() < 3 || !(t[0] == "HTTP/1.1" || t[0] == "HTTP/1.0") || t[1].len() != 3 {
        return Err(format!("status line {:?}", sl));
    }
    let status = t[1].parse().map_err(|_| format!("status line {:?}", sl))?;
    let mut headers = vec![];
    for x in l {
        let i = x.find(':').ok_or(format!("header line {:?}", x))?;
        let n = &x[..i];
        if n.is_empty() || !n.chars().all(is_token) {
            return Err(format!("header line {:?}", x));
        }
        if x.chars().any(|c| c.is_control() && c != '\t') {
            return Err(format!("header line {:?}", x));
        }
        headers.push((n.to_ascii_lowercase(), x[i + 1..].trim_matches([' ', '\t']).to_string()));
    }
    Ok(Got { version: t[0].to_string(), status, headers, body: b[end + 4..].to_vec() })
}

pub fn loose(s: &str) -> String {
    s.chars().filter(|c| !" \t\"".contains(*c)).collect::<String>().to_ascii_lowercase()
}

// ---- dates ----------------------------------------------------------------------------------
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

/// seconds since the epoch of a well-formed IMF-fixdate
pub fn imf_secs(s: &str) -> Option<i64> {
    const W: [&str; 7] = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
    const M: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
    if !s.is_ascii() || s.len() != 29 {
        return None;
    }
    let b = s.as_bytes();
    if &s[3..5] != ", " || b[7] != b' ' || b[11] != b' ' || b[16] != b' ' || b[19] != b':' || b[22] != b':' || &s[25..] != " GMT" {
        return None;
    }
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let t = &s[r];
        if t.bytes().all(|c| c.is_ascii_digit()) {
            t.parse().ok()
        } else {
            None
        }
    };
    let (d, y) = (num(5..7)?, num(12..16)?);
    let m = M.iter().position(|x| *x == &s[8..11])? as i64 + 1;
    let (hh, mm, ss) = (num(17..19)?, num(20..22)?, num(23..25)?);
    if d < 1 || d > 31 || hh > 23 || mm > 59 || ss > 59 {
        return None;
    }
    let days = days_from_civil(y, m, d);
    // the day must exist
    if m < 12 && days >= days_from_civil(y, m + 1, 1) || m == 12 && d > 31 {
        return None;
    }
    if W[days.rem_euclid(7) as usize] != &s[..3] {
        return None;
    }
    Some(days * 86400 + hh * 3600 + mm * 60 + ss)
}

// ---- content types --------------------------------------------------------------------------
pub const MIME: [(&str, &str); 72] = [
    ("css", "text/css"),
    ("csv", "text/csv"),
    ("html", "text/html"),
    ("htm", "text/html"),
    ("ics", "text/calendar"),
    ("js", "text/javascript"),
    ("mjs", "text/javascript"),
    ("txt", "text/plain"),
    ("abw", "application/x-abiword"),
    ("arc", "application/x-freearc"),
    ("azw", "application/vnd.amazon.ebook"),
    ("bin", "application/octet-stream"),
    ("bz", "application/x-bzip"),
    ("bz2", "application/x-bzip2"),
    ("csh", "application/x-csh"),
    ("doc", "application/msword"),
    ("docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"),
    ("eot", "application/vnd.ms-fontobject"),
    ("epub", "application/epub+zip"),
    ("gz", "application/gzip"),
    ("json", "application/json"),
    ("jsonld", "application/ld+json"),
    ("mpkg", "application/vnd.apple.installer+xml"),
    ("odp", "application/vnd.oasis.opendocument.presentation"),
    ("ods", "application/vnd.oasis.opendocument.spreadsheet"),
    ("odt", "application/vnd.oasis.opendocument.text"),
    ("ogx", "application/ogg"),
    ("pdf", "application/pdf"),
    ("php", "application/x-httpd-php"),
    ("ppt", "application/vnd.ms-powerpoint"),
    ("pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation"),
    ("rar", "application/vnd.rar"),
    ("rtf", "application/rtf"),
    ("sh", "application/x-sh"),
    ("swf", "application/x-shockwave-flash"),
    ("tar", "application/x-tar"),
    ("vsd", "application/vnd.visio"),
    ("xhtml", "application/xhtml+xml"),
    ("xls", "application/vnd.ms-excel"),
    ("xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"),
    ("xml", "application/xml"),
    ("xul", "application/vnd.mozilla.xul+xml"),
    ("zip", "application/zip"),
    ("7z", "application/x-7z-compressed"),
    ("bmp", "image/bmp"),
    ("gif", "image/gif"),
    ("ico", "image/vnd.microsoft.icon"),
    ("jpeg", "image/jpeg"),
    ("jpg", "image/jpeg"),
    ("png", "image/png"),
    ("svg", "image/svg+xml"),
    ("tif", "image/tiff"),
    ("tiff", "image/tiff"),
    ("webp", "image/webp"),
    ("aac", "audio/aac"),
    ("mid", "audio/midi"),
    ("mp3", "audio/mpeg"),
    ("oga", "audio/ogg"),
    ("opus", "audio/opus"),
    ("wav", "audio/wav"),
    ("weba", "audio/webm"),
    ("avi", "video/x-msvideo"),
    ("mpeg", "video/mpeg"),
    ("ogv", "video/ogg"),
    ("ts", "video/mp2t"),
    ("webm", "video/webm"),
    ("otf", "font/otf"),
    ("ttf", "font/ttf"),
    ("woff", "font/woff"),
    ("woff2", "font/woff2"),
    ("midi", "audio/x-midi"),
    ("unknownext", "text/plain"),
];
pub fn mime(name: &str) -> &'static str {
    let base = name.rsplit('/').next().unwrap_or("");
    let ext = match base.rfind('.') {
        Some(i) if i > 0 => base[i + 1..].to_ascii_lowercase(),
        _ => String::new(),
    };
    MIME.iter().find(|(e, _)| *e == ext).map(|(_, m)| *m).unwrap_or("text/plain")
}
