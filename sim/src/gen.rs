//! Seed -> plan: scenario families. Every random choice comes from the seed.
use crate::app::STATUSES;
use crate::kernel::MS;
use crate::model::MIME;
use crate::plan::*;
use crate::rng::*;

pub const FAMILIES: [&str; 17] = [
    "segment", "backpressure", "concurrent", "stall", "chaos", "truncate", "malformed", "routing", "files", "accept", "restart",
    "leak", "clock", "memory", "tls", "tlstrouble", "startup",
];

pub fn config() -> &'static str {
    if cfg!(feature = "c_default") {
        "default"
    } else if cfg!(feature = "c_rustls") {
        "rustls"
    } else if cfg!(feature = "c_openssl") {
        "openssl"
    } else {
        "bare"
    }
}
const TLS: bool = cfg!(feature = "f_tls");
const VARS: bool = cfg!(feature = "f_vars");
const FAITHFUL: bool = cfg!(feature = "f_faithful");

struct G {
    r: Rng,
    p: Plan,
    rid: u32,
    cid: u32,
}

const SEGS: [&str; 10] = ["a", "b", "c", "api", "users", "x1", "A", "index.html", "a-b", "%41"];
const NAMES: [&str; 14] = [
    "Accept", "User-Agent", "X-Forwarded-For", "Accept-Language", "Referer", "ETag", "If-None-Match", "X-Custom", "Range", "Origin",
    "Via", "X-A", "Authorization", "DNT",
];

pub fn plan(family: &str, seed: u64) -> Plan {
    let fid = FAMILIES.iter().position(|f| *f == family).expect("family") as u64;
    let mut r = Rng::new(mix(mix(seed, fid), 77));
    let sched = sched(&mut r);
    let workers = *r.pick(&[0u32, 1, 2, 2, 3, 4]);
    let p = Plan {
        family: family.into(),
        config: config().into(),
        seed,
        workers,
        sched,
        wall_secs: 1_600_000_000 + r.below(400_000_000) as i64,
        wall_nanos: r.below(1_000_000_000) as u32,
        jumps: vec![],
        port: 8000,
        tls: None,
        taken: None,
        app: AppPlan::default(),
        files: vec![],
        clients: vec![],
        phases: 1,
        accept_faults: vec![],
        fd_limit: None,
        crashes: vec![],
        start: vec![],
        mem_check: false,
    };
    let mut g = G { r, p, rid: 0, cid: 1 };
    g.cid = 1 + g.r.below(60_000) as u32;
    if TLS {
        g.p.tls = Some(TlsPlan { port: 8443, key: "good".into(), via: g.r.below(7) as u32 });
    }
    match family {
        "segment" => g.segment(),
        "backpressure" => g.backpressure(),
        "concurrent" => g.concurrent(),
        "stall" => g.stall(),
        "chaos" => g.chaos(),
        "truncate" => g.truncate(),
        "malformed" => g.malformed(),
        "routing" => g.routing(),
        "files" => g.files(),
        "accept" => g.accept(),
        "restart" => g.restart(),
        "leak" => g.leak(),
        "clock" => g.clock(),
        "memory" => g.memory(),
        "tls" => g.tls(),
        "tlstrouble" => g.tlstrouble(),
        "startup" => g.startup(),
        _ => unreachable!(),
    }
    if TLS {
        let resume = g.r.pct(40);
        for c in g.p.clients.iter_mut().filter(|c| c.tls) {
            c.tls_opt = u32::from(g.r.pct(30)) + if resume && g.r.pct(70) { 2 } else { 0 };
            if g.r.pct(30) {
                c.tls_record = g.r.logrange(64, 16_000) as u32;
            }
        }
    }
    // nobody may carry the marks of somebody else, by accident or by mutation
    let bad: Vec<bool> = g
        .p
        .clients
        .iter()
        .map(|c| {
            let mut b = c.req.render(c.id);
            if let (Some((off, bit)), false) = (c.flip_at, c.tls) {
                if let Some(x) = b.get_mut(off as usize) {
                    *x ^= 1 << (bit & 7);
                }
            }
            crate::oracle::foreign(&g.p, &b, c.id)
        })
        .collect();
    let mut k = 0;
    g.p.clients.retain(|_| {
        k += 1;
        !bad[k - 1]
    });
    g.p
}

fn sched(r: &mut Rng) -> Sched {
    Sched {
        seed: r.next(),
        switch_ppm: *r.pick(&[0, 5_000, 50_000, 200_000, 500_000]),
        alloc_ppm: *r.pick(&[0, 0, 1_000, 20_000, 100_000]),
        bb_ppm: *r.pick(&[0, 0, 500, 5_000, 30_000]),
        prio: r.pct(40),
        preempt_limit: None,
        spurious_ppm: *r.pick(&[0, 0, 2_000, 50_000]),
        eintr_ppm: *r.pick(&[0, 0, 5_000, 50_000]),
        ep_max: *r.pick(&[1, 2, 8, 1024, 1024]),
        cost_ns: *r.pick(&[0, 100, 10_000, 200_000]),
        file_eintr_ppm: *r.pick(&[0, 0, 50_000, 300_000]),
        file_short_ppm: *r.pick(&[0, 100_000, 500_000, 900_000]),
    }
}

impl G {
    // ---- applications ----
    fn route(&mut self, method: &str, path: &str, acts: Vec<Act>, stop: bool) -> RoutePlan {
        self.rid += 1;
        RoutePlan { id: self.rid, method: method.into(), path: path.into(), acts, stop }
    }
    fn add(&mut self, method: &str, path: &str, acts: Vec<Act>, stop: bool) {
        let r = self.route(method, path, acts, stop);
        self.p.app.ops.push(RegOp::Route(r));
    }
    fn size(&mut self, max: u64) -> u32 {
        let r = &mut self.r;
        let n = match r.below(8) {
            0 => r.range(0, 3),
            1 => r.range(0, 200),
            2 => 512 * r.range(1, 6) + r.range(0, 4) - 2,
            3 => 2048 * r.range(1, 9) + r.range(0, 4) - 2,
            4 => r.logrange(1, 70_000),
            5 => r.range(1, 30),
            6 => r.logrange(1, 4_000),
            _ => r.logrange(1, max.max(2)),
        };
        n.min(max) as u32
    }
    /// what a handler sets besides its body
    fn deco(&mut self, many: bool) -> Vec<Act> {
        let mut v = vec![Act::Token];
        let k = if many { self.r.below(6) } else { self.r.below(3) };
        for _ in 0..k {
            let a = match self.r.below(if many { 13 } else { 11 }) {
                0 => Act::Status(*self.r.pick(&STATUSES)),
                1 | 2 => {
                    let n = self.r.below(4);
                    let val = self.hval();
                    let x = *self.r.pick(&["X-R", "X-R", "x-r", "X-r"]);
                    Act::Set(format!("{}{}", x, n), val)
                }
                3 => Act::Type(self.r.pick(&["application/json", "text/css", "text/plain; charset=utf-8", "image/png"]).to_string()),
                4 | 5 => {
                    let n = self.r.below(5);
                    let w = self.word(1, 30);
                    Act::Cookie(format!("c{}", n), w)
                }
                9 => {
                    let mut w = self.word(1, 12);
                    if self.r.pct(30) {
                        w = format!("{}{}{}", w, self.r.pick(&[", ", ",", " ", "=", ": ", "%20", "%", "\"", "&"]), w);
                    }
                    Act::CookieEx(format!("e{}", self.r.below(3)), w, self.r.below(128) as u32)
                }
                10 => match self.r.below(4) {
                    0 => Act::Reflect(self.r.pick(&["X-R0", "x-r1", "Content-Type", "content-type", "X-Token", "Location"]).to_string()),
                    1 => Act::Set(self.r.pick(&["content-type", "CONTENT-TYPE", "Content-type"]).to_string(), "text/x-own".into()),
                    2 => Act::Version,
                    _ => Act::Set(self.r.pick(&["content-length", "Content-Length", "date", "Date"]).to_string(), "3".into()),
                },
                11 | 12 => {
                    // text that must not get out of its line
                    let t = *self.r.pick(&[
                        "v\r\nX-Evil: 1", "v\nX-Evil: 1", "\r\n\r\nHTTP/1.1 200 OK\r\nX-Evil: 1\r\n\r\n", "a\rb", "\r\n", "x\0y", "v\r\n X-Evil: 1", "v\r\nSet-Cookie: evil=1",
                    ]);
                    match self.r.below(3) {
                        0 => Act::Set("X-In".into(), t.into()),
                        1 => Act::Redirect(format!("/{}", t)),
                        _ => Act::Cookie("in".into(), t.into()),
                    }
                }
                6 => Act::Charset(self.r.pick(&["utf-8", "latin1"]).to_string()),
                7 => {
                    if self.r.pct(50) {
                        Act::Attach
                    } else {
                        let e = *self.r.pick(&MIME);
                        Act::AttachName(format!("name.{}", e.0))
                    }
                }
                _ => {
                    if many && self.r.pct(30) {
                        let w = self.word(1, 12);
                        Act::Redirect(format!("/{}", w))
                    } else {
                        let n = self.r.range(1, 3) as u32;
                        Act::Yield(n)
                    }
                }
            };
            v.push(a);
        }
        if many && self.r.pct(25) {
            v.push(Act::Status(*self.r.pick(&STATUSES)));
        }
        if many && self.r.pct(6) {
            for n in 0..self.r.range(20, 120) {
                let w = self.word(1, 60);
                v.push(Act::Set(format!("X-Many-{}", n), w));
            }
        }
        v
    }
    fn word(&mut self, a: u64, b: u64) -> String {
        let n = self.r.range(a, b);
        (0..n).map(|_| *self.r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~") as char).collect()
    }
    /// a header value: no leading or trailing blank, nothing the server may refuse
    fn hval(&mut self) -> String {
        let n = self.r.range(0, 24);
        let mut s: String =
            (0..n).map(|_| *self.r.pick(b"abcXYZ019 ,;:=\"'()<>@/[]?{}\\!#$%&*+-.^_`|~") as char).collect();
        s = s.trim().to_string();
        if self.r.pct(5) && !s.is_empty() {
            s.insert(s.len() / 2, '\t');
            s = s.trim().to_string();
        }
        if self.r.pct(3) {
            // blanks that are not white space of HTTP belong to the value
            let u = *self.r.pick(&["\u{a0}", "\u{2003}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{2028}", "\u{1680}", "\u{e9}"]);
            s = match self.r.below(4) {
                0 => format!("{}{}", u, s),
                1 => format!("{}{}", s, u),
                2 => format!("{}{}{}", u, s, u),
                _ => u.to_string(),
            };
        }
        s
    }
    /// the application of the service families
    fn app(&mut self, max: u64, many: bool) {
        if self.r.pct(30) {
            let a = vec![Act::Set("X-Mw".into(), "on".into())];
            self.add("USE", "", a, false);
        }
        for k in 0..self.r.range(1, 3) {
            let n = self.size(max);
            let mut a = self.deco(many);
            a.push(Act::Send(n));
            self.add("GET", &format!("/g{}", k), a, true);
        }
        let mut a = self.deco(many);
        a.push(Act::Echo);
        let m = *self.r.pick(&["POST", "PUT", "PATCH", "ALL"]);
        self.add(m, "/echo", a, true);
        if VARS {
            let mut a = self.deco(many);
            let n = self.size(max.min(2000));
            a.push(Act::Send(n));
            self.add("GET", "/v/:name/:other", a, true);
        }
        let mut a = self.deco(false);
        let t = *self.r.pick(&["any any any ", "any any any ", "Grüße, 世界 ✓\n", "é", "\r\n\r\n", "🦀🦀"]);
        a.push(Act::Text(t.into()));
        self.add("ALL", "/any", a, true);
        if self.r.pct(40) {
            // a chain: two handlers decorate, the third answers, the last never runs
            let d1 = self.deco(many);
            let d2 = self.deco(many);
            let n = self.size(max.min(3000));
            self.add("GET", "/chain", d1, false);
            self.add("ALL", "/chain", d2, false);
            self.add("GET", "/chain", vec![Act::Send(n)], true);
            self.add("GET", "/chain", vec![Act::Text("unreachable".into())], true);
        }
        if self.r.pct(25) {
            let d = self.deco(false);
            self.add("GET", "/nobody", d, false);
        }
    }
    fn target(&mut self, id: u32) -> (String, String) {
        let ops = self.p.app.ops.clone();
        let mut rs: Vec<&RoutePlan> = vec![];
        for o in &ops {
            match o {
                RegOp::Route(r) => rs.push(r),
                RegOp::Merge(v) => rs.extend(v),
            }
        }
        let rs: Vec<&RoutePlan> = rs.into_iter().filter(|r| r.method != "USE" && !r.acts.contains(&Act::Panic)).collect();
        if rs.is_empty() {
            return ("GET".into(), "/".into());
        }
        let r = *self.r.pick(&rs);
        let m = if r.method == "ALL" { self.r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD"]).to_string() } else { r.method.clone() };
        (m, self.instance(&r.path, id))
    }
    fn instance(&mut self, pat: &str, id: u32) -> String {
        let mut v = vec![];
        for s in pat.split('/') {
            if let Some(n) = s.strip_prefix(':') {
                let w = match self.r.below(12) {
                    0 => self.r.pick(&["%2F", "a%20b", "%C3%A9", "...", ".x", "a:b", "~", ":x", "-", "%", "+", "a=b", "a;b", "a,b", "!$&'()*", "@"]).to_string(),
                    1 if self.r.pct(20) => self.word(500, 3000),
                    _ => self.word(1, 8),
                };
                v.push(if n == "name" { format!("{}.{}", token(id), w) } else { w });
            } else {
                v.push(s.to_string());
            }
        }
        v.join("/")
    }

    // ---- requests ----
    fn qs(&mut self, id: u32) -> String {
        let mut v = vec![];
        for _ in 0..self.r.below(5) {
            let k = self.r.pick(&["q", "page", "a", "b", "Z", "long-name", "%61b", "k%5Fey"]).to_string();
            let w = self.word(0, 10);
            let t = match self.r.below(10) {
                1 => k,
                2 => format!("{}=", k),
                3 if FAITHFUL => String::new(),
                4 => format!("{}={}%", k, w),
                0 if self.r.pct(20) => format!("{}={}", self.r.pick(&["a[b", "a]", "a[b]c", "a]b[", "x[1]y[2", "o[k]x"]), w),
                0 => format!("{}=%20{}%2f", k, w),
                5 if cfg!(feature = "f_ext") => format!("arr[]={}", w),
                6 if cfg!(feature = "f_ext") => format!("obj[{}]={}", self.r.pick(&["x", "y", "z"]), w),
                3 if cfg!(feature = "f_ext") => {
                    // the same name in several forms
                    let n = *self.r.pick(&["arr", "obj", "mix"]);
                    match self.r.below(3) {
                        0 => format!("{}[]={}", n, w),
                        1 => format!("{}[k]={}", n, w),
                        _ => format!("{}={}", n, w),
                    }
                }
                7 => format!("t={}", token(id)),
                9 if self.r.pct(60) => {
                    let d = |g: &mut Self, n: u64| -> String { (0..n).map(|_| *g.r.pick(b";,!$'()*:@/?+-._~abz09;+") as char).collect() };
                    let n = self.r.logrange(1, 80);
                    let (a, b) = (d(self, 3), d(self, n));
                    if self.r.pct(30) {
                        format!("d{}={}", a, b)
                    } else {
                        format!("{}={}", k, b)
                    }
                }
                8 if self.r.pct(50) => {
                    let u = *self.r.pick(&["%C3%A9", "%e2%9C%93", "%F0%9F%A6%80", "%c3%a9%C3%A8", "%D0%9f%d1%80", "%7F", "%25C3%25A9", "%e9", "%C3", "%zz%4", "%+5", "%-1", "%+%+1", "%0x41", "%g1", "%1g", "%%41", "%4%31", "%2B5", "%.5", "%u0041", "%_1"]);
                    format!("{}={}{}{}", k, w, u, self.r.pick(&["", "x", "%20"]))
                }
                _ => format!("{}={}={}", k, w, w),
            };
            v.push(t);
        }
        if self.r.pct(2) {
            let most = *self.r.pick(&[100, 300, 300, 1500]);
            for k in 0..self.r.range(20, most) {
                let w = self.word(0, if most > 300 { 2 } else { 10 });
                v.push(format!("m{}={}", k, w));
            }
        }
        if self.r.pct(2) {
            let w = self.word(1000, 20_000);
            v.push(format!("big={}", w));
        }
        v.join("&")
    }
    fn req(&mut self, id: u32, maxbody: u64) -> ReqSpec {
        let (method, mut target) = self.target(id);
        if self.r.pct(35) {
            let q = self.qs(id);
            target.push('?');
            target.push_str(&q);
        }
        let v10 = self.r.pct(15);
        let mut h: Vec<(String, String)> = vec![];
        if !v10 || self.r.pct(50) {
            let v = if self.r.pct(80) { "octane.test:8000" } else { *self.r.pick(&["", "h", "[::1]:8000", "OCTANE.Test", "127.0.0.1", "a_b.c", "xn--bcher-kva.example:1", "h:"]) };
            h.push((self.hname("Host"), v.into()));
        }
        h.push((self.hname("X-Id"), token(id)));
        for _ in 0..self.r.below(5) {
            let n = self.r.pick(&NAMES).to_string();
            let val = self.hval();
            h.push((self.hname(&n), val));
        }
        if self.r.pct(12) {
            for _ in 0..self.r.range(2, 3) {
                let w = self.word(0, 10);
                h.push((self.hname("X-Dup"), w));
            }
        }
        if self.r.pct(4) {
            h.push((self.hname("X-Utf"), "Grüße, 世界 ✓".into()));
        }
        if self.r.pct(25) {
            let mut n = self.r.range(1, 4);
            if self.r.pct(6) {
                n = self.r.logrange(10, 600);
            }
            let mut c: Vec<String> = vec![format!("sid={}", token(id))];
            for k in 0..n {
                let w = self.word(0, 12);
                c.push(match self.r.below(12) {
                    0 => "flag".into(),
                    1 => format!("={}", w),
                    2 => format!("k{}={}={}", k, w, w),
                    3 => format!("k{}={}", self.r.below(2), w),
                    4 => format!("{}={}", self.r.pick(&["Path", "Max-Age", "Secure", "k.x", "k-y", "__Host-a", "K0", "%6b0"]), w),
                    5 => format!("k{}={}{}", k, w, self.r.pick(&["%41", "%", "a b", "/x?y", ":", "@", "(z)", "<t>", "%3B", "+", ",b"])),
                    _ => format!("k{}={}", k, w),
                });
            }
            self.r.shuffle(&mut c);
            let key = self.hname("Cookie");
            h.push((key, c.join("; ")));
        }
        if self.r.pct(20) {
            let v = self.r.pick(&["keep-alive", "close", "Keep-Alive", "upgrade"]).to_string();
            h.push((self.hname("Connection"), v));
            if self.r.pct(60) {
                let v = self
                    .r
                    .pick(&["timeout=5, max=1000", "timeout=5", "max=", "timeout", "timeout=99999999999999999999", "=5", ",", "timeout=18446744073709551615", "timeout=é", "délai=5, ✓✓✓=1", "日本語タイムアウト=5", "TIMEOUT=5", "xxxxxxé=5"])
                    .to_string();
                h.push((self.hname("Keep-Alive"), v));
            }
        }
        let mut s = ReqSpec { method: method.clone(), target, version: if v10 { "HTTP/1.0" } else { "HTTP/1.1" }.into(), ..Default::default() };
        let wants = matches!(method.as_str(), "POST" | "PUT" | "PATCH");
        if wants || self.r.pct(12) {
            if self.r.pct(90) {
                s.body = self.size(maxbody);
                if self.r.pct(12) {
                    s.body = 0;
                    let t = self.r.pick(&["\r\n\r\n", "\r\n", "\r\n\r\nGET /g0 HTTP/1.1\r\nHost: x\r\n\r\n", "\n\n", "0\r\n\r\n", "é✓\r\n\r\nx"]);
                    s.body_text = Some(t.to_string());
                }
                let mut k = self.hname("Content-Length");
                if self.r.pct(4) {
                    k.push_str(*self.r.pick(&["0", "000", "00000000000000000000"]));
                }
                h.push((k, "@len".into()));
            }
        } else if self.r.pct(8) {
            h.push((self.hname("Content-Length"), "0".into()));
        }
        self.r.shuffle(&mut h);
        if self.r.pct(10) && !h.is_empty() {
            // white space after the value does not belong to it
            let k = self.r.below(h.len() as u64) as usize;
            if h[k].1 != "@len" {
                let w = *self.r.pick(&[" ", "\t", "  \t", "   "]);
                h[k].1.push_str(w);
            }
        }
        s.headers = h;
        // tune the head so that its end falls near a read boundary
        if self.r.pct(45) {
            let head = ReqSpec { body: s.body, body_text: s.body_text.clone(), ..s.clone() };
            let l = head.render(id).windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
            let goal = 512 * self.r.range(1, 4) as usize + self.r.range(0, 10) as usize - 5;
            let name = "X-Pad: ";
            if l + name.len() + 2 <= goal {
                let n = goal - l - name.len() - 2;
                s.headers.push((name.into(), "p".repeat(n)));
            }
        } else if self.r.pct(4) {
            let n = self.r.logrange(2000, 60_000) as usize;
            s.headers.push(("X-Big: ".into(), "B".repeat(n)));
        } else if self.r.per_mille(8) {
            // a very long head
            let n = self.r.range(60_000, 100_000) as usize;
            match self.r.below(4) {
                0 => s.headers.push(("X-Big: ".into(), "B".repeat(n))),
                1 => {
                    for k in 0..n / 1000 {
                        s.headers.push((format!("X-L{}: ", k), "l".repeat(990)));
                    }
                }
                2 => {
                    for _ in 0..(n / 6).min(8000) {
                        s.headers.push(("a:".into(), "b".into()));
                    }
                }
                _ => {
                    s.target.push_str(if s.target.contains('?') { "&" } else { "?" });
                    s.target.push_str("big=");
                    s.target.push_str(&"q".repeat(n));
                }
            }
        } else if self.r.pct(3) {
            let most = *self.r.pick(&[100u64, 180, 500]);
            for k in 0..self.r.range(30, most) {
                let w = self.word(0, 20);
                s.headers.push((format!("X-N{}: ", k), w));
            }
        }
        s
    }
    fn hname(&mut self, n: &str) -> String {
        let n = match self.r.below(6) {
            0 => n.to_lowercase(),
            1 => n.to_uppercase(),
            _ => n.to_string(),
        };
        let sep = match self.r.below(8) {
            0 => ":",
            1 => ":   ",
            2 => ":\t ",
            _ => ": ",
        };
        format!("{}{}", n, sep)
    }
    fn simple(&mut self, id: u32) -> ReqSpec {
        let (method, target) = self.target(id);
        let mut h = vec![("Host: ".to_string(), "h".to_string()), ("X-Id: ".to_string(), token(id))];
        let mut body = 0;
        if matches!(method.as_str(), "POST" | "PUT" | "PATCH") {
            body = self.r.logrange(1, 3000) as u32;
            h.push(("Content-Length: ".into(), "@len".into()));
        }
        ReqSpec { method, target, version: "HTTP/1.1".into(), headers: h, body, ..Default::default() }
    }
    fn id(&mut self) -> u32 {
        self.cid += 1;
        self.cid
    }
    fn client(&mut self, id: u32, req: ReqSpec) -> ClientPlan {
        ClientPlan {
            id,
            phase: 0,
            at: 1 + self.r.logrange(1, 3 * MS),
            tls: false,
            to_tls_port: false,
            req,
            cuts: vec![],
            limit: None,
            stall: None,
            end: End::Keep,
            end_delay: 1000,
            rst_after_rx: None,
            rd: Reading { first: 500, chunk: 65536, delay: 500, pause: None },
            sndbuf: 65536,
            flip_at: None,
            tls_opt: 0,
            tls_record: 0,
        }
    }
    /// how the bytes are split and delayed; `n` is about how many there are
    fn cuts(&mut self, c: &mut ClientPlan) {
        let n = c.req.render(c.id).len() as u64 + if c.tls { 700 } else { 0 };
        let top = *self.r.pick(&[2_000u64, 100_000, 5 * MS, 5 * MS, 2_000 * MS, 120_000 * MS]);
        let d = |r: &mut Rng| if r.pct(30) { 1 } else { r.logrange(1, top) };
        match self.r.below(8) {
            0 => {}
            1 => {
                // byte by byte from some point on
                let from = self.r.below(n);
                if from > 0 {
                    let x = d(&mut self.r);
                    c.cuts.push((from as u32, x));
                }
                for _ in 0..(n - from).min(400) {
                    let x = d(&mut self.r);
                    c.cuts.push((1, x));
                }
            }
            2 => {
                let x = d(&mut self.r);
                c.cuts.push((self.r.range(1, n) as u32, x));
            }
            3 => {
                // around the end of the head
                let b = c.req.render(c.id);
                if let Some(p) = b.windows(4).position(|w| w == b"\r\n\r\n") {
                    let k = p as u64 + self.r.range(0, 6);
                    let x = d(&mut self.r);
                    c.cuts.push((k.max(1) as u32, x));
                    if self.r.pct(50) {
                        let x = d(&mut self.r);
                        c.cuts.push((1, x));
                    }
                }
            }
            4 => {
                let s = *self.r.pick(&[511u32, 512, 513, 1024, 1460]);
                for _ in 0..(n / s as u64).min(300) {
                    let x = d(&mut self.r);
                    c.cuts.push((s, x));
                }
            }
            _ => {
                let k = self.r.logrange(1, 40);
                for _ in 0..k {
                    let m = self.r.logrange(1, (n * 2 / k).max(2));
                    let x = d(&mut self.r);
                    c.cuts.push((m as u32, x));
                }
            }
        }
    }
    /// how the response is taken; `big` bounds its size
    fn reading(&mut self, c: &mut ClientPlan, big: u64) {
        let floor = (big / 1500).max(1);
        c.rd.first = self.r.logrange(1, 20 * MS);
        c.rd.chunk = match self.r.below(5) {
            0 => floor,
            1 => floor + self.r.below(7),
            2 => self.r.logrange(floor, 4096.max(floor)),
            3 => 1460.max(floor),
            _ => 1 << 20,
        } as u32;
        c.rd.delay = self.r.logrange(100, 3 * MS);
        c.sndbuf = match self.r.below(6) {
            0 => floor,
            1 => floor + self.r.below(40),
            2 => self.r.logrange(floor, 5000.max(floor)),
            3 => 4096.max(floor),
            4 => 65536.max(floor),
            _ => 4 << 20,
        } as u32;
    }
    fn trailing(&mut self) -> Vec<u8> {
        match self.r.below(4) {
            0 => vec![b'x'; self.r.range(1, 2000) as usize],
            1 => b"GET /g0 HTTP/1.1\r\nHost: h\r\nX-Id: T99998\r\n\r\n".to_vec(),
            2 => b"\r\n".to_vec(),
            _ => (0..self.r.range(1, 300)).map(|_| self.r.next() as u8).collect(),
        }
    }
    fn end(&mut self, c: &mut ClientPlan, fin: u32) {
        if self.r.pct(fin) {
            c.end = End::Fin;
            c.end_delay = self.r.logrange(1, 5 * MS);
        }
    }
    fn good(&mut self, phase: u32, spread: u64) -> ClientPlan {
        let id = self.id();
        let rq = if self.r.pct(50) { self.simple(id) } else { self.req(id, 3000) };
        let mut c = self.client(id, rq);
        c.phase = phase;
        c.at = 1 + self.r.below(spread.max(1));
        if self.r.pct(40) {
            self.cuts(&mut c);
            for x in c.cuts.iter_mut() {
                x.1 = x.1.min(20 * MS);
            }
        }
        if self.r.pct(40) {
            self.reading(&mut c, 8000);
        }
        self.end(&mut c, 25);
        c
    }
    fn maybe_tls(&mut self, c: &mut ClientPlan, pct: u32) {
        if TLS && self.r.pct(pct) {
            c.tls = true;
        }
    }

    /// sizes around and beyond the round ones
    fn huge(&mut self) -> u32 {
        let base = *self.r.pick(&[1u64 << 20, 2 << 20, 4 << 20, 8 << 20, 1_000_000, 5_000_000, 10_000_000]);
        (base + *self.r.pick(&[0, 1, 2, 700, 100_000])) as u32 - if self.r.pct(20) { 1 } else { 0 }
    }

    // ---- families ----
    fn segment(&mut self) {
        self.app(2000, false);
        let mut max = *self.r.pick(&[2_000u64, 2_000, 20_000, 20_000, 300_000]);
        if self.r.pct(1) {
            max = 5_000_000;
        }
        let n = self.r.range(1, 4);
        let huge = self.r.per_mille(4);
        for k in 0..n {
            let id = self.id();
            let rq = self.req(id, max);
            let mut c = self.client(id, rq);
            if huge && k == 0 {
                let b = self.huge();
                self.upload(&mut c, b);
            }
            if self.r.pct(15) {
                c.req.trailing = self.trailing();
            }
            self.cuts(&mut c);
            self.end(&mut c, 35);
            self.p.clients.push(c);
        }
    }
    fn backpressure(&mut self) {
        let mut max = *self.r.pick(&[3_000u64, 20_000, 20_000, 150_000, 1_500_000]);
        if self.r.pct(1) {
            max = 9_000_000;
        }
        self.app(max, true);
        if self.r.per_mille(6) {
            let n = self.huge();
            max = max.max(n as u64);
            let x = RegOp::Route(self.route("GET", "/huge", vec![Act::Token, Act::Send(n)], true));
            self.p.app.ops.push(x);
            let id = self.id();
            let mut s = self.simple(id);
            s.method = "GET".into();
            s.target = "/huge".into();
            s.headers.truncate(2);
            s.body = 0;
            let mut c = self.client(id, s);
            self.reading(&mut c, max + 4000);
            self.p.clients.push(c);
        }
        for _ in 0..self.r.range(1, 4) {
            let id = self.id();
            let rq = self.req(id, max.min(200_000));
            let mut c = self.client(id, rq);
            self.reading(&mut c, max + 4000);
            self.end(&mut c, 30);
            if self.r.pct(20) {
                self.cuts(&mut c);
            }
            self.p.clients.push(c);
        }
    }
    fn concurrent(&mut self) {
        self.p.workers = *self.r.pick(&[0, 2, 2, 3, 4, 4]);
        if self.r.pct(70) {
            self.p.sched.switch_ppm = *self.r.pick(&[100_000, 300_000, 600_000]);
            self.p.sched.bb_ppm = *self.r.pick(&[500, 5_000, 30_000, 100_000]);
        }
        self.app(1500, true);
        let n = *self.r.pick(&[3u64, 6, 12, 25, 50]);
        let mut n = self.r.range(2, n);
        if self.r.pct(1) {
            n = *self.r.pick(&[150, 300, 600]);
            self.p.sched.bb_ppm = self.p.sched.bb_ppm.min(5_000);
        }
        let spread = *self.r.pick(&[1u64, 2_000, 200_000, 3 * MS]);
        for _ in 0..n {
            let mut c = self.good(0, spread);
            if self.r.pct(70) {
                let rq = self.req(c.id, 2500);
                c.req = rq;
            }
            if self.r.pct(50) {
                self.reading(&mut c, 6000);
            }
            self.maybe_tls(&mut c, 40);
            self.p.clients.push(c);
        }
    }
    fn stall(&mut self) {
        self.app(6000, false);
        self.p.phases = 3;
        let many = match self.r.below(100) {
            0 => 1100u64,
            1 | 2 => 600,
            3..=8 => 150,
            _ => *self.r.pick(&[2u64, 4, 4, 8, 12, 12, 40, 40]),
        };
        let n = if many >= 150 { many } else { self.r.range(1, many) };
        let large = many < 150 && self.r.pct(25);
        for _ in 0..n {
            let mut c = self.good(0, 200_000);
            c.cuts.clear();
            c.at = 1 + self.r.below(300_000);
            if large && self.r.pct(60) {
                let n = self.r.logrange(4_000, 150_000) as u32;
                self.upload(&mut c, n);
            }
            let len = c.req.render(c.id).len() as u64 + 200;
            self.maybe_tls(&mut c, 30);
            let rel = *self.r.pick(&[1u32, 1, 2, 2, 9]);
            if self.r.pct(65) {
                let at = match self.r.below(4) {
                    0 => 0,
                    1 => self.r.below(40),
                    _ => self.r.below(len),
                };
                c.stall = Some((at as u32, rel));
            } else {
                let at = if c.tls { 1500 + self.r.below(4000) } else { self.r.below(3000) };
                c.rd.pause = Some((at as u32, rel));
                c.sndbuf = self.r.logrange(10, 4000) as u32;
            }
            if rel == 9 && self.r.pct(40) && c.stall.is_some() {
                c.end = End::Keep;
            }
            self.p.clients.push(c);
        }
        for ph in 0..3 {
            for _ in 0..self.r.range(1, 6) {
                let mut c = self.good(ph, 2 * MS);
                if large && self.r.pct(60) {
                    let n = self.r.logrange(4_000, 150_000) as u32;
                    self.upload(&mut c, n);
                }
                self.maybe_tls(&mut c, 30);
                self.p.clients.push(c);
            }
        }
    }
    fn weird(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 9) {
            let a = *self.r.pick(&[
                "é", "✓", "日本", "🦀", "%", "%4", "%é", "%✓", "%4é", "%41", "=", "==", ";", "; ", ",", ", ", "&", "[", "]", "[]", "[é]=", "timeout", "timeout=", "max=", "é=", "5", "0", "-1", "+", "/", "..", "/../",
                "?", ":", ".", "a", "ab", "Path=", "Max-Age=", "Expires=", "SameSite=", "\"", "\t", "\u{a0}", "\u{2028}", "keep-alive", "close", "1.1", "99999999999999999999", "x",
            ]);
            s.push_str(a);
        }
        s
    }
    /// turns the request into an upload of `n` bytes
    fn upload(&mut self, c: &mut ClientPlan, n: u32) {
        let mut m = "POST".to_string();
        for o in &self.p.app.ops {
            if let RegOp::Route(r) = o {
                if r.path == "/echo" && r.method != "ALL" {
                    m = r.method.clone();
                }
            }
        }
        c.req.method = m;
        c.req.target = "/echo".into();
        c.req.headers.retain(|(n, _)| !n.to_lowercase().starts_with("content-length"));
        c.req.headers.push(("Content-Length: ".into(), "@len".into()));
        c.req.body = n;
        c.req.body_text = None;
        c.rd.chunk = c.rd.chunk.max(n / 1000 + 1);
        c.sndbuf = c.sndbuf.max(n / 1000 + 1);
    }
    /// bytes in the shape of a request but wrong in any way
    fn fuzz(&mut self, id: u32) -> Vec<u8> {
        let rq = if self.r.pct(50) { self.simple(id) } else { self.req(id, 400) };
        let mut b = rq.render(id);
        match self.r.below(14) {
            12 | 13 => {
                // one field full of odd text
                let w = self.weird();
                let (mut method, mut path, mut query, mut ver, mut hs) = ("GET".to_string(), "/g0".to_string(), String::new(), "HTTP/1.1".to_string(), vec![]);
                match self.r.below(12) {
                    0 | 1 | 2 => query = format!("?{}", w),
                    3 => path = format!("/{}", w),
                    4 => hs.push(("Cookie", w)),
                    5 => {
                        hs.push(("Connection", "keep-alive".to_string()));
                        hs.push(("Keep-Alive", w));
                        ver = self.r.pick(&["HTTP/1.0", "HTTP/1.1"]).to_string();
                    }
                    6 => hs.push(("Connection", w)),
                    7 => hs.push(("Content-Length", w)),
                    8 => hs.push(("X-Odd", w)),
                    9 => method = w,
                    10 => ver = format!("{}{}", self.r.pick(&["HTTP/", "HTTP", "", "HTTP/1", "HTTP/1."]), w),
                    _ => hs.push(("Host", w)),
                }
                let mut t = format!("{} {}{} {}\r\nHost: h\r\nX-Id: {}\r\n", method, path, query, ver, token(id));
                for (a, b) in hs {
                    t.push_str(&format!("{}: {}\r\n", a, b));
                }
                t.push_str("\r\n");
                t.into_bytes()
            }
            0 => (0..self.r.range(1, 1500)).map(|_| self.r.next() as u8).collect(),
            1 => {
                for _ in 0..self.r.range(1, 6) {
                    let i = self.r.below(b.len() as u64) as usize;
                    b[i] = self.r.next() as u8;
                }
                b
            }
            2 => {
                let i = self.r.below(b.len() as u64) as usize;
                let j = (i + self.r.range(1, 20) as usize).min(b.len());
                b.drain(i..j);
                b
            }
            3 => {
                let i = self.r.below(b.len() as u64) as usize;
                let t = self
                    .r
                    .pick(&[
                        &b"\r\n"[..], b"\r\n\r\n", b"\n", b"\r", b":", b" ", b"\0", b"%", b"%4", b"?", b"&", b"=", b"[", b"]", b"[]=",
                        b"..", b"/../", b"\xff", b"\xc3", b"\xe2\x9c\x93", b"\t", b";", b"; ",
                    ])
                    .to_vec();
                for (k, x) in t.into_iter().enumerate() {
                    b.insert(i + k, x);
                }
                b
            }
            4 => {
                let line = *self.r.pick(&[
                    &b"\r\n\r\n"[..], b" \r\n\r\n", b"  \r\n\r\n", b"GET\r\n\r\n", b"GET /\r\n\r\n", b"GET / \r\n\r\n", b"GET / H\r\n\r\n", b"GET / HTTP\r\n\r\n",
                    b"GET / HTTP/\r\n\r\n", "GET / HTTé/1.1\r\n\r\n".as_bytes(), "GET / ✓✓✓✓✓\r\n\r\n".as_bytes(), b"GET ? HTTP/1.1\r\nHost: h\r\n\r\n",
                    b"GET /?%e9%zz&&&=&[=&]=&[]&a[=&a]=1 HTTP/1.1\r\nHost: h\r\n\r\n", b"GET http://h/g0 HTTP/1.1\r\nHost: h\r\n\r\n",
                    b"OPTIONS * HTTP/1.1\r\nHost: h\r\n\r\n", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"GET / HTTP/1.1\r\n:\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n\r\n",
                    b"GET / HTTP/1.1\r\nHost\r\n\r\n", b"GET /%00 HTTP/1.1\r\nHost: h\r\n\r\n",
                    "GET /é/✓ HTTP/1.1\r\nHost: é\r\n\r\n".as_bytes(), b"GET /: HTTP/1.1\r\nHost: h\r\n\r\n", b"GET /::/: HTTP/1.1\r\nHost: h\r\n\r\n",
                ]);
                line.to_vec()
            }
            5 => {
                let c = *self.r.pick(&[
                    "", "=", ";", "; ", "; ; ", "a", "a=b;", "a=b; ;c=d", "=; =", "a=b; Path", "é=✓", "a=\"b", "a=b; Max-Age=x; Expires=yesterday",
                    "a=%zz; b=%", "a=b;;;;", "x; y; z=", "a=b; Domain=; Secure=; Max-Age=99999999999999999999999",
                ]);
                format!("GET /g0 HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\nCookie: {}\r\n\r\n", token(id), c).into_bytes()
            }
            6 => {
                let v = *self.r.pick(&[
                    "timeout=", "timeout", "=", ",,,", "max==", "timeout=-1", "timeout=99999999999999999999999", "timeout=5;max", "é", "timeout=18446744073709551615",
                ]);
                let ver = *self.r.pick(&["1.0", "1.1"]);
                format!("GET /g0 HTTP/{}\r\nHost: h\r\nX-Id: {}\r\nConnection: keep-alive\r\nKeep-Alive: {}\r\n\r\n", ver, token(id), v).into_bytes()
            }
            7 => {
                let v = *self.r.pick(&["-1", "1e3", "0x10", "", " ", "abc", "99999999999999999999999", "18446744073709551615", "9223372036854775807", "5, 5", "4294967296", "+5", "5 5"]);
                format!("POST /echo HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\nContent-Length: {}\r\n\r\nhello", token(id), v).into_bytes()
            }
            8 => {
                // path tricks
                let p = *self.r.pick(&[
                    "/..", "/../g0", "/g0/..", "/a/../../b", "/./g0", "//g0", "/g0/", "/g0/.", "/%2e%2e/g0", "/...", "/g0//", "/a/b/../../..", "/.", "/g0/../g0",
                ]);
                format!("GET {} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", p, token(id)).into_bytes()
            }
            9 => {
                // no end of head for long
                let n = self.r.logrange(10, 30_000) as usize;
                let mut v = b"GET /g0 HTTP/1.1\r\nHost: h\r\nX-Long: ".to_vec();
                v.extend(vec![b'z'; n]);
                v
            }
            10 => {
                let mut m = self.word(0, 20);
                if self.r.pct(30) {
                    m = m.repeat(200);
                }
                format!("{} /g0 HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", m, token(id)).into_bytes()
            }
            11 if self.r.pct(25) => {
                // as many of something as fit
                let n = self.r.logrange(2_000, 60_000) as usize;
                let unit = *self.r.pick(&["/a", "/", "/./a", "&a", "&a=b", "&=", "?", "%41", "&a[]=1", "&a[b]=c", "\r\na:b", "\r\nCookie: a=b", "; a=b", "a/../", "::", "&%"]);
                let u = unit.repeat(n / unit.len());
                match unit.as_bytes()[0] {
                    b'\r' => format!("GET /g0 HTTP/1.1\r\nHost: h\r\nX-Id: {}{}\r\n\r\n", token(id), u),
                    b';' => format!("GET /g0 HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\nCookie: x=y{}\r\n\r\n", token(id), u),
                    b'&' | b'?' | b'%' => format!("GET /g0?x{} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", u, token(id)),
                    _ => format!("GET /{} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", u, token(id)),
                }
                .into_bytes()
            }
            _ => {
                let seg = self.word(1, 3);
                let n = self.r.logrange(1, 400) as usize;
                let p = format!("/{}", seg).repeat(n);
                format!("GET {} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n\r\n", p, token(id)).into_bytes()
            }
        }
    }
    fn errno(&mut self) -> i32 {
        *self.r.pick(&[libc::ECONNRESET, libc::ECONNRESET, libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::EPIPE])
    }
    fn chaotic(&mut self, phase: u32) -> ClientPlan {
        let mut c = self.good(phase, 3 * MS);
        let id = c.id;
        match self.r.below(10) {
            0 | 1 | 2 => {
                c.req = ReqSpec { raw: Some(self.fuzz(id)), ..Default::default() };
                c.end = if self.r.pct(60) { End::Fin } else { End::Rst(self.errno()) };
                c.end_delay = self.r.logrange(1, 10 * MS);
            }
            3 => {
                let n = c.req.render(id).len() as u64;
                c.limit = Some(self.r.below(n + 1) as u32);
                c.end = End::Rst(self.errno());
                c.end_delay = self.r.logrange(1, 5 * MS);
            }
            4 => {
                c.end = End::Rst(self.errno());
                c.end_delay = self.r.logrange(1, 3 * MS);
            }
            5 => {
                c.rst_after_rx = Some(self.r.logrange(1, 5000) as u32);
                c.sndbuf = self.r.logrange(5, 4000) as u32;
            }
            6 => {
                let n = c.req.render(id).len() as u64;
                c.limit = Some(self.r.below(n + 1) as u32);
                c.end = End::Fin;
            }
            7 => {
                c.req.trailing = self.trailing();
                self.cuts(&mut c);
                c.cuts.truncate(60);
            }
            8 => {
                c.limit = Some(0);
                c.end = if self.r.pct(50) { End::Fin } else { End::Rst(self.errno()) };
            }
            _ => {
                c.req.target = format!("/boom{}", self.r.below(2));
                let mut m = "GET".to_string();
                for o in &self.p.app.ops {
                    if let RegOp::Route(r) = o {
                        if r.path == c.req.target {
                            m = r.method.clone();
                        }
                    }
                }
                if m == "ALL" {
                    m = self.r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD"]).to_string();
                }
                if !matches!(m.as_str(), "POST" | "PUT" | "PATCH") {
                    c.req.headers.retain(|(n, _)| !n.to_lowercase().starts_with("content-length"));
                    c.req.body = 0;
                    c.req.body_text = None;
                }
                c.req.method = m;
            }
        }
        c
    }
    fn boom(&mut self) {
        let ms = ["GET", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "ALL"];
        for k in 0..2 {
            let m = *self.r.pick(&ms);
            let path = format!("/boom{}", k);
            for _ in 0..self.r.below(2) {
                let d = self.deco(false);
                self.add(m, &path, d, false);
            }
            let mut a = vec![Act::Token];
            if k == 1 {
                let n = self.size(2000);
                a.push(Act::Send(n));
            }
            a.push(Act::Panic);
            self.add(m, &path, a, true);
        }
    }
    fn retoken(&mut self, c: &mut ClientPlan, old: &str) {
        let new = token(c.id);
        c.req.target = c.req.target.replace(old, &new);
        for h in c.req.headers.iter_mut() {
            h.1 = h.1.replace(old, &new);
        }
        if let Some(r) = c.req.raw.as_mut() {
            let o = old.as_bytes();
            for i in 0..r.len().saturating_sub(5) {
                if &r[i..i + 6] == o {
                    r[i..i + 6].copy_from_slice(new.as_bytes());
                }
            }
        }
    }
    fn chaos(&mut self) {
        self.app(3000, false);
        self.boom();
        self.p.phases = 2;
        for _ in 0..self.r.range(1, 9) {
            let mut c = self.chaotic(0);
            if TLS && c.req.raw.is_none() && self.r.pct(25) {
                c.tls = true;
            }
            self.p.clients.push(c);
        }
        if self.r.pct(3) {
            // the same trouble again and again
            let n = *self.r.pick(&[20u64, 40, 70, 140, 300]);
            let mut p = self.chaotic(0);
            while p.req.render(p.id).len() > 3000 {
                p = self.chaotic(0);
            }
            let old = token(p.id);
            for _ in 0..n {
                let id = self.id();
                let mut c = p.clone();
                c.id = id;
                c.at = 1 + self.r.below(4 * MS);
                self.retoken(&mut c, &old);
                self.p.clients.push(c);
            }
        }
        for _ in 0..self.r.range(1, 5) {
            let mut c = self.good(0, 4 * MS);
            self.maybe_tls(&mut c, 25);
            self.p.clients.push(c);
        }
        for _ in 0..self.r.range(1, 3) {
            let mut c = self.good(1, MS);
            self.maybe_tls(&mut c, 25);
            self.p.clients.push(c);
        }
    }
    fn truncate(&mut self) {
        self.app(500, false);
        let max = *self.r.pick(&[300u64, 3000, 3000, 60_000]);
        for _ in 0..self.r.range(2, 8) {
            let id = self.id();
            let rq = self.req(id, max);
            let mut c = self.client(id, rq);
            self.cuts(&mut c);
            c.cuts.truncate(80);
            let b = c.req.render(id);
            let n = b.len() as u64;
            let head = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap() as u64 + 4;
            let at = match self.r.below(8) {
                0 => self.r.below(4),
                1 => head - self.r.range(1, 5.min(head)),
                2 => head,
                3 => n - self.r.range(1, 3.min(n)),
                4 => head + self.r.below(n - head + 1),
                5 => n,
                _ => self.r.below(n),
            };
            c.limit = Some(at as u32);
            c.end = match self.r.below(4) {
                0 => End::Rst(self.errno()),
                1 => End::Keep,
                _ => End::Fin,
            };
            c.end_delay = self.r.logrange(1, 3 * MS);
            if TLS && self.r.pct(20) {
                c.tls = true;
                if self.r.pct(50) {
                    // cut inside the TLS stream, not the request
                    c.limit = Some(self.r.below(n + 900) as u32);
                } else {
                    // the request itself is short, the TLS closure orderly
                    let mut b = b.clone();
                    b.truncate(at as usize);
                    c.req = ReqSpec { raw: Some(b), method: c.req.method.clone(), ..Default::default() };
                    c.limit = None;
                    c.end = End::Fin;
                }
            }
            self.p.clients.push(c);
        }
        for _ in 0..self.r.range(0, 3) {
            let c = self.good(0, 3 * MS);
            self.p.clients.push(c);
        }
    }
    fn malformed(&mut self) {
        self.app(300, false);
        self.add("ALL", "/", vec![Act::Token, Act::Text("root".into())], true);
        self.add("USE", "", vec![Act::Set("X-Late".into(), "1".into())], false);
        for _ in 0..self.r.range(3, 9) {
            let id = self.id();
            let mut s = if self.r.pct(50) { self.simple(id) } else { self.req(id, 600) };
            let w = self.word(1, 10);
            match self.r.below(18) {
                16 => {
                    // valid, but deep
                    let seg = self.word(1, 3);
                    let n = self.r.logrange(10, 300) as usize;
                    let t = s.target.trim_start_matches('/').to_string();
                    s.target = match self.r.below(3) {
                        0 => format!("/{}", seg).repeat(n),
                        1 => format!("{}{}/{}", format!("/{}", seg).repeat(n), "/..".repeat(n), t),
                        _ => format!("{}/{}", format!("/{}/..", seg).repeat(n), t),
                    };
                }
                0 => s.method = self.r.pick(&["BREW", "get", "Get", "PROPFIND", "FOO", "GETT", "GE", "M-SEARCH", "LINK"]).to_string(),
                1 => s.version = self.r.pick(&["HTP/1.1", "http/1.1", "1.1", "HTTPS/1.1", "XHTTP/1.1", "HTTP1.1", "H"]).to_string(),
                2 => s.version = format!("HTTP/1.1 {}", w),
                3 => s.target = self.r.pick(&["/..", "/../a", "/a/../../b", "/a/b/../../../c", "/./..", "/..?x=1", "//..", "/a/../.."]).to_string(),
                4 => {
                    let k = self.r.below(s.headers.len() as u64 + 1) as usize;
                    s.headers.insert(k, (w, String::new()));
                }
                5 => {
                    let k = self.r.below(s.headers.len() as u64 + 1) as usize;
                    s.headers.insert(k, (": ".into(), w));
                }
                6 => {
                    let k = self.r.below(s.headers.len() as u64 + 1) as usize;
                    let n = self.r.pick(&["Bad Name: ", "Bad(x): ", " Folded: ", "a,b: ", "a/b: ", "a@b: ", "Bad : ", "\u{e9}t\u{e9}: ", "a\"b: ", "a{: ", "[: "]).to_string();
                    s.headers.insert(k, (n, w));
                }
                7 => {
                    let k = self.r.below(s.headers.len() as u64 + 1) as usize;
                    let v = self.r.pick(&["a\x01b", "\x07", "x\0y", "a\x7f", "a\x1fb", "\x1f", "q\nr", "q\rr"]).to_string();
                    s.headers.insert(k, ("X-Ctl: ".into(), v));
                }
                8 => {
                    s.version = "HTTP/1.1".into();
                    s.headers.retain(|(n, _)| !n.to_lowercase().starts_with("host"));
                }
                9 => {
                    s.headers.retain(|(n, _)| !n.to_lowercase().starts_with("content-length"));
                    let v = self.r.pick(&["-1", "abc", "1x", "0x10", "1.5", "", "99999999999999999999999999", "5,5", "1 2"]).to_string();
                    s.headers.push(("Content-Length: ".into(), v));
                }
                10 => {
                    // not UTF-8 somewhere in the head
                    let mut b = s.render(id);
                    let head = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap();
                    let i = self.r.range(1, head as u64 - 1) as usize;
                    let i = if self.r.pct(30) { head } else { i };
                    let t = *self.r.pick(&[&b"\xff"[..], b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80", b"\x80", b"\xf5\x80\x80\x80"]);
                    let at = if b.get(i).map_or(false, |c| (0x80..0xc0).contains(c)) { head } else { i };
                    for (k, x) in t.iter().enumerate() {
                        b.insert(at + k, *x);
                    }
                    s = ReqSpec { raw: Some(b), ..Default::default() };
                }
                11 => {
                    let t = *self.r.pick(&["GET", "GET /g0", "GET /g0HTTP/1.1", "", "HTTP/1.1", "/g0 HTTP/1.1"]);
                    let raw = format!("{}\r\nHost: h\r\nX-Id: {}\r\n\r\n", t, token(id)).into_bytes();
                    s = ReqSpec { raw: Some(raw), ..Default::default() };
                }
                12 => {
                    // nothing registered
                    s.target = format!("/missing/{}", w);
                }
                13 => {
                    // without any header
                    let q = format!("GET /g0?id={} HTTP/1.0\r\n\r\n", token(id)).into_bytes();
                    s = ReqSpec { raw: Some(q), ..Default::default() };
                }
                14 => {
                    let b = format!("GET /g0 HTTP/1.1\r\n\r\n").into_bytes();
                    s = ReqSpec { raw: Some(b), ..Default::default() };
                }
                15 => s.method = format!("X{}", w),
                _ => {}
            }
            let mut c = self.client(id, s);
            if self.r.pct(50) {
                self.cuts(&mut c);
                c.cuts.truncate(100);
            }
            if self.r.pct(20) {
                self.reading(&mut c, 2000);
            }
            self.end(&mut c, 35);
            self.maybe_tls(&mut c, 20);
            self.p.clients.push(c);
        }
    }
    fn rpath(&mut self, pat: bool) -> String {
        let mut n = *self.r.pick(&[0u64, 1, 1, 2, 2, 2, 3, 3, 4, 12, 30]);
        if self.r.pct(2) {
            n = self.r.range(60, 400);
        }
        let mut s = String::new();
        for k in 0..n {
            s.push('/');
            match self.r.below(14) {
                3 | 4 | 5 if n >= 60 && self.r.pct(90) => s.push_str("a"),
                0 | 1 | 2 if pat && VARS && n < 60 => s.push_str(&format!(":{}", self.r.pick(&["x", "y", "name", "id", "v"]))),
                3 => s.push_str("."),
                4 if k > 0 => s.push_str(".."),
                5 => {}
                6 if !pat => {
                    let w = self.word(1, 6);
                    s.push_str(&w);
                }
                7 if !pat => s.push_str(*self.r.pick(&[":x", ":", "..."])),
                _ => {
                    let k = self.r.below(if n > 4 { 2 } else { SEGS.len() as u64 }) as usize;
                    s.push_str(SEGS[k]);
                }
            }
        }
        if self.r.pct(15) {
            s.push('/');
        }
        if s.is_empty() {
            s.push('/');
        }
        if pat && self.r.pct(3) {
            s = "/..".to_string() + &s;
        }
        if pat && self.r.pct(10) {
            s = s.trim_start_matches('/').to_string();
        }
        s
    }
    fn routing(&mut self) {
        let n = *self.r.pick(&[2u64, 5, 10, 20, 60]);
        let mut n = self.r.range(1, n);
        if self.r.pct(1) {
            n = 400;
        }
        let depth = self.r.range(2, 10) as usize;
        let mut pats: Vec<String> = (0..depth).map(|_| self.rpath(true)).collect();
        pats.push("/".into());
        let mut k = 0;
        while k < n {
            if self.r.pct(25) {
                let mut v = vec![];
                for _ in 0..self.r.range(0, 6) {
                    let x = self.rroute(&pats);
                    v.push(x);
                    k += 1;
                }
                self.p.app.ops.push(RegOp::Merge(v));
            } else {
                let x = self.rroute(&pats);
                self.p.app.ops.push(RegOp::Route(x));
            }
            k += 1;
        }
        for _ in 0..self.r.range(3, 20) {
            let id = self.id();
            let mut s = self.simple(id);
            s.method = self.r.pick(&["GET", "GET", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT"]).to_string();
            let p = match self.r.below(5) {
                0 => self.rpath(false),
                1 => "/".into(),
                _ => {
                    let p = self.r.pick(&pats).clone();
                    let mut p = self.instance(&p, id);
                    if !p.starts_with('/') {
                        p.insert(0, '/');
                    }
                    match self.r.below(10) {
                        0 => p.push_str("/extra"),
                        1 => p.push('/'),
                        2 => p = p.replacen('/', "//", 1),
                        3 => p = format!("/zz/..{}", p),
                        4 => p = p.to_uppercase(),
                        5 => {
                            p.pop();
                            if p.is_empty() {
                                p.push('/');
                            }
                        }
                        _ => {}
                    }
                    p
                }
            };
            s.target = p;
            if self.r.pct(30) {
                let q = self.qs(id);
                s.target = format!("{}?{}", s.target, q);
                if self.r.pct(30) {
                    s.target.push_str("&next=/a/../b?x");
                }
            }
            let mut c = self.client(id, s);
            if self.r.pct(20) {
                self.cuts(&mut c);
                c.cuts.truncate(50);
            }
            self.p.clients.push(c);
        }
    }
    fn rroute(&mut self, pats: &[String]) -> RoutePlan {
        let m = self.r.pick(&["GET", "GET", "GET", "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "ALL", "ALL", "USE", "USE"]).to_string();
        let p = if self.r.pct(80) { self.r.pick(pats).clone() } else { self.rpath(true) };
        let mut a = vec![Act::Set(format!("X-H{}", self.r.below(6)), format!("r{}", self.rid))];
        if self.r.pct(40) {
            a.push(Act::Token);
        }
        if self.r.pct(60) {
            a.push(Act::Text(format!("by {}", self.rid + 1)));
        }
        if self.r.pct(10) {
            a.push(Act::Yield(1));
        }
        let stop = self.r.pct(25);
        self.route(&m, &p, a, stop)
    }
    fn file(&mut self, k: usize, max: u64) -> FileSpec {
        let e = *self.r.pick(&MIME);
        let ext = match self.r.below(5) {
            0 => e.0.to_uppercase(),
            1 if self.r.pct(30) => "tar.gz".into(),
            _ => e.0.to_string(),
        };
        let name = match self.r.below(40) {
            0 | 1 => format!("f{}", k),
            2 => format!("d{}/{}", k, ext),
            3 => format!("d{}/.{}", k, ext),
            4 => format!("d{}.{}/readme", k, ext),
            5 => format!("d{}.css/f.{}", k, ext),
            6 => format!("f{}.{}.", k, ext),
            7 => format!("f{}..{}", k, ext),
            8 => format!("f{}.{}.bak", k, ext),
            9 => format!("f {} é.{}", k, ext),
            10 => format!("f{}%20x.{}", k, ext),
            _ => format!("f{}.{}", k, ext),
        };
        FileSpec { name, len: self.size(max), seed: self.r.next(), kind: "file".into(), open_errno: None, ops: vec![] }
    }
    fn files(&mut self) {
        let mut max = *self.r.pick(&[5_000u64, 20_000, 20_000, 80_000, 300_000]);
        if self.r.pct(2) {
            max = 6_000_000;
        }
        let n = self.r.range(1, 5) as usize;
        for k in 0..n {
            let mut f = self.file(k, max);
            let mut uses = self.r.range(1, 3);
            if self.r.pct(15) {
                f.kind = self.r.pick(&["missing", "dir"]).to_string();
            } else if self.r.pct(8) {
                f.kind = self.r.pick(&["link", "linked_twice"]).to_string();
            } else if self.r.pct(8) {
                f.open_errno = Some(*self.r.pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ENOMEM]));
            } else if self.r.pct(45) {
                uses = 1;
                let at = self.r.below(6) as u32;
                let mut at = at;
                let op = match self.r.below(4) {
                    0 => FileOp::Eio,
                    3 => {
                        if self.r.pct(70) {
                            at = AFTER_OPEN;
                        }
                        FileOp::Replace(self.size(max))
                    }
                    1 => FileOp::Truncate(self.r.below(f.len as u64 + 1) as u32),
                    _ => FileOp::Grow(self.r.logrange(1, 20_000) as u32),
                };
                let op_kind = op.clone();
                f.ops.push((at, op));
                let other = matches!(op_kind, FileOp::Replace(_));
                if !other && self.r.pct(30) {
                    f.ops.push((self.r.below(12) as u32, FileOp::Grow(self.r.logrange(1, 5000) as u32)));
                }
            }
            let f_len = f.len as u64;
            let single = !f.ops.is_empty();
            self.p.files.push(f);
            let mut a = vec![Act::Token];
            let over = self.r.pct(8) && !single;
            if self.r.pct(20) {
                a.push(Act::Text("before".into()));
            }
            if self.r.pct(15) {
                a.push(Act::Type("text/weird".into()));
            }
            a.push(Act::SendFile(k as u32));
            if over {
                a.push(Act::Text("after".into()));
            }
            self.add("GET", &format!("/f{}", k), a, true);
            for _ in 0..uses {
                let id = self.id();
                let mut s = self.simple(id);
                s.method = "GET".into();
                s.target = format!("/f{}", k);
                s.body = 0;
                s.headers.truncate(2);
                let mut c = self.client(id, s);
                c.at = 1 + self.r.below(2 * MS);
                self.reading(&mut c, f_len + 500);
                self.end(&mut c, 20);
                if self.r.pct(10) {
                    c.rst_after_rx = Some(self.r.below(f_len + 200) as u32 + 1);
                }
                self.maybe_tls(&mut c, 30);
                self.p.clients.push(c);
            }
        }
    }
    fn accept(&mut self) {
        self.app(2000, false);
        self.p.phases = 2;
        let n = self.r.range(2, 10);
        for _ in 0..n {
            let spread = *self.r.pick(&[1u64, 10_000, 2 * MS]);
            let mut c = self.good(0, spread);
            self.maybe_tls(&mut c, 40);
            self.p.clients.push(c);
        }
        for _ in 0..self.r.range(1, 3) {
            let mut c = self.good(1, 1000);
            self.maybe_tls(&mut c, 40);
            self.p.clients.push(c);
        }
        if self.r.pct(60) {
            // some give up while they are still in the queue
            for _ in 0..self.r.range(1, 4) {
                let mut c = self.good(0, 2 * MS);
                if self.r.pct(70) && !self.p.clients.is_empty() {
                    let k = self.r.below(self.p.clients.len() as u64) as usize;
                    if self.p.clients[k].phase == 0 {
                        c.at = self.p.clients[k].at;
                    }
                }
                c.cuts.clear();
                c.limit = Some(*self.r.pick(&[0, 0, 10, 5000]));
                c.end = End::Rst(self.errno());
                c.end_delay = self.r.logrange(1, 20_000);
                self.maybe_tls(&mut c, 40);
                let k = self.r.below(self.p.clients.len() as u64 + 1) as usize;
                self.p.clients.insert(k, c);
            }
        }
        if self.r.pct(12) {
            // a real shortage of descriptors that clears as connections end
            let base = if self.p.workers > 0 { 4 } else { 4 } + if TLS { 1 } else { 0 };
            self.p.fd_limit = Some(base + self.r.range(2, 5) as u32);
        }
        for _ in 0..self.r.range(1, 4) {
            let f = AcceptFault {
                tls: TLS && self.r.pct(40),
                nth: self.r.below(n) as u32,
                count: *self.r.pick(&[1u32, 1, 2, 3, 10, 50, 200, 1500]),
                errno: *self.r.pick(&[
                    libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EINTR, libc::EPROTO, libc::EPERM,
                    libc::ENETDOWN, libc::EHOSTUNREACH, libc::EMFILE, libc::ECONNABORTED,
                ]),
            };
            self.p.accept_faults.push(f);
        }
    }
    fn restart(&mut self) {
        self.app(3000, false);
        self.p.phases = 2;
        let span = *self.r.pick(&[300_000u64, 2 * MS, 20 * MS]);
        for _ in 0..self.r.range(2, 10) {
            let mut c = self.good(0, span);
            if self.r.pct(25) {
                let n = c.req.render(c.id).len() as u64;
                c.stall = Some((self.r.below(n) as u32, 9));
                c.end = End::Keep;
            }
            if self.r.pct(20) {
                self.reading(&mut c, 8000);
                c.rd.delay = self.r.logrange(1000, 30 * MS);
            }
            self.maybe_tls(&mut c, 30);
            self.p.clients.push(c);
        }
        for _ in 0..self.r.range(1, 3) {
            let c = self.chaotic(0);
            self.p.clients.push(c);
        }
        for _ in 0..self.r.range(1, 4) {
            let mut c = self.good(1, MS);
            self.maybe_tls(&mut c, 30);
            self.p.clients.push(c);
        }
        for k in 0..self.r.range(1, 3) {
            let c = if self.r.pct(50) {
                Crash::At(self.r.logrange(if k == 0 { 10_000 } else { 1_000 }, span * 2))
            } else {
                Crash::Call(self.r.logrange(20, 2500))
            };
            self.p.crashes.push(c);
        }
    }
    fn startup(&mut self) {
        self.app(2000, false);
        self.p.phases = 2;
        let tls_build = cfg!(feature = "f_tls");
        let mut tls_hit = false;
        let mut reg = false;
        for _ in 0..self.r.range(1, 4) {
            let tls = tls_build && self.p.tls.is_some() && self.r.pct(30);
            let (call, errno) = match self.r.below(if tls { 3 } else { 4 }) {
                0 => ("bind", *self.r.pick(&[libc::EADDRINUSE, libc::EACCES, libc::EADDRINUSE, libc::ENOMEM])),
                1 => ("listen", *self.r.pick(&[libc::EADDRINUSE, libc::EADDRINUSE, libc::ENOBUFS])),
                2 => ("epoll_ctl", *self.r.pick(&[libc::ENOMEM, libc::ENOSPC])),
                _ => ("socket", *self.r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EACCES])),
            };
            tls_hit |= tls;
            reg |= call == "epoll_ctl";
            self.p.start.push(StartFault { call: call.into(), errno, tls });
            if tls {
                // this attempt comes up and keeps the plain port
                break;
            }
        }
        for _ in 0..self.r.range(1, 5) {
            let ph = if reg || self.r.pct(40) { 1 } else { 0 };
            let mut c = self.good(ph, 2 * MS);
            if !tls_hit {
                self.maybe_tls(&mut c, 40);
            }
            self.p.clients.push(c);
        }
    }
    fn leak(&mut self) {
        self.app(1500, false);
        self.boom();
        let f = self.file(0, 6000);
        self.p.files.push(f);
        self.add("GET", "/file", vec![Act::Token, Act::SendFile(0)], true);
        let waves = 14;
        self.p.phases = waves;
        // a long run of cheap connections shows what one of them leaves behind, however little
        let long = self.r.pct(2);
        let n = if long { self.r.range(1, 2) } else { self.r.range(3, 9) };
        let proto: Vec<ClientPlan> = (0..n)
            .map(|_| {
                let mut c = match self.r.below(4) {
                    0 | 1 => self.chaotic(0),
                    2 => {
                        let mut c = self.good(0, 2 * MS);
                        c.req.method = "GET".into();
                        c.req.target = "/file".into();
                        c.req.body = 0;
                        c.req.body_text = None;
                        c.req.headers.retain(|(n, _)| !n.to_lowercase().starts_with("content-length"));
                        if self.r.pct(40) {
                            c.rst_after_rx = Some(self.r.range(1, 3000) as u32);
                            c.sndbuf = 500;
                        }
                        c
                    }
                    _ => self.good(0, 2 * MS),
                };
                if c.req.raw.is_none() && !long {
                    self.maybe_tls(&mut c, 35);
                }
                if long {
                    c.cuts.truncate(3);
                    c.rd.chunk = c.rd.chunk.max(500);
                    c.sndbuf = c.sndbuf.max(1000);
                    if c.req.render(c.id).len() > 2500 {
                        c.limit = Some(c.limit.unwrap_or(2500).min(2500));
                        c.end = End::Rst(libc::ECONNRESET);
                    }
                }
                c
            })
            .collect();
        for w in 0..waves {
            for (c, k) in proto.iter().flat_map(|c| (0..if long { 160 / n } else { 1 }).map(move |k| (c, k))) {
                let mut c = c.clone();
                let old = token(c.id);
                c.id = self.id();
                c.phase = w;
                c.at += k * 60 * MS;
                self.retoken(&mut c, &old);
                self.p.clients.push(c);
            }
        }
    }
    fn clock(&mut self) {
        self.app(400, false);
        self.add("GET", "/nothing", vec![], false);
        let y = |y: i64| -> i64 {
            // 1 January of year y
            let p = y - 1;
            (p * 365 + p / 4 - p / 100 + p / 400 - 719162) * 86400
        };
        let year = match self.r.below(5) {
            0 => self.r.range(1970, 1975),
            1 => self.r.range(2000, 2040),
            2 => *self.r.pick(&[1972u64, 2000, 2000, 2000, 2004, 2096, 2100, 2104, 2200, 2400, 2800, 9996, 9999, 4000]),
            _ => self.r.range(1970, 9999),
        } as i64;
        let base = y(year);
        let mut t = base
            + match self.r.below(5) {
                0 => self.r.below(365 * 86400) as i64,
                4 => 86400 * self.r.range(58, 60) as i64 + self.r.below(86400) as i64,
                1 => 86400 * self.r.below(366) as i64 - 1,
                2 => 86400 * *self.r.pick(&[30i64, 31, 58, 59, 60, 90, 120, 151, 181, 212, 243, 273, 304, 334, 364, 365]) - self.r.below(2) as i64,
                _ => 86400 * self.r.below(365) as i64 + self.r.below(86400) as i64,
            };
        t = t.clamp(0, 253402300799 - 4000);
        self.p.wall_secs = t;
        self.p.wall_nanos = *self.r.pick(&[0u32, 1, 999_999_999, 999_900_000, 500_000_000]);
        let n = self.r.range(2, 8);
        let span = *self.r.pick(&[100_000u64, 5 * MS, 3_000 * MS, 100_000 * MS]);
        for _ in 0..n {
            let mut c = self.good(0, span);
            if self.r.pct(15) {
                c.limit = Some(self.r.below(20) as u32);
                c.end = End::Fin;
            }
            self.maybe_tls(&mut c, 20);
            self.p.clients.push(c);
        }
        for _ in 0..self.r.below(5) {
            let at = self.r.below(span.max(2) * 2);
            let d: i64 = match self.r.below(6) {
                0 => -(1_000_000_000 * self.r.range(1, 4000) as i64),
                1 => 1_000_000_000 * self.r.range(1, 100_000_000) as i64,
                2 => 1_000_000_000 * self.r.range(1, 3) as i64,
                3 => -(self.r.below(2_000_000_000) as i64),
                4 => {
                    // to before 1970
                    let back = t.saturating_add(self.r.range(1, 1_000_000) as i64);
                    -(back.min(9_000_000_000)).saturating_mul(1_000_000_000).min(i64::MAX)
                }
                _ => self.r.below(1_500_000_000) as i64,
            };
            self.p.jumps.push((at, d));
        }
        self.p.jumps.sort();
        if self.r.pct(10) {
            self.p.wall_secs = -(self.r.range(1, 1_000_000_000) as i64);
        }
        let (mut low, mut off) = (self.p.wall_secs as i128 * 1_000_000_000, 0i64);
        for (_, d) in &self.p.jumps {
            off = off.saturating_add(*d);
            low = low.min(self.p.wall_secs as i128 * 1_000_000_000 + off as i128);
        }
        if low < 0 {
            // the TLS libraries have no time before 1970
            for c in self.p.clients.iter_mut() {
                c.tls = false;
            }
        }
    }
    fn memory(&mut self) {
        self.app(300, false);
        self.p.mem_check = true;
        self.p.phases = 2;
        for _ in 0..self.r.range(1, 6) {
            let id = self.id();
            let mut s = self.simple(id);
            s.method = "POST".into();
            s.headers.retain(|(n, _)| !n.starts_with("Content-Length"));
            s.body = 0;
            match self.r.below(12) {
                0 => s.method = self.r.pick(&["PUT", "PATCH", "HEAD", "OPTIONS", "TRACE"]).to_string(),
                1 | 2 => s.method = self.r.pick(&["GET", "DELETE"]).to_string(),
                3 => s.version = "HTTP/1.0".into(),
                4 => s.headers.retain(|(n, _)| !n.starts_with("Host")),
                5 => s.method = "BREW".into(),
                6 => s.target = "/missing".into(),
                7 => s.headers.push(("Connection: ".into(), "keep-alive".into())),
                _ => {}
            }
            let ann: String = match self.r.below(5) {
                0 => self.r.pick(&["18446744073709551615", "9223372036854775807", "9223372036854775808", "1152921504606846976"]).to_string(),
                1 => (1u64 << self.r.range(20, 62)).to_string(),
                2 => ((1u64 << self.r.range(21, 40)) - 1).to_string(),
                3 => "99999999999999999999".into(),
                _ => self.r.logrange(8_000_000, 1 << 45).to_string(),
            };
            s.headers.push(("Content-Length: ".into(), ann));
            s.trailing = vec![b'm'; self.r.logrange(1, 20_000) as usize];
            let trickle = self.r.pct(12);
            if trickle {
                s.trailing = vec![b'm'; self.r.range(1500, 6000) as usize];
            }
            let mut c = self.client(id, s);
            self.cuts(&mut c);
            c.cuts.truncate(60);
            if trickle {
                // every byte comes alone
                c.cuts.clear();
                let head = c.req.render(id).len() as u32 - c.req.trailing.len() as u32;
                if self.r.pct(60) {
                    c.cuts.push((head, 1000));
                }
                let d = self.r.logrange(1, 50_000);
                for _ in 0..c.req.trailing.len() {
                    c.cuts.push((1, d));
                }
            }
            c.end = match self.r.below(3) {
                0 => End::Keep,
                1 => End::Rst(libc::ECONNRESET),
                _ => End::Fin,
            };
            c.end_delay = self.r.logrange(1, 20 * MS);
            self.maybe_tls(&mut c, 25);
            self.p.clients.push(c);
        }
        if self.r.pct(40) {
            let id = self.id();
            let mut v = b"GET /g0 HTTP/1.1\r\nHost: h\r\n".to_vec();
            let n = self.r.logrange(100, 150_000) as usize;
            if self.r.pct(50) {
                v.extend(vec![b'h'; n]);
            } else {
                while v.len() < n {
                    v.extend_from_slice(b"A: b\r\n");
                }
            }
            let trickle = self.r.pct(15);
            if trickle {
                let n = self.r.range(3000, 6000) as usize;
                while v.len() < n {
                    v.push(b'h');
                }
                v.truncate(6000);
            }
            let mut c = self.client(id, ReqSpec { raw: Some(v), ..Default::default() });
            if trickle {
                c.cuts = vec![(1, self.r.logrange(1, 50_000)); 6000];
            } else if self.r.pct(50) {
                for _ in 0..40 {
                    c.cuts.push((self.r.logrange(1, 6000) as u32, self.r.logrange(1, MS)));
                }
            }
            c.end = if self.r.pct(50) { End::Fin } else { End::Keep };
            self.p.clients.push(c);
        }
        for ph in 0..2 {
            for _ in 0..self.r.range(1, 3) {
                let mut c = self.good(ph, 2 * MS);
                self.maybe_tls(&mut c, 25);
                self.p.clients.push(c);
            }
        }
    }
    fn tls(&mut self) {
        let max = *self.r.pick(&[2_000u64, 20_000, 40_000, 40_000, 200_000]);
        self.app(max, true);
        for _ in 0..self.r.range(1, 5) {
            let id = self.id();
            let rq = self.req(id, max);
            let mut c = self.client(id, rq);
            c.tls = self.r.pct(75);
            if self.r.pct(70) {
                self.cuts(&mut c);
            }
            if self.r.pct(70) {
                self.reading(&mut c, max + 6000);
            }
            if self.r.pct(10) {
                c.req.trailing = self.trailing();
            }
            self.end(&mut c, 30);
            self.p.clients.push(c);
        }
    }
    fn tlstrouble(&mut self) {
        self.app(1500, false);
        self.p.phases = 3;
        let broken = self.r.pct(30);
        if broken {
            if self.r.pct(25) {
                self.p.taken = Some(8443);
            } else {
                let k = self.r.pick(&[
                    "missing_key", "missing_cert", "garbage_key", "garbage_cert", "empty_key", "empty_cert", "mismatch", "swapped",
                ]);
                self.p.tls.as_mut().unwrap().key = k.to_string();
            }
        } else {
            let many = *self.r.pick(&[2u64, 5, 5, 10, 60, 200]);
            let n = if many > 20 { many } else { self.r.range(1, many) };
            let same = if self.r.pct(25) { Some(*self.r.pick(&[1u64, 3, 3, 3, 5, 0, 2, 4])) } else { None };
            for _ in 0..n {
                let mut c = self.good(0, 2 * MS);
                let id = c.id;
                c.cuts.truncate(30);
                let kind = self.r.below(6);
                match same.unwrap_or(kind) {
                    0 => {
                        // not TLS at all
                        c.to_tls_port = true;
                        let raw = if self.r.pct(50) {
                            self.fuzz(id)
                        } else {
                            (0..self.r.range(1, 600)).map(|_| self.r.next() as u8).collect()
                        };
                        c.req = ReqSpec { raw: Some(raw), ..Default::default() };
                        c.end = if self.r.pct(50) { End::Fin } else { End::Keep };
                    }
                    1 => {
                        // truncated handshake
                        c.tls = true;
                        c.limit = Some(self.r.below(700) as u32);
                        c.end = match self.r.below(3) {
                            0 => End::Fin,
                            1 => End::Rst(self.errno()),
                            _ => End::Keep,
                        };
                        c.end_delay = self.r.logrange(1, 5 * MS);
                    }
                    2 => {
                        c.tls = true;
                        c.flip_at = Some((self.r.below(600) as u32, self.r.below(8) as u8));
                        c.end = End::Fin;
                    }
                    3 => {
                        c.tls = true;
                        c.stall = Some((self.r.below(600) as u32, *self.r.pick(&[1, 2, 9])));
                    }
                    4 => {
                        c.tls = true;
                        c.rst_after_rx = Some(self.r.range(1, 3000) as u32);
                    }
                    _ => {
                        c.tls = true;
                        c.rd.pause = Some((self.r.below(2500) as u32, *self.r.pick(&[1, 2, 9])));
                        c.sndbuf = self.r.logrange(200, 3000) as u32;
                    }
                }
                self.p.clients.push(c);
            }
        }
        for ph in 0..3 {
            for _ in 0..self.r.range(1, 3) {
                let mut c = self.good(ph, 2 * MS);
                if !broken {
                    c.tls = self.r.pct(60);
                }
                self.p.clients.push(c);
            }
        }
    }
}
