//! Decides, from the history of a run, which properties it violated.
use crate::app::View;
use crate::kernel::*;
use crate::model::{self, *};
use crate::plan::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn short(b: &[u8]) -> String {
    let mut s = String::from_utf8_lossy(&b[..b.len().min(160)]).to_string();
    s = s.escape_debug().to_string();
    if b.len() > 160 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}
fn shorts(s: &str) -> String {
    short(s.as_bytes())
}

/// does this carry the mark of somebody else?
pub fn foreign(plan: &Plan, b: &[u8], id: u32) -> bool {
    let mut i = 0;
    while i + 16 <= b.len() {
        if b[i] == b'<' && b[i + 13] == b'>' && (b[i + 6] == b'q' || b[i + 6] == b'r') {
            if let Ok(o) = std::str::from_utf8(&b[i + 1..i + 6]).unwrap_or("").parse::<u32>() {
                if o != id && plan.clients.iter().any(|c| c.id == o) {
                    return true;
                }
            }
        }
        i += 1;
    }
    foreign_tok(plan, b, id)
}
fn foreign_tok(plan: &Plan, b: &[u8], id: u32) -> bool {
    let mut i = 0;
    while i + 6 <= b.len() {
        if b[i] == b'T' && b[i + 1..i + 6].iter().all(|c| c.is_ascii_digit()) {
            let n: u32 = std::str::from_utf8(&b[i + 1..i + 6]).unwrap().parse().unwrap();
            if n != id && plan.clients.iter().any(|c| c.id == n) {
                return true;
            }
        }
        i += 1;
    }
    false
}

fn view_foreign(plan: &Plan, v: &View, vars: &BTreeMap<String, String>, id: u32) -> bool {
    if foreign(plan, &v.body, id) {
        return true;
    }
    let mut all = String::new();
    for (a, b) in v.headers.iter().chain(v.query.iter()).chain(vars.iter()) {
        all.push_str(a);
        all.push('\n');
        all.push_str(b);
        all.push('\n');
    }
    for (a, b) in v.cookies.iter().chain(v.raw.iter()) {
        all.push_str(a);
        all.push('\n');
        all.push_str(b);
        all.push('\n');
    }
    for c in &v.chunks {
        all.push_str(c);
        all.push('\n');
    }
    foreign_tok(plan, all.as_bytes(), id)
}

fn diff_map<T: PartialEq + std::fmt::Debug>(what: &str, got: &BTreeMap<String, T>, want: &BTreeMap<String, T>, m: &mut Vec<String>) {
    for (k, v) in want {
        if k.is_empty() {
            continue;
        }
        match got.get(k) {
            None => m.push(format!("{}[{}] missing, sent {}", what, k, shorts(&format!("{:?}", v)))),
            Some(g) if g != v => m.push(format!(
                "{}[{}] is {}, sent {}",
                what,
                k,
                shorts(&format!("{:?}", g)),
                shorts(&format!("{:?}", v))
            )),
            _ => {}
        }
    }
    for (k, g) in got {
        if !k.is_empty() && !want.contains_key(k) {
            m.push(format!("{}[{}] is {}, never sent", what, k, shorts(&format!("{:?}", g))));
        }
    }
}

/// a handler was entered
pub fn on_call(route: u32, id: Option<u32>, v: &View, vars: &BTreeMap<String, String>) -> usize {
    let s = sim();
    let mut m = vec![];
    let mut fgn = false;
    let idx = id.and_then(|id| s.plan.clients.iter().position(|c| c.id == id));
    if let (Some(i), Some(id)) = (idx, id) {
        fgn = view_foreign(&s.plan, v, vars, id);
        let e = &s.expect[i];
        let c = &s.plan.clients[i];
        let st = &s.w.clients[i];
        if let (Class::Valid, Some(w)) = (&e.class, &e.view) {
            if v.method != w.method {
                m.push(format!("method is {}, sent {}", v.method, w.method));
            }
            if v.version != w.version {
                m.push(format!("version is {}, sent {}", v.version, w.version));
            }
            if v.chunks != w.chunks {
                m.push(format!("path is {:?}, sent {:?}", v.chunks, w.chunks));
            }
            if v.body != w.body {
                let at = v.body.iter().zip(w.body.iter()).position(|(a, b)| a != b).unwrap_or(v.body.len().min(w.body.len()));
                m.push(format!(
                    "body has {} bytes, sent {}; first difference at {}: {}",
                    v.body.len(),
                    w.body.len(),
                    at,
                    short(&v.body[at..])
                ));
            }
            diff_map("header", &v.headers, &w.headers, &mut m);
            if v.raw != w.raw {
                m.push(format!("raw headers are {}, sent {}", shorts(&format!("{:?}", v.raw)), shorts(&format!("{:?}", w.raw))));
            }
            if !e.cookies_unspec && v.cookies != w.cookies {
                m.push(format!("cookies are {}, sent {}", shorts(&format!("{:?}", v.cookies)), shorts(&format!("{:?}", w.cookies))));
            }
            if !e.query_unspec {
                diff_map("query", &v.query, &w.query, &mut m);
                if cfg!(feature = "f_ext") {
                    let open = |k: &String| w.ext.get(k) == Some(&crate::app::Ext::Open);
                    let keep = |x: &std::collections::BTreeMap<String, crate::app::Ext>| {
                        x.iter().filter(|(k, _)| !open(k)).map(|(k, v)| (k.clone(), v.clone())).collect::<std::collections::BTreeMap<_, _>>()
                    };
                    diff_map("extended query", &keep(&v.ext), &keep(&w.ext), &mut m);
                }
            }
            if let Some(it) = e.chain.iter().find(|it| it.route == route) {
                if &it.vars != vars {
                    m.push(format!("variables of route {} are {:?}, should be {:?}", route, vars, it.vars));
                }
            }
        }
        if e.class != Class::Unspec {
            let early = if c.tls {
                c.req.trailing.is_empty() && st.tls_need.map_or(true, |n| st.sent < n)
            } else {
                e.class != Class::Incomplete && st.req_bytes_read < e.need as u64
            };
            if early {
                m.push(format!("early: handler entered after {} of {} bytes of the request", st.req_bytes_read, e.need));
            }
        }
    }
    let call = HCall {
        client: if idx.is_some() { id } else { None },
        route,
        at: s.w.now,
        gen: s.w.gen,
        mism: m,
        vars: vars.clone(),
        foreign: fgn,
        files: vec![],
    };
    s.w.calls.push(call);
    s.w.calls.len() - 1
}

pub fn on_file(call: usize, idx: u32, ok: bool) {
    sim().w.calls[call].files.push((idx, ok));
}

pub fn ctx(plan: &Plan) -> Vec<&'static str> {
    match plan.family.as_str() {
        "startup" if plan.start.iter().any(|f| f.tls) => vec!["C19", "C17"],
        "startup" => vec!["C19"],
        "concurrent" => vec!["C03"],
        "stall" => vec!["C04"],
        "chaos" => vec!["C05"],
        "accept" => vec!["C11"],
        "restart" => vec!["C12"],
        "memory" => vec!["C15"],
        "tlstrouble" => vec!["C17"],
        _ => vec![],
    }
}

struct J {
    v: Vec<Viol>,
    ctx: Vec<&'static str>,
}
impl J {
    fn add(&mut self, tag: &str, client: Option<u32>, detail: String, props: &[&str]) {
        let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        p.sort();
        p.dedup();
        self.v.push(Viol { tag: tag.into(), client, detail, props: p });
    }
    fn svc(&mut self, tag: &str, client: Option<u32>, detail: String, props: &[&str]) {
        let mut p = props.to_vec();
        p.extend(self.ctx.iter());
        self.add(tag, client, detail, &p);
    }
}

/// last phase event this client waits for; None if it never gets what it needs
fn deadline(plan: &Plan, c: &ClientPlan, reading: bool) -> Option<u32> {
    let mut d = c.phase;
    if let Some((_, rel)) = c.stall {
        d = d.max(rel);
    }
    if reading {
        if let Some((_, rel)) = c.rd.pause {
            d = d.max(rel);
        }
    }
    if d < plan.phases {
        Some(d)
    } else {
        None
    }
}

fn check_date(s: &Sim, i: usize, got: &Got, lower: u64, upper: u64) -> Option<String> {
    if upper < lower {
        return Some(format!("client {} was sent a response ({}) before its request was there ({})", i, upper, lower));
    }
    let dates = got.all("date");
    // offsets in force during the window
    let mut iv: Vec<(i128, i128)> = vec![];
    let mut cuts = vec![lower];
    for (at, _) in &s.w.wall_hist {
        if *at > lower && *at <= upper {
            cuts.push(*at);
        }
    }
    cuts.push(upper + 1);
    for w in cuts.windows(2) {
        if w[0] == w[1] {
            continue;
        }
        let a = s.wall(w[0]);
        let b = a + (w[1] - 1 - w[0]) as i128;
        iv.push((a.div_euclid(1_000_000_000), b.div_euclid(1_000_000_000)));
    }
    // clock steps take effect at scheduling points, be generous by one interval before
    if dates.is_empty() {
        if iv.iter().any(|(a, b)| *a < 0 || *b > 253402300799) {
            return None;
        }
        return Some("no Date header".into());
    }
    if dates.len() > 1 {
        return Some(format!("{} Date headers", dates.len()));
    }
    let d = match model::imf_secs(dates[0]) {
        Some(d) => d as i128,
        None => {
            if iv.iter().any(|(a, b)| *a < 0 || *b > 253402300799) {
                return None;
            }
            return Some(format!("Date {:?} is not a valid IMF-fixdate (wall clock {:?})", dates[0], iv));
        }
    };
    if iv.iter().any(|(a, b)| d >= *a && d <= *b) {
        None
    } else {
        Some(format!("Date {:?} ({}) is not the wall clock while the response was produced ({:?})", dates[0], d, iv))
    }
}

/// one-off growth of the runtime's pools
const LEAK_SLACK: i64 = 60_000;
/// the same for a long row of single connections
const LEAK_LONG: i64 = 8_000;

pub fn judge(s: &mut Sim) {
    let mut j = J { v: vec![], ctx: ctx(&s.plan) };
    let early: Vec<Viol> = std::mem::take(&mut s.w.viol);
    for v in early {
        // livelock
        j.svc(&v.tag, v.client, v.detail, &["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C16"]);
    }
    let tls_bad = s.plan.tls.as_ref().map_or(false, |t| t.key != "good");
    let plan = &s.plan;
    let w = &s.w;

    for p in &w.panics {
        // rustls 0.18 panics on some damaged handshakes: not this server's code, and only that
        // connection's task; what it does to the others is judged all the same
        let tls_library = p.loc.contains("/rustls-0.");
        if !p.injected && !tls_bad && !tls_library {
            j.svc("server_panic", None, format!("panic in the server: {} at {}", shorts(&p.msg), p.loc), &["C05"]);
        }
    }
    if let Some(e) = &w.exited {
        j.svc(
            "server_exit",
            None,
            format!("server of generation {} ended: {}", w.gen, e),
            if w.gen > 0 && e.contains("failed") { &["C12", "C05"] } else { &["C05", "C11"] },
        );
    }
    for g in 0..=w.gen {
        // a generation killed before it came to listening proves nothing
        if g == w.gen && !w.listened.iter().any(|(a, p)| *a == g && *p == plan.port) && w.exited.is_none() {
            j.svc("not_listening", None, format!("generation {} never listened on port {}", g, plan.port), &["C12", "C05"]);
        }
    }
    if w.gen == 0 {
        for (k, a) in w.attempts.iter().enumerate() {
            let what = plan.start.get(k).map_or(String::new(), |f| format!(" ({} fails with {})", f.call, f.errno));
            match &a.outcome {
                Some(o) if a.fired && !o.contains("failed") => {
                    j.add("start_outcome", None, format!("attempt {}{}: {}", k, what, o), &["C19"]);
                }
                None if a.fired => {
                    j.add("start_outcome", None, format!("attempt {}{}: listen did not return", k, what), &["C19"]);
                }
                Some(o) if !a.fired && k < plan.start.len() => {
                    j.svc("start_outcome", None, format!("attempt {}: {} although nothing had failed", k, o), &["C19", "C05"]);
                }
                _ => {}
            }
            if a.outcome.is_some() && a.leftover > 0 {
                j.add("start_leftover", None, format!("attempt {}{}: {} sockets left behind", k, what, a.leftover), &["C19"]);
            }
            let up = k + 1 == w.attempts.len() && a.outcome.is_none();
            if a.started > 1 || (up && a.started == 0) {
                j.add("start_callback", None, format!("attempt {}: the callback was called {} times", k, a.started), &["C19"]);
            }
        }
    }
    if let Some(m) = &w.mem_viol {
        j.add("memory", None, m.clone(), &["C15"]);
    }

    let marks_open = plan.clients.iter().enumerate().any(|(i, _)| s.expect[i].class == Class::Unspec);
    for c in &w.calls {
        if c.client.is_none() && !marks_open {
            j.svc("unattributed_call", None, format!("route {} ran for a request nobody sent", c.route), &["C01", "C03"]);
        }
    }

    for (i, c) in plan.clients.iter().enumerate() {
        let st = &w.clients[i];
        let e = &s.expect[i];
        let id = Some(c.id);
        let calls: Vec<&HCall> = w.calls.iter().filter(|h| h.client == id).collect();
        let base: &[&str] = if c.tls { &["C16"] } else { &["C02"] };
        if !st.started {
            continue;
        }
        if st.aborted_by_accept {
            if !calls.is_empty() {
                j.add("ran_unaccepted", id, "handlers ran for a connection that was never accepted".into(), &["C06"]);
            }
            continue;
        }
        for h in &calls {
            if h.foreign {
                j.svc("foreign_request_data", id, format!("route {} saw data of another request", h.route), &["C03", "C01"]);
            }
            let (mut view, mut vars, mut path, mut early) = (vec![], vec![], false, vec![]);
            for m in &h.mism {
                if m.starts_with("early") {
                    early.push(m.clone());
                } else if m.starts_with("variables") {
                    vars.push(m.clone());
                } else {
                    path |= m.starts_with("path");
                    view.push(m.clone());
                }
            }
            if !early.is_empty() {
                j.add("ran_early", id, early.join("; "), &["C06"]);
            }
            if !vars.is_empty() {
                j.svc("variables", id, vars.join("; "), if h.foreign { &["C09", "C03"] } else { &["C09"] });
            }
            if !view.is_empty() {
                let mut p = vec!["C01"];
                if c.tls {
                    p.push("C16");
                }
                if path {
                    p.push("C09");
                }
                j.svc("request_view", id, format!("route {} saw: {}", h.route, view.join("; ")), &p);
            }
        }
        if e.class == Class::Unspec {
            // whatever a cut or damaged TLS stream was, an incomplete request must not run
            if c.tls && !calls.is_empty() && c.flip_at.is_none() && c.req.trailing.is_empty() {
                if st.tls_need.map_or(true, |n| st.sent < n) {
                    j.add("ran_incomplete", id, "handlers ran though the TLS stream was cut inside the request".into(), &["C06"]);
                }
            }
            continue;
        }
        let left = st.gone && !st.eof && !st.reset; // the client itself reset the connection
        match &e.class {
            Class::Unspec => {}
            Class::Incomplete | Class::Refuse(_) => {
                if !calls.is_empty() {
                    let what = if e.class == Class::Incomplete { "an incomplete" } else { "a malformed" };
                    let p: &[&str] = if e.class == Class::Incomplete { &["C06"] } else { &["C07"] };
                    j.svc("ran_refused", id, format!("route {} ran for {} request", calls[0].route, what), p);
                }
                if left || st.crashed {
                    continue;
                }
                let codes: Vec<u16> = match &e.class {
                    Class::Refuse(v) => v.clone(),
                    _ => {
                        if c.end != End::Fin {
                            continue;
                        }
                        vec![400]
                    }
                };
                let dl = match deadline(plan, c, true) {
                    Some(d) => d,
                    None => continue,
                };
                if e.may_wait && c.end != End::Fin {
                    continue;
                }
                if w.phase < dl {
                    continue;
                }
                if !st.eof {
                    let how = if st.reset { "was reset" } else { "never got an answer" };
                    j.svc("refusal_missing", id, format!("client {} owed {:?} {}", c.id, codes, how), &["C07"]);
                    continue;
                }
                if st.rx.is_empty() && e.delivered == 0 {
                    continue;
                }
                match parse_response(&st.rx) {
                    Err(x) => {
                        j.svc("refusal_broken", id, format!("answer to a request owed {:?}: {}: {}", codes, x, short(&st.rx)), &["C07"]);
                    }
                    Ok(g) => {
                        if !codes.contains(&g.status) {
                            j.svc("refusal_status", id, format!("status {} where {:?} is due", g.status, codes), &["C07"]);
                        }
                        let cl = g.all("content-length");
                        if cl.len() != 1 || cl[0].parse::<usize>().ok() != Some(g.body.len()) {
                            let head = c.req.method == "HEAD" && g.body.is_empty();
                            if !head {
                                j.svc(
                                    "refusal_framing",
                                    id,
                                    format!("error response with Content-Length {:?} and {} body bytes", cl, g.body.len()),
                                    &["C07", base[0]],
                                );
                            }
                        }
                        let lower = if c.tls { st.start_at } else { st.last_recv };
                        let upper = if c.tls { st.eof_at } else { st.first_send.unwrap_or(st.eof_at) };
                        if let Some(x) = check_date(s, i, &g, lower, upper) {
                            j.add("date", id, x, &["C14"]);
                        }
                        if foreign(plan, &st.rx, c.id) {
                            j.add("foreign_response", id, "response carries data of another request".into(), &["C03"]);
                        }
                        if c.tls && !st.tls_notify {
                            j.svc("tls_no_close_notify", id, "end of stream without TLS closure".into(), &["C16"]);
                        }
                    }
                }
            }
            Class::Valid => {
                let want: Vec<u32> = e.chain.iter().map(|x| x.route).collect();
                let got: Vec<u32> = calls.iter().map(|x| x.route).collect();
                if st.crashed || left {
                    if !want.starts_with(&got) {
                        j.svc("chain", id, format!("routes {:?} ran, {:?} were due", got, want), &["C08", "C09", "C06"]);
                    }
                    continue;
                }
                // TLS clients have to read before they can send
                let dl_in = deadline(plan, c, c.tls);
                match dl_in {
                    Some(d) if w.phase >= d => {}
                    _ => continue,
                }
                if got != want {
                    let mut p: Vec<&str> = vec![];
                    let dup = {
                        let mut x = got.clone();
                        x.sort();
                        x.windows(2).any(|q| q[0] == q[1])
                    };
                    if got.is_empty() {
                        p.extend(["C06", "C01", "C07"]);
                        p.push(base[0]);
                        if plan.family == "routing" {
                            p.extend(["C08", "C09"]);
                        }
                    } else if dup {
                        p.extend(["C06", "C08"]);
                    } else if got.iter().any(|r| !e.matching.contains(r)) {
                        p.extend(["C09", "C08"]);
                    } else {
                        let (mut a, mut b) = (got.clone(), want.clone());
                        a.sort();
                        b.sort();
                        p.push("C08");
                        if a != b && !want.starts_with(&got) {
                            p.push("C09");
                        } else if a != b {
                            // stopped early or something that matches did not run
                            p.push("C09");
                        }
                    }
                    j.svc(
                        "chain",
                        id,
                        format!("routes {:?} ran for {} {}, {:?} were due", got, c.req.method, shorts(&c.req.target), want),
                        &p,
                    );
                }
                // what file openings told the handlers
                let mut files = vec![];
                for h in &calls {
                    files.extend(h.files.iter().copied());
                }
                for (k, ok) in &files {
                    let f = &plan.files[*k as usize];
                    let should = matches!(f.kind.as_str(), "file" | "link" | "linked_twice") && f.open_errno.is_none();
                    if *ok && !should {
                        j.svc("file_open", id, format!("sending {} succeeded though it cannot be opened", f.name), &["C10"]);
                    }
                    if !*ok && should && plan.fd_limit.is_none() {
                        j.svc("file_open", id, format!("sending {} failed though it can be opened", f.name), &["C10"]);
                    }
                }
                let d = match deadline(plan, c, true) {
                    Some(d) if w.phase >= d => d,
                    _ => continue,
                };
                let _ = d;
                if got != want {
                    continue;
                }
                let uses_file = e.chain.iter().any(|x| {
                    model::route(plan, x.route).map_or(false, |r| r.acts.iter().any(|a| matches!(a, Act::SendFile(_))))
                });
                let mut props: Vec<&str> = base.to_vec();
                if uses_file {
                    props.push("C10");
                }
                if !st.eof || st.reset {
                    if e.panics && st.reset {
                        continue;
                    }
                    let how = if st.reset { "was reset by the server" } else { "never got its whole response" };
                    if plan.family == "clock" {
                        props.push("C14");
                    }
                    if w.snaps.iter().any(|x| x.not_done.contains(&c.id) && !x.stuck.is_empty()) {
                        props.push("C04");
                    }
                    if e.panics {
                        props.push("C05");
                        props.push("C13");
                    }
                    j.svc("response_missing", id, format!("client {} {} ({} bytes received)", c.id, how, st.rx.len()), &props);
                    continue;
                }
                if foreign(plan, &st.rx, c.id) {
                    j.svc(
                        "foreign_response",
                        id,
                        format!("response to client {} carries data of another request: {}", c.id, short(&st.rx)),
                        &["C03", base[0]],
                    );
                }
                if e.panics {
                    if !st.rx.is_empty() {
                        match parse_response(&st.rx) {
                            Ok(g) if g.status >= 500 => {}
                            _ => j.svc("panic_response", id, format!("answer of a panicked handler: {}", short(&st.rx)), &props),
                        }
                    }
                    continue;
                }
                if st.rx.is_empty() && plan.family == "clock" {
                    props.push("C14");
                }
                let resp = assemble(plan, e, &files);
                let g = match parse_response(&st.rx) {
                    Ok(g) => g,
                    Err(x) => {
                        if resp.as_ref().map_or(false, |r| matches!(r.body, BodyX::File(k) if w.files.iter().any(|l| l.file == k && (l.eio || l.shrunk)))) {
                            // cut off before the end of the head: as good as any other cut
                            continue;
                        }
                        let mut p = props.clone();
                        if resp.is_none() {
                            p.push("C07");
                        }
                        j.svc("response_broken", id, format!("response to client {}: {}: {}", c.id, x, short(&st.rx)), &p);
                        continue;
                    }
                };
                let lower = calls.first().map_or(if c.tls { st.start_at } else { st.last_recv }, |h| h.at);
                let upper = if c.tls { st.eof_at } else { st.first_send.unwrap_or(st.eof_at) };
                if let Some(x) = check_date(s, i, &g, lower, upper) {
                    j.add("date", id, x, &["C14"]);
                }
                let mut bad: Vec<String> = vec![];
                let mut incomplete_ok = false;
                let cl = g.all("content-length");
                let announced = if cl.len() == 1 { cl[0].parse::<usize>().ok() } else { None };
                let head = e.view.as_ref().map_or(false, |v| v.method == "HEAD");
                match &resp {
                    None => {
                        if g.status != 404 {
                            j.svc("not_found", id, format!("status {} where no handler produced a body", g.status), &["C07"]);
                        }
                        if announced != Some(g.body.len()) && !(head && g.body.is_empty()) {
                            bad.push(format!("404 with Content-Length {:?} and {} body bytes", cl, g.body.len()));
                            props.push("C07");
                        }
                    }
                    Some(r) => {
                        if g.version != r.version {
                            bad.push(format!("version {} instead of {}", g.version, r.version));
                        }
                        if g.status != r.status {
                            bad.push(format!("status {} instead of {}", g.status, r.status));
                            if got.is_empty() || g.status == 400 || g.status == 501 || g.status == 404 {
                                props.push("C07");
                            }
                        }
                        for (k, v) in &r.headers {
                            let gv = g.all(k);
                            let same = |a: &str, b: &str| {
                                if b.contains(['\r', '\n', '\0']) {
                                    // cannot be sent as it is, and must not end its line
                                    squeeze(a) == squeeze(b)
                                } else if k == "content-type" || k == "content-disposition" || k == "x-seen" {
                                    loose(a) == loose(b)
                                } else {
                                    a == b.trim_matches([' ', '\t'])
                                }
                            };
                            if gv.len() != 1 || !same(gv[0], v) {
                                bad.push(format!("header {} is {:?} instead of {:?}", k, gv, v));
                            }
                        }
                        for (k, v) in &g.headers {
                            let ours = k.starts_with("x-") || k == "location" || k == "content-disposition" || k == "content-type";
                            if ours && !r.headers.contains_key(k) {
                                bad.push(format!("header {}: {} that no handler set", k, shorts(v)));
                            }
                        }
                        let ck = g.all("set-cookie");
                        if ck.len() != r.cookies.len() || ck.iter().zip(&r.cookies).any(|(a, b)| !same_cookie(a, b)) {
                            bad.push(format!("Set-Cookie {:?} instead of {:?}", ck, r.cookies));
                        }
                        let mut body = match &r.body {
                            BodyX::Bytes(b) => b.clone(),
                            BodyX::File(k) => {
                                let f = &plan.files[*k as usize];
                                incomplete_ok = w.files.iter().any(|l| l.file == *k && (l.eio || l.shrunk));
                                file_bytes(f.seed, f.len as usize)
                            }
                        };
                        if let BodyX::File(k) = &r.body {
                            // renamed over: whichever of the two was opened, but wholly that one
                            let f = &plan.files[*k as usize];
                            for (_, op) in &f.ops {
                                if let FileOp::Replace(n) = op {
                                    let b = file_bytes(!f.seed, *n as usize);
                                    if g.body == b {
                                        body = b;
                                    }
                                }
                            }
                        }
                        if announced != Some(body.len()) {
                            bad.push(format!("Content-Length {:?} instead of {}", cl, body.len()));
                        }
                        if head && g.body.is_empty() {
                        } else if g.body != body {
                            let grown = matches!(r.body, BodyX::File(k) if w.files.iter().any(|l| l.file == k && l.grown));
                            let same = g.body.iter().zip(&body).take_while(|(a, b)| a == b).count();
                            if incomplete_ok && g.body.len() < body.len() && body.starts_with(&g.body) {
                            } else if incomplete_ok && grown && g.body.len() <= body.len() && g.body[same..].iter().all(|b| *b == b'G') {
                                // cut short, then extended by somebody else
                            } else {
                                let at = g.body.iter().zip(&body).position(|(a, b)| a != b).unwrap_or(g.body.len().min(body.len()));
                                bad.push(format!(
                                    "body has {} bytes instead of {}, first difference at {}: {}",
                                    g.body.len(),
                                    body.len(),
                                    at,
                                    short(&g.body[at..])
                                ));
                            }
                        }
                    }
                }
                if !bad.is_empty() {
                    j.svc("response_wrong", id, format!("client {}: {}", c.id, bad.join("; ")), &props);
                }
                if c.tls && !incomplete_ok {
                    if let Some(x) = &st.tls_err {
                        j.svc("tls_error", id, x.clone(), &["C16"]);
                    }
                    if !st.tls_notify {
                        j.svc("tls_no_close_notify", id, "end of stream without TLS closure".into(), &["C16"]);
                    }
                }
            }
        }
    }

    // who hangs at a quiescent point although nothing is owed to the server any more
    for sn in &w.snaps {
        let mut legit_held = 0;
        for (i, c) in plan.clients.iter().enumerate() {
            let st = &w.clients[i];
            let e = &s.expect[i];
            if sn.gen != w.gen && st.crashed {
                continue;
            }
            let held = sn.held.contains(&c.id);
            let undone = sn.not_done.contains(&c.id);
            if held {
                let due = deadline(plan, c, true).map_or(false, |d| d <= sn.phase);
                let gone = !undone;
                let owes = match &e.class {
                    Class::Valid => due,
                    Class::Refuse(_) => due && (!e.may_wait || c.end == End::Fin),
                    Class::Incomplete => due && c.end == End::Fin && !sn.stuck.contains(&c.id),
                    Class::Unspec => false,
                };
                // an unspecified exchange is over when its peer has gone
                let unspec_over = e.class == Class::Unspec && due && c.end == End::Fin && !sn.stuck.contains(&c.id) && st.ended;
                if gone || owes || unspec_over {
                    j.add(
                        "not_released",
                        Some(c.id),
                        format!("connection of client {} still held at the end of phase {}", c.id, sn.phase),
                        &["C13"],
                    );
                } else {
                    legit_held += 1;
                }
            }
            if undone && e.class == Class::Valid && deadline(plan, c, true) == Some(sn.phase) && sn.phase < w.phase {
                // got its answer only after a later phase began
                let mut p: Vec<&str> = if c.tls { vec!["C16"] } else { vec!["C02"] };
                if !sn.stuck.is_empty() || plan.family == "stall" {
                    p.push("C04");
                }
                j.svc(
                    "delayed",
                    Some(c.id),
                    format!("client {} was not served in phase {} though nothing was missing (stuck peers: {:?})", c.id, sn.phase,
                        &sn.stuck[..sn.stuck.len().min(5)]),
                    &p,
                );
            }
        }
        if sn.files > legit_held {
            j.add(
                "file_not_closed",
                None,
                format!("{} files open at the end of phase {} with {} exchanges in progress", sn.files, sn.phase, legit_held),
                &["C13"],
            );
        }
    }
    // memory of past connections
    if plan.family == "leak" && w.gen == 0 {
        let idle: Vec<&Snapshot> = w.snaps.iter().filter(|x| x.held.is_empty()).collect();
        if idle.len() >= 9 {
            // every wave is the same crowd again: what one-off growth of pools and queues does not
            // explain is lost
            let tail = &idle[idle.len() - 8..];
            // rustls keeps up to 256 sessions for resumption
            let keeps = if cfg!(feature = "c_rustls") { plan.clients.iter().filter(|c| c.tls && c.phase == 1).count() as i64 * 1200 } else { 0 };
            let worst = tail.windows(2).map(|x| x[1].live - x[0].live).min().unwrap() - keeps;
            let (a, b) = (idle[idle.len() / 2 - 1], tail[7]);
            let n = (b.started - a.started) as i64 + keeps;
            let total = b.live - a.live;
            // one connection after the other: nothing has a reason to grow
            let least = |r: std::ops::Range<usize>| idle.get(r).and_then(|v| v.iter().map(|x| x.live).min());
            let creep = match (n > 900 && keeps == 0, least(1..4), least(9..14)) {
                (true, Some(early), Some(late)) => late - early > LEAK_LONG,
                _ => false,
            };
            if worst > 0 || creep || total > 24 * n + LEAK_SLACK {
                j.add(
                    "heap_growth",
                    None,
                    format!("{} bytes more in use after {} more connections had come and gone, at least {} in each wave", total, n, worst),
                    &["C13"],
                );
            }
        }
    }
    s.w.viol = j.v;
}

pub fn result(s: &Sim) -> Value {
    let w = &s.w;
    let mut classes: BTreeMap<&str, u32> = BTreeMap::new();
    for e in &s.expect {
        *classes
            .entry(match e.class {
                Class::Valid => "valid",
                Class::Refuse(_) => "refused",
                Class::Incomplete => "incomplete",
                Class::Unspec => "open",
            })
            .or_insert(0) += 1;
    }
    json!({
        "viol": w.viol,
        "hash": format!("{:016x}", w.hash),
        "sim_ns": w.now,
        "steps": w.steps,
        "switches": w.switches,
        "preempts": w.preempts,
        "faults": w.faults,
        "probes": w.probes,
        "classes": classes,
        "calls": w.calls.len(),
        "bytes_in": w.bytes_in,
        "bytes_out": w.bytes_out,
        "gen": w.gen,
        "edges": w.edges,
        "n_edges": unsafe { EDGES },
        "clients": w.clients.len(),
        "peak": w.peak_live,
        "snaps": w.snaps.iter().map(|x| json!([x.phase, x.streams, x.live, x.not_done.len(), x.started])).collect::<Vec<_>>(),
        "trace": w.trace,
        "listened": w.listened,
        "exited": w.exited,
        "served": w.clients.iter().filter(|c| c.eof).count(),
        "panics": w.panics.iter().map(|p| format!("{} @ {}", p.msg, p.loc)).collect::<Vec<_>>(),
    })
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != '\0').collect()
}
/// the attributes of a cookie have no order
fn same_cookie(a: &str, b: &str) -> bool {
    if b.contains(['\r', '\n', '\0']) {
        return squeeze(a) == squeeze(b);
    }
    let split = |s: &str| {
        let mut v: Vec<String> = s.split("; ").map(|x| x.to_string()).collect();
        v[1..].sort();
        v
    };
    split(a) == split(b)
}
