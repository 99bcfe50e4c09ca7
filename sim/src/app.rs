//! The application under simulation: an Octane server whose routes are described by the plan.
use crate::kernel as k;
use crate::plan::*;
use crate::sys::*;
use octane::prelude::*;
use octane::request::MatchedRequest;
use octane::responder::Response;
use octane::router::Closure;
use octane::StatusCode;
use std::collections::BTreeMap;

pub const INJECTED: &str = "octsim: injected handler panic";

/// What a handler sees of a request.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct View {
    pub method: String,
    pub version: String,
    pub chunks: Vec<String>,
    pub headers: BTreeMap<String, String>,
    pub raw: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub cookies: Vec<(String, String)>,
    pub query: BTreeMap<String, String>,
    pub ext: BTreeMap<String, Ext>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ext {
    Str(String),
    Arr(Vec<String>),
    Obj(BTreeMap<String, String>),
    /// left open
    Open,
}

enum RAct {
    Status(StatusCode),
    Set(&'static str, &'static str),
    Token,
    Type(&'static str),
    #[allow(dead_code)]
    Cookie(&'static str, &'static str),
    #[allow(dead_code)]
    CookieEx(&'static str, &'static str, u32),
    Reflect(&'static str),
    Version,
    Redirect(&'static str),
    Attach,
    AttachName(&'static str),
    Charset(&'static str),
    Send(u32),
    Text(&'static str),
    Echo,
    SendFile(u32, &'static str),
    Panic,
    Yield(u32),
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

pub fn status(n: u16) -> StatusCode {
    match n {
        200 => StatusCode::Ok,
        201 => StatusCode::Created,
        202 => StatusCode::Accepted,
        203 => StatusCode::NonauthoritativeInformation,
        206 => StatusCode::PartialContent,
        207 => StatusCode::Multistatus,
        208 => StatusCode::AlreadyReported,
        226 => StatusCode::ImUsed,
        300 => StatusCode::MultipleChoice,
        301 => StatusCode::MovedPermanently,
        302 => StatusCode::Found,
        303 => StatusCode::SeeOther,
        307 => StatusCode::TemporaryRedirect,
        308 => StatusCode::PermanentRedirect,
        400 => StatusCode::BadRequest,
        401 => StatusCode::Unauthorized,
        402 => StatusCode::PaymentRequired,
        403 => StatusCode::Forbidden,
        404 => StatusCode::NotFound,
        405 => StatusCode::MethodNotAllowed,
        406 => StatusCode::NotAcceptable,
        407 => StatusCode::ProxyAuthenticationRequired,
        408 => StatusCode::RequestTimeout,
        409 => StatusCode::Conflict,
        410 => StatusCode::Gone,
        411 => StatusCode::LengthRequired,
        412 => StatusCode::PreconditionFailed,
        413 => StatusCode::PayloadTooLarge,
        414 => StatusCode::UriTooLong,
        415 => StatusCode::UnsupportedMediaType,
        416 => StatusCode::RangeNotSatisfiable,
        417 => StatusCode::ExpectationFailed,
        418 => StatusCode::ImATeapot,
        421 => StatusCode::MisdirectedRequest,
        422 => StatusCode::UnprocessableEntity,
        423 => StatusCode::Locked,
        424 => StatusCode::FailedDependency,
        425 => StatusCode::TooEarly,
        426 => StatusCode::UpgradeRequired,
        428 => StatusCode::PreconditionRequired,
        429 => StatusCode::TooManyRequests,
        431 => StatusCode::RequestHeaderFieldsTooLarge,
        451 => StatusCode::UnavailableForLegalReasons,
        500 => StatusCode::InternalServerError,
        501 => StatusCode::NotImplemented,
        502 => StatusCode::BadGateway,
        503 => StatusCode::ServiceUnavailable,
        504 => StatusCode::GatewayTimeout,
        505 => StatusCode::HttpVersionNotSupported,
        506 => StatusCode::VariantAlsoNegotiates,
        507 => StatusCode::InsufficientStorage,
        508 => StatusCode::LoopDetected,
        510 => StatusCode::NotExtended,
        511 => StatusCode::NetworkAuthenticationRequired,
        _ => StatusCode::Ok,
    }
}
pub const STATUSES: [u16; 54] = [
    200, 201, 202, 203, 206, 207, 208, 226, 300, 301, 302, 303, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511,
];

fn view(req: &MatchedRequest) -> View {
    let mut v = View {
        method: format!("{:?}", req.request_line.method).to_uppercase(),
        version: req.request_line.version.to_string(),
        chunks: req.request_line.path.chunks().clone(),
        body: req.body.to_vec(),
        ..Default::default()
    };
    for (a, b) in req.headers.parsed.iter() {
        v.headers.insert(a.clone(), b.clone());
    }
    #[cfg(feature = "f_raw")]
    for h in req.headers.raw.iter() {
        v.raw.push((h.name(), h.value()));
    }
    #[cfg(feature = "f_cookies")]
    for c in req.request.cookies.iter() {
        v.cookies.push((c.name().to_string(), c.value().to_string()));
    }
    for (a, b) in req.get_query() {
        v.query.insert(a, b);
    }
    #[cfg(feature = "f_ext")]
    for (a, b) in req.get_extended_query() {
        let e = match b {
            octane::QueryValue::Str(s) => Ext::Str(s),
            octane::QueryValue::Arr(s) => Ext::Arr(s),
            octane::QueryValue::Obj(s) => Ext::Obj(s.into_iter().collect()),
        };
        v.ext.insert(a, e);
    }
    v
}

/// who sent this request, by the marks it carries
pub fn identify(v: &View) -> Option<u32> {
    fn tok(s: &str) -> Option<u32> {
        let d = s.strip_prefix('T')?;
        if d.len() == 5 && d.bytes().all(|b| b.is_ascii_digit()) {
            d.parse().ok()
        } else {
            None
        }
    }
    if let Some(x) = v.headers.get("x-id") {
        return tok(x);
    }
    if let Some(x) = v.query.get("id") {
        return tok(x);
    }
    v.chunks.iter().find_map(|c| tok(c))
}

fn handle(rp: &(u32, bool, Vec<RAct>), req: &MatchedRequest, res: &mut Response) -> Flow {
    k::handler_yield();
    let v = view(req);
    #[allow(unused_mut)]
    let mut vars: BTreeMap<String, String> = BTreeMap::new();
    #[cfg(feature = "f_vars")]
    for (a, b) in req.vars.iter() {
        vars.insert(a.to_string(), b.to_string());
    }
    let id = identify(&v);
    let call = {
        assert!(enter());
        let c = crate::oracle::on_call(rp.0, id, &v, &vars);
        leave();
        c
    };
    drop(v);
    drop(vars);
    let who = id.unwrap_or(99999);
    for a in rp.2.iter() {
        match a {
            RAct::Status(s) => {
                res.status(*s);
            }
            RAct::Set(a, b) => {
                res.set(a, b);
            }
            RAct::Token => {
                let t = token(who);
                res.set("x-token", &t);
            }
            RAct::Type(t) => {
                res.with_type(t);
            }
            #[allow(unused_variables)]
            RAct::Cookie(a, b) => {
                #[cfg(feature = "f_cookies")]
                res.cookie(octane::cookie::Cookie::new(a, b));
            }
            #[allow(unused_variables)]
            RAct::CookieEx(a, b, f) => {
                #[cfg(feature = "f_cookies")]
                {
                    let mut c = octane::cookie::Cookie::build(a, b);
                    if f & 1 != 0 {
                        c = c.http_only(true);
                    }
                    if f & 2 != 0 {
                        c = c.secure(true);
                    }
                    if f & 4 != 0 {
                        c = c.path("/");
                    }
                    if f & 8 != 0 {
                        c = c.domain("octane.test");
                    }
                    let t = cookie::Cookie::parse("t=t; Max-Age=3600; Expires=Wed, 21 Oct 2015 07:28:00 GMT; SameSite=Lax").unwrap();
                    if f & 16 != 0 {
                        c = c.max_age(t.max_age().unwrap());
                    }
                    if f & 32 != 0 {
                        c = c.expires(t.expires().unwrap());
                    }
                    if f & 64 != 0 {
                        c = c.same_site(t.same_site().unwrap());
                    }
                    res.cookie(octane::cookie::Cookie::from(c.finish()));
                }
            }
            RAct::Reflect(n) => {
                let v = res.get(n).cloned().unwrap_or_else(|| "none".into());
                res.set("X-Seen", &v);
            }
            RAct::Version => {
                res.http_version(req.request_line.version.clone());
            }
            RAct::Redirect(l) => {
                res.redirect(l);
            }
            RAct::Attach => {
                res.attachment();
            }
            RAct::AttachName(n) => {
                res.attachment_with_filename(n);
            }
            RAct::Charset(c) => {
                res.charset(c);
            }
            RAct::Send(n) => {
                let b = pattern(who, 'r', *n as usize);
                res.send(&b);
            }
            RAct::Text(t) => res.send(t),
            RAct::Echo => res.send(req.body),
            RAct::SendFile(i, n) => {
                let ok = res.send_file(n).is_ok();
                if enter() {
                    crate::oracle::on_file(call, *i, ok);
                    leave();
                }
                if !ok {
                    res.status(StatusCode::InternalServerError).send("nofile");
                }
            }
            RAct::Panic => std::panic::panic_any(INJECTED),
            RAct::Yield(n) => {
                for _ in 0..*n {
                    k::handler_yield();
                }
            }
        }
    }
    k::handler_yield();
    if rp.1 {
        Flow::Stop
    } else {
        Flow::Next
    }
}

fn closure(plan: &Plan, r: &RoutePlan) -> Closure {
    let acts: Vec<RAct> = r
        .acts
        .iter()
        .map(|a| match a {
            Act::Status(n) => RAct::Status(status(*n)),
            Act::Set(a, b) => RAct::Set(leak(a), leak(b)),
            Act::Token => RAct::Token,
            Act::Type(t) => RAct::Type(leak(t)),
            Act::Cookie(a, b) => RAct::Cookie(leak(a), leak(b)),
            Act::CookieEx(a, b, f) => RAct::CookieEx(leak(a), leak(b), *f),
            Act::Reflect(n) => RAct::Reflect(leak(n)),
            Act::Version => RAct::Version,
            Act::Redirect(l) => RAct::Redirect(leak(l)),
            Act::Attach => RAct::Attach,
            Act::AttachName(n) => RAct::AttachName(leak(n)),
            Act::Charset(c) => RAct::Charset(leak(c)),
            Act::Send(n) => RAct::Send(*n),
            Act::Text(t) => RAct::Text(leak(t)),
            Act::Echo => RAct::Echo,
            Act::SendFile(i) => RAct::SendFile(*i, leak(&plan.files[*i as usize].name)),
            Act::Panic => RAct::Panic,
            Act::Yield(n) => RAct::Yield(*n),
        })
        .collect();
    let rp = (r.id, r.stop, acts);
    Box::new(move |req, res| handle(&rp, req, res))
}

fn register<R: Route>(t: &mut R, plan: &Plan, r: &RoutePlan) {
    let c = closure(plan, r);
    let _ = match r.method.as_str() {
        "GET" => t.get(&r.path, c),
        "POST" => t.post(&r.path, c),
        "PUT" => t.put(&r.path, c),
        "DELETE" => t.delete(&r.path, c),
        "PATCH" => t.patch(&r.path, c),
        "HEAD" => t.head(&r.path, c),
        "ALL" => t.add_route(&r.path, c),
        _ => t.add(c),
    };
}

fn build(plan: &Plan) -> Octane {
    let mut app = Octane::new();
    for op in &plan.app.ops {
        match op {
            RegOp::Route(r) => register(&mut app, plan, r),
            RegOp::Merge(rs) => {
                let mut router = Router::new();
                for r in rs {
                    register(&mut router, plan, r);
                }
                app.with_router(router);
            }
        }
    }
    if let Some(t) = &plan.tls {
        let (key, cert) = match t.key.as_str() {
            "missing_key" => ("none.pem", "cert.pem"),
            "missing_cert" => ("key.pem", "none.pem"),
            "garbage_key" => ("garbage.pem", "cert.pem"),
            "garbage_cert" => ("key.pem", "garbage.pem"),
            "empty_key" => ("empty.pem", "cert.pem"),
            "empty_cert" => ("key.pem", "empty.pem"),
            "mismatch" => ("key.pem", "other_cert.pem"),
            "swapped" => ("cert.pem", "key.pem"),
            _ => ("key.pem", "cert.pem"),
        };
        let mut config = octane::config::OctaneConfig::new();
        let mut ssl = octane::config::Ssl::new();
        ssl.key(key).cert(cert);
        match t.via {
            1 => {
                config.ssl(t.port).key(key).cert(cert);
                app.with_config(config);
            }
            2 => {
                config.ssl.key(key).cert(cert);
                config.ssl.port = t.port;
                app.with_config(config);
            }
            3 => {
                ssl.port = t.port;
                app.with_ssl_config(ssl);
            }
            4 => {
                app.with_ssl_config(ssl);
                app.ssl(t.port);
            }
            5 => {
                ssl.port = t.port;
                config.with_ssl_config(ssl);
                app.with_config(config);
            }
            6 => {
                // what is configured last counts
                app.ssl(9443).key("none.pem").cert("none.pem");
                config.set_keepalive(std::time::Duration::from_secs(1));
                config.ssl(t.port).key(key).cert(cert);
                app.with_config(config);
            }
            _ => {
                app.ssl(t.port).key(key).cert(cert);
            }
        }
    }
    app
}

pub fn server_main(plan: Plan, _gen: u32) {
    let mut b = if plan.workers == 0 {
        tokio::runtime::Builder::new_current_thread()
    } else {
        let mut b = tokio::runtime::Builder::new_multi_thread();
        b.worker_threads(plan.workers as usize);
        b
    };
    let rt = b.enable_io().build().expect("runtime");
    let mut how = String::new();
    for n in 0..=plan.start.len() {
        k::attempt_begins();
        let app = build(&plan);
        let port = plan.port;
        let res = rt.block_on(async move { octshell::serve(app, port, k::started).await });
        how = match res {
            Ok(()) => "listen returned Ok".to_string(),
            Err(e) => format!("listen failed: {}", e),
        };
        k::attempt_ended(&how);
        if n < plan.start.len() && !how.contains("failed") {
            break;
        }
    }
    k::server_exited(how);
    std::mem::forget(rt);
}
