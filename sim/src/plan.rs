//! A Plan is one simulated execution, completely: a run is a pure function of its plan.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub family: String,
    pub config: String,
    pub seed: u64,
    /// 0: current_thread runtime, n: multi_thread with n workers
    pub workers: u32,
    pub sched: Sched,
    pub wall_secs: i64,
    pub wall_nanos: u32,
    /// (simulated ns, wall clock step in ns)
    pub jumps: Vec<(u64, i64)>,
    pub port: u16,
    pub tls: Option<TlsPlan>,
    /// a foreign process already listens on this port
    pub taken: Option<u16>,
    pub app: AppPlan,
    pub files: Vec<FileSpec>,
    pub clients: Vec<ClientPlan>,
    pub phases: u32,
    pub accept_faults: Vec<AcceptFault>,
    pub fd_limit: Option<u32>,
    pub crashes: Vec<Crash>,
    /// what goes wrong with the nth attempt to start; the application tries once more than that
    #[serde(default)]
    pub start: Vec<StartFault>,
    /// check the memory bound of C15 while running
    pub mem_check: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    /// preemption probability at intercepted calls
    pub switch_ppm: u32,
    /// preemption probability at allocations
    pub alloc_ppm: u32,
    /// preemption probability at basic blocks of the code under test
    pub bb_ppm: u32,
    /// fixed random priorities instead of uniform choice
    pub prio: bool,
    /// no more voluntary preemptions after that many
    pub preempt_limit: Option<u32>,
    pub spurious_ppm: u32,
    pub eintr_ppm: u32,
    /// most events one epoll_wait returns
    pub ep_max: u32,
    /// most ns one intercepted call costs
    pub cost_ns: u64,
    /// read() on files: probabilities of EINTR and of short results
    pub file_eintr_ppm: u32,
    pub file_short_ppm: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TlsPlan {
    pub port: u16,
    /// good, missing_key, missing_cert, garbage_key, garbage_cert, mismatch, empty_key, swapped
    pub key: String,
    /// which part of the configuration interface sets it up
    #[serde(default)]
    pub via: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AcceptFault {
    pub tls: bool,
    /// fires at the nth accept call on that listener (counting from 0) ...
    pub nth: u32,
    /// ... and the following count-1 ones
    pub count: u32,
    pub errno: i32,
}

/// every call of that kind concerning that port fails during the attempt
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StartFault {
    /// socket, bind, listen, epoll_ctl
    pub call: String,
    pub errno: i32,
    pub tls: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Crash {
    /// ns after the start of the generation
    At(u64),
    /// at the nth intercepted call of the generation
    Call(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct AppPlan {
    pub ops: Vec<RegOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RegOp {
    Route(RoutePlan),
    /// a router built from these, merged at this point
    Merge(Vec<RoutePlan>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RoutePlan {
    pub id: u32,
    /// GET.. PATCH, ALL (add_route), USE (add)
    pub method: String,
    pub path: String,
    pub acts: Vec<Act>,
    pub stop: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Status(u16),
    Set(String, String),
    /// x-token: token of the request
    Token,
    Type(String),
    Cookie(String, String),
    /// with attributes: bit 0 HttpOnly, 1 Secure, 2 Path=/
    CookieEx(String, String, u32),
    /// x-seen: what get() says about that header
    Reflect(String),
    /// answer with the version of the request
    Version,
    Redirect(String),
    Attach,
    AttachName(String),
    Charset(String),
    /// body of that length derived from the request's token
    Send(u32),
    /// literal body
    Text(String),
    /// request body
    Echo,
    /// a chosen part of the request: "body", "vars", "query", "hdr:<name>"
    SendFile(u32),
    Panic,
    /// n scheduling points
    Yield(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub name: String,
    pub len: u32,
    pub seed: u64,
    /// file, missing, dir
    pub kind: String,
    /// errno for open
    pub open_errno: Option<i32>,
    /// (before the nth read, what); AFTER_OPEN: when the first opening has succeeded
    pub ops: Vec<(u32, FileOp)>,
}

pub const AFTER_OPEN: u32 = u32::MAX;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileOp {
    Eio,
    Truncate(u32),
    Grow(u32),
    /// another file of that length is renamed over it
    Replace(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    /// stays connected
    Keep,
    Fin,
    Rst(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ClientPlan {
    pub id: u32,
    pub phase: u32,
    pub at: u64,
    pub tls: bool,
    /// connects to the TLS port but speaks whatever the bytes are
    pub to_tls_port: bool,
    pub req: ReqSpec,
    /// (bytes, delay before the next piece); the rest goes in one piece
    pub cuts: Vec<(u32, u64)>,
    /// bytes sent in all (wire bytes for TLS); then `end`
    pub limit: Option<u32>,
    /// pause after that many bytes until that phase begins
    pub stall: Option<(u32, u32)>,
    pub end: End,
    pub end_delay: u64,
    /// reset after having received that many bytes
    pub rst_after_rx: Option<u32>,
    pub rd: Reading,
    pub sndbuf: u32,
    /// flip a bit of the wire byte at that offset
    pub flip_at: Option<(u32, u8)>,
    /// 1: TLS 1.2, 2: takes part in session resumption
    #[serde(default)]
    pub tls_opt: u32,
    /// size of the TLS records sent, 0 for the greatest
    #[serde(default)]
    pub tls_record: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Reading {
    pub first: u64,
    pub chunk: u32,
    pub delay: u64,
    /// stop reading after that many bytes until that phase begins
    pub pause: Option<(u32, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ReqSpec {
    pub method: String,
    pub target: String,
    pub version: String,
    /// ("Name: ", value); the value "@len" stands for the length of the body
    pub headers: Vec<(String, String)>,
    /// length of the body derived from the token; text instead if given
    pub body: u32,
    pub body_text: Option<String>,
    /// bytes after the request
    #[serde(with = "hexbytes")]
    pub trailing: Vec<u8>,
    /// replaces everything
    #[serde(with = "hexopt")]
    pub raw: Option<Vec<u8>>,
}

pub mod hexbytes {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn enc(v: &[u8]) -> String {
        let mut s = String::with_capacity(v.len() * 2);
        for b in v {
            s.push_str(&format!("{:02x}", b));
        }
        s
    }
    pub fn dec(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
    }
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(v))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(dec(&String::deserialize(d)?))
    }
}
pub mod hexopt {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<Vec<u8>>, s: S) -> Result<S::Ok, S::Error> {
        match v {
            Some(v) => s.serialize_some(&super::hexbytes::enc(v)),
            None => s.serialize_none(),
        }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<Vec<u8>>, D::Error> {
        Ok(Option::<String>::deserialize(d)?.map(|s| super::hexbytes::dec(&s)))
    }
}

/// The identity of client `id`: appears in its headers and in every block of its bodies.
pub fn token(id: u32) -> String {
    format!("T{:05}", id)
}

/// Self-describing bytes: every 16-byte block names its owner and position. `kind` separates
/// request bodies from response bodies.
pub fn pattern(owner: u32, kind: char, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 16);
    let mut i = 0usize;
    while v.len() < len {
        v.extend_from_slice(format!("<{:05}{}{:06}>\r\n", owner, kind, i).as_bytes());
        i += 1;
    }
    v.truncate(len);
    v
}

pub fn file_bytes(seed: u64, len: usize) -> Vec<u8> {
    let mut x = seed;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&crate::rng::splitmix(&mut x).to_le_bytes());
    }
    v.truncate(len);
    v
}

impl ReqSpec {
    pub fn render(&self, id: u32) -> Vec<u8> {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let mut s = format!("{} {} {}\r\n", self.method, self.target, self.version);
        for (k, v) in &self.headers {
            s.push_str(k);
            if v == "@len" {
                s.push_str(&self.body_bytes(id).len().to_string());
            } else {
                s.push_str(v);
            }
            s.push_str("\r\n");
        }
        s.push_str("\r\n");
        let mut b = s.into_bytes();
        b.extend_from_slice(&self.body_bytes(id));
        b.extend_from_slice(&self.trailing);
        b
    }
    pub fn body_bytes(&self, id: u32) -> Vec<u8> {
        match &self.body_text {
            Some(t) => t.clone().into_bytes(),
            None => pattern(id, 'q', self.body as usize),
        }
    }
}
