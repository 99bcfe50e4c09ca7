//! The simulator: threads handed a baton one at a time, a discrete-event clock, a TCP/epoll/futex/
//! file model, clients driven by the plan. Everything here runs under the baton, so the global
//! state needs no lock.
use crate::app;
use crate::model::{self, Expect};
use crate::oracle;
use crate::plan::*;
use crate::rng::*;
use crate::sys::*;
use crate::tlsclient::Tls;
use libc::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::AtomicU32;

const FD_BASE: i32 = 10_000;
pub const MS: u64 = 1_000_000;
const TIME_WAIT: u64 = 60_000 * MS;
const STEP_CAP: u64 = 6_000_000;
const FAIR: u64 = 3000;
/// basic blocks between two intercepted calls: after so many somebody else gets a turn, ...
const SPIN_FAIR: u64 = 50_000;
const SLICE: u64 = 100;
const BB_MANY: u64 = 20_000;
/// ... after so many it is a loop without end
const SPIN_CAP: u64 = 100_000_000;

#[derive(Clone, Debug, PartialEq)]
enum TS {
    Runnable,
    Futex(usize, Option<u64>),
    Epoll(usize, Option<u64>),
    WaitOfd(usize),
    Sleep(u64),
    Join(u32),
    Exited,
}

struct Th {
    st: TS,
    gate: &'static AtomicU32,
    prio: u64,
    timed_out: bool,
    handle: u64,
}

#[derive(Clone, Debug)]
enum Ev {
    Start(usize),
    Send(usize),
    EndOf(usize),
    Pump(usize),
    Jump(usize),
    Crash,
    GenStart,
}

struct Interest {
    ofd: usize,
    events: u32,
    data: u64,
}

enum Kind {
    Raw { port: Option<u16> },
    Listener { port: u16, backlog: VecDeque<usize>, limit: usize, accepts: u32 },
    Stream(usize),
    Epoll { interest: BTreeMap<i32, Interest>, ready: Vec<i32> },
    Event(u64),
}

struct Ofd {
    kind: Kind,
    refs: u32,
    nonblock: bool,
    reuse: bool,
    linger0: bool,
}

pub struct Conn {
    pub client: usize,
    pub port: u16,
    rx: VecDeque<u8>,
    fin: bool,
    err: Option<i32>,
    dead: bool,
    tx: VecDeque<u8>,
    tx_fin: bool,
    rd_shut: bool,
    sndbuf: usize,
    nospace: bool,
    accepted: bool,
    pub closed: bool,
    reuse: bool,
    ofd: Option<usize>,
}

/// What one client experienced.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ClientSt {
    pub started: bool,
    pub connected: bool,
    pub accepted: bool,
    pub gen: u32,
    pub conn: Option<usize>,
    /// wire bytes delivered to the server
    pub sent: u32,
    pub cut: usize,
    /// the client ended the connection itself (FIN or RST sent)
    pub ended: bool,
    pub gone: bool,
    pub stalled: bool,
    pub paused: bool,
    pub released: bool,
    pub pump: bool,
    pub sending: bool,
    pub rx_wire: u32,
    pub first_pump: bool,
    pub rx: Vec<u8>,
    pub eof: bool,
    pub reset: bool,
    pub aborted_by_accept: bool,
    pub crashed: bool,
    pub closed_by_server: bool,
    pub done_phase: Option<u32>,
    pub req_bytes_read: u64,
    pub last_recv: u64,
    pub first_send: Option<u64>,
    pub start_at: u64,
    pub tls_done: bool,
    pub tls_notify: bool,
    pub tls_err: Option<String>,
    pub complete_at: Option<u64>,
    pub eof_at: u64,
    /// wire bytes that carry the whole request (TLS)
    pub tls_need: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HCall {
    pub client: Option<u32>,
    pub route: u32,
    pub at: u64,
    pub gen: u32,
    pub mism: Vec<String>,
    pub vars: BTreeMap<String, String>,
    pub foreign: bool,
    pub files: Vec<(u32, bool)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Linger {
    port: u16,
    reuse: bool,
    until: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileLog {
    pub file: u32,
    pub ok: bool,
    pub injected: bool,
    pub read: u64,
    pub eio: bool,
    pub shrunk: bool,
    pub grown: bool,
    pub client_hint: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Snapshot {
    pub phase: u32,
    pub at: u64,
    pub streams: u32,
    pub files: u32,
    pub live: i64,
    pub started: u32,
    pub not_done: Vec<u32>,
    /// clients whose connection the server holds
    pub held: Vec<u32>,
    /// clients stalled or not reading
    pub stuck: Vec<u32>,
    pub gen: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PanicRec {
    pub msg: String,
    pub loc: String,
    pub injected: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub tag: String,
    pub client: Option<u32>,
    pub detail: String,
    pub props: Vec<String>,
}

/// State that outlives a crash of the simulated server process, and the result of a run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub now: u64,
    pub seq: u64,
    pub gen: u32,
    pub gen_start: u64,
    pub gen_calls: u64,
    pub phase: u32,
    pub rng_s: Rng,
    pub rng_t: Rng,
    pub rng_f: Rng,
    pub rng_r: Rng,
    pub rng_c: Rng,
    pub wall_off: i64,
    pub wall_hist: Vec<(u64, i64)>,
    pub jumps_done: usize,
    pub clients: Vec<ClientSt>,
    pub calls: Vec<HCall>,
    pub linger: Vec<Linger>,
    pub files: Vec<FileLog>,
    pub snaps: Vec<Snapshot>,
    pub panics: Vec<PanicRec>,
    pub viol: Vec<Viol>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub preempts: u64,
    pub switches: u64,
    pub hash: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub exited: Option<String>,
    pub listened: Vec<(u32, u16)>,
    pub attempts: Vec<Attempt>,
    pub peak_live: i64,
    pub mem_viol: Option<String>,
    pub trace: Vec<String>,
    pub edges: Vec<u32>,
}

/// one call of listen
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Attempt {
    pub fired: bool,
    pub started: u32,
    pub outcome: Option<String>,
    pub leftover: u32,
}

struct FileFd {
    spec: usize,
    log: usize,
    reads: u32,
}

pub struct Sim {
    pub plan: Plan,
    pub expect: Vec<Expect>,
    pub w: World,
    verbose: bool,
    out_fd: i32,
    evq: BTreeMap<(u64, u64), Ev>,
    th: Vec<Th>,
    fds: Vec<Option<usize>>,
    ofds: Vec<Option<Ofd>>,
    pub conns: Vec<Conn>,
    tls: Vec<Option<Box<Tls>>>,
    out: Vec<Vec<u8>>,
    out_pos: Vec<usize>,
    waiting: Vec<usize>,
    filefds: BTreeMap<i32, FileFd>,
    run_len: u64,
    edge_run: u64,
    bb_hits: u64,
    slice_until: u64,
    edge_seen: Vec<bool>,
    base_live: Option<i64>,
    alive_recv: u64,
    alive_conns: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
pub static mut EDGES: u32 = 0;

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

// ---- memory accounting ----------------------------------------------------------------------
pub static mut LIVE: i64 = 0;
pub static mut PEAK: i64 = 0;
pub static mut ALLOC_PPM: u32 = 0;
static mut MEM_LIMIT: i64 = i64::MAX;
static mut BB_PPM: u32 = 0;

#[inline]
pub unsafe fn on_alloc(n: usize) {
    LIVE += n as i64;
    if LIVE > PEAK {
        PEAK = LIVE;
        if LIVE > MEM_LIMIT {
            set_inside(true);
            sim().mem_over(n);
            set_inside(false);
        }
    }
    if ALLOC_PPM > 0 {
        set_inside(true);
        let s = sim();
        if s.rng_hit(ALLOC_PPM) {
            s.count_probe("preempt_alloc");
            s.yield_point();
        }
        set_inside(false);
    }
}

#[inline]
pub unsafe fn edge(g: u32) {
    set_inside(true);
    let s = sim();
    let i = g as usize;
    if i >= s.edge_seen.len() {
        s.edge_seen.resize(i + 1, false);
    }
    s.edge_seen[i] = true;
    if BB_PPM > 0 && s.rng_hit(BB_PPM) {
        s.count_probe("preempt_block");
        s.bb_hits += 1;
        if s.bb_hits == BB_MANY {
            // long computations are not worth more switches
            BB_PPM = BB_PPM.min(100);
        }
        s.yield_point();
    }
    s.edge_run += 1;
    if s.edge_run % SPIN_FAIR == 0 {
        if s.edge_run >= SPIN_CAP {
            s.viol("livelock", None, format!("{} basic blocks without reaching the system boundary", SPIN_CAP));
            s.finish();
        }
        if s.th.len() > 2 {
            s.slice_until = 0;
            s.yield_point();
        }
    }
    set_inside(false);
}

impl Sim {
    fn rng_hit(&mut self, ppm: u32) -> bool {
        self.w.rng_s.ppm(ppm)
    }
    pub fn count_probe(&mut self, p: &str) {
        *self.w.probes.entry(p.to_string()).or_insert(0) += 1;
    }
    pub fn count_fault(&mut self, p: &str) {
        *self.w.faults.entry(p.to_string()).or_insert(0) += 1;
    }
    fn mem_over(&mut self, n: usize) {
        let bound = self.mem_bound();
        unsafe {
            if LIVE > bound {
                if self.w.mem_viol.is_none() {
                    self.w.mem_viol = Some(format!(
                        "server memory {} bytes (last allocation {} bytes) with {} bytes received on {} open connections; bound {}",
                        LIVE, n, self.alive_recv, self.alive_conns, bound
                    ));
                }
                MEM_LIMIT = i64::MAX;
            } else {
                MEM_LIMIT = bound;
            }
        }
    }
    fn mem_bound(&self) -> i64 {
        self.base_live.unwrap_or(0) + (1 << 20) + 96 * 1024 * self.alive_conns as i64 + 48 * self.alive_recv as i64
    }
    fn tr(&mut self, kind: u8, a: i64, b: i64) {
        let t = tid() as u64;
        let mut h = self.w.hash;
        for v in [kind as u64, t, a as u64, b as u64] {
            h = (h ^ v).wrapping_mul(0x100000001b3).rotate_left(23) ^ (h >> 29);
        }
        self.w.hash = h;
    }
    fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let l = format!("{:>12} t{} {}", self.w.now, tid(), f());
            self.w.trace.push(l);
        }
    }
    fn push(&mut self, dt: u64, e: Ev) {
        self.w.seq += 1;
        self.evq.insert((self.w.now + dt, self.w.seq), e);
    }
    pub fn wall(&self, t: u64) -> i128 {
        // offset in force at time t
        let mut off = 0i64;
        for (at, o) in &self.w.wall_hist {
            if *at <= t {
                off = *o;
            }
        }
        self.plan.wall_secs as i128 * 1_000_000_000 + self.plan.wall_nanos as i128 + t as i128 + off as i128
    }

    // ---- scheduling ----
    fn expire(&mut self) {
        let now = self.w.now;
        for t in self.th.iter_mut() {
            let due = match &t.st {
                TS::Futex(_, Some(d)) | TS::Epoll(_, Some(d)) | TS::Sleep(d) => *d <= now,
                _ => false,
            };
            if due {
                t.st = TS::Runnable;
                t.timed_out = true;
            }
        }
    }
    fn run_due(&mut self) {
        while let Some((&k, _)) = self.evq.iter().next() {
            if k.0 > self.w.now {
                break;
            }
            let e = self.evq.remove(&k).unwrap();
            self.event(e);
        }
        self.expire();
    }
    fn next_time(&self) -> Option<u64> {
        let mut n = self.evq.keys().next().map(|k| k.0);
        for t in &self.th {
            if let TS::Futex(_, Some(d)) | TS::Epoll(_, Some(d)) | TS::Sleep(d) = &t.st {
                n = Some(n.map_or(*d, |x| x.min(*d)));
            }
        }
        n
    }
    /// choose who runs next and hand over; returns when this thread runs again
    fn dispatch(&mut self) {
        self.dispatch2(tid() == 0)
    }
    fn dispatch2(&mut self, leaving: bool) {
        let me = tid() as usize;
        let next = loop {
            self.run_due();
            let mut run: [u32; 64] = [0; 64];
            let mut n = 0;
            for (i, t) in self.th.iter().enumerate() {
                if t.st == TS::Runnable && n < 64 {
                    run[n] = i as u32;
                    n += 1;
                }
            }
            if n > 0 {
                let run = &run[..n];
                break if n == 1 {
                    run[0] as usize
                } else if self.plan.sched.prio {
                    let b = *run.iter().max_by_key(|i| self.th[**i as usize].prio).unwrap() as usize;
                    if self.w.rng_s.pct(4) {
                        self.th[b].prio = self.w.rng_s.next();
                    }
                    b
                } else {
                    *self.w.rng_s.pick(run) as usize
                };
            }
            match self.next_time() {
                Some(t) => {
                    if t > self.w.now {
                        self.w.now = t;
                    }
                }
                None => self.quiesce(),
            }
        };
        if next != me {
            self.run_len = 0;
            self.w.switches += 1;
            self.tr(1, next as i64, 0);
            if self.verbose {
                self.say(|| format!("-> t{}", next));
            }
            let g = self.th[next].gate;
            if leaving {
                gate_open(g);
                return;
            }
            let mine = self.th[me].gate;
            gate_open(g);
            gate_wait(mine);
        }
    }
    /// scheduling point at which the running thread stays runnable
    fn yield_point(&mut self) {
        if self.w.steps < self.slice_until {
            return;
        }
        if let Some(l) = self.plan.sched.preempt_limit {
            if self.w.preempts >= l as u64 {
                return;
            }
        }
        let before = self.w.switches;
        self.dispatch();
        if self.w.switches != before {
            self.w.preempts += 1;
        }
    }
    fn block(&mut self, st: TS) -> bool {
        let me = tid() as usize;
        self.th[me].st = st;
        self.th[me].timed_out = false;
        self.run_len = 0;
        self.dispatch();
        self.th[me].timed_out
    }
    /// start of every intercepted call
    fn call(&mut self) {
        self.w.steps += 1;
        self.w.gen_calls += 1;
        self.run_len += 1;
        let c = self.plan.sched.cost_ns;
        self.w.now += 50 + if c > 0 { self.w.rng_t.below(c) } else { 0 };
        self.edge_run = 0;
        if self.w.steps > STEP_CAP {
            self.viol("livelock", None, format!("no quiescence within {} intercepted calls", STEP_CAP));
            self.finish();
        }
        if let Some(Crash::Call(n)) = self.plan.crashes.get(self.w.gen as usize) {
            if self.w.gen_calls == *n {
                self.crash();
            }
        }
        self.run_due();
        let p = self.plan.sched.switch_ppm;
        if self.th.len() > 2 && (self.rng_hit(p) || self.run_len > FAIR) {
            if self.run_len > FAIR {
                self.run_len = 0;
                // no starvation: everybody else comes first now
                let me = tid() as usize;
                for t in self.th.iter_mut() {
                    t.prio = (t.prio >> 1) | 1 << 62;
                }
                self.th[me].prio = 0;
                // and whoever comes gets somewhere before it is interrupted
                self.slice_until = self.w.steps + SLICE;
                self.dispatch();
            } else {
                self.yield_point();
            }
        }
    }
    pub fn viol(&mut self, tag: &str, client: Option<u32>, detail: String) {
        self.w.viol.push(Viol { tag: tag.into(), client, detail, props: vec![] });
    }

    // ---- events ----
    fn event(&mut self, e: Ev) {
        match e {
            Ev::GenStart => self.start_server(),
            Ev::Start(i) => self.client_start(i),
            Ev::Send(i) => self.client_send(i),
            Ev::EndOf(i) => self.client_end(i),
            Ev::Pump(i) => self.client_pump(i),
            Ev::Jump(k) => {
                let d = self.plan.jumps[k].1;
                self.w.wall_off = self.w.wall_off.saturating_add(d);
                self.w.wall_hist.push((self.w.now, self.w.wall_off));
                self.w.jumps_done = k + 1;
                self.count_fault("clock_step");
                self.tr(2, d, 0);
            }
            Ev::Crash => self.crash(),
        }
    }
    fn start_server(&mut self) {
        let plan = self.plan.clone();
        let gen = self.w.gen;
        let f = Box::new(move || app::server_main(plan, gen));
        unsafe {
            let mut t: pthread_t = 0;
            let p = Box::into_raw(Box::new(f as Box<dyn FnOnce()>));
            crate::hooks::create_sim(&mut t, std::ptr::null(), server_thread, p as *mut c_void);
        }
    }
    fn client_start(&mut self, i: usize) {
        let c = &self.plan.clients[i];
        let port = if c.tls || c.to_tls_port { self.plan.tls.as_ref().map(|t| t.port).unwrap_or(0) } else { self.plan.port };
        let st = &mut self.w.clients[i];
        if !st.started {
            st.started = true;
            st.start_at = self.w.now;
        }
        let mut found = None;
        for (n, o) in self.ofds.iter().enumerate() {
            if let Some(Ofd { kind: Kind::Listener { port: p, backlog, limit, .. }, .. }) = o {
                if *p == port && backlog.len() < *limit {
                    found = Some(n);
                }
            }
        }
        let l = match found {
            Some(l) => l,
            None => {
                self.waiting.push(i);
                return;
            }
        };
        let reuse = self.ofds[l].as_ref().unwrap().reuse;
        let ci = self.conns.len();
        self.conns.push(Conn {
            client: i,
            port,
            rx: VecDeque::new(),
            fin: false,
            err: None,
            dead: false,
            tx: VecDeque::new(),
            tx_fin: false,
            rd_shut: false,
            sndbuf: self.plan.clients[i].sndbuf.max(1) as usize,
            nospace: false,
            accepted: false,
            closed: false,
            reuse,
            ofd: None,
        });
        if let Some(Ofd { kind: Kind::Listener { backlog, .. }, .. }) = &mut self.ofds[l] {
            backlog.push_back(ci);
        }
        let c = &self.plan.clients[i];
        let mut bytes = Vec::new();
        if c.tls {
            let mut t = Box::new(Tls::new(c.tls_opt, c.tls_record));
            t.write_plain(&c.req.render(c.id));
            if c.end == End::Fin {
                t.close_after();
            }
            t.take_out(&mut bytes);
            self.tls[i] = Some(t);
        } else {
            bytes = c.req.render(c.id);
        }
        self.out[i] = bytes;
        self.out_pos[i] = 0;
        let st = &mut self.w.clients[i];
        st.conn = Some(ci);
        st.connected = true;
        st.gen = self.w.gen;
        self.tr(3, i as i64, 0);
        self.say(|| format!("client {} connects", i));
        self.notify(l);
        self.sched_send(i, 0);
    }
    fn sched_send(&mut self, i: usize, d: u64) {
        if !self.w.clients[i].sending && !self.w.clients[i].gone && !self.w.clients[i].ended {
            self.w.clients[i].sending = true;
            self.push(d, Ev::Send(i));
        }
    }
    fn client_send(&mut self, i: usize) {
        self.w.clients[i].sending = false;
        let c = &self.plan.clients[i];
        let st = &mut self.w.clients[i];
        if st.gone || st.ended {
            return;
        }
        let ci = st.conn.unwrap();
        let avail = self.out[i].len() - self.out_pos[i];
        let total_left = c.limit.map_or(u32::MAX, |l| l.saturating_sub(st.sent)) as usize;
        let mut n = avail.min(total_left);
        let mut stalls = false;
        if let Some((at, _)) = c.stall {
            if !st.released {
                let left = at.saturating_sub(st.sent) as usize;
                if n >= left {
                    n = n.min(left);
                    stalls = true;
                }
            }
        }
        let mut delay = 1000;
        if let Some((k, d)) = c.cuts.get(st.cut) {
            if (*k as usize) < n {
                n = (*k as usize).max(1);
                stalls = false;
            }
            delay = *d;
            st.cut += 1;
        }
        if n > 0 {
            let p = self.out_pos[i];
            let (s0, flip) = (st.sent, c.flip_at);
            st.sent += n as u32;
            self.out_pos[i] += n;
            let cn = &mut self.conns[ci];
            if !cn.closed && !cn.dead {
                let before = cn.rx.len();
                cn.rx.extend(&self.out[i][p..p + n]);
                if let Some((off, bit)) = flip {
                    if off >= s0 && off < s0 + n as u32 {
                        let k = before + (off - s0) as usize;
                        cn.rx[k] ^= 1 << (bit & 7);
                        self.count_fault("wire_bit_flip");
                    }
                }
            }
            self.tr(4, i as i64, n as i64);
            self.say(|| format!("client {} -> {} bytes", i, n));
            if self.out_pos[i] < self.out[i].len() {
                self.count_fault("segment_split");
            }
            if let Some(o) = self.conns[ci].ofd {
                self.notify(o);
            }
        }
        if stalls {
            self.w.clients[i].stalled = true;
            self.count_fault("peer_stall_sending");
            return;
        }
        let c = &self.plan.clients[i];
        let st = &mut self.w.clients[i];
        let limit_hit = c.limit.map_or(false, |l| st.sent >= l);
        if limit_hit && c.limit.unwrap() > 0 || limit_hit {
            self.count_fault("stream_cut_short");
        }
        let empty = self.out_pos[i] == self.out[i].len();
        let all_out = empty && (!self.plan.clients[i].tls || self.tls[i].as_ref().map_or(true, |t| t.all_written()));
        if all_out && self.w.clients[i].complete_at.is_none() && !limit_hit {
            self.w.clients[i].complete_at = Some(self.w.now);
        }
        if limit_hit || all_out {
            if self.plan.clients[i].end != End::Keep {
                self.push(self.plan.clients[i].end_delay, Ev::EndOf(i));
            }
        } else if !empty {
            self.sched_send(i, delay);
        }
    }
    fn client_end(&mut self, i: usize) {
        let st = &mut self.w.clients[i];
        if st.gone || st.ended {
            return;
        }
        let ci = st.conn.unwrap();
        match self.plan.clients[i].end {
            End::Keep => return,
            End::Fin => {
                st.ended = true;
                self.conns[ci].fin = true;
                self.count_fault("peer_half_close");
                self.tr(5, i as i64, 0);
            }
            End::Rst(e) => {
                self.client_rst(i, e);
                return;
            }
        }
        self.say(|| format!("client {} FIN", i));
        if let Some(o) = self.conns[ci].ofd {
            self.notify(o);
        }
    }
    fn client_rst(&mut self, i: usize, e: i32) {
        let st = &mut self.w.clients[i];
        if st.gone {
            return;
        }
        st.ended = true;
        st.gone = true;
        let ph = self.w.phase;
        if st.done_phase.is_none() {
            st.done_phase = Some(ph);
        }
        let ci = st.conn.unwrap();
        let cn = &mut self.conns[ci];
        cn.err = Some(e);
        cn.dead = true;
        cn.tx.clear();
        self.count_fault(match e {
            ECONNRESET => "peer_reset",
            ETIMEDOUT => "peer_vanished_etimedout",
            _ => "peer_unreachable",
        });
        self.tr(6, i as i64, e as i64);
        self.say(|| format!("client {} RST {}", i, e));
        if let Some(o) = self.conns[ci].ofd {
            self.notify(o);
        }
    }
    fn kick_pump(&mut self, ci: usize) {
        let i = self.conns[ci].client;
        let st = &mut self.w.clients[i];
        if st.gone || st.pump || st.paused || st.done_phase.is_some() {
            return;
        }
        let c = &self.plan.clients[i];
        let d = if !st.first_pump { c.rd.first } else { 500 + self.w.rng_t.below(2000) };
        st.first_pump = true;
        st.pump = true;
        self.push(d, Ev::Pump(i));
    }
    fn client_pump(&mut self, i: usize) {
        let ph = self.w.phase;
        let c = &self.plan.clients[i];
        let st = &mut self.w.clients[i];
        st.pump = false;
        if st.gone || st.done_phase.is_some() {
            return;
        }
        let ci = st.conn.unwrap();
        let cn = &mut self.conns[ci];
        let mut n = cn.tx.len().min(c.rd.chunk.max(1) as usize);
        if let Some((at, rel)) = c.rd.pause {
            if ph < rel {
                n = n.min(at.saturating_sub(st.rx_wire) as usize);
                if n == 0 && (st.rx_wire >= at) {
                    st.paused = true;
                    self.count_fault("peer_stall_reading");
                    return;
                }
            }
        }
        let mut rst = false;
        if let Some(r) = c.rst_after_rx {
            let left = r.saturating_sub(st.rx_wire) as usize;
            if n >= left {
                n = left;
                rst = true;
            }
        }
        let got: Vec<u8> = cn.tx.drain(..n).collect();
        st.rx_wire += n as u32;
        let tls = c.tls;
        self.tr(7, i as i64, n as i64);
        if tls {
            let mut more = Vec::new();
            if let Some(t) = self.tls[i].as_mut() {
                t.feed(&got, &mut self.w.clients[i]);
                t.take_out(&mut more);
            }
            if !more.is_empty() {
                self.out[i].extend_from_slice(&more);
                if self.w.clients[i].tls_need.is_none() && self.tls[i].as_ref().map_or(false, |t| t.written()) {
                    self.w.clients[i].tls_need = Some(self.out[i].len() as u32 - self.tls[i].as_ref().unwrap().tail());
                }
            }
            if self.out_pos[i] < self.out[i].len() && !self.w.clients[i].stalled {
                self.sched_send(i, 300);
            } else if self.tls[i].as_ref().map_or(false, |t| t.all_written()) {
                // nothing more to send; lets client_send notice completion
                self.sched_send(i, 300);
            }
        } else {
            self.w.clients[i].rx.extend_from_slice(&got);
        }
        if n > 0 {
            self.say(|| format!("client {} <- {} bytes", i, n));
        }
        if rst {
            self.client_rst(i, ECONNRESET);
            return;
        }
        let cn = &mut self.conns[ci];
        if cn.nospace && n > 0 && (cn.tx.is_empty() || (cn.sndbuf - cn.tx.len()) * 3 >= cn.sndbuf) {
            cn.nospace = false;
            if let Some(o) = cn.ofd {
                self.notify(o);
            }
        }
        let cn = &mut self.conns[ci];
        if !cn.tx.is_empty() {
            let d = self.plan.clients[i].rd.delay;
            self.w.clients[i].pump = true;
            self.push(d.max(100), Ev::Pump(i));
        } else if cn.tx_fin {
            self.client_eof(i);
        }
    }
    fn client_eof(&mut self, i: usize) {
        let ph = self.w.phase;
        let st = &mut self.w.clients[i];
        st.eof = true;
        st.eof_at = self.w.now;
        st.gone = true;
        st.done_phase = Some(ph);
        let ci = st.conn.unwrap();
        self.conns[ci].fin = true;
        self.tr(8, i as i64, 0);
        self.say(|| format!("client {} EOF", i));
        if let Some(o) = self.conns[ci].ofd {
            self.notify(o);
        }
        self.tls[i] = None;
        self.out[i] = Vec::new();
        self.out_pos[i] = 0;
    }
    fn client_reset_by_server(&mut self, ci: usize, aborted: bool) {
        let i = self.conns[ci].client;
        let ph = self.w.phase;
        let st = &mut self.w.clients[i];
        if st.gone {
            return;
        }
        st.reset = true;
        st.aborted_by_accept |= aborted;
        st.gone = true;
        if st.done_phase.is_none() {
            st.done_phase = Some(ph);
        }
    }

    fn snapshot(&mut self) {
        let streams = self.ofds.iter().flatten().filter(|o| matches!(o.kind, Kind::Stream(_))).count() as u32;
        let mut not_done = vec![];
        let mut stuck = vec![];
        for (i, c) in self.w.clients.iter().enumerate() {
            if c.started && c.done_phase.is_none() {
                not_done.push(self.plan.clients[i].id);
            }
            if c.stalled || c.paused {
                stuck.push(self.plan.clients[i].id);
            }
        }
        let mut held = vec![];
        for o in self.ofds.iter().flatten() {
            if let Kind::Stream(ci) = o.kind {
                held.push(self.plan.clients[self.conns[ci].client].id);
            }
        }
        let s = Snapshot {
            phase: self.w.phase,
            at: self.w.now,
            streams,
            files: self.filefds.len() as u32,
            live: unsafe { LIVE },
            started: self.w.clients.iter().filter(|c| c.started).count() as u32,
            not_done,
            held,
            stuck,
            gen: self.w.gen,
        };
        self.say(|| format!("quiescent, phase {} ends: {} streams, {} files", s.phase, s.streams, s.files));
        self.w.snaps.push(s);
    }
    /// nothing can happen any more: next phase or end of the run
    fn quiesce(&mut self) {
        self.snapshot();
        self.w.phase += 1;
        if self.w.phase >= self.plan.phases {
            self.finish();
        }
        let ph = self.w.phase;
        for i in 0..self.plan.clients.len() {
            let c = &self.plan.clients[i];
            if c.phase == ph && !self.w.clients[i].started {
                let at = c.at;
                self.push(at, Ev::Start(i));
                continue;
            }
            if let Some((_, rel)) = c.stall {
                if rel == ph && self.w.clients[i].stalled {
                    let d = c.at % 1000 + 1;
                    self.w.clients[i].stalled = false;
                    self.w.clients[i].released = true;
                    self.sched_send(i, d);
                }
            }
            let c = &self.plan.clients[i];
            if let Some((_, rel)) = c.rd.pause {
                if rel == ph && self.w.clients[i].paused {
                    self.w.clients[i].paused = false;
                    self.w.clients[i].pump = true;
                    let d = c.at % 1000 + 1;
                    self.push(d, Ev::Pump(i));
                }
            }
        }
        self.say(|| format!("phase {}", ph));
    }

    fn crash(&mut self) -> ! {
        self.count_fault("server_crash");
        self.tr(9, 0, 0);
        self.say(|| "CRASH".to_string());
        for ci in 0..self.conns.len() {
            let (open, port, reuse) = {
                let c = &self.conns[ci];
                (!c.closed, c.port, c.reuse)
            };
            let i = self.conns[ci].client;
            if open {
                let until = self.w.now + TIME_WAIT;
                self.w.linger.push(Linger { port, reuse, until });
            }
            if self.w.clients[i].gone {
                continue;
            }
            // what the kernel had accepted for sending still goes out, unless unread data turn the
            // close into a reset
            let unread = !self.conns[ci].rx.is_empty();
            let rest: Vec<u8> = self.conns[ci].tx.drain(..).collect();
            if !unread || self.conns[ci].closed {
                if self.plan.clients[i].tls {
                    if let Some(t) = self.tls[i].as_mut() {
                        t.feed(&rest, &mut self.w.clients[i]);
                    }
                } else {
                    self.w.clients[i].rx.extend_from_slice(&rest);
                }
            }
            let ph = self.w.phase;
            let was_closed = self.conns[ci].closed;
            let now = self.w.now;
            let st = &mut self.w.clients[i];
            st.gone = true;
            st.eof = true;
            st.eof_at = now;
            st.reset = unread && !was_closed;
            st.crashed = !was_closed;
            if st.done_phase.is_none() {
                st.done_phase = Some(ph);
            }
        }
        self.w.gen += 1;
        self.note_edges();
        let mut m = vec![b'C'];
        m.extend_from_slice(&serde_json::to_vec(&self.w).unwrap());
        write_all(self.out_fd, &m);
        exit_now(0)
    }
    fn note_edges(&mut self) {
        let mut v: Vec<u32> = std::mem::take(&mut self.w.edges);
        for (i, b) in self.edge_seen.iter().enumerate() {
            if *b {
                v.push(i as u32);
            }
        }
        v.sort();
        v.dedup();
        self.w.edges = v;
    }
    pub fn finish(&mut self) -> ! {
        self.note_edges();
        unsafe {
            self.w.peak_live = self.w.peak_live.max(PEAK);
        }
        let snapshot_ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| oracle::judge(self)));
        if snapshot_ok.is_err() {
            let m = self.w.panics.last().map(|p| format!("{} {}", p.msg, p.loc)).unwrap_or_default();
            harness_fail(&format!("oracle panicked: {}", m));
        }
        let mut m = vec![b'R'];
        m.extend_from_slice(&serde_json::to_vec(&oracle::result(self)).unwrap());
        write_all(self.out_fd, &m);
        exit_now(0)
    }

    // ---- descriptors ----
    fn new_fd(&mut self, k: Kind, nonblock: bool) -> i64 {
        let o = Ofd { kind: k, refs: 1, nonblock, reuse: false, linger0: false };
        let oi = match self.ofds.iter().position(|x| x.is_none()) {
            Some(p) => {
                self.ofds[p] = Some(o);
                p
            }
            None => {
                self.ofds.push(Some(o));
                self.ofds.len() - 1
            }
        };
        self.fd_for(oi)
    }
    fn fd_for(&mut self, oi: usize) -> i64 {
        let p = match self.fds.iter().position(|x| x.is_none()) {
            Some(p) => p,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.fds[p] = Some(oi);
        (FD_BASE + p as i32) as i64
    }
    fn ofd_of(&self, fd: i32) -> Option<usize> {
        if fd < FD_BASE {
            return None;
        }
        self.fds.get((fd - FD_BASE) as usize).copied().flatten()
    }
    fn o(&mut self, oi: usize) -> &mut Ofd {
        self.ofds[oi].as_mut().unwrap()
    }
    fn open_count(&self) -> u32 {
        (self.fds.iter().flatten().count() + self.filefds.len()) as u32
    }
    /// current epoll mask
    fn mask(&self, oi: usize) -> u32 {
        match &self.ofds[oi].as_ref().unwrap().kind {
            Kind::Listener { backlog, .. } => {
                if backlog.is_empty() {
                    0
                } else {
                    EPOLLIN as u32
                }
            }
            Kind::Stream(ci) => {
                let c = &self.conns[*ci];
                let mut m = 0;
                if !c.rx.is_empty() || c.fin || c.dead || c.rd_shut {
                    m |= EPOLLIN;
                }
                if c.fin || c.dead || c.rd_shut {
                    m |= EPOLLRDHUP;
                }
                if c.tx.len() < c.sndbuf || c.dead || c.tx_fin {
                    m |= EPOLLOUT;
                }
                if c.dead || ((c.fin || c.rd_shut) && c.tx_fin) {
                    m |= EPOLLHUP;
                }
                if c.err.is_some() {
                    m |= EPOLLERR;
                }
                m as u32
            }
            Kind::Event(n) => {
                (if *n > 0 { EPOLLIN as u32 } else { 0 }) | EPOLLOUT as u32
            }
            Kind::Raw { .. } => (EPOLLOUT | EPOLLHUP) as u32,
            Kind::Epoll { .. } => 0,
        }
    }
    /// something happened on this description: wake whoever waits for it
    fn notify(&mut self, oi: usize) {
        let m = self.mask(oi) | 0;
        for e in 0..self.ofds.len() {
            let mut hit = false;
            if let Some(Ofd { kind: Kind::Epoll { interest, ready }, .. }) = &mut self.ofds[e] {
                for (fd, it) in interest.iter() {
                    if it.ofd == oi && (m & (it.events | (EPOLLHUP | EPOLLERR) as u32)) != 0 {
                        if !ready.contains(fd) {
                            ready.push(*fd);
                        }
                        hit = true;
                    }
                }
            }
            if hit {
                self.wake_epoll(e);
            }
        }
        for t in self.th.iter_mut() {
            if t.st == TS::WaitOfd(oi) {
                t.st = TS::Runnable;
            }
        }
    }
    fn wake_epoll(&mut self, e: usize) {
        for t in self.th.iter_mut() {
            if let TS::Epoll(x, _) = t.st {
                if x == e {
                    t.st = TS::Runnable;
                    t.timed_out = false;
                }
            }
        }
    }
    fn drop_ofd(&mut self, oi: usize) {
        let o = self.ofds[oi].take().unwrap();
        // closing the last reference removes it from every epoll set
        for e in self.ofds.iter_mut().flatten() {
            if let Kind::Epoll { interest, ready } = &mut e.kind {
                let gone: Vec<i32> = interest.iter().filter(|(_, it)| it.ofd == oi).map(|(fd, _)| *fd).collect();
                for fd in gone {
                    interest.remove(&fd);
                    ready.retain(|f| *f != fd);
                }
            }
        }
        match o.kind {
            Kind::Stream(ci) => {
                let until = self.w.now + TIME_WAIT;
                let c = &mut self.conns[ci];
                c.ofd = None;
                c.closed = true;
                let (port, reuse) = (c.port, c.reuse);
                let got = self.w.clients[c.client].req_bytes_read;
                self.alive_recv -= got.min(self.alive_recv);
                self.alive_conns -= 1;
                self.w.clients[c.client].closed_by_server = true;
                if o.linger0 {
                    c.tx.clear();
                    c.dead = true;
                    self.client_reset_by_server(ci, false);
                } else {
                    c.tx_fin = true;
                    if !c.dead && !(c.fin && c.tx.is_empty()) {
                        self.w.linger.push(Linger { port, reuse, until });
                    }
                    self.kick_pump(ci);
                }
            }
            Kind::Listener { backlog, port, .. } => {
                self.say(|| format!("listener on {} closed", port));
                for ci in backlog {
                    self.conns[ci].closed = true;
                    self.client_reset_by_server(ci, false);
                }
            }
            _ => {}
        }
    }
}

extern "C" fn server_thread(p: *mut c_void) -> *mut c_void {
    unsafe {
        let f = Box::from_raw(p as *mut Box<dyn FnOnce()>);
        f();
    }
    std::ptr::null_mut()
}

pub fn harness_fail(m: &str) -> ! {
    let s = sim();
    let mut b = vec![b'H'];
    b.extend_from_slice(m.as_bytes());
    write_all(s.out_fd, &b);
    exit_now(3)
}

// ---- threads --------------------------------------------------------------------------------
pub fn thread_new() -> u32 {
    let s = sim();
    let gate: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let prio = s.w.rng_s.next();
    s.th.push(Th { st: TS::Runnable, gate, prio, timed_out: false, handle: 0 });
    let id = s.th.len() as u32 - 1;
    if id >= 60 {
        harness_fail("too many threads");
    }
    s.tr(10, id as i64, 0);
    s.say(|| format!("new thread t{}", id));
    id
}
pub fn thread_handle(id: u32, h: u64) {
    sim().th[id as usize].handle = h;
}
pub fn thread_begin(id: u32) {
    gate_wait(sim().th[id as usize].gate);
}
/// the calling thread passes the baton on for good
pub fn thread_end(id: u32) {
    let s = sim();
    s.th[id as usize].st = TS::Exited;
    for t in s.th.iter_mut() {
        if t.st == TS::Join(id) {
            t.st = TS::Runnable;
        }
    }
    s.dispatch2(true);
}
pub fn sys_join(h: u64) {
    let s = sim();
    s.call();
    if let Some(p) = s.th.iter().position(|t| t.handle == h && h != 0) {
        if s.th[p].st != TS::Exited {
            s.block(TS::Join(p as u32));
        }
    }
}
pub fn sys_yield() -> i64 {
    let s = sim();
    s.call();
    s.dispatch();
    0
}
pub unsafe fn sys_sleep(_id: i32, fl: i32, ts: *const timespec) -> i64 {
    let s = sim();
    s.call();
    let d = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    let dl = if fl & TIMER_ABSTIME != 0 { d.saturating_sub(MONO_BASE) } else { s.w.now + d };
    s.block(TS::Sleep(dl));
    0
}
const MONO_BASE: u64 = 1_000_000_000_000;

pub unsafe fn sys_futex(addr: usize, op: i32, val: u32, to: *const timespec) -> i64 {
    let s = sim();
    s.call();
    let cmd = op & 0x7f & !256;
    match cmd {
        0 | 9 => {
            if std::ptr::read_volatile(addr as *const u32) != val {
                return -(EAGAIN as i64);
            }
            if s.plan.sched.spurious_ppm > 0 && s.w.rng_f.ppm(s.plan.sched.spurious_ppm) {
                s.count_fault("spurious_futex_wakeup");
                return 0;
            }
            let dl = if to.is_null() {
                None
            } else {
                let d = (*to).tv_sec as u64 * 1_000_000_000 + (*to).tv_nsec as u64;
                Some(if cmd == 0 { s.w.now + d } else { d.saturating_sub(MONO_BASE) })
            };
            s.tr(11, 0, 0);
            s.say(|| "futex wait".into());
            if s.block(TS::Futex(addr, dl)) {
                return -(ETIMEDOUT as i64);
            }
            0
        }
        1 | 10 => {
            let mut w: Vec<usize> = s
                .th
                .iter()
                .enumerate()
                .filter(|(_, t)| matches!(t.st, TS::Futex(a, _) if a == addr))
                .map(|(i, _)| i)
                .collect();
            s.w.rng_s.shuffle(&mut w);
            let n = w.len().min(val as usize);
            for i in &w[..n] {
                s.th[*i].st = TS::Runnable;
                s.th[*i].timed_out = false;
            }
            s.tr(12, n as i64, 0);
            n as i64
        }
        _ => harness_fail("unexpected futex operation"),
    }
}

// ---- clocks, randomness ---------------------------------------------------------------------
pub unsafe fn sys_clock(id: i32, ts: *mut timespec) {
    let s = sim();
    s.w.now += 20;
    let ns: i128 = match id {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE => {
            s.plan.wall_secs as i128 * 1_000_000_000 + s.plan.wall_nanos as i128 + s.w.now as i128 + s.w.wall_off as i128
        }
        _ => (s.w.now + MONO_BASE) as i128,
    };
    (*ts).tv_sec = ns.div_euclid(1_000_000_000) as i64;
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as i64;
}
pub unsafe fn sys_random(b: *mut u8, n: usize) -> i64 {
    let s = sim();
    let r = if inside() { &mut s.w.rng_c } else { &mut s.w.rng_r };
    for i in 0..n {
        *b.add(i) = r.next() as u8;
    }
    n as i64
}

// ---- sockets --------------------------------------------------------------------------------
pub fn is_sim_fd(fd: i32) -> bool {
    fd >= FD_BASE
}
pub fn sys_socket(d: i32, t: i32, p: i32) -> i64 {
    let s = sim();
    s.call();
    if d != AF_INET && d != AF_INET6 {
        return unsafe { raw6(SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0) };
    }
    if let Some(e) = s.start_fault("socket", None) {
        return e;
    }
    let fd = s.new_fd(Kind::Raw { port: None }, t & SOCK_NONBLOCK != 0);
    s.say(|| format!("socket -> {}", fd));
    fd
}
pub unsafe fn sys_bind(fd: i32, a: *const sockaddr, _l: u32) -> i64 {
    let s = sim();
    s.call();
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let port = u16::from_be((*(a as *const sockaddr_in)).sin_port);
    let reuse = s.o(oi).reuse;
    let mut used = s.plan.taken == Some(port);
    for (n, o) in s.ofds.iter().enumerate() {
        if n == oi {
            continue;
        }
        match o {
            Some(Ofd { kind: Kind::Listener { port: p, .. }, .. }) if *p == port => used = true,
            Some(Ofd { kind: Kind::Raw { port: Some(p) }, reuse: r, .. }) if *p == port && !(*r && reuse) => used = true,
            _ => {}
        }
    }
    let now = s.w.now;
    for l in &s.w.linger {
        if l.port == port && l.until > now {
            if !(l.reuse && reuse) {
                used = true;
            }
        }
    }
    if s.w.linger.iter().any(|l| l.port == port && l.until > now) {
        s.count_probe("bind_with_lingering_connections");
    }
    if let Some(e) = s.start_fault("bind", Some(port)) {
        return e;
    }
    s.say(|| format!("bind {} used={}", port, used));
    if used {
        s.count_fault("bind_eaddrinuse");
        return -(EADDRINUSE as i64);
    }
    s.o(oi).kind = Kind::Raw { port: Some(port) };
    0
}
pub fn sys_listen(fd: i32, b: i32) -> i64 {
    let s = sim();
    s.call();
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let port = match &s.o(oi).kind {
        Kind::Raw { port } => port.unwrap_or(0),
        _ => return 0,
    };
    let dup = s.ofds.iter().flatten().any(|o| matches!(&o.kind, Kind::Listener { port: p, .. } if *p == port));
    if dup {
        return -(EADDRINUSE as i64);
    }
    if let Some(e) = s.start_fault("listen", Some(port)) {
        return e;
    }
    s.o(oi).kind = Kind::Listener { port, backlog: VecDeque::new(), limit: (b.max(1) as usize).min(4096), accepts: 0 };
    let gen = s.w.gen;
    s.w.listened.push((gen, port));
    s.say(|| format!("listen {}", port));
    s.release_waiting();
    0
}
impl Sim {
    /// does this attempt to start meet with a fault here?
    fn start_fault(&mut self, call: &str, port: Option<u16>) -> Option<i64> {
        let k = self.w.attempts.len().wrapping_sub(1);
        let f = self.plan.start.get(k)?;
        if f.call != call {
            return None;
        }
        if let Some(p) = port {
            let want = if f.tls { self.plan.tls.as_ref()?.port } else { self.plan.port };
            if p != want {
                return None;
            }
        }
        let (errno, tls) = (f.errno, f.tls);
        if !tls {
            self.w.attempts[k].fired = true;
        }
        self.count_fault(&format!("start_{}_{}", call, errname(errno)));
        self.say(|| format!("{} fails: {}", call, errname(errno)));
        Some(-(errno as i64))
    }
    fn release_waiting(&mut self) {
        let w = std::mem::take(&mut self.waiting);
        for i in w {
            let d = 1000 + self.plan.clients[i].at % 50_000;
            self.push(d, Ev::Start(i));
        }
    }
    /// last time the server got something before it began to answer
    fn touch(&mut self, cl: usize, now: u64) {
        if self.w.clients[cl].first_send.is_none() {
            self.w.clients[cl].last_recv = now;
        }
    }
    pub fn mark_base(&mut self) {
        if self.base_live.is_none() {
            unsafe {
                self.base_live = Some(LIVE);
                if self.plan.mem_check {
                    MEM_LIMIT = self.mem_bound();
                }
            }
        }
    }
}
pub unsafe fn sys_setsockopt(fd: i32, lv: i32, o: i32, v: *const c_void, l: u32) -> i64 {
    let s = sim();
    s.call();
    if !is_sim_fd(fd) {
        return raw6(SYS_setsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0);
    }
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let val = if l >= 4 { *(v as *const i32) } else { 0 };
    if lv == SOL_SOCKET && o == SO_REUSEADDR {
        s.o(oi).reuse = val != 0;
    }
    if lv == SOL_SOCKET && o == SO_LINGER {
        let lg = &*(v as *const linger);
        s.o(oi).linger0 = lg.l_onoff != 0 && lg.l_linger == 0;
    }
    0
}
pub unsafe fn sys_getsockopt(fd: i32, lv: i32, o: i32, v: *mut c_void, l: *mut u32) -> i64 {
    let s = sim();
    s.call();
    if !is_sim_fd(fd) {
        return raw6(SYS_getsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0);
    }
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let mut val = 0i32;
    if lv == SOL_SOCKET && o == SO_ERROR {
        if let Kind::Stream(ci) = s.o(oi).kind {
            val = s.conns[ci].err.take().unwrap_or(0);
        }
    }
    if lv == SOL_SOCKET && o == SO_TYPE {
        val = SOCK_STREAM;
    }
    if lv == SOL_SOCKET && o == SO_REUSEADDR {
        val = s.o(oi).reuse as i32;
    }
    let n = (*l).min(4) as usize;
    std::ptr::copy_nonoverlapping(&val as *const i32 as *const u8, v as *mut u8, n);
    *l = n as u32;
    0
}
unsafe fn put_addr(a: *mut sockaddr, l: *mut u32, port: u16, host: u32) {
    if a.is_null() || l.is_null() {
        return;
    }
    let mut sa: sockaddr_in = std::mem::zeroed();
    sa.sin_family = AF_INET as u16;
    sa.sin_port = port.to_be();
    sa.sin_addr.s_addr = host.to_be();
    let n = (*l as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<sockaddr_in>() as u32;
}
pub unsafe fn sys_name(fd: i32, a: *mut sockaddr, l: *mut u32, peer: bool) -> i64 {
    let s = sim();
    s.call();
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(ENOTSOCK as i64),
    };
    match &s.ofds[oi].as_ref().unwrap().kind {
        Kind::Stream(ci) => {
            let c = &s.conns[*ci];
            if peer {
                if c.dead {
                    return -(ENOTCONN as i64);
                }
                put_addr(a, l, 30000 + c.client as u16, 0x7f000001);
            } else {
                put_addr(a, l, c.port, 0x7f000001);
            }
            0
        }
        Kind::Listener { port, .. } if !peer => {
            put_addr(a, l, *port, 0);
            0
        }
        _ if peer => -(ENOTCONN as i64),
        _ => {
            put_addr(a, l, 0, 0);
            0
        }
    }
}
fn errname(e: i32) -> &'static str {
    match e {
        ECONNABORTED => "ECONNABORTED",
        EMFILE => "EMFILE",
        ENFILE => "ENFILE",
        ENOBUFS => "ENOBUFS",
        ENOMEM => "ENOMEM",
        EINTR => "EINTR",
        EPROTO => "EPROTO",
        EPERM => "EPERM",
        EACCES => "EACCES",
        EADDRINUSE => "EADDRINUSE",
        ENOSPC => "ENOSPC",
        ENETDOWN => "ENETDOWN",
        EHOSTUNREACH => "EHOSTUNREACH",
        _ => "other",
    }
}
pub unsafe fn sys_accept(fd: i32, a: *mut sockaddr, l: *mut u32, fl: i32) -> i64 {
    let s = sim();
    loop {
        s.call();
        let oi = match s.ofd_of(fd) {
            Some(o) => o,
            None => return -(EBADF as i64),
        };
        let nb = s.o(oi).nonblock;
        let reuse = s.o(oi).reuse;
        let (port, empty, nth) = match &mut s.o(oi).kind {
            Kind::Listener { port, backlog, accepts, .. } => {
                if !backlog.is_empty() {
                    *accepts += 1;
                }
                (*port, backlog.is_empty(), accepts.wrapping_sub(1))
            }
            _ => return -(EINVAL as i64),
        };
        s.mark_base();
        if empty {
            if nb {
                return -(EAGAIN as i64);
            }
            s.block(TS::WaitOfd(oi));
            continue;
        }
        let is_tls = s.plan.tls.as_ref().map_or(false, |t| t.port == port);
        let fault =
            s.plan.accept_faults.iter().find(|f| f.tls == is_tls && nth >= f.nth && nth < f.nth + f.count).map(|f| f.errno);
        let fault = fault.or(if s.plan.fd_limit.map_or(false, |l| s.open_count() >= l) { Some(EMFILE) } else { None });
        if let Some(e) = fault {
            s.count_fault(&format!("accept_{}", errname(e)));
            s.tr(13, e as i64, 0);
            s.say(|| format!("accept fails: {}", errname(e)));
            // a server retrying in a loop gets there in fewer steps
            s.w.now += 50_000;
            if e == ECONNABORTED || e == EPROTO || e == EPERM {
                // these concern, and take away, the connection at the head of the queue
                let ci = match &mut s.o(oi).kind {
                    Kind::Listener { backlog, .. } => backlog.pop_front().unwrap(),
                    _ => unreachable!(),
                };
                s.conns[ci].closed = true;
                s.conns[ci].dead = true;
                s.client_reset_by_server(ci, true);
            }
            return -(e as i64);
        }
        let ci = match &mut s.o(oi).kind {
            Kind::Listener { backlog, .. } => backlog.pop_front().unwrap(),
            _ => unreachable!(),
        };
        let nfd = s.new_fd(Kind::Stream(ci), fl & SOCK_NONBLOCK != 0);
        let noi = s.ofd_of(nfd as i32).unwrap();
        s.o(noi).reuse = reuse;
        let c = &mut s.conns[ci];
        c.ofd = Some(noi);
        c.accepted = true;
        s.w.clients[c.client].accepted = true;
        s.alive_conns += 1;
        let cl = c.client;
        put_addr(a, l, 30000 + (cl as u16 % 30000), 0x7f000001);
        s.tr(14, cl as i64, 0);
        s.say(|| format!("accept client {} fd {}", cl, nfd));
        if !s.waiting.is_empty() {
            s.release_waiting();
        }
        return nfd;
    }
}
pub unsafe fn sys_recv(fd: i32, b: *mut u8, n: usize, fl: i32) -> i64 {
    let s = sim();
    if !is_sim_fd(fd) {
        return raw6(SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, 0, 0);
    }
    loop {
        s.call();
        let oi = match s.ofd_of(fd) {
            Some(o) => o,
            None => return -(EBADF as i64),
        };
        let nb = s.o(oi).nonblock || fl & MSG_DONTWAIT != 0;
        let ci = match s.o(oi).kind {
            Kind::Stream(c) => c,
            _ => return -(ENOTCONN as i64),
        };
        let now = s.w.now;
        let c = &mut s.conns[ci];
        let cl = c.client;
        if c.rd_shut {
            return 0;
        }
        if !c.rx.is_empty() {
            let k = n.min(c.rx.len());
            if fl & MSG_PEEK != 0 {
                for (i, v) in c.rx.iter().take(k).enumerate() {
                    *b.add(i) = *v;
                }
                return k as i64;
            }
            for i in 0..k {
                *b.add(i) = c.rx.pop_front().unwrap();
            }
            s.w.clients[cl].req_bytes_read += k as u64;
            s.touch(cl, now);
            s.w.bytes_in += k as u64;
            s.alive_recv += k as u64;
            s.tr(15, cl as i64, k as i64);
            s.say(|| format!("recv client {}: {}", cl, k));
            return k as i64;
        }
        if let Some(e) = c.err.take() {
            s.tr(16, cl as i64, e as i64);
            s.touch(cl, now);
            return -(e as i64);
        }
        if c.fin || c.dead {
            s.touch(cl, now);
            s.tr(17, cl as i64, 0);
            return 0;
        }
        if nb {
            return -(EAGAIN as i64);
        }
        s.block(TS::WaitOfd(oi));
    }
}
pub unsafe fn sys_send(fd: i32, b: *const u8, n: usize, fl: i32) -> i64 {
    let s = sim();
    if !is_sim_fd(fd) {
        return raw6(SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, 0, 0);
    }
    let mut done = 0usize;
    loop {
        s.call();
        let oi = match s.ofd_of(fd) {
            Some(o) => o,
            None => return -(EBADF as i64),
        };
        let nb = s.o(oi).nonblock || fl & MSG_DONTWAIT != 0;
        let ci = match s.o(oi).kind {
            Kind::Stream(c) => c,
            _ => return -(ENOTCONN as i64),
        };
        let now = s.w.now;
        let c = &mut s.conns[ci];
        let cl = c.client;
        if c.tx_fin {
            return -(EPIPE as i64);
        }
        if let Some(e) = c.err.take() {
            s.count_probe("send_after_reset");
            return -(e as i64);
        }
        if c.dead {
            return -(EPIPE as i64);
        }
        if s.w.clients[cl].first_send.is_none() {
            s.w.clients[cl].first_send = Some(now);
        }
        let c = &mut s.conns[ci];
        let k = (n - done).min(c.sndbuf.saturating_sub(c.tx.len()));
        if k > 0 || n == 0 {
            c.tx.extend(std::slice::from_raw_parts(b.add(done), k));
            done += k;
            s.w.bytes_out += k as u64;
            s.tr(18, cl as i64, k as i64);
            s.say(|| format!("send client {}: {} of {}", cl, k, n));
            if done < n {
                s.count_fault("partial_write");
            }
            s.kick_pump(ci);
            if nb || done == n {
                // ET: the socket becomes unwritable only at the next failed call
                return done as i64;
            }
            continue;
        }
        c.nospace = true;
        if nb {
            s.count_fault("send_eagain");
            return -(EAGAIN as i64);
        }
        s.block(TS::WaitOfd(oi));
    }
}
pub fn sys_shutdown(fd: i32, how: i32) -> i64 {
    let s = sim();
    s.call();
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let ci = match s.o(oi).kind {
        Kind::Stream(c) => c,
        _ => return -(ENOTCONN as i64),
    };
    let c = &mut s.conns[ci];
    if c.dead {
        return -(ENOTCONN as i64);
    }
    if how == SHUT_RD || how == SHUT_RDWR {
        c.rd_shut = true;
    }
    if how == SHUT_WR || how == SHUT_RDWR {
        c.tx_fin = true;
        let cl = c.client as i64;
        s.tr(19, cl, 0);
        s.kick_pump(ci);
    }
    s.notify(oi);
    0
}
pub fn sys_close(fd: i32) -> i64 {
    let s = sim();
    if !is_sim_fd(fd) {
        if s.filefds.remove(&fd).is_some() {
            s.call();
            s.tr(20, 0, 0);
        }
        return unsafe { raw6(SYS_close, fd as i64, 0, 0, 0, 0, 0) };
    }
    s.call();
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    s.fds[(fd - FD_BASE) as usize] = None;
    let o = s.o(oi);
    o.refs -= 1;
    let last = o.refs == 0;
    if let Kind::Stream(ci) = o.kind {
        let cl = s.conns[ci].client as i64;
        s.tr(21, cl, 0);
        s.say(|| format!("close client {}", cl));
    }
    if last {
        s.drop_ofd(oi);
    } else {
        // entries of this descriptor number stay in epoll sets only while it is open
        for e in s.ofds.iter_mut().flatten() {
            if let Kind::Epoll { interest, ready } = &mut e.kind {
                interest.remove(&fd);
                ready.retain(|f| *f != fd);
            }
        }
    }
    0
}
pub fn sys_fcntl(fd: i32, cmd: i32, arg: i64) -> i64 {
    let s = sim();
    if !is_sim_fd(fd) {
        return unsafe { raw6(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) };
    }
    s.call();
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    match cmd {
        F_GETFD => FD_CLOEXEC as i64,
        F_SETFD => 0,
        F_GETFL => (O_RDWR | if s.o(oi).nonblock { O_NONBLOCK } else { 0 }) as i64,
        F_SETFL => {
            s.o(oi).nonblock = arg as i32 & O_NONBLOCK != 0;
            0
        }
        F_DUPFD | F_DUPFD_CLOEXEC => {
            s.o(oi).refs += 1;
            s.fd_for(oi)
        }
        _ => -(EINVAL as i64),
    }
}
pub unsafe fn sys_ioctl(fd: i32, req: u64, arg: i64) -> i64 {
    let s = sim();
    if !is_sim_fd(fd) {
        return raw6(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0);
    }
    s.call();
    let oi = match s.ofd_of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    if req == FIONBIO {
        s.o(oi).nonblock = *(arg as *const i32) != 0;
        return 0;
    }
    if req == FIONREAD {
        if let Kind::Stream(ci) = s.o(oi).kind {
            *(arg as *mut i32) = s.conns[ci].rx.len() as i32;
        }
        return 0;
    }
    0
}

// ---- epoll, eventfd -------------------------------------------------------------------------
pub fn sys_epoll_create() -> i64 {
    let s = sim();
    s.call();
    s.new_fd(Kind::Epoll { interest: BTreeMap::new(), ready: vec![] }, false)
}
pub unsafe fn sys_epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut epoll_event) -> i64 {
    let s = sim();
    s.call();
    let (e, oi) = match (s.ofd_of(ep), s.ofd_of(fd)) {
        (Some(e), Some(o)) => (e, o),
        _ => return -(EBADF as i64),
    };
    if op == EPOLL_CTL_ADD {
        if let Kind::Listener { port, .. } = &s.o(oi).kind {
            let port = *port;
            if let Some(e) = s.start_fault("epoll_ctl", Some(port)) {
                return e;
            }
        }
    }
    let m = s.mask(oi);
    let mut wake = false;
    let r = match &mut s.o(e).kind {
        Kind::Epoll { interest, ready } => match op {
            EPOLL_CTL_ADD | EPOLL_CTL_MOD => {
                let has = interest.contains_key(&fd);
                if has && op == EPOLL_CTL_ADD {
                    return -(EEXIST as i64);
                }
                if !has && op == EPOLL_CTL_MOD {
                    return -(ENOENT as i64);
                }
                let (events, data) = ((*ev).events, (*ev).u64);
                interest.insert(fd, Interest { ofd: oi, events, data });
                if m & (events | (EPOLLHUP | EPOLLERR) as u32) != 0 {
                    if !ready.contains(&fd) {
                        ready.push(fd);
                    }
                    wake = true;
                }
                0
            }
            EPOLL_CTL_DEL => {
                if interest.remove(&fd).is_none() {
                    return -(ENOENT as i64);
                }
                ready.retain(|f| *f != fd);
                0
            }
            _ => -(EINVAL as i64),
        },
        _ => -(EINVAL as i64),
    };
    if wake {
        s.wake_epoll(e);
    }
    r
}
pub unsafe fn sys_epoll_wait(ep: i32, out: *mut epoll_event, max: i32, to: i32) -> i64 {
    let s = sim();
    s.call();
    let e = match s.ofd_of(ep) {
        Some(e) => e,
        None => return -(EBADF as i64),
    };
    if s.plan.sched.eintr_ppm > 0 && s.w.rng_f.ppm(s.plan.sched.eintr_ppm) {
        s.count_fault("epoll_eintr");
        return -(EINTR as i64);
    }
    let dl = if to < 0 { None } else { Some(s.w.now + to as u64 * MS) };
    loop {
        let mut rd = match &mut s.o(e).kind {
            Kind::Epoll { ready, .. } => std::mem::take(ready),
            _ => return -(EINVAL as i64),
        };
        s.w.rng_s.shuffle(&mut rd);
        let cap = (max as usize).min(s.plan.sched.ep_max.max(1) as usize);
        let mut n = 0;
        let mut keep = vec![];
        for fd in rd {
            let (oi, events, data) = match &s.o(e).kind {
                Kind::Epoll { interest, .. } => match interest.get(&fd) {
                    Some(i) => (i.ofd, i.events, i.data),
                    None => continue,
                },
                _ => unreachable!(),
            };
            if n >= cap {
                keep.push(fd);
                continue;
            }
            let m = s.mask(oi) & (events | (EPOLLHUP | EPOLLERR) as u32);
            if m == 0 {
                continue;
            }
            *out.add(n) = epoll_event { events: m, u64: data };
            n += 1;
            if events & EPOLLET as u32 == 0 {
                keep.push(fd);
            }
        }
        if let Kind::Epoll { ready, .. } = &mut s.o(e).kind {
            ready.extend(keep);
        }
        if n > 0 {
            s.tr(22, n as i64, 0);
            s.say(|| format!("epoll_wait -> {}", n));
            return n as i64;
        }
        if to == 0 || dl.map_or(false, |d| d <= s.w.now) {
            return 0;
        }
        if s.block(TS::Epoll(e, dl)) {
            return 0;
        }
    }
}
pub fn sys_eventfd(init: u32, fl: i32) -> i64 {
    let s = sim();
    s.call();
    s.new_fd(Kind::Event(init as u64), fl & EFD_NONBLOCK != 0)
}

// ---- read/write/open ------------------------------------------------------------------------
pub unsafe fn sys_read(fd: i32, b: *mut u8, n: usize) -> i64 {
    let s = sim();
    if is_sim_fd(fd) {
        let oi = match s.ofd_of(fd) {
            Some(o) => o,
            None => return -(EBADF as i64),
        };
        if let Kind::Stream(_) = s.o(oi).kind {
            return sys_recv(fd, b, n, 0);
        }
        loop {
            s.call();
            let nb = s.o(oi).nonblock;
            if let Kind::Event(c) = &mut s.o(oi).kind {
                if *c > 0 {
                    if n < 8 {
                        return -(EINVAL as i64);
                    }
                    *(b as *mut u64) = *c;
                    *c = 0;
                    return 8;
                }
                if nb {
                    return -(EAGAIN as i64);
                }
                s.block(TS::WaitOfd(oi));
            } else {
                return -(EINVAL as i64);
            }
        }
    }
    if s.filefds.contains_key(&fd) {
        return s.file_read(fd, b, n);
    }
    raw6(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)
}
pub unsafe fn sys_write(fd: i32, b: *const u8, n: usize) -> i64 {
    let s = sim();
    if is_sim_fd(fd) {
        let oi = match s.ofd_of(fd) {
            Some(o) => o,
            None => return -(EBADF as i64),
        };
        if let Kind::Stream(_) = s.o(oi).kind {
            return sys_send(fd, b, n, 0);
        }
        s.call();
        if let Kind::Event(c) = &mut s.o(oi).kind {
            let v = if n >= 8 { *(b as *const u64) } else { return -(EINVAL as i64) };
            if *c > u64::MAX - 1 - v {
                return -(EAGAIN as i64);
            }
            *c += v;
            s.notify(oi);
            return 8;
        }
        return -(EINVAL as i64);
    }
    if fd == 1 || fd == 2 {
        return n as i64;
    }
    raw6(SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)
}
pub unsafe fn sys_open(p: *const c_char, fl: i32, mode: u32) -> i64 {
    let s = sim();
    let name = std::ffi::CStr::from_ptr(p).to_string_lossy().to_string();
    let spec = s.plan.files.iter().position(|f| f.name == name || name == format!("./{}", f.name));
    if let Some(i) = spec {
        s.call();
        let mut inj = s.plan.files[i].open_errno;
        if s.plan.fd_limit.map_or(false, |l| s.open_count() >= l) {
            inj = Some(EMFILE);
        }
        if let Some(e) = inj {
            s.count_fault("open_error");
            s.w.files.push(FileLog {
                file: i as u32, ok: false, injected: true, read: 0, eio: false, shrunk: false, grown: false, client_hint: 0,
            });
            return -(e as i64);
        }
        let r = raw6(SYS_openat, AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0);
        s.tr(23, i as i64, (r >= 0) as i64);
        s.w.files.push(FileLog {
            file: i as u32, ok: r >= 0, injected: false, read: 0, eio: false, shrunk: false, grown: false, client_hint: 0,
        });
        if r >= 0 {
            let log = s.w.files.len() - 1;
            s.filefds.insert(r as i32, FileFd { spec: i, log, reads: 0 });
            s.say(|| format!("open file {}", i));
            let first = s.w.files.iter().filter(|l| l.file == i as u32 && l.ok).count() == 1;
            let ops = s.plan.files[i].ops.clone();
            for (at, op) in ops {
                if let (AFTER_OPEN, FileOp::Replace(n), true) = (at, op, first) {
                    s.replace_file(i, n);
                }
            }
        }
        return r;
    }
    raw6(SYS_openat, AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0)
}
impl Sim {
    unsafe fn replace_file(&mut self, spec: usize, n: u32) {
        self.count_fault("file_replaced");
        self.tr(26, spec as i64, n as i64);
        self.say(|| format!("file {} is replaced", spec));
        let f = &self.plan.files[spec];
        let path = std::ffi::CString::new(f.name.clone()).unwrap();
        let tmp = std::ffi::CString::new("replacement.tmp").unwrap();
        let fd = raw6(SYS_open, tmp.as_ptr() as i64, (O_WRONLY | O_CREAT | O_TRUNC) as i64, 0o644, 0, 0, 0);
        write_all(fd as i32, &file_bytes(!f.seed, n as usize));
        raw6(SYS_close, fd, 0, 0, 0, 0, 0);
        raw6(SYS_rename, tmp.as_ptr() as i64, path.as_ptr() as i64, 0, 0, 0, 0);
    }
    unsafe fn file_read(&mut self, fd: i32, b: *mut u8, mut n: usize) -> i64 {
        self.call();
        let (spec, log, k) = {
            let f = self.filefds.get_mut(&fd).unwrap();
            f.reads += 1;
            (f.spec, f.log, f.reads - 1)
        };
        let ops: Vec<FileOp> = self.plan.files[spec].ops.iter().filter(|(at, _)| *at == k).map(|(_, o)| o.clone()).collect();
        for op in ops {
            let path = std::ffi::CString::new(self.plan.files[spec].name.clone()).unwrap();
            match op {
                FileOp::Eio => {
                    self.count_fault("file_eio");
                    self.w.files[log].eio = true;
                    self.tr(24, 0, 0);
                    self.say(|| "file read: EIO".into());
                    return -(EIO as i64);
                }
                FileOp::Truncate(to) => {
                    self.count_fault("file_truncated");
                    self.w.files[log].shrunk = true;
                    raw6(SYS_truncate, path.as_ptr() as i64, to as i64, 0, 0, 0, 0);
                }
                FileOp::Replace(n) => self.replace_file(spec, n),
                FileOp::Grow(by) => {
                    self.count_fault("file_grown");
                    self.w.files[log].grown = true;
                    let f = raw6(SYS_open, path.as_ptr() as i64, (O_WRONLY | O_APPEND) as i64, 0, 0, 0, 0);
                    let v = vec![b'G'; by as usize];
                    write_all(f as i32, &v);
                    raw6(SYS_close, f, 0, 0, 0, 0, 0);
                }
            }
        }
        if self.plan.sched.file_eintr_ppm > 0 && self.w.rng_f.ppm(self.plan.sched.file_eintr_ppm) {
            self.count_fault("file_eintr");
            return -(EINTR as i64);
        }
        if n > 1 && self.plan.sched.file_short_ppm > 0 && self.w.rng_f.ppm(self.plan.sched.file_short_ppm) {
            self.count_fault("file_short_read");
            n = self.w.rng_f.range(1, n as u64 - 1) as usize;
        }
        let r = raw6(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0);
        if r > 0 {
            self.w.files[log].read += r as u64;
        }
        self.tr(25, r, 0);
        self.say(|| format!("file read {}", r));
        r
    }
}

// ---- entry points for the application -------------------------------------------------------
/// a scheduling point inside a handler
pub fn handler_yield() {
    if enter() {
        let s = sim();
        s.call();
        if s.th.len() > 2 {
            s.yield_point();
        }
        leave();
    }
}
pub fn attempt_begins() {
    if enter() {
        sim().w.attempts.push(Attempt::default());
        leave();
    }
}
pub fn started() {
    if enter() {
        let s = sim();
        if let Some(a) = s.w.attempts.last_mut() {
            a.started += 1;
        }
        leave();
    }
}
pub fn attempt_ended(how: &str) {
    if enter() {
        let s = sim();
        let port = s.plan.port;
        let n = s
            .ofds
            .iter()
            .flatten()
            .filter(|o| match &o.kind {
                Kind::Listener { port: p, .. } => *p == port,
                Kind::Raw { port: Some(p) } => *p == port,
                Kind::Raw { port: None } => !cfg!(feature = "f_tls"),
                _ => false,
            })
            .count() as u32;
        s.say(|| format!("{}", how));
        if let Some(a) = s.w.attempts.last_mut() {
            a.outcome = Some(how.into());
            a.leftover = n;
        }
        leave();
    }
}
pub fn server_exited(how: String) {
    if enter() {
        let s = sim();
        s.w.exited = Some(how);
        leave();
    }
}

/// one execution (or, after a crash, the rest of one); never returns
pub fn run(plan: Plan, resume: Option<World>, out_fd: i32, verbose: bool) -> ! {
    let seed = plan.sched.seed;
    let fresh = resume.is_none();
    let n = plan.clients.len();
    let w = resume.unwrap_or_else(|| World {
        now: 0,
        seq: 0,
        gen: 0,
        gen_start: 0,
        gen_calls: 0,
        phase: 0,
        rng_s: Rng::new(mix(seed, 1)),
        rng_t: Rng::new(mix(seed, 2)),
        rng_f: Rng::new(mix(seed, 3)),
        rng_r: Rng::new(mix(seed, 4)),
        rng_c: Rng::new(mix(seed, 5)),
        wall_off: 0,
        wall_hist: vec![],
        jumps_done: 0,
        clients: vec![ClientSt::default(); n],
        calls: vec![],
        linger: vec![],
        files: vec![],
        snaps: vec![],
        panics: vec![],
        viol: vec![],
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        steps: 0,
        preempts: 0,
        switches: 0,
        hash: 0xcbf29ce484222325,
        bytes_in: 0,
        bytes_out: 0,
        exited: None,
        listened: vec![],
        attempts: vec![],
        peak_live: 0,
        mem_viol: None,
        trace: vec![],
        edges: vec![],
    });
    let expect = plan.clients.iter().map(|c| model::expect(&plan, c)).collect();
    let s = Box::new(Sim {
        expect,
        w,
        verbose,
        out_fd,
        evq: BTreeMap::new(),
        th: vec![],
        fds: vec![],
        ofds: vec![],
        conns: vec![],
        tls: (0..n).map(|_| None).collect(),
        out: vec![vec![]; n],
        out_pos: vec![0; n],
        waiting: vec![],
        filefds: BTreeMap::new(),
        run_len: 0,
        edge_run: 0,
        bb_hits: 0,
        slice_until: 0,
        edge_seen: vec![],
        base_live: None,
        alive_recv: 0,
        alive_conns: 0,
        plan,
    });
    unsafe {
        SIM = Box::leak(s);
    }
    let s = sim();
    // slot 0 is the main thread, which only starts the machine
    s.th.push(Th { st: TS::Exited, gate: Box::leak(Box::new(AtomicU32::new(0))), prio: 0, timed_out: false, handle: 0 });
    std::panic::set_hook(Box::new(on_panic));
    unsafe {
        ALLOC_PPM = s.plan.sched.alloc_ppm;
        BB_PPM = s.plan.sched.bb_ppm;
    }
    s.w.gen_start = s.w.now;
    s.w.gen_calls = 0;
    s.push(if fresh { 0 } else { 1000 }, Ev::GenStart);
    let now = s.w.now;
    for k in s.w.jumps_done..s.plan.jumps.len() {
        let at = s.plan.jumps[k].0;
        s.push(at.saturating_sub(now), Ev::Jump(k));
    }
    if let Some(Crash::At(t)) = s.plan.crashes.get(s.w.gen as usize) {
        let t = *t;
        s.push(t, Ev::Crash);
    }
    let ph = s.w.phase;
    for i in 0..n {
        let (cp, at) = (s.plan.clients[i].phase, s.plan.clients[i].at);
        if cp <= ph && s.w.clients[i].conn.is_none() {
            let d = if fresh || !s.w.clients[i].started { at } else { at % 5000 };
            s.push(d, Ev::Start(i));
        }
    }
    set_inside(true);
    s.dispatch();
    // parked for good: whoever holds the baton last ends the process
    let g = AtomicU32::new(0);
    loop {
        gate_wait(&g);
    }
}

fn on_panic(info: &std::panic::PanicHookInfo<'_>) {
    let was = inside();
    set_inside(true);
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let s = sim();
    let injected = msg == app::INJECTED;
    if injected {
        s.count_fault("handler_panic");
    }
    s.say(|| format!("panic: {} at {}", msg, loc));
    if tid() == 0 || (was && !injected) {
        // in the simulator itself
        harness_fail(&format!("panic in the harness: {} at {}", msg, loc));
    }
    s.w.panics.push(PanicRec { msg, loc, injected });
    set_inside(was);
}
