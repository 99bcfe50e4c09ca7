//! Runs plans in forked children, one process per execution, and collects their results.
use crate::kernel;
use crate::plan::*;
use serde_json::{json, Value};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
use std::time::{Duration, Instant};

/// no execution of a sound server takes a tenth of this
const CPU_LIMIT: u64 = 40;
const WATCHDOG: Duration = Duration::from_secs(240);

/// seconds of processor time a child has used
fn cpu(pid: i32) -> u64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        let mut t: libc::timespec = std::mem::zeroed();
        if clock_getcpuclockid(pid, &mut c) != 0 || libc::clock_gettime(c, &mut t) != 0 {
            return 0;
        }
        t.tv_sec as u64
    }
}
extern "C" {
    fn clock_getcpuclockid(pid: libc::pid_t, c: *mut libc::clockid_t) -> libc::c_int;
}

struct Job {
    plan: Plan,
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    since: Instant,
    verbose: bool,
    tag: u64,
    retried: bool,
}

pub struct Done {
    pub plan: Plan,
    pub result: Value,
    pub tag: u64,
}

pub struct Pool {
    root: PathBuf,
    slots: Vec<Option<Job>>,
    /// Most processor time (ms) a run that ended by itself has taken.
    pub slowest: (u64, String),
}

const KEY: &[u8] = include_bytes!("../fixtures/key.pem");
const CERT: &[u8] = include_bytes!("../fixtures/cert.pem");
const OTHER: &[u8] = include_bytes!("../fixtures/other_cert.pem");

impl Pool {
    pub fn new(work: &str, jobs: usize) -> Pool {
        let root = PathBuf::from(format!("{}/octsim.{}", work, std::process::id()));
        let p = Pool { root, slots: (0..jobs).map(|_| None).collect(), slowest: (0, String::new()) };
        for i in 0..jobs {
            let d = p.dir(i);
            std::fs::create_dir_all(&d).expect("scratch directory");
            for (n, b) in [("key.pem", KEY), ("cert.pem", CERT), ("other_cert.pem", OTHER), ("garbage.pem", b"not a key\n"), ("empty.pem", b"")] {
                std::fs::write(d.join(n), b).expect("fixture");
            }
        }
        p
    }
    fn dir(&self, i: usize) -> PathBuf {
        self.root.join(format!("w{}", i))
    }
    pub fn cleanup(&self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
    pub fn free(&self) -> bool {
        self.slots.iter().any(|s| s.is_none())
    }
    pub fn start(&mut self, plan: Plan, verbose: bool, tag: u64) {
        let i = self.slots.iter().position(|s| s.is_none()).expect("free slot");
        self.prepare(i, &plan);
        let j = self.spawn(i, plan, None, verbose, tag, false);
        self.slots[i] = Some(j);
    }
    fn prepare(&self, i: usize, plan: &Plan) {
        let d = self.dir(i);
        for (k, f) in plan.files.iter().enumerate() {
            let p = d.join(&f.name);
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_dir(&p);
            match f.kind.as_str() {
                "file" => {
                    std::fs::create_dir_all(p.parent().unwrap()).expect("dir");
                    std::fs::write(&p, file_bytes(f.seed, f.len as usize)).expect("file");
                    let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o644));
                }
                "link" | "linked_twice" => {
                    std::fs::create_dir_all(p.parent().unwrap()).expect("dir");
                    let to = d.join(format!("target{}.bin", k));
                    let _ = std::fs::remove_file(&to);
                    std::fs::write(&to, file_bytes(f.seed, f.len as usize)).expect("file");
                    let made = if f.kind == "link" { std::os::unix::fs::symlink(&to, &p) } else { std::fs::hard_link(&to, &p) };
                    made.expect("link");
                }
                "dir" => std::fs::create_dir_all(&p).expect("dir"),
                _ => {}
            }
        }
    }
    fn spawn(&self, i: usize, plan: Plan, resume: Option<kernel::World>, verbose: bool, tag: u64, retried: bool) -> Job {
        let d = self.dir(i);
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                for s in self.slots.iter().flatten() {
                    libc::close(s.fd);
                }
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                if std::env::set_current_dir(&d).is_err() {
                    libc::_exit(9);
                }
                // the children's panics and prints are of no interest here
                let nul = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR, 0);
                libc::dup2(nul, 1);
                if std::env::var_os("OCTSIM_STDERR").is_none() {
                    libc::dup2(nul, 2);
                }
                kernel::run(plan, resume, fds[1], verbose);
            }
            libc::close(fds[1]);
            Job { plan, pid, fd: fds[0], buf: vec![], since: Instant::now(), verbose, tag, retried }
        }
    }
    /// next finished execution
    pub fn wait(&mut self) -> Option<Done> {
        loop {
            let mut p: Vec<libc::pollfd> = vec![];
            let mut who = vec![];
            for (i, s) in self.slots.iter().enumerate() {
                if let Some(j) = s {
                    p.push(libc::pollfd { fd: j.fd, events: libc::POLLIN, revents: 0 });
                    who.push(i);
                }
            }
            if p.is_empty() {
                return None;
            }
            unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, 500) };
            for (k, i) in who.iter().enumerate() {
                if p[k].revents != 0 {
                    let mut b = [0u8; 65536];
                    let j = self.slots[*i].as_mut().unwrap();
                    let n = unsafe { libc::read(j.fd, b.as_mut_ptr() as *mut _, b.len()) };
                    if n > 0 {
                        j.buf.extend_from_slice(&b[..n as usize]);
                        continue;
                    }
                    if let Some(d) = self.ended(*i, false) {
                        return Some(d);
                    }
                } else {
                    let j = self.slots[*i].as_mut().unwrap();
                    let up = j.since.elapsed();
                    if up.as_secs() < CPU_LIMIT / 2 {
                        continue;
                    }
                    let spins = cpu(j.pid) > CPU_LIMIT;
                    if spins || up > WATCHDOG {
                        j.retried |= spins;
                        unsafe { libc::kill(j.pid, libc::SIGKILL) };
                        if let Some(d) = self.ended(*i, true) {
                            return Some(d);
                        }
                    }
                }
            }
        }
    }
    fn ended(&mut self, i: usize, timeout: bool) -> Option<Done> {
        let j = self.slots[i].take().unwrap();
        let mut st = 0;
        unsafe {
            libc::close(j.fd);
            let mut ru: libc::rusage = std::mem::zeroed();
            libc::wait4(j.pid, &mut st, 0, &mut ru);
            let ms = (ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec as i64 / 1000 + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec as i64 / 1000) as u64;
            if !timeout && ms > self.slowest.0 {
                self.slowest = (ms, format!("{} {}", j.plan.family, j.plan.seed));
            }
        }
        let fatal = |tag: &str, detail: String, props: &[&str]| {
            let mut p: Vec<&str> = props.to_vec();
            p.extend(crate::oracle::ctx(&j.plan));
            // nobody is served any more, whatever the family is about
            p.extend(match j.plan.family.as_str() {
                "segment" => vec!["C01", "C02", "C06"],
                "backpressure" => vec!["C02"],
                "truncate" => vec!["C06", "C07"],
                "malformed" => vec!["C07"],
                "routing" => vec!["C01", "C08", "C09"],
                "files" => vec!["C10"],
                "leak" => vec!["C13"],
                "clock" => vec!["C14"],
                "tls" => vec!["C16"],
                _ => vec![],
            });
            p.sort();
            p.dedup();
            json!({"viol": [{"tag": tag, "client": null, "detail": detail, "props": p}], "hash": tag, "faults": {}, "trace": []})
        };
        let result = if timeout {
            if !j.retried {
                // once more, in case the machine was merely slow
                self.prepare(i, &j.plan);
                let n = self.spawn(i, j.plan, None, j.verbose, j.tag, true);
                self.slots[i] = Some(n);
                return None;
            }
            fatal("hang", "the server never came to rest, it computed until it was stopped".to_string(), &["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C16"])
        } else if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGKILL {
                json!({"harness": "killed from outside"})
            } else {
                fatal("server_killed", format!("the server process died of signal {}", sig), &["C05", "C15"])
            }
        } else if j.buf.is_empty() && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 9 {
            fatal("server_exit", format!("the server process exited with status {}", libc::WEXITSTATUS(st)), &["C05"])
        } else {
            match j.buf.first() {
                Some(b'R') => serde_json::from_slice(&j.buf[1..]).unwrap_or_else(|e| json!({"harness": format!("bad result: {}", e)})),
                Some(b'C') => match serde_json::from_slice::<kernel::World>(&j.buf[1..]) {
                    Ok(w) => {
                        let n = self.spawn(i, j.plan, Some(w), j.verbose, j.tag, j.retried);
                        self.slots[i] = Some(n);
                        return None;
                    }
                    Err(e) => json!({"harness": format!("bad world: {}", e)}),
                },
                Some(b'H') => json!({"harness": String::from_utf8_lossy(&j.buf[1..]).to_string()}),
                _ => json!({"harness": format!("no result, status {:x}", st)}),
            }
        };
        Some(Done { plan: j.plan, result, tag: j.tag })
    }
    /// one execution, alone
    pub fn one(&mut self, p: &Plan, verbose: bool) -> Value {
        self.start(p.clone(), verbose, 0);
        self.wait().unwrap().result
    }
    /// the same execution in two processes
    pub fn twice(&mut self, p: &Plan) -> (Value, Value) {
        if self.slots.len() < 2 {
            return (self.one(p, false), self.one(p, false));
        }
        self.start(p.clone(), false, 0);
        self.start(p.clone(), false, 1);
        (self.wait().unwrap().result, self.wait().unwrap().result)
    }
    /// index of the first plan the predicate accepts
    pub fn first(&mut self, plans: &[Plan], ok: &dyn Fn(&Value) -> bool) -> Option<usize> {
        let mut k = 0;
        let mut best: Option<usize> = None;
        loop {
            while self.free() && k < plans.len() && best.is_none() {
                self.start(plans[k].clone(), false, k as u64);
                k += 1;
            }
            match self.wait() {
                None => return best,
                Some(d) => {
                    let n = d.tag as usize;
                    if ok(&d.result) && best.map_or(true, |b| n < b) {
                        best = Some(n);
                    }
                }
            }
        }
    }
}
