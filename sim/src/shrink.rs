//! Minimises a failing plan while the same kind of violation of the same property remains.
use crate::plan::*;
use crate::pool::Pool;
use serde_json::Value;
use std::time::{Duration, Instant};

fn same(r: &Value, prop: &str, tag: &str) -> bool {
    r["viol"].as_array().map_or(false, |a| {
        a.iter().any(|v| v["tag"] == tag && (prop.is_empty() || v["props"].as_array().map_or(false, |p| p.iter().any(|x| x == prop))))
    })
}

fn ops(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let mut with = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            v.push(q);
        }
    };
    // schedule
    with(&|q| {
        q.sched.spurious_ppm = 0;
        q.sched.eintr_ppm = 0;
        q.sched.alloc_ppm = 0;
        q.sched.bb_ppm = 0;
        q.sched.switch_ppm = 0;
    });
    with(&|q| q.workers = 0);
    with(&|q| q.workers = q.workers.min(1));
    with(&|q| q.sched.bb_ppm = 0);
    with(&|q| q.sched.alloc_ppm = 0);
    with(&|q| q.sched.switch_ppm = 0);
    with(&|q| q.sched.spurious_ppm = 0);
    with(&|q| q.sched.eintr_ppm = 0);
    with(&|q| q.sched.file_eintr_ppm = 0);
    with(&|q| q.sched.file_short_ppm = 0);
    with(&|q| q.sched.cost_ns = 0);
    with(&|q| q.fd_limit = None);
    with(&|q| q.jumps.clear());
    with(&|q| q.accept_faults.clear());
    with(&|q| {
        q.crashes.pop();
    });
    for i in 0..p.start.len() {
        with(&|q| {
            q.start.remove(i);
        });
    }
    for i in 0..p.accept_faults.len() {
        with(&|q| {
            q.accept_faults.remove(i);
        });
    }
    for i in 0..p.jumps.len() {
        with(&|q| {
            q.jumps.remove(i);
        });
    }
    for i in 0..p.files.len() {
        with(&|q| q.files[i].ops.clear());
        with(&|q| q.files[i].len = q.files[i].len.min(100));
    }
    for i in 0..p.app.ops.len() {
        with(&|q| {
            q.app.ops.remove(i);
        });
        if let RegOp::Route(r) = &p.app.ops[i] {
            for k in 0..r.acts.len() {
                with(&|q| {
                    if let RegOp::Route(r) = &mut q.app.ops[i] {
                        r.acts.remove(k);
                    }
                });
            }
        }
        if let RegOp::Merge(m) = &p.app.ops[i] {
            for k in 0..m.len() {
                with(&|q| {
                    if let RegOp::Merge(m) = &mut q.app.ops[i] {
                        m.remove(k);
                    }
                });
            }
        }
    }
    for i in 0..p.clients.len() {
        with(&|q| q.clients[i].cuts.clear());
        with(&|q| {
            let n = q.clients[i].cuts.len() / 2;
            q.clients[i].cuts.truncate(n);
        });
        with(&|q| q.clients[i].rst_after_rx = None);
        with(&|q| q.clients[i].flip_at = None);
        with(&|q| q.clients[i].tls_opt = 0);
        with(&|q| q.clients[i].tls_record = 0);
        with(&|q| q.clients[i].stall = None);
        with(&|q| q.clients[i].rd.pause = None);
        with(&|q| {
            q.clients[i].rd.chunk = 1 << 20;
            q.clients[i].rd.delay = 100;
            q.clients[i].rd.first = 0;
        });
        with(&|q| q.clients[i].sndbuf = 1 << 20);
        if p.clients[i].req.raw.is_none() {
            with(&|q| q.clients[i].req.body = q.clients[i].req.body.min(16));
            with(&|q| q.clients[i].req.body /= 2);
            for k in 0..p.clients[i].req.headers.len() {
                with(&|q| {
                    q.clients[i].req.headers.remove(k);
                });
            }
            with(&|q| q.clients[i].req.trailing.clear());
        }
    }
    v
}

pub fn shrink(pool: &mut Pool, mut p: Plan, prop: &str, tag: &str, secs: u64) -> Plan {
    let end = Instant::now() + Duration::from_secs(secs);
    let ok = |r: &Value| same(r, prop, tag);
    // clients, in halving blocks
    let mut block = p.clients.len().div_ceil(2);
    while block >= 1 && p.clients.len() > 1 && Instant::now() < end {
        let mut cands = vec![];
        let mut at = 0;
        while at < p.clients.len() {
            let mut q = p.clone();
            q.clients.drain(at..(at + block).min(p.clients.len()));
            if !q.clients.is_empty() {
                cands.push(q);
            }
            at += block;
        }
        match pool.first(&cands, &ok) {
            Some(k) => {
                p = cands.swap_remove(k);
                block = block.min(p.clients.len());
            }
            None => {
                if block == 1 {
                    break;
                }
                block = block.div_ceil(2);
            }
        }
    }
    while Instant::now() < end {
        let mut cands = ops(&p);
        match pool.first(&cands, &ok) {
            Some(k) => p = cands.swap_remove(k),
            None => break,
        }
    }
    // fewest preemptions
    let (mut lo, mut hi) = (0u32, 4096u32);
    let lim = |n: u32| {
        let mut q = p.clone();
        q.sched.preempt_limit = Some(n);
        q
    };
    if same(&pool.one(&lim(hi), false), prop, tag) {
        while lo < hi && Instant::now() < end + Duration::from_secs(10) {
            let mid = (lo + hi) / 2;
            if same(&pool.one(&lim(mid), false), prop, tag) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        if same(&pool.one(&lim(hi), false), prop, tag) {
            p = lim(hi);
        }
    }
    p
}
