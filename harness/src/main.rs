//! Conformance harness: drives the real qcd-sme API from a line protocol.
//!
//! One command per line on stdin, one answer per line on stdout. Floats travel as the 16 hex
//! digits of their bits, so nothing is rounded on the way. A panic of the code under test is an
//! answer (`PANIC ...`), not an error of the harness.
pub mod registry;
#[cfg(feature = "sched")]
mod jregistry;
mod roots;
#[cfg(feature = "sched")]
mod sched;
mod phase;
mod numbers;

use qcd_sme::consts as k;
use qcd_sme::qcd::FieldConfig;
use qcd_sme::{Integral, C, R};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hx(x: R) -> String {
    format!("{:016x}", x.to_bits())
}
pub fn xh(s: &str) -> R {
    R::from_bits(u64::from_str_radix(s, 16).unwrap_or_else(|_| bad(&format!("bad float {s}"))))
}
/// A malformed command is an error of the tooling: exit 3, never an answer.
pub fn bad(m: &str) -> ! {
    eprintln!("HARNESS-ERROR {m}");
    std::process::exit(3)
}

#[derive(Clone, Copy, Debug)]
pub enum V {
    R(R),
    C(C),
    I(Integral),
    F(usize),
}
impl V {
    pub fn r(&self) -> R {
        match self {
            V::R(x) => *x,
            v => bad(&format!("expected real, got {v:?}")),
        }
    }
    pub fn c(&self) -> C {
        match self {
            V::C(x) => *x,
            V::R(x) => C { re: *x, im: 0. },
            v => bad(&format!("expected complex, got {v:?}")),
        }
    }
    pub fn integral(&self) -> Integral {
        match self {
            V::I(x) => *x,
            v => bad(&format!("expected integral, got {v:?}")),
        }
    }
    pub fn cfg<'a>(&self, e: &'a Env) -> &'a FieldConfig {
        match self {
            V::F(i) => e.cfgs[*i].as_ref().unwrap_or_else(|| bad("no such config")),
            v => bad(&format!("expected config, got {v:?}")),
        }
    }
    pub fn show(&self) -> String {
        match self {
            V::R(x) => format!("R {}", hx(*x)),
            V::C(x) => format!("C {},{}", hx(x.re), hx(x.im)),
            v => bad(&format!("unprintable {v:?}")),
        }
    }
    pub fn parse(s: &str) -> V {
        if let Some(r) = s.strip_prefix("F:") {
            return V::F(r.parse().unwrap_or_else(|_| bad(s)));
        }
        if let Some(r) = s.strip_prefix("I:") {
            return V::I(parse_integral(r));
        }
        if let Some((a, b)) = s.split_once(',') {
            return V::C(C { re: xh(a), im: xh(b) });
        }
        V::R(xh(s))
    }
}

pub fn parse_integral(r: &str) -> Integral {
    let p: Vec<&str> = r.split(':').collect();
    let t = || xh(p[1]);
    let n = || p[2].parse::<u32>().unwrap_or_else(|_| bad(r));
    match p[0] {
        "D" => k::get_default_integration_method(),
        "GL" => Integral::GaussLegendre(p[1].parse().unwrap()),
        "NC" => Integral::NewtonCotes(p[1].parse().unwrap()),
        "G7K15" => Integral::G7K15(t(), n()),
        "G10K21" => Integral::G10K21(t(), n()),
        "G15K31" => Integral::G15K31(t(), n()),
        "G20K41" => Integral::G20K41(t(), n()),
        "G25K51" => Integral::G25K51(t(), n()),
        "G30K61" => Integral::G30K61(t(), n()),
        "G7K15R" => Integral::G7K15R(t(), n()),
        "G10K21R" => Integral::G10K21R(t(), n()),
        "G15K31R" => Integral::G15K31R(t(), n()),
        "G20K41R" => Integral::G20K41R(t(), n()),
        "G25K51R" => Integral::G25K51R(t(), n()),
        "G30K61R" => Integral::G30K61R(t(), n()),
        _ => bad(r),
    }
}
pub fn show_integral(i: Integral) -> String {
    match i {
        Integral::GaussLegendre(n) => format!("GL:{n}"),
        Integral::NewtonCotes(n) => format!("NC:{n}"),
        _ => {
            let d = format!("{i:?}");
            let name = d.split('(').next().unwrap_or("?").to_string();
            format!("{name}:{}:{}", hx(i.get_tol()), i.get_max_iter())
        }
    }
}

#[derive(Default)]
pub struct Env {
    pub cfgs: Vec<Option<FieldConfig>>,
}

fn quarks(t: &[&str]) -> Vec<(u32, R)> {
    t.iter()
        .map(|s| {
            let (n, m) = s.split_once(':').unwrap_or_else(|| bad(s));
            (n.parse().unwrap_or_else(|_| bad(s)), xh(m))
        })
        .collect()
}

pub fn guard<F: FnOnce() -> String>(f: F) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            format!("PANIC {}", m.replace('\n', " "))
        }
    }
}

pub fn show_regs() -> String {
    format!(
        "G {} {} {} {} {} {} {}",
        k::get_number_of_colors(),
        k::get_number_of_fermions(),
        hx(k::get_default_quark_mass()),
        hx(k::get_default_tol_integral()),
        k::get_default_max_iter_integral(),
        hx(k::get_matsubara_reg()),
        show_integral(k::get_default_integration_method())
    )
}

pub fn set_reg(which: &str, v: &str) {
    match which {
        "nc" => k::set_number_of_colors(v.parse().unwrap_or_else(|_| bad(v))),
        "nf" => k::set_number_of_fermions(v.parse().unwrap_or_else(|_| bad(v))),
        "mq" => k::set_default_quark_mass(xh(v)),
        "tol" => k::set_default_tol_integral(xh(v)),
        "it" => k::set_default_max_iter_integral(v.parse().unwrap_or_else(|_| bad(v))),
        "reg" => k::set_matsubara_reg(xh(v)),
        _ => bad(which),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(String::as_str).unwrap_or("serve");
    match mode {
        "serve" => serve(),
        "list" => {
            for (n, (a, t, _)) in registry::registry() {
                println!("{n} {t} {}", a.join(","));
            }
        }
        // empty without the scheduled number type
        #[cfg(not(feature = "sched"))]
        "jlist" => {}
        #[cfg(feature = "sched")]
        "jlist" => {
            for (n, (a, t, _)) in jregistry::registry() {
                println!("{n} {t} {}", a.join(","));
            }
        }
        "roots" => roots::main(),
        "phase" => phase::main(),
        "numbers" => numbers::main(),
        _ => bad("unknown mode"),
    }
}

fn serve() {
    let reg = registry::registry();
    let mut env = Env::default();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    let mut others = Others::default();
    for line in stdin.lock().lines() {
        let line = line.unwrap_or_else(|_| bad("stdin"));
        if line.trim().is_empty() {
            continue;
        }
        let ans = match line.strip_prefix('@') {
            // `@k command`: on the k-th of the other threads
            Some(l) => {
                let (k, l) = l.split_once(' ').unwrap_or_else(|| bad(&line));
                others.ask(k.parse().unwrap_or_else(|_| bad(k)), &reg, &mut env, l)
            }
            None => dispatch(&reg, &mut env, &line),
        };
        writeln!(out, "{ans}").unwrap();
    }
    out.flush().unwrap();
}

/// Threads that live as long as the process and carry out commands one at a time.
#[derive(Default)]
struct Others(Vec<(std::sync::mpsc::Sender<Job>, std::sync::mpsc::Receiver<String>)>);
struct Job(*const Reg, *mut Env, String);
// whoever sent a job waits for its answer before it goes on
unsafe impl Send for Job {}
impl Others {
    fn ask(&mut self, k: usize, reg: &Reg, env: &mut Env, line: &str) -> String {
        while self.0.len() <= k {
            let (a, b) = std::sync::mpsc::channel::<Job>();
            let (c, d) = std::sync::mpsc::channel();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    for j in b {
                        let j: Job = j;
                        let ans = unsafe { dispatch(&*j.0, &mut *j.1, &j.2) };
                        if c.send(ans).is_err() {
                            return;
                        }
                    }
                })
                .unwrap();
            self.0.push((a, d));
        }
        let (a, d) = &self.0[k];
        a.send(Job(reg, env, line.to_string())).unwrap_or_else(|_| bad("thread"));
        d.recv().unwrap_or_else(|_| bad("thread"))
    }
}

type Reg = std::collections::BTreeMap<&'static str, registry::Entry>;

pub fn dispatch(reg: &Reg, env: &mut Env, line: &str) -> String {
    {
        let t: Vec<&str> = line.split_whitespace().collect();
        match t[0] {
            "set" => guard(|| {
                set_reg(t[1], t[2]);
                "OK".into()
            }),
            // a set in a forked child: `set_matsubara_reg` is extern "C", so that a rejected value aborts
            "tryset" => tryset(t[1], t[2]),
            "get" => show_regs(),
            "new" => {
                let i: usize = t[1].parse().unwrap();
                while env.cfgs.len() <= i {
                    env.cfgs.push(None);
                }
                guard(|| {
                    env.cfgs[i] = Some(FieldConfig::new(
                        t[2].parse().unwrap(),
                        xh(t[3]),
                        quarks(&t[4..]),
                    ));
                    "OK".into()
                })
            }
            "clone" => {
                let (i, j): (usize, usize) = (t[1].parse().unwrap(), t[2].parse().unwrap());
                while env.cfgs.len() <= i {
                    env.cfgs.push(None);
                }
                env.cfgs[i] = env.cfgs[j].clone();
                "OK".into()
            }
            "mut" => {
                let i: usize = t[1].parse().unwrap();
                let c = env.cfgs[i].as_mut().unwrap_or_else(|| bad("no such config"));
                match t[2] {
                    "nc" => c.nc = t[3].parse().unwrap(),
                    "gluon" => c.gluon = xh(t[3]),
                    "quarks" => c.quarks = quarks(&t[3..]),
                    "push" => c.quarks.push(quarks(&t[3..4])[0]),
                    "pop" => {
                        c.quarks.pop();
                    }
                    "setq" => c.quarks[t[3].parse::<usize>().unwrap()] = quarks(&t[4..5])[0],
                    _ => bad(t[2]),
                }
                "OK".into()
            }
            "show" => {
                let i: usize = t[1].parse().unwrap();
                let c = env.cfgs[i].as_ref().unwrap_or_else(|| bad("no such config"));
                let q: Vec<String> =
                    c.quarks.iter().map(|(n, m)| format!("{n}:{}", hx(*m))).collect();
                format!("K {} {} {}", c.nc, hx(c.gluon), q.join(" "))
            }
            "eval" => {
                let (_, _, f) = reg.get(t[1]).unwrap_or_else(|| bad(&format!("no function {}", t[1])));
                let a: Vec<V> = t[2..].iter().map(|s| V::parse(s)).collect();
                guard(|| f(env, &a).show())
            }
            // the rest of the line in a forked child, which has evaluated nothing before
            "fresh" => fresh(reg, env, line[5..].trim_start()),
            // hammer f args | reg v v;reg v v | n : n evaluations while another thread keeps changing settings
            "hammer" => {
                let p: Vec<&str> = line.split('|').collect();
                let q: Vec<&str> = p[0].split_whitespace().collect();
                let (_, _, f) = reg.get(q[1]).unwrap_or_else(|| bad(q[1]));
                let a: Vec<V> = q[2..].iter().map(|s| V::parse(s)).collect();
                let sets: Vec<Vec<&str>> = p[1].split(';').map(|s| s.split_whitespace().collect()).collect();
                let n: usize = p[2].trim().parse().unwrap_or_else(|_| bad(line));
                let stop = std::sync::atomic::AtomicBool::new(false);
                let go = std::sync::Barrier::new(2);
                let env = &*env;
                let res = std::thread::scope(|s| {
                    s.spawn(|| {
                        go.wait();
                        let mut i = 0;
                        while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                            for w in &sets {
                                set_reg(w[0], w[1 + i % (w.len() - 1)]);
                            }
                            i += 1;
                        }
                    });
                    go.wait();
                    let mut v: Vec<String> = (0..n).map(|_| guard(|| f(env, &a).show())).collect();
                    stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    v.dedup();
                    v
                });
                res.join("|")
            }
            // sched f args | pos;pos | what;what : f at the scheduled number type, with the other work
            // (set reg value, or a function evaluated on another thread) done in turn at the positions
            #[cfg(feature = "sched")]
            "sched" => {
                let p: Vec<&str> = line.split('|').collect();
                let q: Vec<&str> = p[0].split_whitespace().collect();
                let jreg = jregistry::registry();
                let (_, _, f) = jreg.get(q[1]).unwrap_or_else(|| bad(&format!("no function {}", q[1])));
                let a: Vec<V> = q[2..].iter().map(|s| V::parse(s)).collect();
                let at: Vec<u64> = p[1].split(';').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap_or_else(|_| bad(s))).collect();
                let todo: Vec<&str> = p[2].split(';').filter(|s| !s.trim().is_empty()).collect();
                let done = std::sync::Arc::new(std::sync::Mutex::new(Vec::<String>::new()));
                let log = done.clone();
                let late = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
                let late_ = late.clone();
                let mut i = 0;
                // the work borrows from this call only; it is dropped before the call returns
                let env_: &'static Env = unsafe { &*(env as *const Env) };
                let todo_: Vec<String> = todo.iter().map(|s| s.to_string()).collect();
                let act = Box::new(move || {
                    if todo_.is_empty() {
                        return;
                    }
                    let w: Vec<&str> = todo_[i % todo_.len()].split_whitespace().collect();
                    i += 1;
                    let w: Vec<String> = w.iter().map(|s| s.to_string()).collect();
                    let (tx, rx) = std::sync::mpsc::channel();
                    let log = log.clone();
                    // in the order in which the work was begun
                    let slot = {
                        let mut l = log.lock().unwrap();
                        l.push(String::new());
                        l.len() - 1
                    };
                    let h = std::thread::spawn(move || {
                        let r = guard(|| {
                            if w[0] == "set" {
                                set_reg(&w[1], &w[2]);
                                return "OK".into();
                            }
                            let reg = registry::registry();
                            let (_, _, g) = reg.get(w[0].as_str()).unwrap_or_else(|| bad(&w[0]));
                            let b: Vec<V> = w[1..].iter().map(|s| V::parse(s)).collect();
                            g(env_, &b).show()
                        });
                        log.lock().unwrap()[slot] = r;
                        let _ = tx.send(());
                    });
                    // work that waits for the evaluation (a lock, say) goes on afterwards
                    let _ = rx.recv_timeout(std::time::Duration::from_secs(4));
                    late_.lock().unwrap().push(h);
                });
                let (r, n) = sched::scheduled(at, act, || guard(|| f(env_, &a).show()));
                for h in late.lock().unwrap().drain(..) {
                    let _ = std::thread::JoinHandle::<()>::join(h);
                }
                let l = done.lock().unwrap().join(";");
                format!("{r}|{n}|{l}")
            }
            // storm MS|query;query;... : one thread per query, all evaluating over and over for that long;
            // the distinct answers of each
            "storm" => {
                let (ms, qs) = line[6..].split_once('|').unwrap_or_else(|| bad(line));
                let dur = std::time::Duration::from_millis(ms.trim().parse().unwrap_or_else(|_| bad(ms)));
                let env = &*env;
                let jobs: Vec<(&str, Vec<V>)> = qs
                    .split(';')
                    .map(|q| {
                        let t: Vec<&str> = q.split_whitespace().collect();
                        (t[0], t[1..].iter().map(|s| V::parse(s)).collect())
                    })
                    .collect();
                let bar = std::sync::Barrier::new(jobs.len());
                let bar = &bar;
                let res: Vec<String> = std::thread::scope(|s| {
                    let hs: Vec<_> = jobs
                        .into_iter()
                        .map(|(n, a)| {
                            s.spawn(move || {
                                let (_, _, f) = reg.get(n).unwrap_or_else(|| bad(n));
                                let mut seen: Vec<(u64, u64)> = Vec::new();
                                let mut out: Vec<String> = Vec::new();
                                bar.wait();
                                let end = std::time::Instant::now() + dur;
                                let end_msg = guard(|| {
                                    let mut i = 0;
                                    while i < 2 || std::time::Instant::now() < end {
                                        for _ in 0..4 {
                                            let v = f(env, &a);
                                            let b = match &v {
                                                V::R(x) => (x.to_bits(), 0),
                                                V::C(z) => (z.re.to_bits(), z.im.to_bits()),
                                                _ => bad(n),
                                            };
                                            i += 1;
                                            if !seen.contains(&b) {
                                                seen.push(b);
                                                if out.len() < 5 {
                                                    out.push(v.show());
                                                }
                                            }
                                            if i >= 2 && std::time::Instant::now() > end {
                                                break;
                                            }
                                        }
                                    }
                                    String::new()
                                });
                                if !end_msg.is_empty() {
                                    out.push(end_msg);
                                }
                                out.join("&")
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                res.join(";")
            }
            // par NTHREADS then that many `;`-separated eval lists are run on concurrent threads
            "par" => {
                let jobs: Vec<Vec<(&str, Vec<V>)>> = line[4..]
                    .split('|')
                    .map(|job| {
                        job.split(';')
                            .map(|q| {
                                let t: Vec<&str> = q.split_whitespace().collect();
                                (t[0], t[1..].iter().map(|s| V::parse(s)).collect())
                            })
                            .collect()
                    })
                    .collect();
                let env = &*env;
                let bar = std::sync::Barrier::new(jobs.len());
                let bar = &bar;
                let res: Vec<String> = std::thread::scope(|s| {
                    let hs: Vec<_> = jobs
                        .into_iter()
                        .map(|j| {
                            s.spawn(move || {
                                bar.wait();
                                j.into_iter()
                                    .map(|(n, a)| {
                                        let (_, _, f) = reg.get(n).unwrap_or_else(|| bad(n));
                                        guard(|| f(env, &a).show())
                                    })
                                    .collect::<Vec<_>>()
                                    .join(";")
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                res.join("|")
            }
            x => bad(x),
        }
    }
}

fn fresh(reg: &Reg, env: &mut Env, line: &str) -> String {
    unsafe {
        let mut fd = [0i32; 2];
        if pipe(fd.as_mut_ptr()) != 0 {
            bad("pipe")
        }
        let pid = fork();
        if pid < 0 {
            bad("fork")
        }
        if pid == 0 {
            alarm(20);
            let a = dispatch(reg, env, line);
            let mut at = 0;
            while at < a.len() {
                let n = write(fd[1], a.as_ptr().add(at), a.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            _exit(0);
        }
        close(fd[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fd[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fd[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if out.is_empty() {
            return format!("DIED {st}");
        }
        String::from_utf8(out).unwrap_or_else(|_| bad("utf8"))
    }
}

extern "C" {
    fn pipe(fd: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn alarm(s: u32) -> u32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn close(fd: i32) -> i32;
}

/// Runs the setter in a forked child and reports how the child ended: `OK` (returned normally),
/// `PANIC` (panicked or aborted) or `PANIC-CHANGED` (the same, with a register changed on the way). The parent's registers are untouched either way.
fn tryset(which: &str, v: &str) -> String {
    unsafe {
        let pid = fork();
        if pid == 0 {
            close(2);
            let before = show_regs();
            let b2 = before.clone();
            // the hook still runs when the panic then aborts at the extern "C" boundary
            std::panic::set_hook(Box::new(move |_| {
                if show_regs() != b2 {
                    _exit(78)
                }
            }));
            let r = catch_unwind(AssertUnwindSafe(|| set_reg(which, v)));
            if r.is_err() && show_regs() != before {
                _exit(78)
            }
            _exit(if r.is_ok() { 0 } else { 77 });
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st == 0 {
            "OK".into()
        } else if (st >> 8) & 0xff == 78 {
            "PANIC-CHANGED".into()
        } else {
            "PANIC".into()
        }
    }
}
