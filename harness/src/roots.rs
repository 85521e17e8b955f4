//! Root search, residues and spectral functions of scripted functions. One command per line:
//!
//! `root R|C tol iters z0 z1 w TABLE`  the function is given by TABLE = `z=v` entries (nearest entry
//!                                      within 1e-6 of the spread of the table), `w` at non-finite points
//! `rootf R|C tol iters z0 z1 NAME P..` a named smooth, singular or discontinuous function
//! `res R|C eps z w TABLE`, `spec eps z w TABLE`  (eps `-`: the form without a step)
//!
//! Answer: outcome, then the points at which the function was called with the values it returned.
use super::{bad, guard, hx, xh, V};
use qcd_sme::utils::*;
use qcd_sme::{Num, C, R};
use std::cell::RefCell;
use std::io::{BufRead, Write};

fn cx(s: &str) -> C {
    V::parse(s).c()
}

struct Table {
    t: Vec<(C, C)>,
    w: C,
    tol: R,
    log: RefCell<Vec<(C, C)>>,
}
impl Table {
    fn new(w: &str, es: &[&str]) -> Self {
        let t: Vec<(C, C)> = es
            .iter()
            .map(|e| {
                let (a, b) = e.split_once('=').unwrap_or_else(|| bad(e));
                (cx(a), cx(b))
            })
            .collect();
        let mut d = R::INFINITY;
        for i in 0..t.len() {
            for j in 0..i {
                d = d.min((t[i].0 - t[j].0).norm());
            }
        }
        Table { t, w: cx(w), tol: if d.is_finite() { d * 1e-3 } else { 1e-3 }, log: RefCell::new(vec![]) }
    }
    fn at(&self, z: C) -> C {
        let v = if !z.re.is_finite() || !z.im.is_finite() {
            self.w
        } else {
            let mut best = None;
            for (p, v) in &self.t {
                let d = (*p - z).norm();
                if d <= self.tol && best.map_or(true, |(b, _)| d < b) {
                    best = Some((d, *v));
                }
            }
            // a point the specification does not know: far from every root
            best.map_or(C { re: 1e3, im: 0. }, |b| b.1)
        };
        self.log.borrow_mut().push((z, v));
        v
    }
    fn show(&self) -> String {
        show(&self.log.borrow())
    }
}
fn show(l: &[(C, C)]) -> String {
    l.iter().map(|(z, v)| format!("{},{}={},{}", hx(z.re), hx(z.im), hx(v.re), hx(v.im))).collect::<Vec<_>>().join(" ")
}

fn out<T: Num>(r: Option<(T, T)>) -> String {
    match r {
        Some((z, f)) => format!("FOUND {},{} {},{}", hx(z.re()), hx(z.im()), hx(f.re()), hx(f.im())),
        None => "NONE".into(),
    }
}

fn named(name: &str, p: &[R], z: C) -> C {
    let one = C { re: 1., im: 0. };
    match name {
        "poly" => p.iter().rev().fold(C { re: 0., im: 0. }, |a, c| a * z + *c),
        "exp" => (z * p[0]).exp() * p[1] + p[2],
        "tanh" => (z * p[0]).tanh() * p[1] + p[2],
        "atan" => (z * p[0]).atan() * p[1] + p[2],
        "pole" => one / (z - p[0]) + p[1],
        "sqrt" => (z + p[0]).sqrt() - p[1],
        "log" => (z + p[0]).ln() - p[1],
        "step" => C { re: if z.re > p[0] { p[1] } else { p[2] }, im: 0. },
        "flat" => C { re: p[0], im: p[1] },
        "nanbelow" => {
            if z.re < p[0] {
                C { re: R::NAN, im: 0. }
            } else {
                z - p[1]
            }
        }
        "wiggle" => (z * p[0]).sin() + z * p[1] + p[2],
        _ => bad(name),
    }
}

pub fn main() {
    let stdin = std::io::stdin();
    let so = std::io::stdout();
    let mut o = so.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        let ans = match t[0] {
            "root" => {
                let tab = Table::new(t[6], &t[7..]);
                let (tol, n) = (xh(t[2]), t[3].parse().unwrap());
                let r = guard(|| {
                    if t[1] == "R" {
                        out(find_root(&|z: R| tab.at(C { re: z, im: 0. }).re, (cx(t[4]).re, cx(t[5]).re), tol, n))
                    } else {
                        out(find_root(&|z: C| tab.at(z), (cx(t[4]), cx(t[5])), tol, n))
                    }
                });
                format!("{r} | {}", tab.show())
            }
            "rootf" => {
                let log = RefCell::new(Vec::new());
                let p: Vec<R> = t[7..].iter().map(|s| xh(s)).collect();
                let (tol, n) = (xh(t[2]), t[3].parse().unwrap());
                let r = guard(|| {
                    if t[1] == "R" {
                        let f = |z: R| {
                            let v = named(t[6], &p, C { re: z, im: 0. });
                            let v = if v.im == 0. { v.re } else { R::NAN };
                            log.borrow_mut().push((C { re: z, im: 0. }, C { re: v, im: 0. }));
                            v
                        };
                        out(find_root(&f, (cx(t[4]).re, cx(t[5]).re), tol, n))
                    } else {
                        let f = |z: C| {
                            let v = named(t[6], &p, z);
                            log.borrow_mut().push((z, v));
                            v
                        };
                        out(find_root(&f, (cx(t[4]), cx(t[5])), tol, n))
                    }
                });
                let s = format!("{r} | {}", show(&log.borrow()));
                s
            }
            "res" => {
                let tab = Table::new(t[4], &t[5..]);
                let z = cx(t[3]);
                let r = guard(|| {
                    if t[1] == "R" {
                        let f = |z: R| tab.at(C { re: z, im: 0. }).re;
                        let v = if t[2] == "-" { compute_residue(&f, z.re) } else { compute_residue_with_eps(&f, z.re, xh(t[2])) };
                        V::R(v).show()
                    } else {
                        let f = |z: C| tab.at(z);
                        let v = if t[2] == "-" { compute_residue(&f, z) } else { compute_residue_with_eps(&f, z, xh(t[2])) };
                        V::C(v).show()
                    }
                });
                format!("{r} | {}", tab.show())
            }
            "spec" => {
                let tab = Table::new(t[3], &t[4..]);
                let z = cx(t[2]);
                let f = |z: C| tab.at(z);
                let r = guard(|| {
                    let v = if t[1] == "-" { spectral_function(f, z) } else { spectral_function_with_eps(f, z, xh(t[1])) };
                    V::C(v).show()
                });
                format!("{r} | {}", tab.show())
            }
            x => bad(x),
        };
        writeln!(o, "{ans}").unwrap();
    }
}
