//! Programs of Numbers.tla: one line `R|C re,im op:form:re,im ...`, answered with the type and the bits of the result.
use super::{hx, xh};
use qcd_sme::{Num, C, R};
use std::io::{BufRead, Write};

#[derive(Clone, Copy)]
pub enum V {
    R(R),
    C(C),
}

trait Wrap: Num {
    fn wrap(self) -> V;
}
impl Wrap for R {
    fn wrap(self) -> V {
        V::R(self)
    }
}
impl Wrap for C {
    fn wrap(self) -> V {
        V::C(self)
    }
}

fn apply<T: Wrap>(x: T, op: &str, form: &str, k: C) -> V {
    let r = k.re;
    let t = T::from(r);
    let mut y = x;
    match (op, form) {
        ("add", "r") => (x + r).wrap(),
        ("sub", "r") => (x - r).wrap(),
        ("mul", "r") => (x * r).wrap(),
        ("div", "r") => (x / r).wrap(),
        ("add", "t") => (x + t).wrap(),
        ("sub", "t") => (x - t).wrap(),
        ("mul", "t") => (x * t).wrap(),
        ("div", "t") => (x / t).wrap(),
        ("add", "a") => { y += r; y.wrap() }
        ("sub", "a") => { y -= r; y.wrap() }
        ("mul", "a") => { y *= r; y.wrap() }
        ("div", "a") => { y /= r; y.wrap() }
        ("add", "b") => { y += t; y.wrap() }
        ("sub", "b") => { y -= t; y.wrap() }
        ("mul", "b") => { y *= t; y.wrap() }
        ("div", "b") => { y /= t; y.wrap() }
        ("add", "c") => V::C(x + k),
        ("sub", "c") => V::C(x - k),
        ("mul", "c") => V::C(x * k),
        ("div", "c") => V::C(x / k),
        ("neg", _) => (-x).wrap(),
        ("inv", _) => x.inv().wrap(),
        ("re", _) => V::R(x.re()),
        ("im", _) => V::R(x.im()),
        ("abs", _) => V::R(Num::abs(&x)),
        ("sqrtsq", _) => (x * x).sqrt().wrap(),
        ("lnexp", _) => x.exp().ln().wrap(),
        ("expln", _) => x.ln().exp().wrap(),
        ("sqsqrt", _) => { let r = x.sqrt(); (r * r).wrap() }
        ("promote", _) => V::C(x.into()),
        _ => panic!("{op} {form}"),
    }
}

fn c(s: &str) -> C {
    let (a, b) = s.split_once(',').unwrap();
    C { re: xh(a), im: xh(b) }
}

pub fn main() {
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut w = l.split_whitespace();
        let t = w.next().unwrap();
        let s = c(w.next().unwrap());
        let mut v = if t == "R" { V::R(s.re) } else { V::C(s) };
        for o in w {
            let p: Vec<&str> = o.split(':').collect();
            v = match v {
                V::R(x) => apply(x, p[0], p[1], c(p[2])),
                V::C(x) => apply(x, p[0], p[1], c(p[2])),
            };
        }
        let mut o = out.lock();
        match v {
            V::R(x) => writeln!(o, "R {},{}", hx(x), hx(0.)),
            V::C(x) => writeln!(o, "C {},{}", hx(x.re), hx(x.im)),
        }
        .unwrap();
        o.flush().unwrap();
    }
}
