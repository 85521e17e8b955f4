//! Phase-boundary helpers of tc_long_prop, one query per line.
use super::{guard, hx, xh, bad};
use std::io::{BufRead, Write};
use tc_long_prop::prelude::*;

fn floats(s: &str) -> Vec<f64> {
    s.split_whitespace().map(xh).collect()
}
fn pairs(s: &str) -> Vec<(f64, f64)> {
    let v = floats(s);
    if v.len() % 2 != 0 {
        bad("odd number of coordinates")
    }
    v.chunks(2).map(|c| (c[0], c[1])).collect()
}
fn show(v: &[f64]) -> String {
    v.iter().map(|x| hx(*x)).collect::<Vec<_>>().join(" ")
}

/// `max|ts|ds`, `red|pb`, `dec|pb|mu t mu t ...` and `fit|n|pb`, where pb is `mu t mu t ...`
pub fn answer(line: &str) -> String {
    let p: Vec<&str> = line.split('|').collect();
    match p[0] {
        "max" => {
            let (ts, ds) = (floats(p[1]), floats(p[2]));
            guard(|| hx(find_critical_temperature(&ts, &ds)))
        }
        "red" => {
            let pb = pairs(p[1]);
            guard(|| {
                let r = reduce_phase_boundary(&pb);
                let again = reduce_phase_boundary(r);
                let inside = r.is_empty() || std::ptr::eq(r.as_ptr(), pb.as_ptr());
                format!("{} {} {}", r.len(), again.len(), inside as u8)
            })
        }
        "dec" => {
            let pb = pairs(p[1]);
            pairs(p[2])
                .into_iter()
                .map(|(mu, t)| {
                    match std::panic::catch_unwind(|| is_deconfined_phase(mu, t, &pb)) {
                        Ok(true) => "1",
                        Ok(false) => "0",
                        Err(_) => "P",
                    }
                })
                .collect::<Vec<_>>()
                .join("")
        }
        "fit" => {
            let n = p[1].parse().unwrap_or_else(|_| bad(p[1]));
            let pb = pairs(p[2]);
            guard(|| format!("V {}", show(&parametrize_phase_boundary(&pb, n, None))))
        }
        x => bad(x),
    }
}

pub fn main() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        writeln!(out, "@{}", answer(&line.unwrap_or_else(|_| bad("stdin")))).unwrap();
    }
}
