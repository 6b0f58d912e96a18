//! Local volatility out of implied volatilities.
use crate::common::*;
use crate::numerics::{r, rs};
use finquant::models::forex::dupire_local_vol::build;
use serde_json::json;

pub fn record(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xD0B1);
    for i in 0..if deep { 4000 } else { 500 } {
        let spot = *rng.pick(&[1.0, 0.01, 150.0]) * rng.real(0.5, 1.5);
        let (nt, nk) = (rng.range(3, 6) as usize, rng.range(3, 8) as usize);
        let mut t = rng.real(0.02, 0.5);
        let mut ts: Vec<f64> = (0..nt).map(|_| { let x = t; t += rng.real(0.05, 0.8); x }).collect();
        let mut k = spot * rng.real(0.6, 0.95);
        let even = rng.below(2) == 0;
        let h = spot * rng.real(0.02, 0.12);
        let mut ks: Vec<f64> = (0..nk).map(|_| { let x = k; k += if even { h } else { spot * rng.real(0.01, 0.2) }; x }).collect();
        let (base, slope, skew, smile) = (rng.real(0.04, 0.4), rng.real(-0.03, 0.05), rng.real(-0.2, 0.2), rng.real(0.0, 0.6));
        let kind = rng.below(4);
        let mut v: Vec<Vec<f64>> = ts.iter().map(|t| ks.iter().map(|k| {
            let x = (k / spot).ln();
            match kind {
                0 => base,
                1 => (base + slope * t + skew * x + smile * x * x).max(0.01),
                // term structures that lose variance, and noise
                2 => base * (1.0 - 0.4 * t).max(0.05),
                _ => base * rng.real(0.6, 1.4),
            }
        }).collect()).collect();
        if rng.below(10) == 0 {
            for row in v.iter_mut() { for x in row.iter_mut() { *x = *rng.pick(&[0.001, 0.005, 3.0]) } }
        }
        let (rd, rf) = (rng.real(-0.02, 0.12), rng.real(-0.02, 0.12));
        let mut s = spot;
        if i % 4 == 0 {
            match rng.below(9) {
                0 => { ts.truncate(2); v.truncate(2); }
                1 => { ks.truncate(2); for x in v.iter_mut() { x.truncate(2) } }
                2 => { v.pop(); }
                3 => { v[nt - 1].pop(); }
                4 => ts[1] = ts[0] - *rng.pick(&[0.0, 0.01]),
                5 => ks[nk - 1] = ks[nk - 2] - *rng.pick(&[0.0, 0.001]),
                6 => s = *rng.pick(&[0.0, -1.0]),
                7 => { for x in v.iter_mut() { x.push(0.1) } }
                _ => {}
            }
        }
        let got = guard(|| build(&ts, &ks, &v, s, rd, rf));
        let ins = json!({"T": rs(&ts), "K": rs(&ks), "v": v.iter().map(|x| rs(x)).collect::<Vec<_>>(), "s": r(s), "rd": r(rd), "rf": r(rf)});
        let out = match &got {
            None => json!({}),
            Some(g) => {
                let mut at: Vec<(f64, f64)> = vec![];
                for _ in 0..8 {
                    at.push((rng.real(0.0, ts[ts.len() - 1] * 1.2), rng.real(ks[0] * 0.9, ks[ks.len() - 1] * 1.1)));
                    at.push((*rng.pick(&ts), rng.real(ks[0], ks[ks.len() - 1])));
                    at.push((rng.real(0.0, ts[ts.len() - 1]), *rng.pick(&ks)));
                    at.push((*rng.pick(&ts), *rng.pick(&ks)));
                }
                let (a, b) = (g.t_range(), g.k_range());
                json!({"v": g.variance.iter().map(|x| rs(x)).collect::<Vec<_>>(), "tr": rs(&[a.0, a.1]), "kr": rs(&[b.0, b.1]),
                    "reads": at.iter().map(|(t, k)| json!([r(*t), r(*k), num(guard(|| g.local_variance(*t, *k))), num(guard(|| g.local_vol(*t, *k)))])).collect::<Vec<_>>()})
            }
        };
        o.put(json!({"kind": "surface", "in": ins, "ok": got.is_some(), "out": out}));
    }
    println!("COUNT surfaces {}", o.n);
}
