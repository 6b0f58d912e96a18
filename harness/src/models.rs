//! Closed forms: option prices, moments, implied volatilities, schedules.
use crate::common::*;
use crate::numerics::{r, rs};
use finquant::math::normal;
use finquant::models::common::bachelier::*;
use finquant::models::common::black_scholes::*;
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::sabr::*;
use finquant::models::forex::sabr_effective::*;
use finquant::models::interestrate::hull_white::HullWhite1F;
use serde_json::json;

fn g(f: impl FnOnce() -> f64) -> String {
    num(guard(f))
}

pub fn formulas(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xF0A1);
    let n = if deep { 60000 } else { 6000 };
    for i in 0..n {
        let f = *rng.pick(&[1e-4, 0.01, 1.0, 1.3, 150.0, 2e4]) * rng.real(0.5, 1.5);
        let s = *rng.pick(&[0.0, -0.1, 1e-6, 0.01, 0.1, 0.5, 3.0]) * rng.real(0.5, 1.5);
        let t = *rng.pick(&[0.0, -1.0, 1e-4, 0.1, 1.0, 10.0, 40.0]) * rng.real(0.5, 1.5);
        let sd = s.max(0.0) * t.max(0.0).sqrt();
        let k = if rng.below(8) == 0 { f } else { f * (rng.real(-4.0, 4.0) * sd.clamp(0.05, 1.5)).exp() };
        let df = rng.real(0.2, 1.1);
        match i % 8 {
            0 | 1 => o.put(json!({"kind": "black", "in": {"f": r(f), "k": r(k), "s": r(s), "t": r(t), "df": r(df)},
                "out": {"call": g(|| bs_call_forward(f, k, s, t, df)), "put": g(|| bs_put_forward(f, k, s, t, df))}})),
            2 => {
                let v = *rng.pick(&[0.0, -1e-4, 1e-10, 1e-6, 1e-4, 1.0]) * rng.real(0.5, 1.5);
                let f = *rng.pick(&[0.0, 0.03, -0.01, 1.0]) + rng.real(-0.02, 0.02);
                let k = if rng.below(8) == 0 { f } else { f + rng.real(-5.0, 5.0) * v.max(1e-6).sqrt() };
                o.put(json!({"kind": "bachelier", "in": {"f": r(f), "k": r(k), "v": r(v)}, "out": {
                    "call": g(|| bachelier_call(f, k, v)), "put": g(|| bachelier_put(f, k, v)),
                    "vega": g(|| bachelier_vega_variance(f, k, v))}}));
            }
            3 if i % 16 < 8 => {
                let x = rng.real(-1.0, 1.0) * *rng.pick(&[0.0, 1e-6, 1.0, 4.0, 8.0, 30.0]);
                o.put(json!({"kind": "normal", "in": {"x": r(x)}, "out": {"cdf": g(|| normal::cdf(x)), "pdf": g(|| normal::pdf(x))}}));
            }
            3 => {
                let p = match rng.below(6) {
                    0 => *rng.pick(&[0.0, 1.0, -0.1, 1.1, f64::NAN]),
                    1 => 10f64.powf(rng.real(-12.0, -1.0)),
                    2 => 0.5,
                    _ => rng.unit(),
                };
                o.put(json!({"kind": "quantile", "in": {"p": r(p)}, "out": {"z": g(|| normal::inverse_cdf(p))}}));
            }
            _ => {
                let call = rng.below(2) == 0;
                let t = t.max(1e-4);
                let price = |s: f64| if call { bs_call_forward(f, k, s, t, df) } else { bs_put_forward(f, k, s, t, df) };
                let tol = if rng.below(3) == 0 { *rng.pick(&[1e-12, 1e-10, 1e-4]) * f } else { 1e-8 };
                let (lo, hi) = (price(1e-8), price(5.0));
                let p = match rng.below(8) {
                    0 => lo,
                    1 => hi,
                    2 => lo - tol * rng.real(0.0, 3.0),
                    3 => hi + tol * rng.real(0.0, 3.0),
                    4 => rng.real(-0.1, 1.2) * hi,
                    _ => price(s.max(1e-3)),
                };
                let vol = guard(|| if tol == 1e-8 && rng.below(2) == 0 {
                    bs_implied_vol(p, f, k, t, df, call)
                } else {
                    bs_implied_vol_tol(p, f, k, t, df, call, tol)
                });
                let vol = match vol { None => "panic".into(), Some(None) => "none".into(), Some(Some(v)) => r(v) };
                o.put(json!({"kind": "implied", "in": {"type": if call { "call" } else { "put" }, "f": r(f), "k": r(k),
                    "t": r(t), "df": r(df), "tol": r(tol), "p": r(p)}, "out": {"vol": vol}}));
            }
        }
    }
    println!("COUNT formulas {}", o.n);
}

pub fn moments(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xC1A0);
    for i in 0..if deep { 8000 } else { 900 } {
        let p = CirProcess {
            kappa: 10f64.powf(rng.real(-2.0, 1.0)),
            theta: 10f64.powf(rng.real(-3.0, 0.3)),
            // now and then close to no noise at all
            gamma: 10f64.powf(if rng.below(5) == 0 { rng.real(-9.0, -1.5) } else { rng.real(-1.5, 0.5) }),
            sigma_0: if rng.below(12) == 0 { 0.0 } else { 10f64.powf(rng.real(-3.0, 0.3)) },
        };
        let t = match rng.below(8) {
            0 => 0.0,
            1 => -0.5,
            2 => 10f64.powf(rng.real(-6.0, -2.0)),
            _ => rng.real(0.01, 20.0),
        };
        let q = json!({"k": r(p.kappa), "th": r(p.theta), "g": r(p.gamma), "s0": r(p.sigma_0), "t": r(t)});
        let b = p.sqrt_mean_proxy();
        o.put(json!({"kind": "cir", "in": q, "out": {"mean": r(p.mean(t)), "variance": r(p.variance(t)),
            "root": g(|| p.sqrt_mean(t)), "limit": r(p.sqrt_mean_infinity()), "proxy": rs(&[b.beta1, b.beta2, b.beta3]),
            "proxied": r(b.eval(t)), "feller": p.feller_satisfied()}}));
        // Where the series is summed
        let eps = 4.0 * p.kappa * p.sigma_0 / (p.gamma * p.gamma * (p.kappa * t).exp_m1());
        if t > 0.0 && eps < 490.0 {
            let tol = if i % 3 == 0 { 10f64.powf(rng.real(-13.0, -3.0)) } else { 1e-14 };
            let root = if i % 3 == 0 { g(|| p.sqrt_mean_tol(t, tol)) } else { g(|| p.sqrt_mean(t)) };
            // the tail beyond the last term taken is at most a few times it
            o.put(json!({"kind": "cirfine", "in": {"k": r(p.kappa), "th": r(p.theta), "g": r(p.gamma), "s0": r(p.sigma_0),
                "t": r(t), "tol": r(if i % 3 == 0 { 1e-9 + 30.0 * tol } else { 1e-9 })}, "out": {"root": root}}));
        }
        if i % 10 == 0 {
            let p = CirProcess { gamma: *rng.pick(&[0.0, 1e-15, -1e-16]), ..p };
            o.put(json!({"kind": "cirsure", "in": {"k": r(p.kappa), "th": r(p.theta), "g": r(p.gamma), "s0": r(p.sigma_0), "t": r(t)},
                "out": {"root": g(|| p.sqrt_mean(t))}}));
        }
        let h = HullWhite1F {
            mean_reversion: match rng.below(6) {
                0 => 0.0,
                1 => 10f64.powf(rng.real(-9.0, -4.0)),
                2 => -rng.real(0.001, 0.1),
                _ => 10f64.powf(rng.real(-3.0, 0.5)),
            },
            sigma: rng.real(0.001, 0.05),
        };
        let t = if rng.below(4) == 0 { 0.0 } else { rng.real(0.0, 10.0) };
        let big_t = t + if rng.below(8) == 0 { 0.0 } else { rng.real(0.01, 20.0) };
        let s2 = rng.real(0.0, 1.0) * big_t;
        let s1 = if rng.below(6) == 0 { s2 } else { rng.real(0.0, 1.0) * s2 };
        let (rt, f) = (rng.real(-0.02, 0.1), rng.real(-0.02, 0.1));
        let (p0t, p0bt) = (rng.real(0.7, 1.05), rng.real(0.3, 1.0));
        o.put(json!({"kind": "hw", "in": {"l": r(h.mean_reversion), "n": r(h.sigma), "t": r(t), "T": r(big_t), "s1": r(s1),
            "s2": r(s2), "r": r(rt), "f": r(f), "p0t": r(p0t), "p0T": r(p0bt)}, "out": {
            "b": r(h.b(t, big_t)), "var": r(h.short_rate_variance(t, big_t)), "blv": g(|| h.bond_log_variance(s1, s2, big_t)),
            "bond": r(h.discount_affine(t, big_t, rt, p0t, p0bt, f))}}));
    }
    println!("COUNT moments {}", o.n);
}

/// Strictly increasing knots from 0.
pub fn knots(rng: &mut Rng, n: usize, longest: f64) -> Vec<f64> {
    let mut k = vec![0.0];
    for _ in 0..n {
        k.push(k.last().unwrap() + rng.real(0.02, longest));
    }
    k
}

pub fn sabr(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x5AB2);
    let n = if deep { 20000 } else { 2500 };
    for _ in 0..n {
        let a = *rng.pick(&[0.005, 0.1, 0.3, 1.0]) * rng.real(0.5, 1.5);
        let b = match rng.below(4) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => rng.unit() };
        let rho = match rng.below(5) { 0 => 0.0, 1 => *rng.pick(&[-0.999, 0.999]), _ => rng.real(-0.95, 0.95) };
        let nu = match rng.below(5) { 0 => 0.0, 1 => 1e-6, _ => rng.real(0.01, 2.0) };
        let f = *rng.pick(&[0.01, 1.0, 1.2, 100.0]) * rng.real(0.7, 1.3);
        let k = match rng.below(6) {
            0 => f,
            1 => f * (1.0 + *rng.pick(&[-1.0, 1.0]) * 10f64.powf(rng.real(-12.0, -3.0))),
            _ => f * rng.real(-1.0, 1.0).exp(),
        };
        let (k, t) = match rng.below(60) { 0 => (0.0, 1.0), 1 => (-1.0, 1.0), 2 => (k, 0.0), 3 => (k, -1.0), _ => (k, rng.real(0.01, 10.0)) };
        let p = SabrParams::new(a, b, rho, nu);
        o.put(json!({"kind": "hagan", "in": {"a": r(a), "b": r(b), "r": r(rho), "n": r(nu), "f": r(f), "K": r(k), "t": r(t)},
            "out": {"vol": g(|| hagan_implied_vol(&p, f, k, t)), "atm": g(|| hagan_atm_vol(&p, f, t))}}));
    }
    for _ in 0..n / 10 {
        let x = [*rng.pick(&[0.1, 0.0, -0.1]), *rng.pick(&[0.0, 0.5, 1.0, -0.01, 1.01]), *rng.pick(&[0.0, 1.0, -1.0, 0.99, 1.5]), *rng.pick(&[0.0, 0.3, -0.1])];
        let got = guard(|| SabrParams::new(x[0], x[1], x[2], x[3]));
        let same = |p: SabrParams| [p.alpha, p.beta, p.rho, p.nu] == x;
        o.put(json!({"kind": "params", "in": {"a": r(x[0]), "b": r(x[1]), "r": r(x[2]), "n": r(x[3])},
            "out": match got { None => "panic", Some(p) if same(p) => "accepted", _ => "changed" }}));
    }
    for _ in 0..n / 5 {
        let m = rng.range(1, 5) as usize;
        let mut k = knots(&mut rng, m, 1.5);
        let mut v: Vec<f64> = (0..m).map(|_| rng.real(-1.0, 1.0)).collect();
        match rng.below(12) {
            0 => { v.pop(); }
            1 => k[m] = k[m - 1],
            2 => k[0] = 0.01,
            3 => { k.truncate(1); v.clear(); }
            _ => {}
        }
        let mut ts: Vec<f64> = k.clone();
        ts.extend(k.iter().map(|t| t + 1e-9));
        ts.extend(k.iter().map(|t| t - 1e-9));
        ts.extend((0..4).map(|_| rng.real(0.0, 1.0) * k[k.len() - 1]));
        let got = match guard(|| PiecewiseConstant::new(k.clone(), v.clone())) {
            None => vec!["panic".to_string()],
            Some(s) => {
                assert!(s.n_segments() == v.len() && s.final_time() == *k.last().unwrap());
                ts.iter().map(|t| g(|| s.at(*t))).collect()
            }
        };
        o.put(json!({"kind": "schedule", "in": {"k": rs(&k), "v": rs(&v), "t": rs(&ts)}, "out": got}));
    }
    for _ in 0..n / 3 {
        let m = rng.range(1, 6) as usize;
        let longest = *rng.pick(&[0.1, 1.0, 3.0]);
        let k = knots(&mut rng, m, longest);
        let flat = rng.below(5);
        let size = *rng.pick(if longest > 1.0 { &[1e-4, 0.02, 0.3, 1.2] } else { &[1e-4, 0.3, 1.2, 3.0] });
        let g0 = size * rng.real(0.3, 1.2);
        let w0 = rng.real(0.02, 0.5);
        let gs: Vec<f64> = (0..m).map(|_| match rng.below(8) { 0 if flat != 0 => 0.0, _ => if flat == 0 { g0 } else { size * rng.real(0.3, 1.2) } }).collect();
        let ws: Vec<f64> = (0..m).map(|_| if flat == 1 { w0 } else { rng.real(0.02, 0.5) }).collect();
        let c: Vec<f64> = (0..m).map(|_| rng.real(-0.95, 0.95)).collect();
        let (mut kw, mut kr) = (k.clone(), k.clone());
        let mut big_t = k[rng.range(1, m as i64) as usize];
        match rng.below(20) {
            0 => kw[m] += 0.01,
            1 => kr[m] += 0.01,
            2 => big_t += 0.005,
            _ => {}
        }
        let (sg, sw, sr) = (PiecewiseConstant::new(k.clone(), gs.clone()), PiecewiseConstant::new(kw.clone(), ws.clone()),
            PiecewiseConstant::new(kr.clone(), c.clone()));
        o.put(json!({"kind": "effective", "in": {"k": rs(&k), "kw": rs(&kw), "kr": rs(&kr), "g": rs(&gs), "w": rs(&ws), "r": rs(&c), "T": r(big_t)},
            "out": {"gamma": g(|| effective_vol_vol(&sg, &sw, big_t)), "omega": g(|| effective_term_structure(&sg, &sw, big_t)),
                "rho": g(|| effective_correlation(&sg, &sw, &sr, big_t))}}));
    }
    println!("COUNT sabr_formulas {}", o.n);
}
