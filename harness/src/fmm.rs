//! Forward market models: tenors, vols, bonds, paths, and the hybrids' coefficients.
use crate::common::*;
use crate::mc::Draws;
use crate::numerics::{r, rs};
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::fx_fmm::{self, FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_fmm_simulator::*;
use finquant::models::forex::fx_hlmm::{self, DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor};
use finquant::models::interestrate::fmm::*;
use serde_json::{Value, json};

fn mat(m: &[Vec<f64>]) -> Value {
    json!(m.iter().map(|x| rs(x)).collect::<Vec<_>>())
}

fn ok<T>(x: Option<T>) -> &'static str {
    if x.is_some() { "ok" } else { "panic" }
}

/// Tenor dates, from now or from later on.
pub fn dates(rng: &mut Rng, m: usize) -> Vec<f64> {
    let mut t = if rng.below(4) == 0 { rng.real(0.05, 0.6) } else { 0.0 };
    let even = rng.below(2) == 0;
    let gap = *rng.pick(&[0.25, 0.5, 1.0]);
    let mut v = vec![t];
    for _ in 0..m {
        t += if even { gap } else { rng.real(0.1, 1.5) };
        v.push(t);
    }
    v
}

pub fn rates(rng: &mut Rng, m: usize) -> Vec<f64> {
    (0..m).map(|_| rng.real(-0.01, 0.09)).collect()
}

/// A correlation matrix: a mixture of one factor and a decay, now and then no such.
pub fn corr(rng: &mut Rng, m: usize, lo: f64, hi: f64) -> Vec<Vec<f64>> {
    let a: Vec<f64> = (0..m).map(|_| rng.real(lo, hi)).collect();
    (0..m).map(|i| (0..m).map(|j| if i == j { 1.0 } else { a[i] * a[j] }).collect()).collect()
}

fn break_corr(rng: &mut Rng, c: &mut [Vec<f64>]) {
    let m = c.len();
    let (i, j) = (rng.below(m as u64) as usize, rng.below(m as u64) as usize);
    match rng.below(4) {
        0 => { c[i].pop(); }
        1 => c[i][i] = *rng.pick(&[0.99, 1.0 + 1e-9, -1.0]),
        2 => if i != j { c[i][j] += *rng.pick(&[1e-9, 0.1, -0.1]) } else { c[i][i] = 0.0 },
        _ => if i != j { c[i][j] = *rng.pick(&[1.1, -1.0 - 1e-9]); c[j][i] = c[i][j] } else { c[i][i] = 1.1 },
    }
}

fn schedule(rng: &mut Rng, m: usize) -> Vec<Vec<(f64, f64)>> {
    (0..m).map(|_| {
        let mut t = *rng.pick(&[0.0, -1.0, 0.2]);
        (0..rng.range(1, 4)).map(|_| { let k = (t, rng.real(0.0, 0.03)); t += rng.real(0.05, 0.8); k }).collect()
    }).collect()
}

fn sched_json(q: &[Vec<(f64, f64)>]) -> Value {
    json!(q.iter().map(|x| x.iter().map(|k| rs(&[k.0, k.1])).collect::<Vec<_>>()).collect::<Vec<_>>())
}

/// A sound model, as the code has it and as the specification reads it.
fn model(rng: &mut Rng, m: usize) -> (Fmm, Value) {
    let (t, x) = (dates(rng, m), rates(rng, m));
    let s: Vec<f64> = (0..m).map(|_| if rng.below(12) == 0 { 0.0 } else { rng.real(0.0005, 0.05) }).collect();
    let c = corr(rng, m, -0.3, 0.95);
    let tenor = FmmTenor::new(t.clone(), x.clone());
    let mut f = Fmm::new(tenor, s.clone(), c.clone(), LinearDecay);
    let mut p = json!({"T": rs(&t), "R": rs(&x), "s": rs(&s), "c": mat(&c), "b": [], "sch": {"k": "none"}});
    if rng.below(3) == 0 {
        let b: Vec<f64> = (0..m).map(|_| *rng.pick(&[0.0, 1.0, rng_half(m)])).collect();
        p["b"] = json!(rs(&b));
        f = f.with_betas(b);
    }
    match rng.below(4) {
        0 => {
            let q = schedule(rng, m);
            p["sch"] = json!({"k": "steps", "q": sched_json(&q)});
            f = f.with_vol_schedule(VolSchedule::PiecewiseConstant(q));
        }
        1 => {
            let (v, a) = (rng.real(0.001, 0.03), *rng.pick(&[0.0, 1e-13, 0.03, 0.5, -0.05]));
            p["sch"] = json!({"k": "short-rate", "v": r(v), "a": r(a)});
            f = f.with_vol_schedule(VolSchedule::HoLeeEquivalent { vol: v, mean_reversion: a });
        }
        _ => {}
    }
    (f, p)
}

fn rng_half(m: usize) -> f64 {
    0.25 + 0.1 * m as f64
}

/// A path somewhere along, whose fields need not come from any simulation.
fn anywhere(rng: &mut Rng, f: &Fmm) -> FmmPath {
    let m = f.tenor.m();
    let d = &f.tenor.dates;
    let t = match rng.below(6) {
        0 => 0.0,
        1 => d[rng.below(m as u64 + 1) as usize],
        2 => d[m] + rng.unit(),
        _ => rng.real(0.0, d[m]),
    };
    let mut list = |lo: f64, hi: f64| -> Vec<f64> { (0..m).map(|_| rng.real(lo, hi)).collect() };
    let (rates, y0, dy, start) = (list(-0.02, 0.1), list(0.0, 0.002), list(0.0, 0.002), list(-0.02, 0.1));
    FmmPath {
        rates, rates_at_start: start, x_active: rng.real(-0.03, 0.03), t,
        y_diag: y0.iter().zip(&dy).map(|(a, b)| a + b).collect(), y_at_start: y0,
    }
}

fn side_json(x: &[f64], y: &[f64], xs: &[f64], ys: &[f64], n: f64) -> Value {
    json!({"R": rs(x), "Y": rs(y), "RS": rs(xs), "YS": rs(ys), "x": r(n)})
}

fn path_json(p: &FmmPath) -> Value {
    let mut v = side_json(&p.rates, &p.y_diag, &p.rates_at_start, &p.y_at_start, p.x_active);
    v["t"] = json!(r(p.t));
    v
}

/// P(0, T) = exp(-a T - b T^2)
struct Bent(f64, f64);
impl InitialDiscountCurve for Bent {
    fn p0(&self, t: f64) -> f64 {
        (-self.0 * t - self.1 * t * t).exp()
    }
}

pub fn forms(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xF33);
    for i in 0..if deep { 8000 } else { 900 } {
        let m = rng.range(1, 5) as usize;
        let (mut t, mut x) = (dates(&mut rng, m), rates(&mut rng, m));
        // what a tenor and a model accept
        match rng.below(8) {
            0 => { x.pop(); }
            1 => { t.pop(); }
            2 => t[0] = -1e-9,
            3 => { let k = rng.range(1, m as i64) as usize; t[k] = t[k - 1] - *rng.pick(&[0.0, 0.01]); }
            4 => { t.truncate(1); x.clear(); }
            _ => {}
        }
        let got = guard(|| FmmTenor::new(t.clone(), x.clone()));
        o.put(json!({"kind": "tenor", "in": {"T": rs(&t), "R": rs(&x)}, "out": ok(got)}));
        let (t, x) = (dates(&mut rng, m), rates(&mut rng, m));
        let tenor = FmmTenor::new(t.clone(), x.clone());
        let mut s: Vec<f64> = (0..m).map(|_| rng.real(0.0, 0.05)).collect();
        let mut c = corr(&mut rng, m, -0.9, 0.9);
        match rng.below(6) {
            0 => { s.pop(); }
            1 => s[m - 1] = *rng.pick(&[-1e-9, f64::INFINITY, -0.1, 0.0]),
            2 => { c.pop(); }
            3 | 4 => break_corr(&mut rng, &mut c),
            _ => {}
        }
        let got = guard(|| Fmm::new(tenor.clone(), s.clone(), c.clone(), LinearDecay));
        o.put(json!({"kind": "model", "in": {"R": rs(&x), "s": rs(&s), "c": mat(&c)}, "out": ok(got)}));
        let (f, p) = model(&mut rng, m);
        let mut b: Vec<f64> = (0..m).map(|_| rng.unit()).collect();
        match rng.below(5) {
            0 => { b.pop(); }
            1 => b[0] = *rng.pick(&[-1e-9, 1.0 + 1e-9, 0.0, 1.0]),
            2 => b[m - 1] = *rng.pick(&[1.5, -0.5]),
            _ => {}
        }
        o.put(json!({"kind": "betas", "in": {"n": m, "b": rs(&b)}, "out": ok(guard(|| f.clone().with_betas(b.clone())))}));
        let mut q = schedule(&mut rng, m);
        match rng.below(5) {
            0 => { q.pop(); }
            1 => q[0].clear(),
            2 => { let n = q[m - 1].len(); if n > 1 { q[m - 1][n - 1].0 = q[m - 1][n - 2].0 - *rng.pick(&[0.0, 0.1]) } }
            _ => {}
        }
        o.put(json!({"kind": "schedule", "in": {"n": m, "q": sched_json(&q)},
            "out": ok(guard(|| f.clone().with_vol_schedule(VolSchedule::PiecewiseConstant(q.clone()))))}));
        // the grid
        let d = f.tenor.dates.clone();
        let mut ts = vec![rng.real(0.0, d[m])];
        ts.extend(d.iter());
        ts.extend([0.0, d[m] + 0.3, rng.real(0.0, d[m]), d[0] + 1e-9, d[m] - 1e-9]);
        let ten = &f.tenor;
        o.put(json!({"kind": "grid", "in": {"T": p["T"], "R": p["R"], "ts": rs(&ts)}, "out": {
            "tau": rs(&(1..=m).map(|j| ten.tau(j)).collect::<Vec<_>>()),
            "eta": ts.iter().map(|t| ten.eta(*t)).collect::<Vec<_>>(),
            "gamma": ts.iter().map(|t| rs(&(1..=m).map(|j| f.decay.gamma(j, *t, ten)).collect::<Vec<_>>())).collect::<Vec<_>>(),
            "fixed": ts.iter().map(|t| rs(&(1..=m).map(|j| f.decay.big_g(j, *t, ts[0], ten)).collect::<Vec<_>>())).collect::<Vec<_>>()}}));
        // vols
        let mut at = vec![];
        for j in 1..=m {
            let mut whens = vec![rng.real(0.0, d[m]), d[j], d[j - 1], 0.0, rng.real(0.0, d[j])];
            if let Some(VolSchedule::PiecewiseConstant(q)) = &f.vol_schedule {
                for k in &q[j - 1] {
                    whens.extend([k.0, k.0 - 1e-9, k.0 + 1e-9]);
                }
            }
            for t in whens {
                at.push((j, t, rng.real(-0.02, 0.1)));
            }
        }
        let got: Vec<Value> = at.iter().map(|&(j, t, x)| json!([num(guard(|| f.sigma_at(j, t))),
            num(guard(|| f.displacement_level(j, x))), num(guard(|| f.adapted_vol(j, t, x)))])).collect();
        o.put(json!({"kind": "vol", "in": {"p": p, "at": at.iter().map(|a| json!([a.0, r(a.1), r(a.2)])).collect::<Vec<_>>()}, "out": got}));
        // bonds off any path
        let s = anywhere(&mut rng, &f);
        let curve = Bent(rng.real(-0.01, 0.06), if i % 3 == 0 { 0.0 } else { rng.real(-0.003, 0.01) });
        let flat = FlatCurve { rate: curve.0 };
        let mut ends = vec![s.t, s.t - 0.01, d[m] + 0.1, s.t + 1e-16, s.t + 1e-6];
        ends.extend(d.iter());
        ends.extend((0..4).map(|_| s.t + rng.unit() * (d[m] - s.t).max(0.05)));
        let (bonds, bank): (Vec<String>, String) = if curve.1 == 0.0 {
            (ends.iter().map(|e| num(guard(|| bond_price(&f, &s, *e, &flat)))).collect(), num(guard(|| bank_account(&f, &s, &flat))))
        } else {
            (ends.iter().map(|e| num(guard(|| bond_price(&f, &s, *e, &curve)))).collect(), num(guard(|| bank_account(&f, &s, &curve))))
        };
        o.put(json!({"kind": "bond", "in": {"p": p, "s": path_json(&s), "ends": rs(&ends), "d": rs(&[curve.0, curve.1])},
            "out": {"bonds": bonds, "bank": bank}}));
        // the two stubs by themselves, given their discounts
        let k = rng.range(0, m as i64 + 1) as usize;
        let (dt, dk) = (rng.real(0.8, 1.02), rng.real(0.8, 1.02));
        let mut s2 = s.clone();
        let e = match rng.below(3) { 0 => d[k.clamp(1, m)], _ => rng.real(d[k.clamp(1, m) - 1] - 0.02, d[k.clamp(1, m)] + 0.02) };
        if rng.below(3) > 0 {
            s2.t = rng.real(0.0, 1.0) * d[k.clamp(1, m) - 1];
        }
        if rng.below(4) == 0 {
            s2.t = d[k.clamp(1, m) - 1];
        }
        o.put(json!({"kind": "back", "in": {"p": p, "s": path_json(&s2), "k": k, "T": r(e), "dT": r(dt), "dk": r(dk)},
            "out": num(guard(|| back_stub_forward_bond(&f, &s2, k, e, dt, dk)))}));
        let e = match rng.below(3) { 0 => d[ten.eta(s.t).min(m)], _ => s.t + rng.real(-0.05, 0.6) };
        o.put(json!({"kind": "front", "in": {"p": p, "s": path_json(&s), "T": r(e), "dT": r(dt), "dk": r(dk)},
            "out": num(guard(|| front_stub_bond(&f, &s, e, dt, dk)))}));
        if i % 10 == 0 {
            o.put(json!({"kind": "curve", "in": {"r": r(flat.rate), "T": r(e)}, "out": num(guard(|| flat.p0(e)))}));
        }
    }
    println!("COUNT forms {}", o.n);
}

/// Steps short and long, and from one date to exactly another.
fn some_dt(rng: &mut Rng, t: f64, d: &[f64]) -> f64 {
    match rng.below(10) {
        0 => d.iter().find(|x| **x > t + 1e-9).map_or(0.1, |x| x - t),
        1 => rng.real(0.5, 2.5),
        2 => 1e-6,
        3 if rng.below(4) == 0 => *rng.pick(&[0.0, -0.1]),
        _ => rng.real(0.005, 0.3),
    }
}

fn fx_json(s: &FxFmmState) -> Value {
    json!({"x": r(s.fx), "v": r(s.variance), "t": r(s.t),
        "d": side_json(&s.rates_d, &s.y_diag_d, &s.rates_at_start_d, &s.y_at_start_d, s.x_active_d),
        "f": side_json(&s.rates_f, &s.y_diag_f, &s.rates_at_start_f, &s.y_at_start_f, s.x_active_f)})
}

pub fn cir(rng: &mut Rng) -> (CirProcess, Value) {
    let c = CirProcess { kappa: rng.real(0.1, 4.0), theta: rng.real(0.01, 0.3), gamma: rng.real(0.05, 1.2), sigma_0: rng.real(0.01, 0.3) };
    let js = json!({"k": r(c.kappa), "th": r(c.theta), "g": r(c.gamma), "s0": r(c.sigma_0)});
    (c, js)
}

fn side(rng: &mut Rng, m: usize) -> FmmSide {
    FmmSide {
        sigmas: (0..m).map(|_| rng.real(0.0005, 0.04)).collect(),
        lambda: rng.real(0.1, 3.0), eta: rng.real(0.05, 1.5), v_0: if rng.below(3) == 0 { 1.0 } else { rng.real(0.2, 2.0) },
        rate_corr: corr(rng, m, -0.3, 0.9), decay: LinearDecay,
    }
}

pub fn fxfmm(rng: &mut Rng, m: usize) -> FxFmmParams {
    let (t, x) = (dates(rng, m), rates(rng, m));
    let w = 0.4 / (m as f64).sqrt();
    let list = |rng: &mut Rng| -> Vec<f64> { (0..m).map(|_| rng.real(-w, w)).collect() };
    let c = FxFmmCorrelations {
        rho_xi_sigma: rng.real(-0.4, 0.4), rho_xi_d: list(rng), rho_xi_f: list(rng), rho_sigma_d: list(rng), rho_sigma_f: list(rng),
        cross_rate_corr: (0..m).map(|_| list(rng)).collect(),
    };
    FxFmmParams {
        fx_0: *rng.pick(&[1.0, 0.01, 150.0]) * rng.real(0.5, 1.5), heston: cir(rng).0, tenor: FmmTenor::new(t, x),
        domestic: side(rng, m), foreign: side(rng, m), correlations: c,
    }
}

/// One thing wrong with them, or nothing.
pub fn spoil(rng: &mut Rng, p: &mut FxFmmParams, m: usize) {
    let d = rng.below(2) == 0;
    let c = &mut p.correlations;
    let s = if d { &mut p.domestic } else { &mut p.foreign };
    let k = rng.below(m as u64) as usize;
    match rng.below(20) {
        0 => { s.sigmas.pop(); }
        1 => s.sigmas[k] = *rng.pick(&[-1e-9, f64::INFINITY, 0.0]),
        2 => { s.rate_corr.pop(); }
        3 | 4 => break_corr(rng, &mut s.rate_corr),
        5 => s.lambda = *rng.pick(&[0.0, -1.0, 1e-9, 2e-3]),
        6 => s.eta = *rng.pick(&[0.0, -1.0, 1e-9, 2e-3]),
        7 => s.v_0 = *rng.pick(&[0.0, -1.0, 1e-9, 2e-3]),
        8 => c.rho_xi_sigma = *rng.pick(&[1.1, -1.0 - 1e-9, 0.9999]),
        9 => { c.rho_xi_d.pop(); }
        10 => { c.rho_xi_f.push(0.0); }
        11 => { c.rho_sigma_d.pop(); }
        12 => { c.rho_sigma_f.push(0.0); }
        13 => { c.cross_rate_corr.pop(); }
        14 => { c.cross_rate_corr[k].push(0.0); }
        15 => c.cross_rate_corr[k][m - 1] = *rng.pick(&[-1.2, 1.0 + 1e-9]),
        16 => match rng.below(4) { 0 => c.rho_xi_d[k] = 1.1, 1 => c.rho_xi_f[k] = -1.1, 2 => c.rho_sigma_d[k] = -1.1, _ => c.rho_sigma_f[k] = 1.1 },
        17 => { c.rho_xi_d[0] = 0.98; c.rho_xi_f[0] = -0.98; c.cross_rate_corr[0][0] = 0.9; }
        _ => {}
    }
}

fn side_params(p: &FxFmmParams, s: &FmmSide) -> Value {
    json!({"T": rs(&p.tenor.dates), "R": rs(&p.tenor.initial_rates), "s": rs(&s.sigmas), "c": mat(&s.rate_corr),
        "v0": r(s.v_0), "l": r(s.lambda), "e": r(s.eta), "nb": p.tenor.m()})
}

fn cross(c: &FxFmmCorrelations) -> Value {
    json!({"xs": r(c.rho_xi_sigma), "xd": rs(&c.rho_xi_d), "xf": rs(&c.rho_xi_f), "sd": rs(&c.rho_sigma_d), "sf": rs(&c.rho_sigma_f),
        "df": mat(&c.cross_rate_corr)})
}

pub fn heston(h: &CirProcess) -> Value {
    json!({"k": r(h.kappa), "th": r(h.theta), "g": r(h.gamma), "s0": r(h.sigma_0)})
}

pub fn fx_params(p: &FxFmmParams) -> Value {
    json!({"x": r(p.fx_0), "h": heston(&p.heston), "T": rs(&p.tenor.dates), "R": rs(&p.tenor.initial_rates),
        "d": side_params(p, &p.domestic), "f": side_params(p, &p.foreign), "c": cross(&p.correlations)})
}

pub fn moves(out: &str, args: &[String]) {
    let (seed0, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed0 ^ 0xF39E);
    for i in 0..if deep { 4000 } else { 140 } {
        let seed = rng.next() % 1000;
        let m = rng.range(1, 4) as usize;
        let (mut f, mut p) = model(&mut rng, m);
        if m > 2 && i % 12 == 0 {
            // pairwise sound, together impossible
            for (a, b, v) in [(0, 1, 0.9), (0, 2, -0.9), (1, 2, 0.9)] {
                f.correlation[a][b] = v;
                f.correlation[b][a] = v;
            }
            p["c"] = mat(&f.correlation);
        }
        match FmmSimulator::new(f.clone(), seed) {
            Err(_) => o.put(json!({"kind": "fmm-start", "in": {"p": p}, "out": {"ok": "error"}})),
            Ok(mut sim) => {
                let mut s = if i % 2 == 0 { sim.initial_path() } else { sim.initial_state() };
                o.put(json!({"kind": "fmm-start", "in": {"p": p}, "out": {"ok": "ok", "s": path_json(&s)}}));
                let mut z = Draws::new(seed);
                for _ in 0..rng.range(3, 9) {
                    let dt = some_dt(&mut rng, s.t, &f.tenor.dates);
                    let mut next = s.clone();
                    let got = if rng.below(2) == 0 { guard(|| { sim.step(&mut next, dt); }) }
                        else { guard(|| { next = SimulationModel::step(&mut sim, &s, 17.0, dt); }) };
                    let draws = if got.is_some() { z.take(m) } else { vec![] };
                    let out = if got.is_some() { json!({"ok": "ok", "s": path_json(&next)}) } else { json!({"ok": "panic"}) };
                    o.put(json!({"kind": "fmm-step", "in": {"p": p, "s": path_json(&s), "dt": r(dt), "z": rs(&draws)}, "out": out}));
                    if got.is_none() {
                        break;
                    }
                    s = next;
                }
                let (end, n, paths) = (rng.real(0.05, 1.2) * f.tenor.dates[m], rng.range(1, 8) as usize, rng.range(1, 3) as usize);
                let mut sim = FmmSimulator::new(f.clone(), seed).unwrap();
                let got = guard(|| sim.simulate_terminal(end, n, paths)).unwrap_or_default();
                o.put(json!({"kind": "fmm-paths", "in": {"p": p, "end": r(end), "n": n, "paths": paths, "z": rs(&Draws::new(seed).take(m * n * paths))},
                    "out": got.iter().map(path_json).collect::<Vec<_>>()}));
            }
        }
        // with an exchange rate
        let m = rng.range(1, 3) as usize;
        let mut fp = fxfmm(&mut rng, m);
        if i % 3 == 0 {
            spoil(&mut rng, &mut fp, m);
        }
        let p = fx_params(&fp);
        let valid = fp.validate().is_ok();
        match guard(|| FxFmmSimulator::new(fp.clone(), seed)) {
            None => o.put(json!({"kind": "fx-start", "in": {"p": p, "a": p}, "out": {"ok": "panic"}})),
            Some(Err(_)) => o.put(json!({"kind": "fx-start", "in": {"p": p, "a": p}, "out": {"ok": "error", "valid": valid}})),
            Some(Ok(mut sim)) => {
                let mut s = if i % 2 == 0 { FxFmmState::initial(&fp) } else { sim.initial_state() };
                o.put(json!({"kind": "fx-start", "in": {"p": p, "a": p}, "out": {"ok": "ok", "s": fx_json(&s)}}));
                let mut z = Draws::new(seed);
                for _ in 0..rng.range(3, 7) {
                    let dt = some_dt(&mut rng, s.t, &fp.tenor.dates);
                    if rng.below(8) == 0 {
                        s.variance = *rng.pick(&[0.0, -0.01, 1e-6]);
                    }
                    let mut next = s.clone();
                    let got = if rng.below(2) == 0 { guard(|| { sim.step(&mut next, dt); }) }
                        else { guard(|| { next = SimulationModel::step(&mut sim, &s, 17.0, dt); }) };
                    let draws = if got.is_some() { z.take(2 + 2 * m) } else { vec![] };
                    let out = if got.is_some() { json!({"ok": "ok", "s": fx_json(&next)}) } else { json!({"ok": "panic"}) };
                    o.put(json!({"kind": "fx-step", "in": {"p": p, "s": fx_json(&s), "dt": r(dt), "z": rs(&draws)}, "out": out}));
                    if got.is_none() {
                        break;
                    }
                    s = next;
                }
                let (end, n, paths) = (rng.real(0.05, 1.2) * fp.tenor.dates[m], rng.range(1, 6) as usize, rng.range(1, 3) as usize);
                let mut sim = FxFmmSimulator::new(fp.clone(), seed).unwrap_or_else(|_| unreachable!());
                let got = guard(|| sim.simulate_terminal(end, n, paths)).unwrap_or_default();
                o.put(json!({"kind": "fx-paths", "in": {"p": p, "end": r(end), "n": n, "paths": paths, "z": rs(&Draws::new(seed).take((2 + 2 * m) * n * paths))},
                    "out": got.iter().map(fx_json).collect::<Vec<_>>()}));
            }
        }
    }
    println!("COUNT moves {}", o.n);
}

pub fn hybrids(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x4B1D);
    for _ in 0..if deep { 12000 } else { 1200 } {
        let m = rng.range(1, 5) as usize;
        // Libor tenors
        let (mut t, mut x) = (dates(&mut rng, m), rates(&mut rng, m));
        match rng.below(8) {
            0 => { x.pop(); }
            1 => { t.pop(); }
            2 => t[0] = -1e-9,
            3 => { let k = rng.range(1, m as i64) as usize; t[k] = t[k - 1] - *rng.pick(&[0.0, 0.01]); }
            4 => { t.truncate(1); x.clear(); }
            _ => {}
        }
        let got = guard(|| LiborTenor::new(t.clone(), x.clone()));
        o.put(json!({"kind": "libor-tenor", "in": {"T": rs(&t), "R": rs(&x)}, "out": ok(got)}));
        let (t, x) = (dates(&mut rng, m), rates(&mut rng, m));
        let ten = LiborTenor::new(t.clone(), x.clone());
        let mut ts = t.clone();
        ts.extend([0.0, -0.5, t[m] + 0.3, rng.real(0.0, t[m]), t[1] + 1e-9, t[m] - 1e-9]);
        o.put(json!({"kind": "libor-grid", "in": {"T": rs(&t), "R": rs(&x), "ts": rs(&ts)}, "out": {
            "tau": rs(&(1..=m).map(|j| ten.tau(j)).collect::<Vec<_>>()),
            "m": ts.iter().map(|t| ten.m(*t)).collect::<Vec<_>>(),
            "alive": ts.iter().map(|t| ten.active(*t).collect::<Vec<_>>()).collect::<Vec<_>>()}}));
        // a forward market hybrid
        let mut p = fxfmm(&mut rng, m);
        let sound = p.clone();
        spoil(&mut rng, &mut p, m);
        let word = |x: Option<Result<(), String>>| match x { None => "panic", Some(Ok(())) => "ok", Some(Err(_)) => "error" };
        o.put(json!({"kind": "accepts", "in": {"libor": false, "p": fx_params(&p)}, "out": word(guard(|| p.validate()))}));
        let p = sound;
        let t = match rng.below(4) { 0 => p.tenor.dates[rng.below(m as u64 + 1) as usize], 1 => 0.0, _ => rng.real(0.0, p.tenor.dates[m] * 1.1) };
        let n = match rng.below(3) { 0 => rng.range(1, m as i64 + 2) as usize, _ => p.tenor.eta(t) };
        o.put(json!({"kind": "base", "in": {"p": fx_params(&p)}, "out": [rs(&p.domestic.psi_base(&p.tenor)), rs(&p.foreign.psi_base(&p.tenor))]}));
        o.put(json!({"kind": "rates", "in": {"libor": false, "p": fx_params(&p), "t": r(t), "n": n}, "out": {
            "psid": rs(&fx_fmm::psi_at(&p.domestic, &p.tenor, t)), "psif": rs(&fx_fmm::psi_at(&p.foreign, &p.tenor, t)),
            "ad": num(guard(|| fx_fmm::compute_a_d(&p, t, n))), "af": num(guard(|| fx_fmm::compute_a_f(&p, t, n))),
            "f": num(guard(|| fx_fmm::compute_f_linearised(&p, t, n)))}}));
        // a Libor hybrid of the same shape
        let mut q = fxfmm(&mut rng, m);
        let whole = libor(&mut rng, &q);
        spoil(&mut rng, &mut q, m);
        let mut broken = libor(&mut rng, &q);
        match rng.below(8) { 0 => { broken.domestic.betas.pop(); } 1 => broken.foreign.betas.push(0.5), _ => {} }
        o.put(json!({"kind": "accepts", "in": {"libor": true, "p": libor_params(&broken)}, "out": word(guard(|| broken.validate()))}));
        let p = whole;
        let t = match rng.below(4) { 0 => p.tenor.dates[rng.below(m as u64 + 1) as usize], 1 => 0.0, _ => rng.real(0.0, p.tenor.dates[m] * 1.1) };
        let n = match rng.below(3) { 0 => rng.range(1, m as i64 + 2) as usize, _ => p.tenor.m(t) + 1 };
        o.put(json!({"kind": "rates", "in": {"libor": true, "p": libor_params(&p), "t": r(t), "n": n}, "out": {
            "psid": rs(&p.domestic.psi(&p.tenor)), "psif": rs(&p.foreign.psi(&p.tenor)),
            "ad": num(guard(|| fx_hlmm::compute_a_d(&p, n))), "af": num(guard(|| fx_hlmm::compute_a_f(&p, n))),
            "f": num(guard(|| fx_hlmm::compute_f_linearised(&p, t, n)))}}));
    }
    println!("COUNT hybrids {}", o.n);
}

/// The Libor model that shares a forward market model's numbers.
pub fn libor(rng: &mut Rng, p: &FxFmmParams) -> FxHlmmParams {
    let m = p.tenor.m();
    let mut side = |s: &FmmSide| DdSvLmm {
        sigmas: s.sigmas.iter().map(|x| x * 10.0).collect(), betas: (0..m).map(|_| rng.unit()).collect(),
        lambda: s.lambda, eta: s.eta, v_0: s.v_0, libor_corr: s.rate_corr.clone(),
    };
    let (domestic, foreign) = (side(&p.domestic), side(&p.foreign));
    let c = &p.correlations;
    FxHlmmParams {
        fx_0: p.fx_0, heston: p.heston, tenor: LiborTenor::new(p.tenor.dates.clone(), p.tenor.initial_rates.clone()), domestic, foreign,
        correlations: FxHlmmCorrelations { rho_xi_sigma: c.rho_xi_sigma, rho_xi_d: c.rho_xi_d.clone(), rho_xi_f: c.rho_xi_f.clone(),
            libor_cross_corr: c.cross_rate_corr.clone() },
    }
}

pub fn libor_params(p: &FxHlmmParams) -> Value {
    let side = |s: &DdSvLmm| json!({"s": rs(&s.sigmas), "c": mat(&s.libor_corr), "v0": r(s.v_0), "l": r(s.lambda), "e": r(s.eta), "nb": s.betas.len()});
    let c = &p.correlations;
    json!({"x": r(p.fx_0), "h": heston(&p.heston), "T": rs(&p.tenor.dates), "R": rs(&p.tenor.libors), "d": side(&p.domestic), "f": side(&p.foreign),
        "c": {"xs": r(c.rho_xi_sigma), "xd": rs(&c.rho_xi_d), "xf": rs(&c.rho_xi_f), "df": mat(&c.libor_cross_corr)}})
}
