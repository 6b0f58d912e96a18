//! Steps of the simulated models, with the draws they took.
use crate::common::*;
use crate::models::knots;
use crate::numerics::{r, rs};
use finquant::models::common::cir::{CirProcess, CirSimulator};
use finquant::models::common::simulation::*;
use finquant::models::forex::dupire_local_vol::DupireLocalVol;
use finquant::models::forex::fx_hhw::*;
use finquant::models::forex::fx_hhw_stock::*;
use finquant::models::forex::sabr::*;
use finquant::models::forex::sabr_effective::PiecewiseConstant;
use finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use finquant::models::forex::sabr_time_dependent::*;
use finquant::models::interestrate::hull_white::*;
use rand::{Rng as _, SeedableRng};
use rand_chacha::ChaCha20Rng;
use rand_distr::StandardNormal;
use serde_json::{Value, json};

/// The draws a model seeded alike takes.
pub struct Draws(ChaCha20Rng);

impl Draws {
    pub fn new(seed: u64) -> Self {
        Draws(ChaCha20Rng::seed_from_u64(seed))
    }
    pub fn take(&mut self, n: usize) -> Vec<f64> {
        (0..n).map(|_| self.0.sample(StandardNormal)).collect()
    }
}

pub fn states(got: Option<Vec<Vec<f64>>>) -> Value {
    match got {
        None => json!([["panic"]]),
        Some(v) => json!(v.iter().map(|s| rs(s)).collect::<Vec<_>>()),
    }
}

fn one(got: Option<Vec<f64>>) -> Value {
    states(got.map(|s| vec![s]))
}

fn put(o: &mut Out, m: &str, kind: &str, p: &Value, ins: Value, tol: f64, out: Value) {
    o.put(json!({"m": m, "kind": kind, "p": p, "in": ins, "tol": r(tol), "out": out}));
}

fn step_in(t: f64, dt: f64, s: &[f64], z: &[f64]) -> Value {
    json!({"t": r(t), "dt": r(dt), "s": rs(s), "z": rs(z)})
}

/// A model stepped through the trait every model implements.
fn walk<M: SimulationModel>(o: &mut Out, rng: &mut Rng, m: &str, p: &Value, seed: u64, per: usize, insists: bool,
    model: &mut M, to: impl Fn(&[f64]) -> M::State, from: impl Fn(&M::State) -> Vec<f64>, odd: impl Fn(&mut Rng, &[f64]) -> Vec<f64>) {
    let mut z = Draws::new(seed);
    let start = from(&model.initial_state());
    put(o, m, "start", p, json!({}), 1e-13, one(Some(start.clone())));
    let mut s = start;
    for _ in 0..rng.range(2, 6) {
        let dt = match rng.below(6) {
            0 => rng.real(0.5, 3.0),
            1 => 1e-6,
            2 if insists && rng.below(4) == 0 => *rng.pick(&[0.0, -0.1]),
            _ => rng.real(0.001, 0.3),
        };
        let t = rng.real(0.0, 5.0);
        let from_s = if rng.below(4) == 0 { odd(rng, &s) } else { s.clone() };
        let got = guard(|| from(&model.step(&to(&from_s), t, dt)));
        let draws = z.take(per);
        put(o, m, "step", p, step_in(t, dt, &from_s, &draws), 1e-11, one(got.clone()));
        match got {
            Some(g) => s = g,
            // what a refused step drew is its own business
            None => break,
        }
    }
}

fn corr(rng: &mut Rng, n: usize) -> Vec<f64> {
    (0..n).map(|_| rng.real(-0.55, 0.55)).collect()
}

fn cir(rng: &mut Rng) -> (CirProcess, Value) {
    let c = CirProcess { kappa: rng.real(0.1, 4.0), theta: rng.real(0.01, 0.3), gamma: rng.real(0.05, 1.2), sigma_0: rng.real(0.01, 0.3) };
    let js = json!({"k": r(c.kappa), "th": r(c.theta), "g": r(c.gamma), "s0": r(c.sigma_0)});
    (c, js)
}

pub fn hhw(rng: &mut Rng) -> (FxHhwParams, Value) {
    let (h, hj) = cir(rng);
    let mut c = corr(rng, 6);
    match rng.below(20) {
        0 => c[0] = 1.0,
        1 => { c[0] = 0.95; c[1] = 0.95; c[3] = -0.95; }
        2 => c = vec![0.0; 6],
        3 => c[5] = 1.2,
        _ => {}
    }
    let hw = |rng: &mut Rng| HullWhite1F { mean_reversion: rng.real(-0.05, 1.0), sigma: rng.real(0.001, 0.05) };
    let p = FxHhwParams {
        fx_0: *rng.pick(&[1.0, 0.01, 150.0]) * rng.real(0.5, 1.5),
        heston: h, domestic: hw(rng), foreign: hw(rng),
        rd_0: rng.real(-0.02, 0.1), rf_0: rng.real(-0.02, 0.1), theta_d: rng.real(-0.02, 0.1), theta_f: rng.real(-0.02, 0.1),
        correlations: Correlation4x4 { rho_xi_sigma: c[0], rho_xi_d: c[1], rho_xi_f: c[2], rho_sigma_d: c[3], rho_sigma_f: c[4], rho_d_f: c[5] },
    };
    let js = json!({"x": r(p.fx_0), "h": hj, "ld": r(p.domestic.mean_reversion), "nd": r(p.domestic.sigma),
        "lf": r(p.foreign.mean_reversion), "nf": r(p.foreign.sigma), "rd": r(p.rd_0), "rf": r(p.rf_0),
        "thd": r(p.theta_d), "thf": r(p.theta_f), "c": rs(&c)});
    (p, js)
}

fn fx_list(s: &FxHhwState) -> Vec<f64> {
    vec![s.fx, s.variance, s.rd, s.rf]
}

fn fx_state(s: &[f64]) -> FxHhwState {
    FxHhwState { fx: s[0], variance: s[1], rd: s[2], rf: s[3] }
}

fn stock_list(s: &FxHhwStockState) -> Vec<f64> {
    let mut v = fx_list(&s.fx);
    v.extend([s.stock, s.stock_variance]);
    v
}

fn pw(rng: &mut Rng, k: &[f64], lo: f64, hi: f64) -> (PiecewiseConstant, Value) {
    let flat = rng.below(4) == 0;
    let v0 = rng.real(lo, hi);
    let v: Vec<f64> = (1..k.len()).map(|_| if flat { v0 } else { rng.real(lo, hi) }).collect();
    (PiecewiseConstant::new(k.to_vec(), v.clone()), json!({"k": rs(k), "v": rs(&v)}))
}

fn sabr_list(s: &SabrState) -> Vec<f64> {
    vec![s.forward, s.vol]
}

fn sabr_state(s: &[f64]) -> SabrState {
    SabrState { forward: s[0], vol: s[1] }
}

fn beta(rng: &mut Rng) -> f64 {
    match rng.below(4) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => rng.unit() }
}

/// Terminal states of a simulation of several paths.
fn simulated(o: &mut Out, m: &str, p: &Value, seed: u64, per: usize, end: f64, n: usize, paths: usize, bins: usize, skip: usize,
    got: Option<Vec<Vec<f64>>>) {
    let mut d = Draws::new(seed);
    d.take(skip);
    let z = d.take(per * n * paths);
    put(o, m, "simulate", p, json!({"end": r(end), "n": n, "paths": paths, "bins": bins, "z": rs(&z)}), 1e-9, states(got));
}

pub fn dynamics(out: &str, args: &[String]) {
    let (seed0, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed0 ^ 0xD17A);
    for i in 0..if deep { 1500 } else { 150 } {
        let seed = rng.next() % 1000;
        // Brownian motion, geometric and plain
        let (mu, v, x) = (rng.real(-0.3, 0.3), rng.real(0.0, 1.0), rng.real(-2.0, 2.0));
        let p = json!({"mu": r(mu), "v": r(v), "x": r(x)});
        let mut m = BrownianMotion::new(seed).with_drift(mu).with_volatility(v).with_initial(x);
        walk(&mut o, &mut rng, "bm", &p, seed, 1, false, &mut m, |s| s[0], |s| vec![*s], |g, _| vec![g.real(-9.0, 9.0)]);
        if i % 10 == 0 {
            let p = json!({"mu": "0.0", "v": "1.0", "x": "0.0"});
            let mut m = BrownianMotion::new(seed);
            walk(&mut o, &mut rng, "bm", &p, seed, 1, false, &mut m, |s| s[0], |s| vec![*s], |g, _| vec![g.real(-9.0, 9.0)]);
        }
        let s0 = rng.real(0.5, 200.0);
        let p = json!({"mu": r(mu), "v": r(v), "x": r(s0)});
        let mut m = GeometricBrownianMotion::new(s0, mu, v, seed);
        walk(&mut o, &mut rng, "gbm", &p, seed, 1, false, &mut m, |s| s[0], |s| vec![*s], |g, _| vec![g.real(0.0, 9.0)]);
        // square root
        let (c, p) = cir(&mut rng);
        let mut m = CirSimulator::new(c, seed);
        walk(&mut o, &mut rng, "cir", &p, seed, 1, false, &mut m, |s| s[0], |s| vec![*s],
            |g, _| vec![*g.pick(&[0.0, -0.01, 1e-9, 1e-4])]);
        // Hull-White, its target moving in time or not
        let h = HullWhite1F { mean_reversion: rng.real(-0.05, 1.0), sigma: rng.real(0.001, 0.05) };
        let (r0, a, mut b) = (rng.real(-0.02, 0.1), rng.real(-0.02, 0.1), rng.real(-0.01, 0.02));
        let mut m = HullWhiteSimulator::new_constant_theta(h, r0, a, seed);
        if i % 3 == 0 { b = 0.0 } else { m = m.with_theta_fn(move |t| a + b * t) }
        let p = json!({"l": r(h.mean_reversion), "n": r(h.sigma), "x": r(r0), "th": rs(&[a, b])});
        walk(&mut o, &mut rng, "hw", &p, seed, 1, false, &mut m, |s| s[0], |s| vec![*s], |g, _| vec![g.real(-0.2, 0.2)]);
        // SABR
        let sp = SabrParams::new(rng.real(0.02, 0.8), beta(&mut rng), rng.real(-0.98, 0.98), if i % 6 == 0 { 0.0 } else { rng.real(0.05, 1.5) });
        let f = if i % 30 == 7 { -rng.unit() } else if i % 30 == 17 { 0.0 } else { *rng.pick(&[0.02, 1.0, 100.0]) * rng.real(0.5, 1.5) };
        let p = json!({"a": r(sp.alpha), "b": r(sp.beta), "r": r(sp.rho), "n": r(sp.nu), "f": r(f)});
        match guard(|| SabrSimulator::new(sp, f, seed)) {
            None => put(&mut o, "sabr", "start", &p, json!({}), 1e-13, json!([["panic"]])),
            Some(mut m) => {
                walk(&mut o, &mut rng, "sabr", &p, seed, 2, true, &mut m, sabr_state, sabr_list,
                    |g, s| match g.below(3) { 0 => vec![0.0, s[1]], 1 => vec![-s[0], s[1]], _ => vec![s[0], -0.1] });
                let mut m = SabrSimulator::new(sp, f, seed);
                let (dt, s) = (rng.real(0.01, 1.0), [f * rng.real(0.5, 2.0), rng.real(0.01, 1.0)]);
                let (got, dw) = m.step_with_noise(&sabr_state(&s), dt);
                let ins = step_in(0.0, dt, &s, &Draws::new(seed).take(2));
                put(&mut o, "sabr", "step", &p, ins.clone(), 1e-11, one(Some(sabr_list(&got))));
                put(&mut o, "sabr", "noise", &p, ins, 1e-11, one(Some(dw.to_vec())));
                let (end, n, paths) = (rng.real(0.01, 2.0), rng.range(1, 5) as usize, rng.range(1, 4) as usize);
                let got = guard(|| m.simulate(end, n, paths).iter().map(sabr_list).collect());
                simulated(&mut o, "sabr", &p, seed, 2, end, n, paths, 0, 2, got);
            }
        }
        // SABR with schedules
        let nk = rng.range(1, 4) as usize;
        let k = knots(&mut rng, nk, 1.5);
        let mut kr = k.clone();
        let mut kn = k.clone();
        let ((sa, ja), (mut sr, mut jr), (mut sn, mut jn)) =
            (pw(&mut rng, &k, 0.05, 0.8), pw(&mut rng, &k, -0.95, 0.95), pw(&mut rng, &k, 0.0, 1.3));
        let (mut b, mut f) = (beta(&mut rng), rng.real(0.5, 1.5));
        let mut sa = sa;
        let mut ja = ja;
        let level = rng.below(6);
        if level < 2 {
            // flat schedules, or flat but for the last stretch of one
            for s in [&mut sa, &mut sr, &mut sn] {
                let v = s.values[0];
                s.values.iter_mut().for_each(|x| *x = v);
            }
            if level == 1 {
                *[&mut sa, &mut sr, &mut sn][rng.below(3) as usize].values.last_mut().unwrap() += 0.01;
            }
            let js = |s: &PiecewiseConstant| json!({"k": rs(&k), "v": rs(&s.values)});
            (ja, jr, jn) = (js(&sa), js(&sr), js(&sn));
        }
        match rng.below(24) {
            0 => { kr[nk] += 0.1; sr.knots = kr.clone(); jr = json!({"k": rs(&kr), "v": rs(&sr.values)}); }
            1 => { kn[nk] += 0.1; sn.knots = kn.clone(); jn = json!({"k": rs(&kn), "v": rs(&sn.values)}); }
            2 => b = *rng.pick(&[-0.01, 1.01]),
            3 => f = *rng.pick(&[0.0, -1.0]),
            4 => { sa.values[nk - 1] = 0.0; ja = json!({"k": rs(&k), "v": rs(&sa.values)}); }
            5 => { sn.values[0] = -0.1; jn = json!({"k": rs(&k), "v": rs(&sn.values)}); }
            6 => { sr.values[nk - 1] = *rng.pick(&[1.0, -1.0]); jr = json!({"k": rs(&k), "v": rs(&sr.values)}); }
            _ => {}
        }
        let p = json!({"a": ja, "r": jr, "n": jn, "b": r(b), "f": r(f)});
        match guard(|| TimeDependentSabrParams::new(sa.clone(), sr.clone(), sn.clone(), b, f)) {
            None => put(&mut o, "td", "start", &p, json!({}), 1e-13, json!([["panic"]])),
            Some(tp) => {
                let mut m = TimeDependentSabrSimulator::new(tp.clone(), seed);
                walk(&mut o, &mut rng, "td", &p, seed, 2, true, &mut m, sabr_state, sabr_list,
                    |g, s| match g.below(3) { 0 => vec![0.0, s[1]], 1 => vec![-s[0], s[1]], _ => vec![s[0], -0.1] });
                // around each knot
                let ends = k.clone();
                for e in ends {
                    for (t, dt) in [(e - 0.01, 0.02), (e + 0.01, 0.02), (e, 0.03), (e - 0.01, 0.01), (e - 1e-4, 0.4), (e + 0.0103, 0.02), (e - 0.0097, 0.02)] {
                        let mut m = TimeDependentSabrSimulator::new(tp.clone(), seed);
                        let s = [f * rng.real(0.5, 2.0), rng.real(0.01, 1.0)];
                        let got = guard(|| m.step_with_noise(&sabr_state(&s), t, dt));
                        let ins = step_in(t, dt, &s, &Draws::new(seed).take(2));
                        put(&mut o, "td", "step", &p, ins.clone(), 1e-11, one(got.map(|g| sabr_list(&g.0))));
                        if let Some((_, dw)) = got {
                            put(&mut o, "td", "noise", &p, ins, 1e-11, one(Some(dw.to_vec())));
                        }
                    }
                }
                let (end, n, paths) = (rng.real(0.05, 1.0) * k[nk], rng.range(1, 6) as usize, rng.range(1, 4) as usize);
                let mut m = TimeDependentSabrSimulator::new(tp.clone(), seed);
                let got = guard(|| m.simulate(end, n, paths).iter().map(sabr_list).collect());
                simulated(&mut o, "td", &p, seed, 2, end, n, paths, 0, 0, got);
                let c = m.reduces_to_constant().map(|s| vec![s.forward_0, s.params.alpha, s.params.beta, s.params.rho, s.params.nu]);
                put(&mut o, "td", "constant", &p, json!({}), 1e-13, if c.is_none() { json!([["none"]]) } else { one(c) });
                // ... and a local volatility that paths share
                if i % 3 == 0 {
                    let (nt, ns) = (rng.range(3, 5) as usize, rng.range(3, 6) as usize);
                    let mut ts: Vec<f64> = (0..nt).map(|_| rng.real(0.02, 2.0)).collect();
                    let mut ks: Vec<f64> = (0..ns).map(|_| f * rng.real(0.6, 1.6)).collect();
                    ts.sort_by(f64::total_cmp);
                    ks.sort_by(f64::total_cmp);
                    let v: Vec<Vec<f64>> = (0..nt).map(|_| (0..ns).map(|_| rng.real(0.003, 0.15)).collect()).collect();
                    let lv = DupireLocalVol { expiries: ts.clone(), strikes: ks.clone(), variance: v.clone() };
                    let mut q = p.clone();
                    q["T"] = json!(rs(&ts));
                    q["K"] = json!(rs(&ks));
                    q["v"] = json!(v.iter().map(|x| rs(x)).collect::<Vec<_>>());
                    let (n, paths) = (rng.range(1, 5) as usize, rng.range(1, 24) as usize);
                    let end = end.min(1.2);
                    let mut m = TimeDependentSabrSlvSimulator::new(tp.clone(), lv, seed);
                    let mut bins = 50;
                    if rng.below(4) > 0 {
                        bins = rng.range(2, 9) as usize;
                        m = m.with_bins(bins);
                    }
                    let got = guard(|| m.simulate(end, n, paths).iter().map(sabr_list).collect::<Vec<_>>());
                    // absorbed paths rank in no particular order
                    if got.as_ref().is_none_or(|g| g.iter().all(|s| s[0] > 0.0)) {
                        simulated(&mut o, "slv", &q, seed, 2, end, n, paths, bins, 0, got);
                    }
                }
            }
        }
        // FX under Heston and two Hull-White rates
        let (hp, mut p) = hhw(&mut rng);
        let c = hp.correlations;
        let rows = |m: [[f64; 4]; 4]| states(Some(m.iter().map(|x| x.to_vec()).collect()));
        put(&mut o, "hhw", "matrix", &p, json!({"sound": c.is_valid()}), 1e-13, rows(c.as_matrix()));
        put(&mut o, "hhw", "root", &p, json!({}), 1e-11, c.cholesky().map_or(json!([["none"]]), rows));
        match FxHhwSimulator::new(hp, seed) {
            Err(_) => put(&mut o, "hhw", "start", &p, json!({}), 1e-13, json!([["error"]])),
            Ok(m) => {
                let odd = |g: &mut Rng, s: &[f64]| { let mut s = s.to_vec(); s[1] = *g.pick(&[0.0, -0.01, 1e-6, 2.0]); s };
                let mut m = m;
                let c = [hp.theta_d, rng.real(-0.01, 0.02), hp.theta_f, rng.real(-0.01, 0.02)];
                let mut line = c;
                if i % 3 == 0 { line[1] = 0.0; line[3] = 0.0 } else { m = m.with_theta_fn(move |t| (c[0] + c[1] * t, c[2] + c[3] * t)) }
                p["td"] = json!(rs(&line[..2]));
                p["tf"] = json!(rs(&line[2..]));
                walk(&mut o, &mut rng, "hhw", &p, seed, 4, true, &mut m, fx_state, fx_list, odd);
                let mut m = FxHhwSimulator::new(hp, seed).unwrap();
                let (dt, s) = (rng.real(0.01, 1.0), [rng.real(0.5, 2.0), rng.real(0.0, 0.3), rng.real(-0.02, 0.1), rng.real(-0.02, 0.1)]);
                let (got, dw) = m.step(&fx_state(&s), dt);
                let ins = step_in(0.0, dt, &s, &Draws::new(seed).take(4));
                put(&mut o, "hhw-own", "step", &p, ins.clone(), 1e-11, one(Some(fx_list(&got))));
                put(&mut o, "hhw-own", "noise", &p, ins, 1e-11, one(Some(dw.to_vec())));
                // towards rates given with the step
                let (thd, thf) = (rng.real(-0.05, 0.2), rng.real(-0.05, 0.2));
                let (got, dw) = FxHhwSimulator::new(hp, seed).unwrap().step_at_time(&fx_state(&s), dt, thd, thf);
                let mut q = p.clone();
                q["thd"] = json!(r(thd));
                q["thf"] = json!(r(thf));
                let ins = step_in(0.0, dt, &s, &Draws::new(seed).take(4));
                put(&mut o, "hhw-own", "step", &q, ins.clone(), 1e-11, one(Some(fx_list(&got))));
                put(&mut o, "hhw-own", "noise", &q, ins, 1e-11, one(Some(dw.to_vec())));
                let (end, n, paths) = (rng.real(0.01, 2.0), rng.range(1, 5) as usize, rng.range(1, 4) as usize);
                let got = guard(|| m.simulate(end, n, paths).iter().map(fx_list).collect());
                simulated(&mut o, "hhw-own", &p, seed, 4, end, n, paths, 0, 4, got);
            }
        }
        // ... with a foreign stock
        let (hp, mut p) = hhw(&mut rng);
        let (w, wj) = cir(&mut rng);
        let mut rho = corr(&mut rng, 2);
        match rng.below(12) { 0 => rho[0] = 1.01, 1 => rho[1] = -1.01, 2 => rho[0] = 1.0, 3 => rho[1] = -1.0, _ => {} }
        let st = ForeignStock { s_0: rng.real(0.5, 100.0), variance: w, rho_xi_sf: rho[0], rho_sf_omega: rho[1] };
        p["s"] = json!(r(st.s_0));
        p["w"] = wj;
        p["rxs"] = json!(r(rho[0]));
        p["rso"] = json!(r(rho[1]));
        match FxHhwStockSimulator::new(hp, st, seed) {
            Err(_) => put(&mut o, "stock", "start", &p, json!({}), 1e-13, json!([["error"]])),
            Ok(mut m) => {
                let odd = |g: &mut Rng, s: &[f64]| { let mut s = s.to_vec(); let j = *g.pick(&[1, 5]); s[j] = *g.pick(&[0.0, -0.01, 1e-6, 2.0]); s };
                walk(&mut o, &mut rng, "stock", &p, seed, 6, true, &mut m,
                    |s| FxHhwStockState { fx: fx_state(s), stock: s[4], stock_variance: s[5] }, stock_list, odd);
                let mut m = FxHhwStockSimulator::new(hp, st, seed).unwrap();
                let (end, n, paths) = (rng.real(0.01, 2.0), rng.range(1, 5) as usize, rng.range(1, 4) as usize);
                let got = guard(|| m.simulate(end, n, paths).iter().map(stock_list).collect());
                simulated(&mut o, "stock", &p, seed, 6, end, n, paths, 0, 0, got);
            }
        }
    }
    println!("COUNT model_moves {}", o.n);
}
