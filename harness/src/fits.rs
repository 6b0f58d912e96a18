//! Calibrations: every point the search had valued, and what came of it.
use crate::common::*;
use crate::fmm::{fx_params, fxfmm, heston, libor, libor_params};
use crate::fx::{real, res_real, some_date, some_smile, vol_quote_json};
use crate::mc::hhw;
use crate::numerics::{r, rs};
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolSurface};
use finquant::math::optimize::*;
use finquant::models::common::black_scholes::bs_implied_vol;
use finquant::models::common::calibration::Calibration;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::cos_pricer::{CosPricer, ForwardChf};
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use finquant::models::forex::market_data::{MarketSmileStrip, smile_strip};
use finquant::models::forex::sabr::{SabrParams, hagan_implied_vol};
use finquant::models::forex::sabr_effective::*;
use finquant::models::forex::sabr_time_dependent_calibrator::*;
use finquant::models::forex::{fx_fmm_calibrator as fmm, fx_hhw_calibrator as hhwc, fx_hlmm_calibrator as hlmm, sabr_calibrator as sabr};
use serde_json::{Value, json};

fn softplus(x: f64) -> f64 {
    if x > 35.0 { x } else { x.exp().ln_1p() }
}

fn unsoftplus(y: f64) -> f64 {
    let y = y.max(1e-8);
    if y > 35.0 { y } else { (y.exp() - 1.0).ln() }
}

fn none_or(v: Option<f64>) -> String {
    match v { None => "none".into(), Some(x) => r(x) }
}

/// The Heston numbers and the correlation with the exchange rate.
type Free = (CirProcess, f64);

fn heston_free(base: &CirProcess, floor: f64, cap: Option<f64>, x: &[f64]) -> Free {
    let mut h = *base;
    h.kappa = floor + softplus(x[0]);
    h.gamma = match cap { None => softplus(x[1]), Some(m) => m / (1.0 + (-x[1]).exp()) };
    h.theta = softplus(x[2]);
    h.sigma_0 = softplus(x[3]);
    (h, x[4].tanh())
}

fn heston_start(h: &CirProcess, rho: f64, floor: f64, cap: Option<f64>) -> Vec<f64> {
    let g = match cap {
        None => unsoftplus(h.gamma),
        Some(m) => { let s = (h.gamma / m).clamp(1e-4, 1.0 - 1e-4); (s / (1.0 - s)).ln() }
    };
    vec![unsoftplus(h.kappa - floor), g, unsoftplus(h.theta), unsoftplus(h.sigma_0), rho.clamp(-0.999, 0.999).atanh()]
}

fn vols<C: ForwardChf>(chf: &C, f: f64, df: f64, ks: &[f64]) -> Vec<Option<f64>> {
    let p = CosPricer::new(chf);
    ks.iter().map(|k| bs_implied_vol(p.call(*k, df), f, *k, chf.expiry(), df, true)).collect()
}

fn options(rng: &mut Rng, iterations: i64) -> NelderMeadOptions {
    NelderMeadOptions {
        max_iter: rng.range(0, iterations) as usize,
        ftol: *rng.pick(&[1e-8, 1e-12, 1e-3]), xtol: *rng.pick(&[1e-8, 1e-2, 1.0]),
        step_frac: *rng.pick(&[0.05, 0.15, 0.3, 1.0]),
    }
}

fn some_market(rng: &mut Rng, f: f64, t: f64) -> (Vec<f64>, Vec<f64>) {
    let (s, skew, smile) = (rng.real(0.05, 0.35), rng.real(-0.2, 0.2), rng.real(0.0, 0.2));
    let n = rng.range(1, 7) as usize;
    let mut k: Vec<f64> = (0..n).map(|_| f * (rng.real(-1.7, 1.7) * s * t.sqrt()).exp()).collect();
    if rng.below(3) > 0 {
        k.sort_by(|a, b| a.partial_cmp(b).unwrap());
    }
    let v = k.iter().map(|k| { let m = (k / f).ln() / t.sqrt(); (s + skew * m + smile * m * m).max(0.01) }).collect();
    (k, v)
}

fn minimum(m: &Minimum) -> Value {
    json!({"x": rs(&m.x), "f": r(m.f), "it": m.iterations, "converged": m.converged})
}

/// One fit: what was tried, by the search on the same objective.
struct Fit<'a> {
    model: &'a str,
    start: Vec<f64>,
    quote: Box<dyn Fn(&[f64]) -> Vec<Option<f64>> + 'a>,
    input: Value,
    opts: NelderMeadOptions,
    strikes: Vec<f64>,
    vols: Vec<f64>,
    out: Option<Value>,
}

fn put(o: &mut Vec<Value>, w: Fit) {
    let mut tries: Vec<Value> = vec![];
    let objective = |x: &[f64]| {
        let q = (w.quote)(x);
        let f = if q.iter().any(|v| v.is_none()) || q.is_empty() { 1e6 }
            else { q.iter().zip(&w.vols).map(|(a, b)| (a.unwrap() - b).powi(2)).sum() };
        tries.push(json!({"x": rs(x), "q": q.iter().map(|v| none_or(*v)).collect::<Vec<_>>(), "f": r(f)}));
        f
    };
    if w.out.is_some() {
        guard(|| nelder_mead(objective, &w.start, w.opts));
    }
    o.push(json!({"kind": "fit", "model": w.model, "in": w.input, "strikes": rs(&w.strikes), "vols": rs(&w.vols),
        "max": w.opts.max_iter, "ftol": r(w.opts.ftol), "xtol": r(w.opts.xtol), "frac": r(w.opts.step_frac),
        "tries": tries, "ok": w.out.is_some(), "out": w.out.unwrap_or(json!("refused"))}));
}

fn sabr_fits(o: &mut Vec<Value>, rng: &mut Rng, n: usize) {
    for _ in 0..n {
        let mut f = *rng.pick(&[0.01, 1.0, 1.2, 150.0]) * rng.real(0.7, 1.3);
        let mut t = rng.real(0.05, 10.0);
        let b = match rng.below(4) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => rng.unit() };
        let scale = f.powf(1.0 - b);
        let p = SabrParams {
            alpha: match rng.below(12) { 0 => 1e-10, 1 => 50.0, _ => scale * rng.real(0.05, 0.4) }, beta: b,
            rho: match rng.below(12) { 0 => -0.9999, _ => rng.real(-0.8, 0.8) },
            nu: match rng.below(10) { 0 => 0.0, 1 => 40.0, _ => rng.real(0.05, 1.5) },
        };
        let (mut ks, mut vs) = some_market(rng, f, t);
        match rng.below(60) {
            0 => f = 0.0,
            1 => t = 0.0,
            2 => { ks.clear(); vs.clear(); }
            3 => t = -1.0,
            _ => {}
        }
        let mut opts = options(rng, 14);
        if rng.below(6) == 0 { opts.step_frac = rng.real(5.0, 30.0) }
        let via = rng.below(2) == 0;
        let out = if via {
            guard(|| sabr::SabrSmileCalibrator { initial: p }
                .calibrate(&MarketSmileStrip { expiry_yf: t, forward: f, strikes: ks.clone(), vols: vs.clone() }, opts).unwrap())
                .map(|c| (c.params, c.rmse, c.optimiser.unwrap()))
        } else {
            guard(|| sabr::calibrate(p, f, &sabr::targets_from_grid(&ks, &vs), t, opts)).map(|c| (c.params, c.rmse, c.optimiser))
        };
        let out = out.map(|(q, e, m)| json!({"p": rs(&[q.alpha, q.rho, q.nu]), "kept": q.beta == b, "rmse": r(e), "min": minimum(&m),
            "quotes": guard(|| sabr::model_implied_vols(&q, f, t, &ks)).map(|v| rs(&v)).unwrap_or_default()}));
        let kk = ks.clone();
        let quote = move |x: &[f64]| {
            let q = SabrParams { alpha: softplus(x[0]), beta: b, rho: x[1].tanh(), nu: softplus(x[2]) };
            if q.alpha <= 0.0 || q.rho.abs() >= 1.0 { return vec![] }
            kk.iter().map(|k| Some(hagan_implied_vol(&q, f, *k, t)).filter(|v| *v > 0.0 && v.is_finite())).collect()
        };
        put(o, Fit { model: "sabr", start: vec![unsoftplus(p.alpha), p.rho.clamp(-0.999, 0.999).atanh(), unsoftplus(p.nu)],
            quote: Box::new(quote), input: json!({"a": r(p.alpha), "b": r(b), "r": r(p.rho), "n": r(p.nu), "f": r(f), "T": r(t)}),
            opts, strikes: ks, vols: vs, out });
    }
}

fn heston_out(h: &CirProcess, rho: f64, kept: bool, e: f64, m: &Minimum) -> Value {
    json!({"p": rs(&[h.kappa, h.gamma, h.theta, h.sigma_0, rho]), "kept": kept, "rmse": r(e), "min": minimum(m)})
}

/// Starts near the edge of what the fit may reach.
fn edges(rng: &mut Rng, h: &mut CirProcess, rho: &mut f64) -> (f64, Option<f64>) {
    *h = CirProcess { kappa: rng.real(0.3, 2.0), theta: rng.real(0.005, 0.06), gamma: rng.real(0.05, 0.6), sigma_0: rng.real(0.005, 0.06) };
    match rng.below(16) {
        0 => h.kappa = 0.05,
        1 => h.kappa = 40.0,
        2 => *rho = -0.9995,
        _ => {}
    }
    let floor = *rng.pick(&[0.0, 0.1, 0.5]);
    let cap = match rng.below(4) { 0 => Some(rng.real(0.05, 1.0)), 1 => Some(h.gamma * rng.real(0.3, 1.0)), _ => None };
    (if rng.below(40) == 0 { -0.1 } else { floor }, if rng.below(40) == 0 { Some(0.0) } else { cap })
}

macro_rules! hybrid {
    ($rng:expr, $o:expr, $name:expr, $module:ident, $calibrator:ident, $chf:ident, $p:expr, $input:expr, $f:expr, $df:expr, $t:expr, $check:expr) => {{
        let (p, mut t) = ($p, $t);
        let (f, df) = ($f, $df);
        let mut p = p;
        let (floor, _) = edges($rng, &mut p.heston, &mut p.correlations.rho_xi_sigma);
        let (mut ks, mut vs) = some_market($rng, f, t);
        match $rng.below(60) {
            0 => t = 0.0,
            1 => { ks.clear(); vs.clear(); }
            _ => {}
        }
        let opts = options($rng, 9);
        let base = p.clone();
        let out = if $rng.below(2) == 0 {
            guard(|| $module::$calibrator { initial: p.clone(), kappa_floor: floor }
                .calibrate(&MarketSmileStrip { expiry_yf: t, forward: f, strikes: ks.clone(), vols: vs.clone() }, opts).unwrap())
                .map(|c| (c.params, c.rmse, c.optimiser.unwrap()))
        } else {
            guard(|| $module::calibrate(p.clone(), &$module::targets_from_grid(&ks, &vs), t, floor, opts)).map(|c| (c.params, c.rmse, c.optimiser))
        };
        let out = out.map(|(mut q, e, m)| {
            let (h, rho) = (q.heston, q.correlations.rho_xi_sigma);
            q.heston = base.heston;
            q.correlations.rho_xi_sigma = base.correlations.rho_xi_sigma;
            heston_out(&h, rho, format!("{q:?}") == format!("{base:?}"), e, &m)
        });
        let (b, kk) = (base.clone(), ks.clone());
        let quote = move |x: &[f64]| {
            let mut q = b.clone();
            (q.heston, q.correlations.rho_xi_sigma) = heston_free(&b.heston, floor, None, x);
            if !$check(&q) { return vec![] }
            vols(&$chf::new(&q, t), f, df, &kk)
        };
        put($o, Fit { model: $name, start: heston_start(&base.heston, base.correlations.rho_xi_sigma, floor, None),
            quote: Box::new(quote), input: json!({"h": heston(&base.heston), "r": r(base.correlations.rho_xi_sigma), "floor": r(floor),
                "T": r(t), "capped": false, "cap": "0"}), opts, strikes: ks.clone(), vols: vs, out });
        // the same by its own helpers
        if t > 0.0 {
            let chf = $chf::new(&base, t);
            let pricer = CosPricer::new(&chf);
            $o.push(json!({"kind": "quotes", "model": $name, "p": $input(&base), "T": r(t), "strikes": rs(&ks),
                "unit": rs(&ks.iter().map(|k| pricer.call(*k, 1.0)).collect::<Vec<_>>()),
                "price": rs(&ks.iter().map(|k| $module::price_call(&base, t, *k)).collect::<Vec<_>>()),
                "vol": $module::model_implied_vols(&base, t, &ks).iter().map(|v| none_or(*v)).collect::<Vec<_>>(),
                "f": r($module::forward_fx(&base, t)), "df": r($module::discount_factor(&base, t))}));
        }
    }};
}

fn hhw_fits(o: &mut Vec<Value>, rng: &mut Rng, n: usize) {
    for _ in 0..n {
        let (mut p, _) = hhw(rng);
        let (floor, cap) = edges(rng, &mut p.heston, &mut p.correlations.rho_xi_sigma);
        let base = p;
        let mut t = rng.real(0.1, 5.0);
        let f = p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp();
        let df = (-p.rd_0 * t).exp();
        let (mut ks, mut vs) = some_market(rng, f, t);
        match rng.below(60) {
            0 => t = 0.0,
            1 => { ks.clear(); vs.clear(); }
            _ => {}
        }
        let opts = options(rng, 9);
        let out = if rng.below(2) == 0 {
            guard(|| hhwc::FxHhwSmileCalibrator { initial: p, kappa_floor: floor, gamma_max: cap }
                .calibrate(&MarketSmileStrip { expiry_yf: t, forward: f, strikes: ks.clone(), vols: vs.clone() }, opts).unwrap())
                .map(|c| (c.params, c.rmse, c.optimiser.unwrap()))
        } else {
            guard(|| {
                let to = hhwc::targets_from_grid(&ks, &vs);
                match cap { None => hhwc::calibrate(p, &to, t, floor, opts), Some(m) => hhwc::calibrate_bounded(p, &to, t, floor, m, opts) }
            }).map(|c| (c.params, c.rmse, c.optimiser))
        };
        let out = out.map(|(mut q, e, m)| {
            let (h, rho) = (q.heston, q.correlations.rho_xi_sigma);
            q.heston = base.heston;
            q.correlations.rho_xi_sigma = base.correlations.rho_xi_sigma;
            heston_out(&h, rho, format!("{q:?}") == format!("{base:?}"), e, &m)
        });
        let kk = ks.clone();
        let quote = move |x: &[f64]| {
            let mut q = base;
            (q.heston, q.correlations.rho_xi_sigma) = heston_free(&base.heston, floor, cap, x);
            vols(&FxHhw1ForwardChf::new(&q, t), f, df, &kk)
        };
        put(o, Fit { model: "hhw", start: heston_start(&base.heston, base.correlations.rho_xi_sigma, floor, cap),
            quote: Box::new(quote), input: json!({"h": heston(&base.heston), "r": r(base.correlations.rho_xi_sigma), "floor": r(floor),
                "T": r(t), "capped": cap.is_some(), "cap": r(cap.unwrap_or(0.0))}), opts, strikes: ks.clone(), vols: vs, out });
        if t > 0.0 {
            let chf = FxHhw1ForwardChf::new(&base, t);
            let pricer = CosPricer::new(&chf);
            o.push(json!({"kind": "quotes", "model": "hhw", "p": {"x": r(base.fx_0), "rd": r(base.rd_0), "rf": r(base.rf_0)}, "T": r(t), "strikes": rs(&ks),
                "unit": rs(&ks.iter().map(|k| pricer.call(*k, 1.0)).collect::<Vec<_>>()),
                "price": rs(&ks.iter().map(|k| hhwc::price_call(&base, t, *k)).collect::<Vec<_>>()),
                "vol": hhwc::model_implied_vols(&base, t, &ks).iter().map(|v| none_or(*v)).collect::<Vec<_>>(), "f": "0", "df": "0"}));
        }
    }
}

fn tenor_fits(o: &mut Vec<Value>, rng: &mut Rng, n: usize) {
    for _ in 0..n {
        let m = rng.range(1, 4) as usize;
        let p = fxfmm(rng, m);
        let end = *p.tenor.dates.last().unwrap();
        let t = end + if rng.below(3) == 0 { rng.real(0.0, 1.0) } else { 0.0 };
        let df = |r: &[f64]| (1..=m).map(|k| 1.0 / (1.0 + p.tenor.tau(k) * r[k - 1])).product::<f64>() * (-r[m - 1] * (t - end).max(0.0)).exp();
        let d = df(&p.tenor.initial_rates);
        let l = libor(rng, &p);
        hybrid!(rng, o, "fmm", fmm, FxFmmSmileCalibrator, FxFmm1ForwardChf, p.clone(), fx_params, p.fx_0, d, t,
            |q: &finquant::models::forex::fx_fmm::FxFmmParams| q.validate().is_ok());
        hybrid!(rng, o, "hlmm", hlmm, FxHlmmSmileCalibrator, FxHlmm1ForwardChf, l.clone(), libor_params, l.fx_0, d, t,
            |q: &finquant::models::forex::fx_hlmm::FxHlmmParams| q.validate().is_ok());
    }
}

pub fn fits(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    o.jobs(seed ^ 0xF175, if deep { 200 } else { 20 }, |rng| {
        let mut v = vec![];
        sabr_fits(&mut v, rng, 8);
        hhw_fits(&mut v, rng, 2);
        tenor_fits(&mut v, rng, 1);
        v
    });
    println!("COUNT fits {}", o.n);
}

fn piecewise(p: &PiecewiseConstant) -> Value {
    json!({"k": rs(&p.knots), "v": rs(&p.values)})
}

fn head(p: &PiecewiseConstant, i: usize) -> PiecewiseConstant {
    PiecewiseConstant::new(p.knots[..i + 2].to_vec(), p.values[..i + 1].to_vec())
}

/// Surfaces of SABR smiles, and strips read off volatility surfaces.
pub fn surfaces(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x5C4F);
    for _ in 0..if deep { 1500 } else { 150 } {
        let n = rng.range(1, 5) as usize;
        let (mut t, f0) = (0.0, *rng.pick(&[1.0, 1.2, 150.0]) * rng.real(0.7, 1.3));
        let b = match rng.below(4) { 0 => 1.0, 1 => rng.unit(), _ => 0.5 };
        let (a0, r0, n0) = (rng.real(0.05, 0.3), rng.real(-0.7, 0.7), rng.real(0.1, 1.2));
        // a term structure of smiles, some of which no schedule reaches
        let wild = *rng.pick(&[0.05, 0.3, 0.8]);
        let mut pillars: Vec<PillarTarget> = (0..n).map(|_| {
            t += rng.real(0.1, 1.5);
            let f = f0 * rng.real(0.95, 1.05);
            let p = SabrParams { alpha: f.powf(1.0 - b) * a0 * (1.0 + wild * rng.real(-0.7, 1.0)), beta: b,
                rho: (r0 + wild * rng.real(-1.0, 1.0)).clamp(-0.95, 0.95), nu: n0 * (1.0 + wild * rng.real(-1.0, 1.0)) / (1.0 + t).sqrt() };
            let m = rng.range(3, 6) as usize;
            let strikes: Vec<f64> = (0..m).map(|i| f * (a0 * t.sqrt() * (i as f64 * 2.5 / (m - 1) as f64 - 1.25)).exp()).collect();
            let market_vols = strikes.iter().map(|k| hagan_implied_vol(&p, f, *k, t).max(0.005) + rng.real(-0.001, 0.001)).collect();
            PillarTarget { expiry: t, forward: f, strikes, market_vols }
        }).collect();
        match rng.below(30) {
            0 if n > 1 => pillars.swap(0, 1),
            1 => pillars.clear(),
            2 => pillars[0].expiry = 0.0,
            3 if n > 1 => pillars[1].expiry = pillars[0].expiry,
            _ => {}
        }
        let opts = NelderMeadOptions { max_iter: *rng.pick(&[20, 200, 500]), ftol: 1e-10, xtol: 1e-8, step_frac: 0.15 };
        let fits: Vec<Vec<String>> = pillars.iter().map(|p| guard(|| {
            let s = SabrParams { alpha: p.market_vols[p.market_vols.len() / 2], beta: b, rho: -0.2, nu: 0.3 };
            let c = sabr::calibrate(s, p.forward, &sabr::targets_from_grid(&p.strikes, &p.market_vols), p.expiry, opts);
            rs(&[c.params.alpha, c.params.rho, c.params.nu])
        }).unwrap_or_default()).collect();
        // the effective-parameter formulas are for vols of vol of a few units
        if fits.iter().any(|f| f.len() == 3 && f[2].parse::<f64>().unwrap() > 3.0) { continue }
        let got = guard(|| calibrate_time_dependent(&pillars, b, f0, opts));
        let strips: Vec<MarketSmileStrip> = pillars.iter().map(|p| MarketSmileStrip { expiry_yf: p.expiry, forward: p.forward,
            strikes: p.strikes.clone(), vols: p.market_vols.clone() }).collect();
        let traited = guard(|| SabrTimeDependentSurfaceCalibrator { beta: b, forward_0: f0 }.calibrate(&strips, opts).unwrap());
        let out = got.map(|c| {
            let q = &c.params;
            let diags: Vec<Value> = c.per_pillar.iter().enumerate().map(|(i, d)| {
                let (nu, al) = (head(&q.nu, i), head(&q.alpha, i));
                let m = d.market_effective;
                json!({"T": r(d.expiry), "p": rs(&[m.alpha, m.rho, m.nu]), "b": r(m.beta), "first": r(d.stage1_rmse), "last": r(d.post_fit_rmse),
                    "gamma": r(effective_vol_vol(&nu, &al, d.expiry))})
            }).collect();
            let t = traited.as_ref().unwrap();
            json!({"a": piecewise(&q.alpha), "r": piecewise(&q.rho), "n": piecewise(&q.nu), "b": r(q.beta), "f": r(q.forward_0), "at": diags,
                "again": format!("{:?}", t.params) == format!("{q:?}") && t.optimiser.is_none(), "rmse": r(t.rmse)})
        });
        o.put(json!({"kind": "surface", "pillars": pillars.iter().map(|p| json!({"T": r(p.expiry), "f": r(p.forward), "strikes": rs(&p.strikes),
            "vols": rs(&p.market_vols)})).collect::<Vec<_>>(), "b": r(b), "f": r(f0), "fits": fits,
            "ok": out.is_some(), "out": out.unwrap_or(json!("refused"))}));
    }
    for _ in 0..if deep { 3000 } else { 300 } {
        let s = some_date(&mut rng);
        let n = rng.range(1, 3);
        let mut days: Vec<i32> = (0..n).map(|_| rng.range(1, 2000) as i32).collect();
        days.sort();
        days.dedup();
        let spot = rng.real(0.7, 160.0);
        let pillars: Vec<FXDeltaVolPillar> = days.iter().map(|d| FXDeltaVolPillar { expiry: date(s + d), forward: spot * rng.real(0.97, 1.03),
            quotes: some_smile(&mut rng, 0) }).collect();
        let pj: Vec<_> = pillars.iter().map(|p| json!({"e": ser(p.expiry), "f": real(p.forward),
            "q": p.quotes.iter().map(vol_quote_json).collect::<Vec<_>>()})).collect();
        let Some(Ok(surf)) = guard(|| FXVolSurface::new(date(s), pillars.clone())) else { continue };
        let v = s + if rng.below(4) == 0 { rng.range(-5, 20) as i32 } else { 0 };
        let e = if rng.below(2) == 0 { s + days[0] } else { s + rng.range(-2, 2500) as i32 };
        let mut ks: Vec<f64> = (0..rng.range(0, 5)).map(|_| spot * rng.real(-0.3, 0.3).exp()).collect();
        if rng.below(20) == 0 && !ks.is_empty() { ks[0] = 0.0 }
        let got = guard(|| smile_strip(&surf, date(v), date(e), spot, &ks));
        let out = match &got {
            None => json!({"how": "panic"}),
            Some(Err(_)) => json!({"how": "error"}),
            Some(Ok(m)) => {
                let (h, a, p) = (m.hhw_targets(), m.sabr_targets(), m.pillar_target());
                json!({"how": "ok", "T": r(m.expiry_yf), "f": r(m.forward), "strikes": rs(&m.strikes), "vols": rs(&m.vols),
                    "same": h.len() == m.vols.len() && a.len() == m.vols.len()
                        && (0..h.len()).all(|i| h[i].strike == m.strikes[i] && h[i].market_vol == m.vols[i] && a[i].strike == m.strikes[i] && a[i].market_vol == m.vols[i])
                        && p.expiry == m.expiry_yf && p.forward == m.forward && p.strikes == m.strikes && p.market_vols == m.vols})
            }
        };
        let each: Vec<String> = ks.iter().map(|k| res_real(guard(|| surf.volatility(date(e), *k)))).collect();
        o.put(json!({"kind": "strip", "s": s, "v": v, "e": e, "f": real(spot), "pillars": pj, "strikes": rs(&ks), "each": each, "out": out}));
    }
    println!("COUNT surfaces {}", o.n);
}
