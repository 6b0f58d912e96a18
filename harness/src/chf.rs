//! Characteristic functions of the hybrids and the option prices made of them.
use crate::common::*;
use crate::fmm::{fx_params, fxfmm, heston, libor, libor_params, spoil};
use crate::mc::hhw;
use crate::numerics::{r, rs};
use finquant::models::common::cos_pricer::*;
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use num_complex::Complex64;
use serde_json::{Value, json};

fn c(z: Complex64) -> Value {
    json!(rs(&[z.re, z.im]))
}

/// Arguments on the axis and in the strip where expectations exist.
fn args(rng: &mut Rng, n: usize) -> Vec<Complex64> {
    let mut us = vec![Complex64::new(0.0, 0.0), Complex64::new(0.0, -1.0)];
    for _ in 0..n {
        let w = *rng.pick(&[0.5, 3.0, 20.0]);
        us.push(Complex64::new(rng.real(-w, w), if rng.below(2) == 0 { 0.0 } else { -rng.unit() }));
    }
    us
}

/// Weighted normal laws of the logarithm.
struct Mix(Vec<[f64; 3]>, f64);
impl ForwardChf for Mix {
    fn evaluate(&self, u: Complex64) -> Complex64 {
        self.0.iter().map(|m| m[0] * (Complex64::new(0.0, 1.0) * u * m[1] - u * u * m[2] / 2.0).exp()).sum()
    }
    fn expiry(&self) -> f64 {
        self.1
    }
    fn log_forward(&self) -> f64 {
        self.0[0][1]
    }
    fn typical_variance(&self) -> f64 {
        self.0[0][2] / self.1
    }
}

fn price<C: ForwardChf>(o: &mut Out, rng: &mut Rng, chf: &C, mix: &[[f64; 3]], terms: &[usize]) {
    let p = CosPricer::new(chf);
    let (mut lo, mut hi) = p.range;
    o.put(json!({"kind": "range", "in": {"x": r(chf.log_forward()), "v": r(chf.typical_variance()), "T": r(chf.expiry())},
        "out": {"n": p.n_terms, "lo": r(lo), "hi": r(hi)}}));
    let (x, s) = (chf.log_forward(), (chf.typical_variance() * chf.expiry()).sqrt().max(1e-6));
    let n = *rng.pick(terms);
    let mut p = p.with_n_terms(n);
    if rng.below(2) == 0 {
        (lo, hi) = (x - s * rng.real(2.0, 12.0), x + s * rng.real(2.0, 12.0));
        p = p.with_range(lo, hi);
    }
    let mut ks: Vec<f64> = (0..3).map(|_| (x + s * rng.real(-3.0, 3.0)).exp()).collect();
    ks.extend([x.exp(), (x + s * rng.real(-30.0, 30.0)).exp(), (lo - rng.unit() * (hi - lo)).exp(), (hi + rng.unit() * (hi - lo)).exp()]);
    let df = *rng.pick(&[1.0, rng_df(n)]);
    let phi: Vec<Value> = if mix.is_empty() {
        (0..n).map(|k| c(chf.evaluate(Complex64::new(k as f64 * std::f64::consts::PI / (hi - lo), 0.0)))).collect()
    } else { vec![] };
    let out: Vec<Value> = ks.iter().map(|k| json!([num(guard(|| p.call(*k, df))), num(guard(|| p.put(*k, df)))])).collect();
    o.put(json!({"kind": "prices", "in": {"mix": mix.iter().map(|m| rs(m)).collect::<Vec<_>>(), "phi": phi, "n": n, "lo": r(lo), "hi": r(hi),
        "ks": rs(&ks), "df": r(df)}, "out": out}));
}

fn rng_df(n: usize) -> f64 {
    0.8 + 0.001 * n as f64
}

pub fn record(out: &str, args_: &[String]) {
    let (seed, deep) = seed_deep(args_);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xC4F);
    for i in 0..if deep { 500 } else { 90 } {
        // short rates
        let (mut p, mut pj) = hhw(&mut rng);
        match rng.below(8) {
            0 => p.heston.gamma = *rng.pick(&[0.0, 1e-8, 1e-3]),
            1 => p.heston.sigma_0 *= 20.0,
            2 => { p.domestic.mean_reversion = 0.0; pj["ld"] = json!("0.0"); }
            _ => {}
        }
        pj["h"] = heston(&p.heston);
        let expiry = *rng.pick(&[0.02, 0.5, 1.0, 10.0]) * rng.real(0.5, 1.5);
        let n = *rng.pick(&[2, 4, 8, 16, 16, 32, 128, 3, 0, 1]);
        let us = args(&mut rng, 3);
        let default = n == 128 && rng.below(2) == 0;
        let got = guard(|| if default { FxHhw1ForwardChf::new(&p, expiry) } else { FxHhw1ForwardChf::with_simpson_steps(&p, expiry, n) });
        let mut taus = vec![expiry];
        if n < 128 {
            taus.extend([0.0, rng.unit() * expiry, expiry * 1.01, -0.1]);
        }
        let ins = json!({"p": pj, "T": r(expiry), "n": n, "us": us.iter().map(|u| c(*u)).collect::<Vec<_>>(), "taus": rs(&taus)});
        match &got {
            None => o.put(json!({"kind": "short", "in": ins, "out": {"ok": false}})),
            Some(f) => {
                let at: Vec<Vec<Value>> = taus.iter().map(|t| us.iter().map(|u| match guard(|| f.components(*u, *t)) {
                    None => json!({"ok": false}),
                    Some(w) => {
                        let mut v = json!({"ok": true, "a": c(w.a), "b": c(w.b), "c": c(w.c)});
                        if *t == expiry { v["phi"] = c(f.evaluate(*u)); }
                        v
                    }
                }).collect()).collect();
                o.put(json!({"kind": "short", "in": ins, "out": {"ok": true, "at": at, "x": r(f.log_forward()), "v": r(f.typical_variance())}}));
                if i % 4 == 0 {
                    price(&mut o, &mut rng, f, &[], &[16, 32]);
                }
            }
        }
        // term rates
        for market in [false, true] {
            let m = rng.range(1, 4) as usize;
            let mut p = fxfmm(&mut rng, m);
            match rng.below(8) {
                0 => p.heston.gamma = *rng.pick(&[0.0, 1e-8, 1e-3]),
                1 => p.heston.sigma_0 *= 20.0,
                2 => p.domestic.eta = *rng.pick(&[1e-9, 1e-5, 0.01]),
                3 => p.foreign.eta = *rng.pick(&[1e-9, 1e-5, 0.01]),
                4 => spoil(&mut rng, &mut p, m),
                _ => {}
            }
            if p.domestic.sigmas.iter().chain(&p.foreign.sigmas).any(|s| s.is_infinite()) {
                continue;
            }
            let end = p.tenor.dates[m];
            let expiry = match rng.below(8) { 0 => end + rng.real(0.05, 1.0), 1 => rng.real(0.05, 1.0) * end, 2 => *rng.pick(&[0.0, -0.5]), _ => end };
            let n = *rng.pick(&[2, 2, 4, 4, 8, 3, 32]);
            let sub = *rng.pick(&[1, 1, 1, 2, 3, 0]);
            let us = args(&mut rng, 3);
            let uj: Vec<Value> = us.iter().map(|u| c(*u)).collect();
            if market {
                let default = n == 32;
                let sub = if default { 1 } else { sub };
                let got = guard(|| if default { FxFmm1ForwardChf::new(&p, expiry) } else { FxFmm1ForwardChf::with_resolution(&p, expiry, sub, n) });
                let ins = json!({"libor": false, "p": fx_params(&p), "T": r(expiry), "n": n, "sub": sub, "us": uj});
                match &got {
                    None => o.put(json!({"kind": "term", "in": ins, "out": {"ok": false}})),
                    Some(f) => {
                        let at: Vec<Value> = us.iter().map(|u| { let w = f.components(*u);
                            json!({"a": c(w.a), "b": c(w.b), "c": c(w.c), "dd": c(w.d_d), "df": c(w.d_f), "phi": c(f.evaluate(*u))}) }).collect();
                        o.put(json!({"kind": "term", "in": ins, "out": {"ok": true, "at": at, "x": r(f.log_forward()), "v": r(f.typical_variance())}}));
                        if i % 4 == 1 { price(&mut o, &mut rng, f, &[], &[16, 32]); }
                    }
                }
            } else {
                let p = libor(&mut rng, &p);
                let got = guard(|| if n == 32 { FxHlmm1ForwardChf::new(&p, expiry) } else { FxHlmm1ForwardChf::with_simpson_steps(&p, expiry, n) });
                let ins = json!({"libor": true, "p": libor_params(&p), "T": r(expiry), "n": n, "sub": 1, "us": uj});
                match &got {
                    None => o.put(json!({"kind": "term", "in": ins, "out": {"ok": false}})),
                    Some(f) => {
                        let at: Vec<Value> = us.iter().map(|u| { let w = f.components(*u);
                            json!({"a": c(w.a), "b": c(w.b), "c": c(w.c), "dd": c(w.d_d), "df": c(w.d_f), "phi": c(f.evaluate(*u))}) }).collect();
                        o.put(json!({"kind": "term", "in": ins, "out": {"ok": true, "at": at, "x": r(f.log_forward()), "v": r(f.typical_variance())}}));
                        if i % 4 == 2 { price(&mut o, &mut rng, f, &[], &[16, 32]); }
                    }
                }
            }
        }
        // laws whose prices are known
        let t = rng.real(0.02, 3.0);
        let x = rng.real(-4.0, 5.0);
        let s = *rng.pick(&[0.02, 0.1, 0.4]) * rng.real(0.5, 1.5);
        let two = rng.below(2) == 0;
        let w = if two { rng.real(0.3, 0.9) } else { 1.0 };
        let mut mix = vec![[w, x, s * s]];
        if two {
            mix.push([1.0 - w, x + s * rng.real(-2.0, 2.0), s * s * rng.real(0.3, 1.5)]);
        }
        price(&mut o, &mut rng, &Mix(mix.clone(), t), &mix, &[2, 40, 64, 128, 128]);
        let f = Mix(mix, t);
        let (n, lo, hi, k) = (rng.range(0, 4) as usize, rng.real(-1.0, 1.0), *rng.pick(&[-2.0, 0.0, 2.0]), *rng.pick(&[1.0, 1.0, 1.0, 0.0, -1.0]));
        let got = guard(|| CosPricer::new(&f).with_n_terms(n).with_range(lo, hi).call(k, 1.0));
        o.put(json!({"kind": "refusals", "in": {"n": n, "lo": r(lo), "hi": r(hi), "k": r(k)}, "out": if got.is_some() { "ok" } else { "panic" }}));
    }
    println!("COUNT functions {}", o.n);
}
