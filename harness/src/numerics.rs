//! The optimiser, option formulas and the models' closed forms.
use crate::common::*;
use finquant::math::optimize::{NelderMeadOptions, nelder_mead};
use serde_json::{Value, json};

pub fn r(x: f64) -> String {
    num(Some(x))
}

pub fn rs(xs: &[f64]) -> Vec<String> {
    xs.iter().map(|x| r(*x)).collect()
}

fn search(o: &mut Out, what: &str, x0: &[f64], opts: NelderMeadOptions, f: &mut dyn FnMut(&[f64]) -> f64) {
    let mut evals: Vec<Value> = vec![];
    let got = guard(|| {
        nelder_mead(
            |x| {
                let v = f(x);
                evals.push(json!([rs(x), r(v)]));
                v
            },
            x0,
            opts,
        )
    });
    let out = match got {
        Some(m) => json!({"x": rs(&m.x), "f": r(m.f), "it": m.iterations, "converged": m.converged}),
        None => json!({"x": "panic", "f": "panic", "it": -1, "converged": false}),
    };
    // A search told nothing goes by the documented defaults
    let told = if what == "told nothing" { NelderMeadOptions { max_iter: 500, ftol: 1e-8, xtol: 1e-8, step_frac: 0.05 } } else { opts };
    o.put(json!({"what": what, "x0": rs(x0), "max": told.max_iter, "ftol": r(told.ftol), "xtol": r(told.xtol),
        "frac": r(told.step_frac), "evals": evals, "out": out}));
}

pub fn nelder(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x2E1D);
    // Objectives that answer from a script whatever they are asked: every
    // branch and tie of the search.  First all scripts of one length ...
    let (len, base) = (if deep { 8 } else { 6 }, 3usize);
    for n in 1..=2usize {
        for code in 0..base.pow(len as u32) {
            let mut c = code;
            let script: Vec<f64> = (0..len).map(|_| { let d = c % base; c /= base; d as f64 }).collect();
            // the script's last value for ever after
            let mut k = 0;
            let x0: Vec<f64> = (0..n).map(|i| 1.0 - i as f64).collect();
            let opts = NelderMeadOptions { max_iter: 4, ftol: 0.5, xtol: 0.3, step_frac: 0.5 };
            search(&mut o, "script", &x0, opts, &mut |_| { k += 1; script[(k - 1).min(len - 1)] });
        }
    }
    // ... then long random ones
    for _ in 0..if deep { 4000 } else { 400 } {
        let n = rng.range(1, 4) as usize;
        let x0: Vec<f64> = (0..n).map(|_| match rng.below(6) {
            0 => 0.0,
            3 => rng.real(-1.0, 1.0) * 10f64.powi(-(rng.range(3, 11) as i32)),
            1 => -rng.real(0.1, 3.0),
            2 => rng.real(-1e-12, 1e-12),
            _ => rng.real(0.01, 100.0),
        }).collect();
        let levels = *rng.pick(&[2u64, 3, 5, 1000]);
        let opts = NelderMeadOptions {
            max_iter: rng.range(0, 25) as usize,
            ftol: *rng.pick(&[1e-8, 0.5, 1.5]),
            xtol: *rng.pick(&[1e-8, 0.05, 0.5]),
            step_frac: *rng.pick(&[0.05, 0.5, 1.0, 1.0, 1e-5]),
        };
        let mut g = Rng(rng.next());
        let mut drift = 0.0;
        let fall = if rng.below(2) == 0 { 0.0 } else { 0.3 };
        search(&mut o, "random", &x0, opts, &mut |_| {
            drift -= fall;
            g.below(levels) as f64 + if levels > 9 { g.unit() } else { 0.0 } + drift
        });
    }
    // Real objectives, run to convergence or the cap
    for _ in 0..if deep { 300 } else { 40 } {
        let n = rng.range(1, 5) as usize;
        let t: Vec<f64> = (0..n).map(|_| rng.real(-3.0, 3.0)).collect();
        let w: Vec<f64> = (0..n).map(|_| rng.real(0.1, 10.0)).collect();
        let x0: Vec<f64> = (0..n).map(|_| if rng.below(5) == 0 { 0.0 } else { rng.real(-3.0, 3.0) }).collect();
        let mut opts = NelderMeadOptions { max_iter: rng.range(20, 250) as usize, ..Default::default() };
        if rng.below(3) == 0 {
            opts.ftol = 1e-3;
            opts.xtol = 1e-3;
        }
        let kind = rng.below(4);
        let mut f = |x: &[f64]| -> f64 {
            match kind {
                0 => x.iter().zip(&t).zip(&w).map(|((a, b), w)| w * (a - b).powi(2)).sum(),
                1 => x.iter().zip(&t).map(|(a, b)| (a - b).abs()).sum(),
                2 => x.iter().zip(&t).map(|(a, b)| (a - b).powi(2)).sum::<f64>()
                    + x.windows(2).map(|p| 20.0 * (p[1] - p[0] * p[0]).powi(2)).sum::<f64>(),
                _ => x.iter().zip(&w).map(|(a, w)| (w * a).sin() + 0.1 * a * a).sum(),
            }
        };
        search(&mut o, ["bowl", "valley", "banana", "waves"][kind as usize], &x0, opts, &mut f);
    }
    // Defaults: one bowl each for the start, the spreads and the cap on iterations
    for (k, w) in [(0, 1e6), (1, 1e-6), (2, 1.0)] {
        let mut calls = 0;
        search(&mut o, "told nothing", &[1.0, -2.0], NelderMeadOptions::default(), &mut |x| {
            calls += 1;
            if k == 2 { -(calls as f64) } else { w * (x[0] * x[0] + (x[1] - 1.0).powi(2)) }
        });
    }
    println!("COUNT searches {}", o.n);
}
