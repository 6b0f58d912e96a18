//! The Monte-Carlo runner and the models it moves.
use crate::common::*;
use crate::conventions::{counter, counters};
use crate::numerics::r;
use finquant::models::common::simulation::*;
use finquant::time::daycounters::DayCounters;
use serde_json::{Value, json};
use std::cell::RefCell;

/// Writes down what it is asked; its states are numbers never used twice.
struct Probe {
    calls: RefCell<Vec<Value>>,
    fresh: RefCell<u32>,
}

impl Probe {
    fn new_state(&self) -> u32 {
        *self.fresh.borrow_mut() += 1;
        *self.fresh.borrow()
    }
}

impl SimulationModel for Probe {
    type State = u32;
    fn initial_state(&self) -> u32 {
        let s = self.new_state();
        self.calls.borrow_mut().push(json!(["initial", "0", "0.0", "0.0", s.to_string()]));
        s
    }
    fn step(&mut self, state: &u32, t: f64, dt: f64) -> u32 {
        let s = self.new_state();
        self.calls.borrow_mut().push(json!(["step", state.to_string(), r(t), r(dt), s.to_string()]));
        s
    }
}

pub fn runner(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x2C22);
    for i in 0..if deep { 3000 } else { 350 } {
        let s = ser(ymd(2019, 1, 1)) + rng.below(3000) as i32;
        let span = *rng.pick(&[3, 10, 40, 400]);
        let m = rng.range(1, 6);
        let mut obs: Vec<i32> = (0..m).map(|_| s + rng.range(1, span) as i32).collect();
        if rng.below(3) == 0 {
            obs.push(obs[0]);
        }
        let mut n = rng.range(1, 4) as usize;
        let mut cap = if span > 50 { rng.range(5, 500) } else { rng.range(1, 45) } as u32;
        if i % 25 == 0 {
            match rng.below(4) {
                0 => obs.clear(),
                1 => n = 0,
                2 => cap = 0,
                _ => obs.push(s - rng.below(2) as i32),
            }
        }
        let x: Vec<i32> = (0..span as i32 + 1).filter(|_| rng.below(6) == 0).map(|k| s + k).collect();
        let all = counters(s + rng.range(0, span) as i32);
        let t = s; // the termination date below
        let (name, dc): (String, Box<dyn DayCounters>) = if rng.below(5) == 0 {
            ("Business252".into(), serde_json::from_value(json!({"type": "Business252",
                "calendar": {"type": "Pattern", "we": true, "x": x}})).expect("b252"))
        } else {
            let (name, js) = rng.pick(&all).clone();
            // the same termination date for all, so that the record needs only one
            let js = if name.ends_with("ISDA") || name.ends_with("German") {
                counters(t).into_iter().find(|c| c.0 == name).unwrap().1
            } else { js };
            (name, counter(&js))
        };
        let mut probe = Probe { calls: RefCell::new(vec![]), fresh: RefCell::new(0) };
        let dates: Vec<_> = obs.iter().map(|d| date(*d)).collect();
        let got = guard(|| simulate_at_dates(&mut probe, date(s), &dates, n, cap, &*dc));
        let mut ask = obs.clone();
        ask.extend((0..3).map(|_| s + rng.range(0, span + 2) as i32));
        ask.sort();
        ask.dedup();
        let none = || vec!["none".to_string()];
        let out = match &got {
            None => json!({"paths": [["panic"]], "dates": [], "s": 0, "n": 0, "at": [], "sample": []}),
            Some(g) => json!({
                "paths": g.paths.iter().map(|p| p.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "dates": g.observation_dates.iter().map(|d| ser(*d)).collect::<Vec<_>>(),
                "s": ser(g.valuation_date), "n": g.n_paths(),
                "at": ask.iter().map(|d| g.states_at(date(*d)).map_or(none(), |v| v.iter().map(|x| x.to_string()).collect())).collect::<Vec<_>>(),
                "sample": ask.iter().map(|d| g.sample(date(*d), |x| *x as f64)
                    .map_or(none(), |v| v.iter().map(|x| (*x as u32).to_string()).collect())).collect::<Vec<_>>(),
            }),
        };
        let x: Vec<i32> = if name == "Business252" { x } else { vec![] };
        o.put(json!({"dc": name, "s": s, "t": t, "obs": obs, "n": n, "cap": cap, "x": x, "ask": ask,
            "calls": *probe.calls.borrow(), "out": out}));
    }
    println!("COUNT runs {}", o.n);
}
