//! P14: replays histories generated from the specification on real market data and observers.
use crate::common::*;
use crate::fx::some_pillars;
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::error::{Error, Result};
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::interestrate::volsurface::{IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::{YieldTermMarketData, YieldTermStructure};
use finquant::patterns::observer::{Observable, Observer};
use finquant::time::businessdayconvention::BusinessDayConvention;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period;
use iso_currency::Currency;
use serde_json::{Value, json};
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use std::str::FromStr;

type Calls = Rc<RefCell<Vec<(i64, &'static str)>>>;

#[derive(Debug)]
struct Probe {
    id: i64,
    fails: bool,
    calls: Calls,
}

fn kind(o: &dyn Observable) -> &'static str {
    let a = o.as_any();
    if a.is::<FXForwardHelper>() { "fx" } else if a.is::<YieldTermMarketData>() { "yield" }
    else if a.is::<IRCapMarketData>() { "cap" } else { "?" }
}

impl Observer for Probe {
    fn update(&mut self, o: &dyn Observable) -> Result<()> {
        self.calls.borrow_mut().push((self.id, kind(o)));
        if self.fails { Err(Error::InvalidData("probe".into())) } else { Ok(()) }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

fn ois(version: i64) -> Vec<OISRate> {
    [Period::Months(1), Period::Months(6)].into_iter().enumerate().map(|(i, period)| OISRate {
        value: 0.01 + 0.001 * version as f64 + 0.0001 * i as f64,
        interest_rate_index: InterestRateIndex { period, settlement_days: 2, currency: Currency::EUR,
            calendar: Box::new(Target), convention: BusinessDayConvention::ModifiedFollowing,
            day_counter: Box::<Actual365Fixed>::default(), end_of_month: false },
    }).collect()
}

/// The market data of a version: its quotes and its date.
fn market(s: i32, version: i64) -> YieldTermMarketData {
    YieldTermMarketData::new(date(s + version as i32), ois(version), vec![], vec![])
}

/// The version of the data a curve shows: -1 as it was made, -2 for anything mixed.
fn version(c: &YieldTermStructure, s: i32) -> i64 {
    let held = |v: i64| format!("{:?}", market(s, v).get_stripped_curve().expect("strips")) == format!("{:?}", c.stripped_curves);
    if c.valuation_date != date(s) { return -2 }
    let v: Vec<i64> = c.stripped_curves.iter().enumerate()
        .map(|(i, p)| ((p.market_rate - 0.01 - 0.0001 * i as f64) / 0.001).round() as i64).collect();
    match v.as_slice() {
        [a] if c.stripped_curves[0].market_rate == 0.5 && *a == 490 => -1,
        [a, b] if a == b && held(*a) => *a,
        _ => -2,
    }
}

fn replay(acts: &[Value]) -> Value {
    let s = 738_700;
    let calls: Calls = Rc::default();
    let mut rng = Rng(7);
    let mut pillars = some_pillars(&mut rng, s, 1, false);
    pillars.v[0].market_rate = 0.5;
    let curve = Rc::new(RefCell::new(pillars.curve(s)));
    let surface = Rc::new(RefCell::new(IRNormalVolSurface::new(date(s))));
    let probes: Vec<_> = (1..=3).map(|id| Rc::new(RefCell::new(Probe { id, fails: false, calls: calls.clone() }))).collect();
    let mut owned: Vec<Option<Rc<RefCell<dyn Observer>>>> = vec![];
    for p in &probes {
        owned.push(Some(p.clone()));
    }
    owned.push(Some(curve.clone()));
    owned.push(Some(surface.clone()));
    // only `owned` keeps an observer alive
    let weak: Vec<_> = probes.iter().map(Rc::downgrade).collect();
    let (wc, ws) = (Rc::downgrade(&curve), Rc::downgrade(&surface));
    drop((probes, curve, surface));
    let quote = |v: i64| FXForwardQuote { tenor: Period::Months(1), value: v as f64 };
    let mut fx = FXUnderlying::from_str("EURUSD").unwrap().forward_helper(date(s), 1.1, vec![quote(0)]);
    let mut yd = market(s, 0);
    let mut cap = IRCapMarketData::new(date(s), vec![]);
    let mut ver = [0i64; 3];
    let mut seen = -1;
    let mut saw = vec![];
    for a in acts {
        let arg = |i: usize| a[i].as_i64().unwrap_or(0);
        let name = a[1].as_str().unwrap_or("");
        let mut ok = true;
        calls.borrow_mut().clear();
        match a[0].as_str().unwrap() {
            "attach" => {
                let o = owned[arg(2) as usize - 1].clone().expect("alive");
                match name { "fx" => fx.attach(o), "yield" => yd.attach(o), _ => cap.attach(o) }
            }
            "drop" => owned[arg(2) as usize - 1] = None,
            "edit" => match name {
                "fx" => { ver[0] += 1; fx.quotes = vec![quote(ver[0])] }
                "yield" => { ver[1] += 1; yd.cash_quote = ois(ver[1]); yd.valuation_date = date(s + ver[1] as i32) }
                _ => { ver[2] += 1; cap.valuation_date = date(s + ver[2] as i32) }
            },
            "fail" => weak[arg(2) as usize - 1].upgrade().unwrap().borrow_mut().fails = true,
            "heal" => weak[arg(2) as usize - 1].upgrade().unwrap().borrow_mut().fails = false,
            "notify" => ok = match name { "fx" => fx.notify_observers(), "yield" => yd.notify_observers(), _ => cap.notify_observers() }.is_ok(),
            _ => unreachable!(),
        }
        if let Some(c) = wc.upgrade() { seen = version(&c.borrow(), s) }
        // what a surface knows, and calls that came from another subject
        let mut odd = ws.upgrade().map_or(0, |x| {
            let x = x.borrow();
            (x.pillars.len() as i64) + (x.valuation_date != date(s)) as i64
        });
        odd += calls.borrow().iter().filter(|c| c.1 != name).count() as i64;
        let who: Vec<i64> = calls.borrow().iter().map(|c| c.0).collect();
        saw.push(json!([who, ok, seen, odd]));
    }
    json!(saw)
}

pub fn record(out: &str, args: &[String]) {
    let mut o = Out::new(out);
    let path = args.get(2).expect("histories");
    for line in std::fs::read_to_string(path).expect("histories").lines() {
        let acts: Vec<Value> = serde_json::from_str(line).expect("history");
        let saw = guard(|| replay(&acts)).unwrap_or_else(|| json!(vec![json!(["panic"]); acts.len()]));
        o.put(json!({"k": "history", "acts": acts, "saw": saw}));
    }
}
