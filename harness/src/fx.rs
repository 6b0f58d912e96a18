//! FX forward points, forwards, vanilla options and the volatility surface.
use crate::common::*;
use crate::conventions::{PAIRS, pair};
use crate::pattern::*;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{CurrencyValue, FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType, black_scholes};
use finquant::error::Result;
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use finquant::markets::termstructures::yieldcurve::{
    InterestRateQuoteEnum, StrippedCurve, YieldTermStructure,
};
use finquant::time::calendars::{Calendar, China, Target, WeekendsOnly};
use finquant::time::period::Period;
use serde_json::{Value, json};

pub const TENORS: &[Period] = &[Period::ON, Period::TN, Period::SPOT, Period::SN, Period::Days(1),
    Period::Days(4), Period::Weeks(1), Period::Weeks(2), Period::Weeks(3), Period::Months(1),
    Period::Months(2), Period::Months(3), Period::Months(4), Period::Months(6), Period::Months(9),
    Period::Years(1), Period::Months(18), Period::Years(2), Period::Years(3)];

pub fn some_date(rng: &mut Rng) -> i32 {
    let (y, m) = (rng.range(2005, 2045) as i32, rng.range(1, 12) as u32);
    match rng.below(3) {
        0 => ser(ymd(y, m, days_in_month(y, m))) - rng.below(5) as i32,
        _ => ser(ymd(y, m, 1)) + rng.below(28) as i32,
    }
}

pub fn real(x: f64) -> Value {
    json!(num(Some(x)))
}

/// An optional real: its value, "none", "error" or "panic".
pub fn opt_real(r: Option<Result<Option<f64>>>) -> String {
    match r {
        None => "panic".into(),
        Some(Err(_)) => "error".into(),
        Some(Ok(None)) => "none".into(),
        Some(Ok(Some(x))) => num(Some(x)),
    }
}

pub fn res_real(r: Option<Result<f64>>) -> String {
    opt_real(r.map(|x| x.map(Some)))
}

pub fn some_quotes(rng: &mut Rng, n: usize, size: f64) -> Vec<FXForwardQuote> {
    let mut t: Vec<Period> = TENORS.to_vec();
    let mut q = vec![];
    for _ in 0..n {
        let i = rng.below(t.len() as u64) as usize;
        q.push(FXForwardQuote { tenor: t.swap_remove(i), value: (rng.real(-size, size) * 100.0).round() / 100.0 });
    }
    q
}

pub fn quotes_json(q: &[FXForwardQuote]) -> Vec<Value> {
    q.iter().map(|q| json!([period_json(q.tenor), real(q.value)])).collect()
}

/// P10: forward points between and at quoted settlement dates.
pub fn points(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xF0);
    for i in 0..if deep { 16000 } else { 2000 } {
        let s = some_date(&mut rng);
        let n = [0, 1, 2, 2, 3, 5, 8, 12][rng.below(8) as usize];
        let quotes = some_quotes(&mut rng, n, 300.0);
        let (name, lag, p, cal): (String, i8, Pattern, Box<dyn Calendar>) = if i % 3 == 0 {
            let name = rng.pick(PAIRS);
            let u = pair(name);
            let p = Pattern { we: true, x: pattern_of(&u.calendar(), s - 40, s + 1200) };
            (name.to_string(), u.settles(), p.clone(), Box::new(p))
        } else {
            let mut x: Vec<i32> = (0..60).map(|_| s + rng.below(1200) as i32).collect();
            x.extend((-6..12).filter(|_| rng.below(4) == 0).map(|k| s + k));
            x.sort();
            x.dedup();
            let p = Pattern { we: true, x };
            ("any".into(), 2, p.clone(), Box::new(p))
        };
        let helper = if name == "any" {
            FXForwardHelper::new(date(s), rng.real(0.01, 200.0), quotes.clone())
        } else {
            pair(&name).forward_helper(date(s), rng.real(0.01, 200.0), quotes.clone())
        };
        // ask before, at, around and between the quoted dates, and beyond
        let mut ask: Vec<i32> = (-2..=9).map(|k| s + k).collect();
        for q in &quotes {
            if let Some(Ok(d)) = guard(|| match name.as_str() {
                "any" => q.tenor.settlement_date(date(s), &*cal),
                n => pair(n).settlement_date(q.tenor, date(s)),
            }) {
                ask.extend((-1..=1).map(|k| ser(d) + k));
            }
        }
        ask.extend((0..12).map(|_| s + rng.below(820) as i32));
        ask.sort();
        ask.dedup();
        let q: Vec<_> = ask.iter()
            .map(|t| json!([t, opt_real(guard(|| helper.get_forward(date(*t), &*cal)))]))
            .collect();
        o.put(json!({"k": "points", "pair": name, "lag": lag, "s": s, "we": p.we, "x": p.x,
            "quotes": quotes_json(&quotes), "q": q}));
    }
}

// ------------------------------------------------------------------ curves
pub struct Pillars {
    pub v: Vec<StrippedCurve>,
}

/// Pillars after the valuation date, some of them hidden, none negative beyond reason.
pub fn some_pillars(rng: &mut Rng, s: i32, n: usize, hide: bool) -> Pillars {
    let mut d = s + rng.range(1, 9) as i32;
    let mut z = rng.real(-0.01, 0.07);
    let mut v = vec![];
    for _ in 0..n {
        v.push(StrippedCurve {
            // only the zero rate is read
            first_settle_date: date(s + rng.range(0, 30) as i32),
            date: date(d),
            market_rate: rng.real(-1.0, 99.0),
            zero_rate: z,
            discount: rng.real(0.3, 1.1),
            source: *rng.pick(&[InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures, InterestRateQuoteEnum::Swap]),
            hidden_pillar: hide && rng.below(4) == 0,
        });
        d += [1, rng.range(2, 20), rng.range(20, 400), rng.range(200, 1500)][rng.below(4) as usize] as i32;
        z += rng.real(-0.008, 0.008);
    }
    if v.iter().all(|p| p.hidden_pillar) {
        let i = rng.below(n as u64) as usize;
        v[i].hidden_pillar = false;
    }
    Pillars { v }
}

impl Pillars {
    pub fn curve(&self, s: i32) -> YieldTermStructure {
        // neither the calendar nor the day counter of a curve has a say in its discounts
        let dc = ["Actual360", "Actual365Fixed", "Thirty365", "Actual366"][s as usize % 4];
        let js = if dc == "Actual365Fixed" { r#"{"type":"Actual365Fixed","market":null}"#.into() } else { format!(r#"{{"type":"{dc}"}}"#) };
        let c: Box<dyn Calendar> = match s % 3 { 0 => Box::new(Target), 1 => Box::new(WeekendsOnly), _ => Box::new(China) };
        YieldTermStructure::new(c, crate::conventions::counter(&js), date(s), self.v.clone())
    }
    pub fn json(&self) -> Vec<Value> {
        pillars_json(&self.v)
    }
}

pub fn pillars_json(v: &[StrippedCurve]) -> Vec<Value> {
    v.iter().map(|p| json!([ser(p.date), num(Some(p.zero_rate)), p.hidden_pillar])).collect()
}

// ------------------------------------------------------------------ values
/// Neither when the deal was struck nor when it delivers bears on its value.
fn info(rng: &mut Rng, style: Style, dir: i32, now: NaiveDate, expiry: NaiveDate) -> BasicInfo {
    let (trade, delivery) = (ser(now) - [0, 1, 30, 400, -5][rng.below(5) as usize], ser(expiry) + [0, 2, 5, 90, -1][rng.below(5) as usize]);
    BasicInfo { trade_date: date(trade), style, direction: direction(dir), expiry_date: expiry, delivery_date: date(delivery) }
}

pub fn direction(dir: i32) -> Direction {
    if dir > 0 { Direction::Buy } else { Direction::Sell }
}

pub fn cv(r: Option<Result<CurrencyValue>>) -> Value {
    match r {
        None => json!(["panic", "none"]),
        Some(Err(e)) => json!([if format!("{e:?}").contains("TradeExpired") { "expired" } else { "error" }, "none"]),
        Some(Ok(v)) => json!([num(Some(v.value)), v.currency.code()]),
    }
}

fn scenario(rng: &mut Rng, name: &str, s: i32) -> (FXUnderlying, Vec<FXForwardQuote>, Pillars, f64, i32) {
    let u = pair(name);
    let nq = rng.range(2, 7) as usize;
    let quotes = some_quotes(rng, nq, 400.0);
    let np = rng.range(1, 6) as usize;
    let pil = some_pillars(rng, s, np, true);
    let spot = if name.ends_with("JPY") { rng.real(80.0, 190.0) } else { rng.real(0.6, 2.0) };
    // an expiry inside the quoted range, mostly
    let mut ends: Vec<i32> = quotes.iter()
        .filter_map(|q| u.settlement_date(q.tenor, date(s)).ok()).map(ser).collect();
    ends.sort();
    let (lo, hi) = (ends[0], *ends.last().unwrap());
    let expiry = match rng.below(10) {
        0 => s + rng.range(-3, 3) as i32,
        1 => hi + rng.range(0, 3) as i32,
        2 => lo + rng.range(-2, 2) as i32,
        3 => *rng.pick(&ends),
        _ => lo + rng.below((hi - lo + 1) as u64) as i32,
    };
    (u, quotes, pil, spot, expiry)
}

/// P11 and P18: what a forward and an option are worth.
pub fn values(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xFA);
    for i in 0..if deep { 12000 } else { 2000 } {
        let name = PAIRS[i % PAIRS.len()];
        let s = some_date(&mut rng);
        let (u, quotes, pil, spot, expiry) = scenario(&mut rng, name, s);
        let x = pattern_of(&u.calendar(), s - 40, s + 1200);
        let calendar = u.calendar();
        let (dom, frn) = (u.dom_currency(), u.frn_currency());
        let helper = u.forward_helper(date(s), spot, quotes.clone());
        let pil2 = some_pillars(&mut rng, s, 2, false);
        let market = FxMarketContext::for_linear(date(s), spot, (dom, frn), pil.curve(s), pil2.curve(s), helper)
            .expect("context");
        let outright = res_real(guard(|| market.forward_at(date(expiry), &calendar)));
        let rates: Vec<String> = [
            guard(|| market.rate_d(date(expiry))), guard(|| market.rate_f(date(expiry))),
            guard(|| market.discount_d(date(expiry))), guard(|| market.discount_f(date(expiry)))]
            .into_iter().map(res_real).collect();
        let strike = spot * rng.real(0.8, 1.25);
        let notional = (rng.real(1.0, 5e6)).round();
        let base = json!({"pair": name, "s": s, "we": true, "x": x, "lag": u.settles(), "quotes": quotes_json(&quotes),
            "pil": pil.json(), "pil2": pil2.json(), "spot": num(Some(spot)), "expiry": expiry,
            "strike": num(Some(strike)), "notional": num(Some(notional)), "outright": outright,
            "rates": rates});
        let (ccy, cname) = if rng.below(2) == 0 { (frn, "frn") } else { (dom, "dom") };
        let dir = if rng.below(2) == 0 { 1 } else { -1 };
        {
            let f = FXForward { basic_info: info(&mut rng, Style::FXForward, dir, date(s), date(expiry)), asset: pair(name),
                notional_currency: ccy, notional_amounts: notional, strike };
            let mut r = base.clone();
            let m = r.as_object_mut().unwrap();
            m.insert("k".into(), json!("forward"));
            m.insert("ccy".into(), json!(cname));
            m.insert("dir".into(), json!(dir));
            m.insert("mtm".into(), cv(guard(|| f.mtm(&market))));
            m.insert("delta".into(), cv(guard(|| f.delta(&market))));
            m.insert("gamma".into(), json!(res_real(guard(|| f.gamma(&market)))));
            m.insert("vega".into(), json!(res_real(guard(|| f.vega(&market)))));
            o.put(r);
        }
        let vol = match rng.below(12) {
            0 => 0.0,
            1 => rng.real(0.8, 2.5),
            2 => rng.real(0.002, 0.01),
            _ => rng.real(0.02, 0.4),
        };
        for (ot, on) in [(OptionType::Call, "call"), (OptionType::Put, "put")] {
            let style = if on == "call" { Style::FXCall } else { Style::FXPut };
            let f = FXVanillaOption { basic_info: info(&mut rng, style, dir, date(s), date(expiry)), asset: pair(name),
                option_type: ot, notional_currency: ccy, notional_amounts: notional, strike, volatility: vol };
            let mut r = base.clone();
            let m = r.as_object_mut().unwrap();
            m.insert("k".into(), json!("option"));
            m.insert("type".into(), json!(on));
            m.insert("vol".into(), real(vol));
            m.insert("ccy".into(), json!(cname));
            m.insert("dir".into(), json!(dir));
            m.insert("mtm".into(), cv(guard(|| f.mtm(&market))));
            m.insert("delta".into(), cv(guard(|| f.delta(&market))));
            m.insert("gamma".into(), json!(res_real(guard(|| f.gamma(&market)))));
            m.insert("vega".into(), json!(res_real(guard(|| f.vega(&market)))));
            o.put(r);
        }
        // the formula itself
        let v = [0.0, -0.01, rng.real(0.0, 0.01), rng.real(0.0, 2.0)][rng.below(4) as usize];
        let (f, k, d) = (spot, [strike, spot][rng.below(2) as usize], rng.real(0.3, 1.05));
        let px = |t| num(guard(|| black_scholes(f, k, v, d, t)));
        o.put(json!({"k": "formula", "f": num(Some(f)), "strike": num(Some(k)), "v": real(v), "df": real(d),
            "call": px(OptionType::Call), "put": px(OptionType::Put)}));
    }
}

// ------------------------------------------------------------------ vol surface
pub fn vol_quote_json(q: &FXVolQuote) -> Value {
    match *q {
        FXVolQuote::Atm(v) => json!(["atm", real(v), "0"]),
        FXVolQuote::Call { delta, vol } => json!(["call", real(delta), real(vol)]),
        FXVolQuote::Put { delta, vol } => json!(["put", real(delta), real(vol)]),
        FXVolQuote::RiskReversal { delta, vol } => json!(["rr", real(delta), real(vol)]),
        FXVolQuote::Butterfly { delta, vol } => json!(["bf", real(delta), real(vol)]),
    }
}

pub fn some_smile(rng: &mut Rng, flaw: u64) -> Vec<FXVolQuote> {
    let atm = rng.real(0.03, 0.35);
    let mut deltas = vec![0.05, 0.10, 0.15, 0.25, 0.35, 0.4];
    let n = rng.range(1, 4) as usize;
    while deltas.len() > n {
        let i = rng.below(deltas.len() as u64) as usize;
        deltas.remove(i);
    }
    // sometimes two deltas that are close, on neighbouring volatilities
    let close = if rng.below(3) == 0 { [3e-2, 1e-2, 5e-3, 1e-3, 1e-5][rng.below(5) as usize] } else { 0.0 };
    if close > 0.0 {
        let i = rng.below(deltas.len() as u64) as usize;
        deltas.insert(i + 1, deltas[i] + close);
    }
    let mut q = vec![FXVolQuote::Atm(atm)];
    let (mut wing, mut skew) = (0.0, 0.0);
    for (i, d) in deltas.iter().enumerate() {
        let d = *d;
        if i == 0 || d - deltas[i - 1] > close {
            wing = atm * (0.25f64 - d).abs() * rng.real(0.0, 0.5) + atm * rng.real(0.0, 0.02);
            skew = atm * rng.real(-0.12, 0.12);
        } else {
            wing *= 1.0 - close * rng.real(0.0, 2.0);
            skew *= 1.0 - close * rng.real(0.0, 2.0);
        }
        let (c, p) = (atm + wing + 0.5 * skew, atm + wing - 0.5 * skew);
        let direct = rng.below(3);
        if direct != 0 {
            q.push(FXVolQuote::Call { delta: d, vol: c });
            q.push(FXVolQuote::Put { delta: d + if rng.below(5) == 0 { 1e-11 } else { 0.0 }, vol: p });
        }
        if direct != 1 {
            // beside direct quotes these must not matter
            let e = if direct == 2 { 0.01 } else { 0.0 };
            q.push(FXVolQuote::RiskReversal { delta: d, vol: c - p + e });
            q.push(FXVolQuote::Butterfly { delta: d, vol: 0.5 * (c + p) - atm + e });
        }
    }
    match flaw {
        1 => { q.remove(0); }
        2 => q.push(FXVolQuote::Atm(atm)),
        3 => q.push(FXVolQuote::Call { delta: 0.2, vol: atm }),
        4 => q.push(FXVolQuote::Put { delta: 0.5, vol: atm }),
        5 => q.push(FXVolQuote::RiskReversal { delta: 0.0, vol: 0.0 }),
        6 => q.push(FXVolQuote::Butterfly { delta: 0.3, vol: 0.0 }),
        7 => q.truncate(1),
        8 => { q.push(FXVolQuote::Call { delta: 0.3, vol: atm }); q.push(FXVolQuote::Butterfly { delta: 0.3, vol: 0.0 }) }
        9 => { // strikes out of order: a far wing on a vol that pulls its strike in
            q.push(FXVolQuote::Call { delta: 0.02, vol: atm * 0.02 });
            q.push(FXVolQuote::Put { delta: 0.02, vol: atm * 1.5 });
        }
        10 => q.push(FXVolQuote::Put { delta: -0.1, vol: atm }),
        _ => {}
    }
    // quotes come in any order
    for i in (1..q.len()).rev() {
        q.swap(i, rng.below(i as u64 + 1) as usize);
    }
    q
}

/// P19: the delta-quoted surface.
pub fn smile(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x51);
    for i in 0..if deep { 15000 } else { 2500 } {
        let s = some_date(&mut rng);
        let n = if i == 0 { 0 } else { rng.range(1, 4) };
        let spot = rng.real(0.7, 160.0);
        let mut pillars = vec![];
        let mut days: Vec<i32> = vec![];
        for _ in 0..n {
            let d = [rng.range(1, 30), rng.range(20, 500), rng.range(300, 3000)][rng.below(3) as usize] as i32;
            if !days.contains(&d) { days.push(d) }
        }
        let flawed = rng.below(5) == 0;
        for (j, d) in days.iter().enumerate() {
            let flaw = if flawed && j == 0 { rng.range(1, 12) as u64 } else { 0 };
            let q = some_smile(&mut rng, flaw);
            let forward = if flaw == 11 { [0.0, -1.0][rng.below(2) as usize] } else { spot * rng.real(0.97, 1.03) };
            let expiry = if flaw == 12 { s - rng.range(0, 3) as i32 } else { s + d };
            pillars.push(FXDeltaVolPillar { expiry: date(expiry), forward, quotes: q });
        }
        let pj: Vec<_> = pillars.iter().map(|p| json!({"e": ser(p.expiry), "f": real(p.forward),
            "q": p.quotes.iter().map(vol_quote_json).collect::<Vec<_>>()})).collect();
        let made = guard(|| FXVolSurface::new(date(s), pillars.clone()));
        let how = match &made { None => "panic", Some(Err(_)) => "error", Some(Ok(_)) => "ok" };
        let mut q = vec![];
        if let Some(Ok(surf)) = &made {
            let mut ask: Vec<(i32, f64)> = vec![];
            for p in &pillars {
                for _ in 0..4 {
                    let v = p.forward * (rng.real(-3.0, 3.0) * 0.12 * ((ser(p.expiry) - s) as f64 / 365.0).sqrt()).exp();
                    ask.push((ser(p.expiry), v));
                    ask.push((ser(p.expiry) + rng.range(-40, 40) as i32, v));
                    ask.push((s + rng.range(1, 3500) as i32, v));
                }
            }
            ask.push((s, spot));
            ask.push((s - 1, spot));
            ask.push((s + 100, 0.0));
            ask.push((s + 100, -1.0));
            for (e, k) in ask {
                q.push(json!([e, real(k), res_real(guard(|| surf.volatility(date(e), k)))]));
            }
        }
        o.put(json!({"k": "smile", "s": s, "pillars": pj, "how": how, "q": q}));
    }
}
