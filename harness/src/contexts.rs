//! P24: market contexts built from raw quotes.
use crate::common::*;
use crate::conventions::PAIRS;
use crate::fx::*;
use crate::pattern::*;
use crate::rates::*;
use finquant::derivatives::basic::{BasicInfo, Style};
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, IRDerivatives};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::volsurface::FXDeltaVolPillar;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapQuote, CapletVolPillar, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::{InterestRateQuote, YieldTermMarketData, YieldTermStructure};
use finquant::time::period::Period;
use iso_currency::Currency;
use serde_json::{Value, json};
use std::str::FromStr;

/// Cash quotes of different maturities.
fn cash(rng: &mut Rng, s: i32, cjs: &Value) -> (Vec<OISRate>, Vec<Value>) {
    let all = [Period::ON, Period::Days(3), Period::Weeks(1), Period::Weeks(2), Period::Months(1),
        Period::Months(2), Period::Months(3), Period::Months(6), Period::Months(9), Period::Years(1), Period::Years(2)];
    let level = rng.real(-0.005, 0.06);
    let (mut v, mut j, mut ends) = (vec![], vec![], vec![]);
    for i in 0..rng.range(1, 6) {
        let mut period = *rng.pick(&all);
        if i == 0 { period = *rng.pick(&[Period::Months(3), Period::Years(1)]) }
        let (sd, (c, _), dcn, eom) = (rng.range(0, 2), conv(rng), *rng.pick(DCS), rng.below(4) == 0);
        let value = level + rng.real(-0.004, 0.004);
        let q = OISRate { value, interest_rate_index: index(period, sd, Currency::EUR, cal(cjs), c, dcn, eom) };
        match (guard(|| q.settle_date(date(s))), guard(|| q.maturity_date(date(s)))) {
            (Some(Ok(a)), Some(Ok(b))) if a < b && ser(a) >= s && !ends.contains(&b) => ends.push(b),
            _ if i == 0 => {}
            _ => continue,
        }
        v.push(q);
        j.push(json!([num(Some(value)), period_json(period), sd, c, dcn, eom]));
    }
    (v, j)
}

/// A curve's calendar and day count, as their documents, and its date.
fn held(c: &YieldTermStructure) -> Value {
    json!([serde_json::to_string(&c.calendar).unwrap(), serde_json::to_string(&c.day_counter).unwrap(), ser(c.valuation_date)])
}

fn given(cjs: &Value, dcn: &str, s: i32) -> Value {
    json!([serde_json::to_string(&cal(cjs)).unwrap(), serde_json::to_string(&dc(dcn)).unwrap(), s])
}

fn fx_context(rng: &mut Rng, i: usize, o: &mut Out) {
    let s = some_date(rng);
    // a supported pair, or one that is not
    let other = [(Currency::JPY, Currency::ZAR), (Currency::PLN, Currency::NOK), (Currency::USD, Currency::MXN)];
    let (pair, name) = if i % 8 == 7 {
        let p = *rng.pick(&other);
        (p, format!("{}{}", p.1.code(), p.0.code()))
    } else {
        let u = FXUnderlying::from_str(PAIRS[i % PAIRS.len()]).unwrap();
        ((u.dom_currency(), u.frn_currency()), PAIRS[i % PAIRS.len()].to_string())
    };
    let (pd, cd) = some_calendar(rng, s, 1200);
    let (pf, cf) = some_calendar(rng, s, 1200);
    let (px, cx) = some_calendar(rng, s, 1300);
    let (dd, df) = (*rng.pick(DCS), *rng.pick(DCS));
    let ((qd, jd), (qf, jf)) = (cash(rng, s, &cd), cash(rng, s, &cf));
    let nq = rng.range(2, 7) as usize;
    let quotes = some_quotes(rng, nq, 300.0);
    let spot = rng.real(0.7, 160.0);
    let pillars: Vec<FXDeltaVolPillar> = [rng.range(5, 60), rng.range(70, 700)].into_iter()
        .map(|d| FXDeltaVolPillar { expiry: date(s + d as i32), forward: spot * rng.real(0.98, 1.02), quotes: some_smile(rng, 0) })
        .collect();
    let pj: Vec<_> = pillars.iter().map(|p| json!({"e": ser(p.expiry), "f": real(p.forward),
        "q": p.quotes.iter().map(vol_quote_json).collect::<Vec<_>>()})).collect();
    let mut ask: Vec<i32> = (0..10).map(|_| s + rng.below(800) as i32).collect();
    ask.extend((-1..9).map(|k| s + k));
    let made = guard(|| FxMarketContext::from_raw_quotes(date(s), spot, pair,
        YieldTermMarketData::new(date(s), qd, vec![], vec![]), YieldTermMarketData::new(date(s), qf, vec![], vec![]),
        quotes.clone(), pillars, cal(&cd), cal(&cf), dc(dd), dc(df)));
    let how = match &made { None => "panic", Some(Err(_)) => "error", Some(Ok(_)) => "ok" };
    let calendar = cal(&cx);
    let (mut q, mut vols, mut head) = (vec![], vec![], json!([]));
    if let Some(Ok(c)) = &made {
        head = json!([ser(c.valuation_date), num(Some(c.spot)), c.pair.0.code(), c.pair.1.code(),
            held(&c.domestic_curve), held(&c.foreign_curve), ser(c.forwards.valuation_date), num(Some(c.forwards.spot_ref))]);
        for t in &ask {
            let d = date(*t);
            q.push(json!([t, res_real(guard(|| c.forward_at(d, &*calendar))),
                res_real(guard(|| c.rate_d(d))), res_real(guard(|| c.rate_f(d))),
                res_real(guard(|| c.discount_d(d))), res_real(guard(|| c.discount_f(d)))]));
            let k = spot * rng.real(0.9, 1.1);
            vols.push(json!([t, num(Some(k)), res_real(guard(|| c.implied_vol(d, k)))]));
        }
    }
    o.put(json!({"k": "fx", "s": s, "pair": name, "spot": num(Some(spot)), "given": [given(&cd, dd, s), given(&cf, df, s)], "how": how, "head": head,
        "wed": pd.we, "xd": pd.x, "wef": pf.we, "xf": pf.x, "we": px.we, "x": px.x, "cashd": jd, "cashf": jf,
        "quotes": quotes_json(&quotes), "pillars": pj, "q": q, "vols": vols}));
}

fn ir_context(rng: &mut Rng, o: &mut Out) {
    let s = some_date(rng);
    let (p, c) = some_calendar(rng, s, 1200);
    let (quotes, j) = cash(rng, s, &c);
    // cap quotes at one volatility on the very curve
    let own: Vec<OISRate> = quotes.iter().map(|q| OISRate { value: q.value, interest_rate_index: {
        let x = &q.interest_rate_index;
        finquant::markets::interestrate::interestrateindex::InterestRateIndex { period: x.period, settlement_days: x.settlement_days,
            currency: x.currency, calendar: cal(&c), convention: x.convention, day_counter: serde_json::from_value(serde_json::to_value(&x.day_counter).unwrap()).unwrap(),
            end_of_month: x.end_of_month } } }).collect();
    let stripped = guard(|| YieldTermMarketData::new(date(s), own, vec![], vec![]).get_stripped_curve().ok()).flatten();
    let curve = stripped.map(|v| YieldTermStructure::new(cal(&c), dc("Actual365Fixed"), date(s), v));
    let with_caps = rng.below(3) > 0;
    let (dcn, ccy) = (*rng.pick(DCS), *rng.pick(&[Currency::EUR, Currency::USD, Currency::JPY]));
    let (kind, acc) = (*rng.pick(&[CapFloorKind::Cap, CapFloorKind::Floor]), *rng.pick(&["Actual360", "Actual365Fixed"]));
    let near = curve.as_ref().map_or(0.02, |c| c.stripped_curves[c.stripped_curves.len() - 1].zero_rate);
    let strike = near + rng.real(-0.003, 0.003);
    let sigma = rng.real(0.008, 0.014);
    let grid: Vec<_> = (0..6).map(|j| {
        let a = s + 60 + 182 * j;
        InterestRateSchedulePeriod::new(date(a), date(a + 182), date(a + 184), date(a - 2), 0.0, 1.0)
    }).collect();
    let mut caps = vec![];
    if let Some(curve) = &curve {
        for n in [2, 6] {
            let info = BasicInfo { trade_date: date(s), style: Style::IRSwap, direction: direction(1), expiry_date: date(s), delivery_date: date(s) };
            let cap = CapFloor { basic_info: info, kind, style: CapStyle::ForwardLooking, currency: ccy,
                notional: 1e6, strike, valuation_date: date(s), schedule: grid[..n].to_vec(), accrual_day_counter: dc(acc) };
            let mut surf = IRNormalVolSurface::new(date(s));
            surf.pillars = vec![CapletVolPillar { expiry: grid[5].accrual_start_date, nodes: vec![(strike, sigma)] }];
            let ctx = IrMarketContext::new(date(s), ccy, YieldTermStructure::new(cal(&c), dc("Actual365Fixed"), date(s), curve.stripped_curves.clone()), Some(surf));
            let npv = cap.mtm(&ctx).expect("price").value;
            caps.push(CapQuote { strike, notional: 1e6, direction: direction(1), kind, style: CapStyle::ForwardLooking,
                currency: ccy, schedule: grid[..n].to_vec(), accrual_day_counter: dc(acc), market_npv: npv });
        }
    }
    let md = with_caps.then(|| IRCapMarketData::new(date(s), caps));
    let made = guard(|| IrMarketContext::from_raw_quotes(date(s), ccy, YieldTermMarketData::new(date(s), quotes, vec![], vec![]), md, cal(&c), dc(dcn)));
    let how = match &made { None => "panic", Some(Err(_)) => "error", Some(Ok(_)) => "ok" };
    let (mut q, mut vols, mut head) = (vec![], vec![], json!([]));
    if let Some(Ok(x)) = &made {
        head = json!([ser(x.valuation_date), x.currency.code(), held(&x.curve)]);
        for _ in 0..12 {
            let t = s + rng.below(900) as i32;
            q.push(json!([t, res_real(guard(|| x.rate(date(t)))), res_real(guard(|| x.discount(date(t))))]));
            vols.push(json!(res_real(guard(|| x.caplet_vol(date(t), strike + rng.real(-0.01, 0.01))))));
        }
    }
    o.put(json!({"k": "ir", "s": s, "we": p.we, "x": p.x, "cash": j, "caps": with_caps, "ccy": ccy.code(), "given": given(&c, dcn, s), "sigma": num(Some(sigma)),
        "how": how, "head": head, "q": q, "vols": vols}));
}

pub fn record(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xC7);
    for i in 0..if deep { 8000 } else { 1000 } {
        fx_context(&mut rng, i, &mut o);
        ir_context(&mut rng, &mut o);
    }
}
