//! Curves, their bootstrap, swaps, caps and the caplet volatility surface.
use crate::calendars::{CALENDARS, calendar};
use crate::common::*;
use crate::conventions::{counter, counters};
use crate::fx::{cv, direction, opt_real, pillars_json, real, res_real, some_date, some_pillars};
use crate::pattern::*;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, caplet_total_variance, IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::{
    InterestRateSchedulePeriod, InterestRateSwap, InterestRateSwapLeg, InterestRateSwapLegType, ScheduleDetail,
};
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{
    CapQuote, CapletVolPillar, IRCapMarketData, IRNormalVolSurface,
};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::{
    InterestRateQuote, InterpolationMethodEnum as Interp, StrippedCurve, YieldTermMarketData,
};
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::{Calendar, WeekendsOnly};
use finquant::time::daycounters::DayCounters;
use finquant::time::frequency::Frequency;
use finquant::time::imm::IMM;
use finquant::time::period::Period;
use iso_currency::Currency;
use serde_json::{Value, json};

/// P12: reading a curve.
pub fn curve(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xC0);
    for _ in 0..if deep { 30000 } else { 3000 } {
        let s = some_date(&mut rng);
        let n = [1, 1, 2, 2, 3, 4, 6, 12][rng.below(8) as usize];
        let pil = some_pillars(&mut rng, s, n, true);
        let c = pil.curve(s);
        let last = ser(pil.v.last().unwrap().date);
        let mut ask: Vec<i32> = vec![s, s + 1, last + 1, last + 100, last + 4000];
        for p in &pil.v {
            ask.extend((-2..=1).map(|k| ser(p.date) + k));
        }
        ask.extend((0..8).map(|_| s + rng.below((last - s + 60) as u64) as i32));
        // before the valuation date too
        ask.extend([s - 1, s - 2, s - rng.range(3, 400) as i32]);
        ask.sort();
        ask.dedup();
        let (step, lin) = (Interp::StepFunctionForward, Interp::PiecewiseLinearContinuous);
        let bp = [0.0, 1.0, -1.0, 10.0, rng.real(-200.0, 200.0)][rng.below(5) as usize];
        let q: Vec<_> = ask.iter().map(|d| {
            let d0 = date(*d);
            json!([d, res_real(guard(|| c.zero_rate(d0, &step))), res_real(guard(|| c.zero_rate(d0, &lin))),
                res_real(guard(|| c.discount(d0, &step))), res_real(guard(|| c.discount(d0, &lin))),
                res_real(guard(|| c.shifted_discount(d0, &step, bp)))])
        }).collect();
        let mut f = vec![];
        for _ in 0..6 {
            let d = *rng.pick(&ask);
            let t = *rng.pick(&[Period::ON, Period::Days(7), Period::Weeks(2), Period::Months(1), Period::Months(3), Period::Years(1)]);
            f.push(json!([d, period_json(t), res_real(guard(|| c.forward_rate(date(d), t, &step)))]));
        }
        o.put(json!({"k": "curve", "s": s, "pil": pil.json(), "bp": real(bp), "q": q, "f": f}));
    }
}

// ------------------------------------------------------------------ schedules
pub const DCS: &[&str] = &["Actual360", "Actual365Fixed", "Thirty360.European", "ActualActual.Isda"];

pub fn dc(name: &str) -> Box<dyn DayCounters> {
    let all = counters(738000);
    counter(&all.iter().find(|c| c.0 == name).expect("day counter").1)
}

/// A calendar and its pattern over the dates that matter.
pub fn some_calendar(rng: &mut Rng, s: i32, days: i32) -> (Pattern, Value) {
    if rng.below(3) == 0 {
        let (_, js) = rng.pick(CALENDARS);
        let p = Pattern { we: true, x: pattern_of(&*calendar(js), s - 60, s + days) };
        (p, serde_json::from_str(js).unwrap())
    } else {
        let mut x: Vec<i32> = (0..days / 25).map(|_| s + rng.below(days as u64) as i32).collect();
        x.extend((-6..12).filter(|_| rng.below(4) == 0).map(|k| s + k));
        x.sort();
        x.dedup();
        let p = Pattern { we: rng.below(5) > 0, x };
        let js = json!({"type": "Pattern", "we": p.we, "x": p.x});
        (p, js)
    }
}

pub fn cal(js: &Value) -> Box<dyn Calendar> {
    serde_json::from_value(js.clone()).expect("calendar")
}

pub fn conv(rng: &mut Rng) -> (&'static str, Bdc) {
    match rng.below(3) {
        0 => ("MF", Bdc::ModifiedFollowing),
        1 => ("F", Bdc::Following),
        _ => CONVENTIONS[rng.below(7) as usize],
    }
}

pub fn bdc(name: &str) -> Bdc {
    CONVENTIONS.iter().find(|c| c.0 == name).unwrap().1
}

pub fn index(period: Period, sd: i64, ccy: Currency, calendar: Box<dyn Calendar>, c: &str, dcn: &str, eom: bool) -> InterestRateIndex {
    InterestRateIndex { period, settlement_days: sd, currency: ccy, calendar, convention: bdc(c), day_counter: dc(dcn), end_of_month: eom }
}

#[derive(Clone)]
struct Plan {
    freq: &'static str,
    tenor: Period,
    duration: Period,
    dc: String,
    conv: String,
    sd: i64,
    delay: i64,
    before: i64,
    eom: bool,
}

fn some_plan(rng: &mut Rng, long: bool) -> Plan {
    let years = rng.range(1, if long { 12 } else { 4 }) as u32;
    let months = rng.range(1, 30) as u32;
    let (freq, tenor) = *rng.pick(&[("Annual", Period::Years(1)), ("Annual", Period::Months(12)),
        ("Semiannual", Period::Months(6)), ("Quarterly", Period::Months(3)),
        ("Monthly", Period::Months(1)), ("EveryFourthMonth", Period::Months(4))]);
    let duration = match rng.below(3) {
        0 => Period::Months(months),
        _ => Period::Years(years),
    };
    let mut p = Plan { freq, tenor, duration, dc: rng.pick(DCS).to_string(), conv: conv(rng).0.into(),
        sd: rng.range(0, 3), delay: rng.range(0, 3), before: rng.range(0, 3), eom: rng.below(3) == 0 };
    if rng.below(6) == 0 {
        // short-dated: weeks and days
        let (f, t) = *rng.pick(&[("Weekly", Period::Weeks(1)), ("Biweekly", Period::Weeks(2)),
            ("Weekly", Period::Days(7)), ("EveryFourthWeek", Period::Weeks(4))]);
        p.freq = f;
        p.tenor = t;
        p.duration = *rng.pick(&[Period::Weeks(1), Period::Weeks(6), Period::Weeks(13), Period::Days(21), Period::Days(30)]);
    }
    p
}

fn freq(name: &str) -> Frequency {
    use strum::IntoEnumIterator;
    Frequency::iter().find(|f| f.to_string() == name).expect("frequency")
}

fn plan_json(p: &Plan) -> Value {
    json!({"step": period_json(freq(p.freq).period().unwrap()), "tenor": period_json(p.tenor), "duration": period_json(p.duration),
        "dc": p.dc, "conv": p.conv, "sd": p.sd, "delay": p.delay, "before": p.before, "eom": p.eom})
}

fn leg(p: &Plan, kind: InterestRateSwapLegType, dir: Direction, notional: f64, c: &Value,
    schedule: Vec<InterestRateSchedulePeriod>, ccy: Currency) -> InterestRateSwapLeg {
    // the index gives the settlement days and the end-of-month rule, the leg all else
    let k = p.conv.len() + p.sd as usize + p.delay as usize;
    let away: Box<dyn Calendar> = if k % 2 == 0 { Box::new(WeekendsOnly) } else { cal(c) };
    let other = index([p.tenor, Period::Weeks(1), Period::Years(2)][k % 3], p.sd, ccy, away, ["MF", "P", "U"][k % 3], DCS[k % 4], p.eom);
    InterestRateSwapLeg::new(kind, dir, other, notional,
        ScheduleDetail::new(freq(p.freq), p.tenor, p.duration, dc(&p.dc), cal(c), bdc(&p.conv), p.sd, p.delay, p.before),
        schedule)
}

pub fn rows(v: &[InterestRateSchedulePeriod]) -> Vec<Value> {
    v.iter().map(|r| json!([ser(r.accrual_start_date), ser(r.accrual_end_date), ser(r.pay_date), ser(r.reset_date), num(Some(r.balance))])).collect()
}

/// P15: the schedule a leg generates.
pub fn schedules(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x5C);
    for _ in 0..if deep { 20000 } else { 3000 } {
        let s = some_date(&mut rng);
        let p = some_plan(&mut rng, false);
        let (pat, c) = some_calendar(&mut rng, s, 1700);
        let notional = rng.real(1.0, 1e7).round();
        let l = leg(&p, InterestRateSwapLegType::Fixed { coupon: 0.03 }, Direction::Buy, notional, &c, vec![], Currency::EUR);
        let got = guard(|| l.generate_schedule(date(s)).ok()).flatten();
        let eff = resr(guard(|| l.effective_date(date(s))));
        // a second leg, later or earlier, decides the swap's maturity
        let mut p2 = some_plan(&mut rng, false);
        p2.sd = p.sd;
        let l2 = leg(&p2, InterestRateSwapLegType::Float { spread: 0.0 }, Direction::Sell, notional, &c, vec![], Currency::EUR);
        let got2 = guard(|| l2.generate_schedule(date(s)).ok()).flatten();
        let swap = InterestRateSwap::new(vec![l, l2]);
        let (ok, ok2) = (got.is_some(), got2.is_some());
        let both = got.as_ref().is_some_and(|v| !v.is_empty()) && got2.as_ref().is_some_and(|v| !v.is_empty());
        let mat = if both { resr(guard(|| swap.maturity_date(date(s)).map(Some))) } else { -9 };
        let set = resr(guard(|| swap.settle_date(date(s)).map(Some)));
        // a schedule that is given is used as it is
        let rest = [1, 1, 2, 3][rng.below(4) as usize];
        let given: Vec<_> = got.clone().unwrap_or_default().into_iter().rev().take(rest).collect();
        let l3 = leg(&p, InterestRateSwapLegType::Fixed { coupon: 0.03 }, Direction::Buy, notional, &c, given.clone(), Currency::EUR);
        let kept = given.is_empty() || guard(|| l3.generate_schedule(date(s)).ok()).flatten() == Some(given);
        o.put(json!({"k": "schedule", "s": s, "we": pat.we, "x": pat.x, "a": plan_json(&p), "b": plan_json(&p2),
            "notional": num(Some(notional)), "ok": [ok, ok2], "eff": eff, "settle": set, "maturity": mat, "kept": kept,
            "rows": rows(&got.unwrap_or_default()), "rows2": rows(&got2.unwrap_or_default())}));
    }
}

// ------------------------------------------------------------------ bootstrap
fn source(s: &StrippedCurve) -> String {
    format!("{:?}", s.source)
}

fn stripped_json(v: &[StrippedCurve]) -> Vec<Value> {
    v.iter().map(|p| json!([ser(p.first_settle_date), ser(p.date), num(Some(p.market_rate)), num(Some(p.zero_rate)),
        num(Some(p.discount)), source(p), p.hidden_pillar])).collect()
}

/// P13: the pillars stripped from a market.
pub fn bootstrap(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xB5);
    for i in 0..if deep { 8000 } else { 1500 } {
        let mut s = some_date(&mut rng);
        if rng.below(3) == 0 {
            // shortly before, or on, a futures settlement
            s = ser(IMM.next_date(date(s), true)) - rng.range(0, 12) as i32;
        }
        let (pat, cjs) = some_calendar(&mut rng, s, 2600);
        let level = if rng.below(8) == 0 { *rng.pick(&[-0.06, -0.03, 0.1, 0.2, 0.3]) } else { rng.real(-0.012, 0.06) };
        // cash
        let all = [Period::ON, Period::Days(1), Period::Days(3), Period::Weeks(1), Period::Weeks(2), Period::Months(1),
            Period::Months(2), Period::Months(3), Period::Months(6), Period::Months(9), Period::Years(1), Period::Months(18)];
        let n = rng.range(1, 7) as usize;
        let (mut cash, mut cj) = (vec![], vec![]);
        for j in 0..n {
            let mut period = *rng.pick(&all);
            if j == 0 { period = *rng.pick(&[Period::Months(1), Period::Months(3), Period::Years(1)]) }
            let (sd, (c, _), dcn, eom) = (rng.range(0, 2), conv(&mut rng), *rng.pick(DCS), rng.below(4) == 0);
            let value = level + rng.real(-0.004, 0.004);
            let quote = OISRate { value, interest_rate_index: index(period, sd, Currency::EUR, cal(&cjs), c, dcn, eom) };
            // a quote accrues over at least a day
            match (guard(|| quote.settle_date(date(s))), guard(|| quote.maturity_date(date(s)))) {
                (Some(Ok(a)), Some(Ok(b))) if a == b => continue,
                _ => {}
            }
            cash.push(quote);
            cj.push(json!([num(Some(value)), period_json(period), sd, c, dcn, eom]));
        }
        // futures
        let (mut futures, mut fj) = (vec![], vec![]);
        let mut last = cash.iter().filter_map(|c| guard(|| c.maturity_date(date(s))).and_then(|r| r.ok()))
            .map(ser).max().unwrap_or(s);
        if i % 2 == 1 {
            let mut d = date(s);
            for _ in 0..rng.range(1, 5) {
                d = IMM.next_date(d, true);
                if rng.below(6) == 0 { continue }
                let code = IMM.code(d).unwrap();
                let value = ((1.0 - level - rng.real(-0.005, 0.005)) * 1e4).round() / 100.0;
                let convexity = rng.real(-0.02, 0.02);
                let period = *rng.pick(&[Period::Months(3), Period::Months(3), Period::Months(1), Period::Months(6)]);
                let (c, _) = conv(&mut rng);
                let dcn = *rng.pick(DCS);
                let mut spec = InterestRateFutures::new(period);
                spec.calendar = cal(&cjs);
                spec.convention = bdc(c);
                let quote = FuturesRate { value, imm_code: code.clone(), convexity_adjustment: convexity, futures_spec: spec,
                    interest_rate_index: index(Period::Months(3), 2, Currency::EUR, cal(&cjs), "MF", dcn, false) };
                // pillars come in order of maturity
                match guard(|| quote.maturity_date(date(s))) {
                    Some(Ok(m)) if ser(m) <= last => continue,
                    Some(Ok(m)) => last = ser(m),
                    _ => {}
                }
                futures.push(quote);
                fj.push(json!([real(value), code, real(convexity), period_json(period), c, dcn, ser(d)]));
            }
        }
        // swaps, ever longer
        let (mut swaps, mut sj) = (vec![], vec![]);
        if i % 4 >= 2 {
            let mut years = 2;
            for _ in 0..rng.range(1, 3) {
                let mut p = some_plan(&mut rng, true);
                p.freq = *rng.pick(&["Annual", "Semiannual"]);
                p.tenor = freq(p.freq).period().unwrap();
                p.duration = if p.freq == "Annual" { Period::Years(years) } else { Period::Months(12 * years) };
                p.conv = rng.pick(&["MF", "F", "P"]).to_string();
                let mut q = p.clone();
                q.freq = "Quarterly";
                q.tenor = Period::Months(3);
                q.duration = Period::Months(12 * years);
                let coupon = level + rng.real(-0.003, 0.004);
                let sd = [1, -1][rng.below(2) as usize];
                let fixed = leg(&p, InterestRateSwapLegType::Fixed { coupon }, direction(sd), 1e6, &cjs, vec![], Currency::EUR);
                let float = leg(&q, InterestRateSwapLegType::Float { spread: 0.0 }, direction(-sd), 1e6, &cjs, vec![], Currency::EUR);
                let r1 = fixed.generate_schedule(date(s)).expect("schedule");
                let r2 = float.generate_schedule(date(s)).expect("schedule");
                let mut legs = vec![fixed, float];
                let mut lj = vec![
                    json!({"type": "fixed", "rate": num(Some(coupon)), "dir": sd, "dc": p.dc, "rows": rows(&r1)}),
                    json!({"type": "float", "rate": "0", "dir": -sd, "dc": q.dc, "rows": rows(&r2)})];
                if rng.below(3) == 0 { legs.reverse(); lj.reverse() }
                let swap = InterestRateSwap::new(legs);
                sj.push(json!({"legs": lj,
                    "settle": resr(guard(|| swap.settle_date(date(s)).map(Some))),
                    "maturity": resr(guard(|| swap.maturity_date(date(s)).map(Some)))}));
                swaps.push(swap);
                years += rng.range(1, 2) as u32;
            }
        }
        let md = YieldTermMarketData::new(date(s), cash, futures, swaps);
        let got = guard(|| md.get_stripped_curve());
        let how = match &got { None => "panic", Some(Err(_)) => "error", Some(Ok(_)) => "ok" };
        let v = got.and_then(|r| r.ok()).unwrap_or_default();
        o.put(json!({"k": "strip", "s": s, "we": pat.we, "x": pat.x, "cash": cj, "futures": fj, "swaps": sj,
            "how": how, "pillars": stripped_json(&v), "curve": pillars_json(&v)}));
    }
}

// ------------------------------------------------------------------ swaps
fn some_rows(rng: &mut Rng, s: i32, notional: f64) -> Vec<InterestRateSchedulePeriod> {
    let n = rng.range(1, 10);
    let step = *rng.pick(&[30, 91, 182, 365]);
    let mut a = s + rng.range(-1, 400) as i32;
    if rng.below(4) == 0 { a = s + rng.range(-80, 3) as i32 }
    let mut balance = notional;
    let amortise = rng.below(4) == 0;
    (0..n).map(|_| {
        let b = a + step + rng.range(-3, 3) as i32;
        let r = InterestRateSchedulePeriod::new(date(a), date(b), date(b + rng.range(0, 4) as i32), date(a - 2), 0.0, balance);
        a = b;
        if amortise { balance -= notional / (n as f64 + 1.0) }
        r
    }).collect()
}

/// P16: what a swap is worth, and its sensitivities.
pub fn swaps(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x5A);
    for i in 0..if deep { 20000 } else { 3000 } {
        let s = some_date(&mut rng);
        let np = rng.range(1, 7) as usize;
        let pil = some_pillars(&mut rng, s, np, true);
        let (_, c) = some_calendar(&mut rng, s, 200);
        let n = if i == 0 { 0 } else { [1, 2, 2, 2, 3][rng.below(5) as usize] };
        let notional = rng.real(1.0, 1e7).round();
        let (mut legs, mut lj) = (vec![], vec![]);
        let ccys = [Currency::EUR, Currency::USD, Currency::GBP, Currency::JPY];
        for _ in 0..n {
            let p = some_plan(&mut rng, false);
            let dir = [1, -1][rng.below(2) as usize];
            let (kind, t, rate) = if rng.below(2) == 0 {
                let r = rng.real(-0.01, 0.08);
                (InterestRateSwapLegType::Fixed { coupon: r }, "fixed", r)
            } else {
                let r = [0.0, rng.real(-0.01, 0.01)][rng.below(2) as usize];
                (InterestRateSwapLegType::Float { spread: r }, "float", r)
            };
            let r = some_rows(&mut rng, s, notional);
            let ccy = *rng.pick(&ccys);
            lj.push(json!({"type": t, "rate": real(rate), "dir": dir, "dc": p.dc, "rows": rows(&r), "ccy": ccy.code()}));
            legs.push(leg(&p, kind, direction(dir), notional, &c, r, ccy));
            let l = legs.last().unwrap();
            lj.last_mut().unwrap()["says"] = json!([l.is_fixe_leg(), real(l.get_reference_rate())]);
        }
        let swap = InterestRateSwap::new(legs);
        let market = IrMarketContext::new(date(s), Currency::EUR, pil.curve(s), None);
        let mut yts = pil.curve(s);
        let npv = res_real(guard(|| swap.npv(date(s), &mut yts)));
        let bp = [10.0, 1.0, rng.real(0.1, 100.0)][rng.below(3) as usize];
        let gamma = res_real(guard(|| swap.gamma(&market, bp, RateShiftMode::Zeros)));
        let modes: Vec<String> = [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps].into_iter()
            .map(|m| res_real(guard(|| swap.gamma(&market, bp, m)))).collect();
        o.put(json!({"k": "swap", "s": s, "pil": pil.json(), "legs": lj, "notional": num(Some(notional)),
            "npv": npv, "mtm": cv(guard(|| swap.mtm(&market))), "dv01": res_real(guard(|| swap.dv01(&market))),
            "bp": real(bp), "gamma": gamma, "modes": modes, "vega": res_real(guard(|| swap.vega(&market, bp))),
            "dur": res_real(guard(|| swap.modified_duration(&market)))}));
    }
}

// ------------------------------------------------------------------ caps
pub fn surface_json(v: &[CapletVolPillar]) -> Vec<Value> {
    v.iter().map(|p| json!([ser(p.expiry), p.nodes.iter().map(|(k, s)| json!([real(*k), real(*s)])).collect::<Vec<_>>()])).collect()
}

fn some_surface(rng: &mut Rng, s: i32) -> IRNormalVolSurface {
    let mut surf = IRNormalVolSurface::new(date(s));
    let mut d = s;
    for _ in 0..rng.range(1, 6) {
        d += rng.range(20, 700) as i32;
        let mut k = rng.real(-0.01, 0.02);
        let nodes = (0..rng.range(1, 5)).map(|_| {
            k += rng.real(0.001, 0.02);
            (k, rng.real(0.002, 0.02))
        }).collect();
        surf.pillars.push(CapletVolPillar { expiry: date(d), nodes });
    }
    surf
}

/// P17: caps and floors. P20 (first half): reading the surface.
pub fn caps(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xCA);
    for _ in 0..if deep { 20000 } else { 3000 } {
        let s = some_date(&mut rng);
        let np = rng.range(1, 7) as usize;
        let pil = some_pillars(&mut rng, s, np, true);
        let surf = some_surface(&mut rng, s);
        let sj = surface_json(&surf.pillars);
        // reading it: on, before and after pillars; on, between and beyond strikes
        let mut q = vec![];
        for p in surf.pillars.clone() {
            for e in [-1, 0, 1] {
                let (k, _) = *rng.pick(&p.nodes);
                for k in [k, k + rng.real(-0.03, 0.03)] {
                    let e = ser(p.expiry) + e;
                    q.push(json!([e, real(k), res_real(guard(|| surf.caplet_volatility(date(e), k)))]));
                }
            }
        }
        let (kind, kn) = *rng.pick(&[(CapFloorKind::Cap, "cap"), (CapFloorKind::Floor, "floor")]);
        let (style, sn) = *rng.pick(&[(CapStyle::ForwardLooking, "forward"), (CapStyle::BackwardCompounded, "backward")]);
        let dir = [1, -1][rng.below(2) as usize];
        let strike = [rng.real(-0.005, 0.07), pil.v[0].zero_rate][rng.below(2) as usize];
        let notional = rng.real(1.0, 1e7).round();
        let dcn = *rng.pick(DCS);
        let r = some_rows(&mut rng, s, notional);
        let expiry = r.last().unwrap().accrual_end_date;
        let ccy = *rng.pick(&[Currency::USD, Currency::EUR, Currency::JPY]);
        let cap = CapFloor {
            basic_info: BasicInfo { trade_date: date(s - rng.range(0, 40) as i32), style: Style::IRSwap, direction: direction(dir),
                expiry_date: date(ser(expiry) - rng.range(0, 300) as i32), delivery_date: date(ser(expiry) + rng.range(0, 90) as i32) },
            kind, style, currency: ccy, notional, strike, valuation_date: date(s), schedule: r.clone(),
            accrual_day_counter: dc(dcn),
        };
        let bare = IrMarketContext::new(date(s), Currency::USD, pil.curve(s), None);
        // the variance of single rates, wherever the accrual lies
        let variances: Vec<Value> = (0..6).map(|i| {
            let a = [rng.real(-2.0, 5.0), 0.0, rng.real(-0.5, 0.5)][rng.below(3) as usize];
            let b = if i == 0 { rng.real(-1.0, 0.0) } else { a + rng.real(0.01, 1.5) };
            let (st, n) = *rng.pick(&[(CapStyle::ForwardLooking, "forward"), (CapStyle::BackwardCompounded, "backward")]);
            let v = rng.real(0.0, 0.03);
            json!([n, real(v), real(a), real(b), real(caplet_total_variance(st, v, a, b))])
        }).collect();
        let missing = vec![cv(guard(|| cap.mtm(&bare)))[0].clone(), json!(res_real(guard(|| cap.dv01(&bare)))),
            json!(res_real(guard(|| cap.vega(&bare, 1.0)))), json!(res_real(guard(|| cap.gamma(&bare, 1.0, RateShiftMode::Zeros)))),
            json!(res_real(guard(|| bare.caplet_vol(date(s + 9), 0.01))))];
        let empty = res_real(guard(|| IRNormalVolSurface::new(date(s)).caplet_volatility(date(s + 9), 0.01)));
        let market = IrMarketContext::new(date(s), Currency::USD, pil.curve(s), Some(surf));
        let bp = [10.0, 1.0, rng.real(0.1, 60.0)][rng.below(3) as usize];
        let vbp = [1.0, rng.real(-5.0, 20.0)][rng.below(2) as usize];
        let modes: Vec<String> = [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps].into_iter()
            .map(|m| res_real(guard(|| cap.gamma(&market, bp, m)))).collect();
        let via = res_real(guard(|| market.caplet_vol(date(s + 100), strike)));
        let ctx = json!([s + 100, res_real(guard(|| market.rate(date(s + 100)))), res_real(guard(|| market.discount(date(s + 100))))]);
        o.put(json!({"k": "cap", "s": s, "pil": pil.json(), "surf": sj, "q": q, "ccy": ccy.code(), "variances": variances, "kind": kn, "style": sn, "dir": dir,
            "strike": real(strike), "notional": num(Some(notional)), "dc": dcn, "rows": rows(&r), "missing": missing, "empty": empty,
            "mtm": cv(guard(|| cap.mtm(&market))), "dv01": res_real(guard(|| cap.dv01(&market))), "bp": real(bp),
            "gamma": res_real(guard(|| cap.gamma(&market, bp, RateShiftMode::Zeros))), "modes": modes, "vbp": real(vbp),
            "vega": res_real(guard(|| cap.vega(&market, vbp))), "via": via, "ctx": ctx,
            "dur": res_real(guard(|| cap.modified_duration(&market)))}));
    }
}

/// P20 (second half): stripping caplet volatilities from cap prices.
pub fn capstrip(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xCC);
    for i in 0..if deep { 5000 } else { 800 } {
        let s = some_date(&mut rng);
        let np = rng.range(2, 7) as usize;
        let pil = some_pillars(&mut rng, s, np, false);
        let curve = pil.curve(s);
        let atm = pil.v[0].zero_rate;
        let mut strikes: Vec<f64> = (0..rng.range(1, 4)).map(|j| atm - 0.01 + 0.009 * j as f64 + rng.real(0.0, 0.005)).collect();
        if strikes.len() > 1 && rng.below(4) == 0 {
            // two strikes that all but coincide
            strikes[1] = strikes[0] + *rng.pick(&[1e-9, 1e-6, 1e-5, 1e-4]);
        }
        let high = [(0.004, 0.015), (0.004, 0.015), (0.004, 0.015), (0.0003, 0.004), (0.015, 0.095)][rng.below(5) as usize];
        let dcn = *rng.pick(DCS);
        let (style, sn) = *rng.pick(&[(CapStyle::ForwardLooking, "forward"), (CapStyle::BackwardCompounded, "backward")]);
        // one strip of caplets; quotes take its first 2, 4, ... of them
        let step = *rng.pick(&[91, 182]);
        let a0 = s + rng.range(20, 100) as i32;
        let grid: Vec<InterestRateSchedulePeriod> = (0..12).map(|j| {
            let a = a0 + step * j;
            InterestRateSchedulePeriod::new(date(a), date(a + step), date(a + step + 2), date(a - 2), 0.0, 1.0)
        }).collect();
        // a cap of n caplets, each over m grid steps
        let lens: Vec<(usize, usize)> = {
            let ends: Vec<usize> = (1..=12).filter(|_| rng.below(3) == 0).collect();
            let mut v: Vec<(usize, usize)> = ends.into_iter()
                .map(|n| { let m = [1, 1, 1, 2, 3, 4][rng.below(6) as usize]; if n % m == 0 { (n / m, m) } else { (n, 1) } }).collect();
            if v.is_empty() { v.push((4, 1)) }
            v
        };
        let strip = |(n, m): (usize, usize)| -> Vec<InterestRateSchedulePeriod> {
            (0..n).map(|j| {
                let (a, b) = (&grid[j * m], &grid[(j + 1) * m - 1]);
                InterestRateSchedulePeriod::new(a.accrual_start_date, b.accrual_end_date, b.pay_date, a.reset_date, 0.0, 1.0)
            }).collect()
        };
        let last = |x: (usize, usize)| strip(x).last().unwrap().accrual_start_date;
        let mut lens = lens;
        lens.sort_by_key(|x| last(*x));
        lens.dedup_by_key(|x| last(*x));
        let ragged = rng.below(3) == 0;
        let spoil = rng.below(8) == 0;
        let mut weak = false;
        let (mut quotes, mut qj) = (vec![], vec![]);
        for k in &strikes {
            // the volatilities behind the prices: one per segment, as the strip solves
            let mut truth = IRNormalVolSurface::new(date(s));
            let mut kept: Vec<(usize, usize)> = lens.iter().cloned().filter(|_| !ragged || rng.below(3) > 0).collect();
            if kept.is_empty() { kept.push(lens[0]) }
            for n in &kept {
                if truth.pillars.iter().all(|p| p.expiry != last(*n)) {
                    truth.pillars.push(CapletVolPillar { expiry: last(*n), nodes: vec![(*k, rng.real(high.0, high.1))] });
                }
            }
            truth.pillars.sort_by_key(|p| p.expiry);
            if !spoil && rng.below(3) == 0 {
                // a quote whose fixings others cover already
                kept.push(*rng.pick(&kept));
            }
            for n in &kept {
                let (kind, kn) = *rng.pick(&[(CapFloorKind::Cap, "cap"), (CapFloorKind::Floor, "floor")]);
                let dir = [1, 1, -1][rng.below(3) as usize];
                let notional = [1e4, 1e6, 1e8][rng.below(3) as usize];
                let cap = CapFloor {
                    basic_info: BasicInfo { trade_date: date(s), style: Style::IRSwap, direction: direction(dir), expiry_date: date(s), delivery_date: date(s) },
                    kind, style, currency: Currency::USD, notional, strike: *k, valuation_date: date(s), schedule: strip(*n),
                    accrual_day_counter: dc(dcn),
                };
                let mut t2 = IRNormalVolSurface::new(date(s));
                t2.pillars = truth.pillars.clone();
                let ctx = IrMarketContext::new(date(s), Currency::USD, pil.curve(s), Some(t2));
                let mut npv = cap.mtm(&ctx).expect("price").value;
                // a price that hardly depends on its own segment's volatility determines none
                let mut t3 = IRNormalVolSurface::new(date(s));
                t3.pillars = truth.pillars.clone();
                let own = t3.pillars.iter_mut().find(|p| p.expiry == last(*n)).unwrap();
                own.nodes[0].1 *= 0.5;
                let ctx = IrMarketContext::new(date(s), Currency::USD, pil.curve(s), Some(t3));
                weak |= (cap.mtm(&ctx).expect("price").value - npv).abs() < 1e-9 * notional;
                if spoil && quotes.is_empty() { npv = -npv.abs() * dir as f64 - dir as f64 }
                quotes.push(CapQuote { strike: *k, notional, direction: direction(dir), kind, style, currency: Currency::USD,
                    schedule: strip(*n), accrual_day_counter: dc(dcn), market_npv: npv });
                qj.push(json!({"strike": real(*k), "notional": real(notional), "dir": dir, "kind": kn, "rows": rows(&strip(*n)), "npv": num(Some(npv))}));
            }
        }
        // in any order
        for a in (1..quotes.len()).rev() {
            let b = rng.below(a as u64 + 1) as usize;
            quotes.swap(a, b);
            qj.swap(a, b);
        }
        let md = IRCapMarketData::new(date(s), quotes);
        let mut surf = IRNormalVolSurface::new(date(s - 400));
        let how = match guard(|| surf.rebuild(&curve, &md)) { None => "panic", Some(Err(_)) => "error", Some(Ok(())) => "ok" };
        o.put(json!({"k": "capstrip", "i": i, "s": s, "pil": pil.json(), "style": sn, "dc": dcn, "quotes": qj,
            "how": how, "spoil": spoil, "weak": weak, "val": ser(surf.valuation_date), "surf": surface_json(&surf.pillars)}));
    }
}

/// P24 (part): the index table.
pub fn indices(out: &str, _args: &[String]) {
    let mut o = Out::new(out);
    let e = |n: &str, c: InterestRateIndexEnum, o: &mut Out| {
        let r = guard(|| InterestRateIndex::from_enum(c)).flatten();
        match r {
            None => o.put(json!({"k": "index", "name": n, "ok": false})),
            Some(x) => {
                let conv = CONVENTIONS.iter().find(|c| c.1 == x.convention).unwrap().0;
                let mut closed = vec![];
                for y in [2023, 2024] {
                    for s in ser(ymd(y, 1, 1))..=ser(ymd(y, 12, 31)) {
                        let w = (s - 1) % 7 > 4;
                        if x.calendar.is_business_day(date(s)) == w { closed.push(s) }
                    }
                }
                let yf = x.day_counter.year_fraction(date(738000), date(738360)).unwrap();
                o.put(json!({"k": "index", "name": n, "ok": true, "period": period_json(x.period), "sd": x.settlement_days,
                    "ccy": x.currency.code(), "conv": conv, "eom": x.end_of_month, "yf": num(Some(yf)), "closed": closed}));
            }
        }
    };
    e("AONIA", InterestRateIndexEnum::AONIA, &mut o);
    e("EONIA", InterestRateIndexEnum::EONIA, &mut o);
    e("ESTR", InterestRateIndexEnum::ESTR, &mut o);
    e("SONIA", InterestRateIndexEnum::SONIA, &mut o);
    e("SOFR", InterestRateIndexEnum::SOFR, &mut o);
    for p in [Period::Days(1), Period::Weeks(1), Period::Weeks(2), Period::Months(1), Period::Months(3), Period::Months(12), Period::Years(1)] {
        let n = period_json(p);
        let name = format!("{}{}", n[1], n[0].as_str().unwrap());
        e(&format!("CDOR {name}"), InterestRateIndexEnum::CDOR(p), &mut o);
        e(&format!("EURIBOR {name}"), InterestRateIndexEnum::EUIBOR(p), &mut o);
    }
    let _ = opt_real;
}
