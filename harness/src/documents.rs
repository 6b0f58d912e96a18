//! P23: values written as JSON documents and read back, again and again.
use crate::calendars::CALENDARS;
use crate::common::*;
use crate::conventions::{PAIRS, pair};
use crate::fx::{direction, some_date};
use crate::pattern::*;
use crate::time::some_period;
use chrono::{Datelike, Weekday};
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{CurrencyValue, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::forex::quotes::forwardpoints::FXForwardQuote;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::australia::AustraliaMarket;
use finquant::time::calendars::austria::AustriaMarket;
use finquant::time::calendars::brazil::BrazilMarket;
use finquant::time::calendars::canada::CanadaMarket;
use finquant::time::calendars::france::FranceMarket;
use finquant::time::calendars::germany::GermanyMarket;
use finquant::time::calendars::israel::IsraelMarket;
use finquant::time::calendars::italy::ItalyMarket;
use finquant::time::calendars::newzealand::NewZealandMarket;
use finquant::time::calendars::poland::PolandMarket;
use finquant::time::calendars::russia::RussiaMarket;
use finquant::time::calendars::unitedkingdom::UnitedKingdomMarket;
use finquant::time::calendars::unitedstates::UnitedStatesMarket;
use finquant::time::calendars::*;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::business252::Business252;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use finquant::time::daycounters::thirty365::Thirty365;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::fmt::Debug;
use strum::IntoEnumIterator;

/// Every calendar, made by hand and not from a document.
fn native(name: &str) -> Box<dyn Calendar> {
    macro_rules! table {
        ($($plain:ident)*; $($c:ident $m:ident: $($v:ident)*;)*) => {
            match name {
                $(stringify!($plain) => Box::new($plain),)*
                $(stringify!($c) => Box::new($c::default()),
                  $(concat!(stringify!($c), ".", stringify!($v)) => Box::new($c { market: Some($m::$v) }),)*)*
                _ => panic!("{name}"),
            }
        };
    }
    table!(Argentina Botswana Chile China CzechRepublic Denmark Finland HongKong Hungary Iceland India Indonesia Japan Mexico
        Norway Romania Singapore Slovakia SouthAfrica SouthKorea Sweden Switzerland Taiwan Target Thailand Turkey Ukraine WeekendsOnly;
        Australia AustraliaMarket: Settlement ASX;
        Austria AustriaMarket: Settlement Exchange;
        Brazil BrazilMarket: Settlement Exchange;
        Canada CanadaMarket: Settlement TSX;
        France FranceMarket: Settlement Exchange;
        Germany GermanyMarket: Settlement FrankfurtStockExchange Xetra Eurex Euwax;
        Israel IsraelMarket: TelAviv Shir;
        Italy ItalyMarket: Settlement Exchange;
        NewZealand NewZealandMarket: Wellington Auckland;
        Poland PolandMarket: Settlement WSE;
        Russia RussiaMarket: Settlement Exchange;
        UnitedKingdom UnitedKingdomMarket: Settlement Exchange Metals;
        UnitedStates UnitedStatesMarket: Settlement Libor NYSE GovernmentBond SOFR NERC FederalReserve;
    )
}

const COUNTERS: &[&str] = &["Actual360", "Actual364", "Actual366", "Thirty365", "Actual365Fixed", "ActualActual", "ActualActual.Isda",
    "ActualActual.Euro", "Thirty360.USA", "Thirty360.European", "Thirty360.Italian", "Thirty360.ISMA", "Thirty360.NASD", "Thirty360.ISDA", "Thirty360.German"];

fn native_counter(name: &str, t: i32) -> Box<dyn DayCounters> {
    let thirty = |m| Box::new(Thirty360::new(m));
    match name {
        "Actual360" => Box::new(Actual360),
        "Actual364" => Box::new(Actual364),
        "Actual366" => Box::new(Actual366),
        "Thirty365" => Box::new(Thirty365),
        "Actual365Fixed" => Box::<Actual365Fixed>::default(),
        "ActualActual" => Box::<ActualActual>::default(),
        "ActualActual.Isda" => Box::new(ActualActual { market: Some(ActualActualMarket::Isda) }),
        "ActualActual.Euro" => Box::new(ActualActual { market: Some(ActualActualMarket::Euro) }),
        "Thirty360.USA" => thirty(Thirty360Market::USA),
        "Thirty360.European" => thirty(Thirty360Market::European),
        "Thirty360.Italian" => thirty(Thirty360Market::Italian),
        "Thirty360.ISMA" => thirty(Thirty360Market::ISMA),
        "Thirty360.NASD" => thirty(Thirty360Market::NASD),
        "Thirty360.ISDA" => thirty(Thirty360Market::ISDA(date(t))),
        "Thirty360.German" => thirty(Thirty360Market::German(date(t))),
        _ => panic!("{name}"),
    }
}

/// A document as text, its members in any order.
fn shuffled(v: &Value, rng: &mut Rng) -> String {
    match v {
        Value::Object(m) => {
            let mut kv: Vec<_> = m.iter().collect();
            for i in (1..kv.len()).rev() {
                kv.swap(i, rng.below(i as u64 + 1) as usize);
            }
            let parts: Vec<_> = kv.iter().map(|(k, v)| format!("{}: {}", json!(k), shuffled(v, rng))).collect();
            format!("{{ {} }}", parts.join(" ,\n"))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(|v| shuffled(v, rng)).collect::<Vec<_>>().join(" , ")),
        _ => v.to_string(),
    }
}

/// The value's documents and what it answers, before and after each time
/// it was written and read.
fn walk<T: Serialize + DeserializeOwned>(rng: &mut Rng, family: &str, name: Value, v: T, probe: impl Fn(&T) -> Value) -> Value {
    let ask = |v: &T| guard(|| probe(v)).unwrap_or(json!("panic"));
    let doc = |v: &T| guard(|| serde_json::to_value(v).ok()).flatten().map_or("refused".into(), |d| d.to_string());
    let (mut docs, mut answers) = (vec![doc(&v)], vec![ask(&v)]);
    let (mut v, mut hows) = (v, vec![]);
    for _ in 0..3 {
        let how = rng.below(4);
        hows.push(["text", "pretty", "shuffled", "tree"][how as usize]);
        let back = guard(|| -> Option<T> {
            match how {
                0 => serde_json::from_str(&serde_json::to_string(&v).ok()?).ok(),
                1 => serde_json::from_slice(&serde_json::to_vec_pretty(&v).ok()?).ok(),
                2 => serde_json::from_reader(shuffled(&serde_json::to_value(&v).ok()?, rng).as_bytes()).ok(),
                _ => serde_json::from_value(serde_json::to_value(&v).ok()?).ok(),
            }
        }).flatten();
        match back {
            Some(b) => v = b,
            None => {
                docs.push("refused".into());
                answers.push(json!("refused"));
                break;
            }
        }
        docs.push(doc(&v));
        answers.push(ask(&v));
    }
    json!({"k": "kept", "family": family, "name": name, "how": hows, "docs": docs, "answers": answers})
}

fn closed(c: &dyn Calendar, y: i32) -> Value {
    let first = ser(ymd(y, 1, 1));
    let (mut h, mut open) = (vec![], vec![]);
    for k in 1..=ymd(y, 12, 31).ordinal() as i32 {
        let d = date(first + k - 1);
        let weekend = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
        match (c.is_business_day(d), weekend) {
            (false, false) => h.push(k),
            (true, true) => open.push(k),
            _ => {}
        }
    }
    json!([h, open])
}

fn counted(c: &dyn DayCounters, pairs: &[(i32, i32)]) -> Value {
    json!(pairs.iter().map(|(a, b)| json!([a, b, c.day_count(date(*a), date(*b)).unwrap_or(-1_000_000),
        num(guard(|| c.year_fraction(date(*a), date(*b)).ok()).flatten())])).collect::<Vec<_>>())
}

fn seen<T: Debug>(v: &T) -> Value {
    json!(format!("{v:?}"))
}

fn round(x: f64, digits: i32) -> f64 {
    format!("{x:.*}", digits as usize).parse().unwrap()
}

/// One document for each member of a family: no two may be alike.
fn family<T: Serialize + DeserializeOwned + Debug>(o: &mut Out, name: &str, all: Vec<T>) {
    let names: Vec<_> = all.iter().map(|v| format!("{v:?}")).collect();
    let docs: Vec<_> = all.iter().map(|v| serde_json::to_string(v).unwrap_or("refused".into())).collect();
    let back: Vec<_> = docs.iter().map(|d| guard(|| serde_json::from_str::<T>(d).ok()).flatten().map_or("refused".into(), |v| format!("{v:?}"))).collect();
    o.put(json!({"k": "family", "family": name, "names": names, "docs": docs, "back": back}));
    refused::<T>(o, name, &[r#""Atlantis""#, r#"{"Atlantis":1}"#, "17", "true", "[1,2]", r#"""#, ""]);
}

fn refused<T: DeserializeOwned>(o: &mut Out, family: &str, texts: &[&str]) {
    for t in texts {
        let got = match guard(|| serde_json::from_str::<T>(t).is_ok()) { None => "panic", Some(true) => "taken", Some(false) => "refused" };
        o.put(json!({"k": "refused", "family": family, "text": t, "got": got}));
    }
}

fn currency(rng: &mut Rng) -> Currency {
    *rng.pick(&[Currency::USD, Currency::EUR, Currency::JPY, Currency::GBP, Currency::AUD, Currency::CAD, Currency::NOK])
}

fn info(rng: &mut Rng, s: i32) -> BasicInfo {
    let style = match rng.below(4) { 0 => Style::FXForward, 1 => Style::FXCall, 2 => Style::FXPut, _ => Style::IRSwap };
    let e = s + rng.range(1, 900) as i32;
    BasicInfo { trade_date: date(s), style, direction: direction(if rng.below(2) == 0 { 1 } else { -1 }), expiry_date: date(e),
        delivery_date: date(e + rng.range(0, 5) as i32) }
}

fn some_native(rng: &mut Rng, depth: u32) -> (Box<dyn Calendar>, Vec<&'static str>) {
    if depth > 0 && rng.below(3) == 0 {
        let parts: Vec<_> = (0..rng.range(0, 3)).map(|_| some_native(rng, depth - 1)).collect();
        let mut names = vec![];
        let mut all = vec![];
        for (c, n) in parts {
            all.push(c);
            names.extend(n);
        }
        return (Box::new(JointCalendar::new(all)), names);
    }
    let n = rng.pick(CALENDARS).0;
    (native(n), vec![n])
}

fn some_counter(rng: &mut Rng, s: i32) -> Box<dyn DayCounters> {
    let t = s + rng.range(0, 3000) as i32;
    native_counter(rng.pick(COUNTERS), t)
}

fn some_index(rng: &mut Rng, s: i32) -> InterestRateIndex {
    InterestRateIndex { period: some_period(rng), settlement_days: rng.range(-1, 5), currency: currency(rng), calendar: some_native(rng, 1).0,
        convention: CONVENTIONS[rng.below(7) as usize].1, day_counter: some_counter(rng, s), end_of_month: rng.below(2) == 0 }
}

fn some_schedule(rng: &mut Rng, s: i32) -> Vec<InterestRateSchedulePeriod> {
    let mut d = s;
    (0..rng.range(0, 5)).map(|_| {
        let a = d;
        d += rng.range(20, 200) as i32;
        InterestRateSchedulePeriod::new(date(a), date(d), date(d + rng.range(0, 4) as i32), date(a - rng.range(0, 4) as i32),
            round(rng.real(0.0, 500.0), 2), round(rng.real(1e3, 1e6), 2))
    }).collect()
}

fn some_frequency(rng: &mut Rng) -> Frequency {
    let all: Vec<_> = Frequency::iter().collect();
    all.into_iter().nth(rng.below(13) as usize).unwrap_or(Frequency::Once)
}

fn some_swap(rng: &mut Rng, s: i32) -> InterestRateSwap {
    InterestRateSwap::new((0..rng.range(0, 3)).map(|_| {
        let kind = if rng.below(2) == 0 { InterestRateSwapLegType::Fixed { coupon: round(rng.real(-0.01, 0.08), 5) } }
            else { InterestRateSwapLegType::Float { spread: round(rng.real(-0.01, 0.01), 5) } };
        InterestRateSwapLeg::new(kind, if rng.below(2) == 0 { Direction::Buy } else { Direction::Sell }, some_index(rng, s), round(rng.real(1.0, 1e7), 1),
            ScheduleDetail::new(some_frequency(rng), some_period(rng), some_period(rng), some_counter(rng, s), some_native(rng, 1).0,
                CONVENTIONS[rng.below(7) as usize].1, rng.range(0, 4), rng.range(0, 4), rng.range(0, 4)), some_schedule(rng, s))
    }).collect())
}

pub fn record(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let rng = &mut Rng(seed ^ 0xD0C5);
    let n = if deep { 12 } else { 1 };

    // calendars and what they are closed on
    for (name, _) in CALENDARS {
        for _ in 0..2 * n {
            let y = rng.range(1950, 2080) as i32;
            let r = walk(rng, "calendar", json!([[name], y]), native(name), |c| closed(&**c, y));
            o.put(r);
        }
    }
    for _ in 0..80 * n {
        let y = rng.range(1950, 2080) as i32;
        let parts: Vec<_> = (0..rng.range(0, 3)).map(|_| some_native(rng, 2)).collect();
        let (mut all, mut names) = (vec![], vec![]);
        for (c, n) in parts {
            all.push(c);
            names.extend(n);
        }
        let joint: Box<dyn Calendar> = Box::new(JointCalendar::new(all));
        let r = walk(rng, "calendar", json!([names, y]), joint, |c| closed(&**c, y));
        o.put(r);
    }
    let docs: Vec<_> = CALENDARS.iter().map(|(n, _)| serde_json::to_string(&native(n)).unwrap_or("refused".into())).collect();
    o.put(json!({"k": "family", "family": "calendar", "names": CALENDARS.iter().map(|c| c.0).collect::<Vec<_>>(), "docs": docs,
        "back": CALENDARS.iter().map(|c| c.0).collect::<Vec<_>>()}));
    refused::<Box<dyn Calendar>>(&mut o, "calendar", &[r#"{"type":"Atlantis"}"#, r#"{"type":"Atlantis","market":null}"#, r#"{"market":"Settlement"}"#,
        r#"{"type":"Brazil","market":"Atlantis"}"#, r#"{"type":"UnitedStates","market":"Eurex"}"#, r#"{"type":"Actual360"}"#, "17", "null", r#""Atlantis""#,
        r#"{"type":"JointCalendar","calendars":[{"type":"Target"},{"type":"Atlantis"}]}"#, r#"{"type":"Brazil","market":"Settlement""#]);

    // day counters and what they count
    for name in COUNTERS {
        for _ in 0..6 * n {
            let s = some_date(rng);
            let mut pairs: Vec<(i32, i32)> = (0..12).map(|_| (s + rng.below(1500) as i32, s + rng.below(1500) as i32)).collect();
            let t = match rng.below(3) {
                0 => ser(ymd(date(s).year() + 1, 3, 1)) - 1,
                _ => s + rng.below(1500) as i32,
            };
            pairs.extend([(s, t), (ser(ymd(date(t).year() - 1, 3, 1)) - 1, t), (t, s)]);
            let r = walk(rng, "counter", json!([name, t]), native_counter(name, t), |c| counted(&**c, &pairs));
            o.put(r);
        }
    }
    for m in ["Standard", "NoLeap"] {
        for _ in 0..6 * n {
            let s = some_date(rng);
            let pairs: Vec<(i32, i32)> = (0..12).map(|_| (s + rng.below(1500) as i32, s + rng.below(1500) as i32)).collect();
            let c: Box<dyn DayCounters> = serde_json::from_value(json!({"type": "Actual365Fixed", "market": m})).expect("counter");
            let r = walk(rng, "counter", json!([format!("Actual365Fixed.{m}"), s]), c, |c| counted(&**c, &pairs));
            o.put(r);
        }
    }
    for _ in 0..25 * n {
        let s = some_date(rng);
        let (c, names) = some_native(rng, 1);
        let doc = json!({"type": "Business252", "calendar": serde_json::to_value(&c).unwrap()});
        let pairs: Vec<(i32, i32)> = (0..6).map(|_| (s + rng.below(700) as i32, s + rng.below(700) as i32)).collect();
        let x = pattern_of(&*c, s - 5, s + 1500);
        let b: Business252 = serde_json::from_value(doc).expect("business 252");
        let b: Box<dyn DayCounters> = Box::new(b);
        let mut r = walk(rng, "b252", json!([names, s]), b, |c| counted(&**c, &pairs));
        r["x"] = json!(x);
        o.put(r);
    }
    let t = 738_000;
    let docs: Vec<_> = COUNTERS.iter().map(|n| serde_json::to_string(&native_counter(n, t)).unwrap_or("refused".into())).collect();
    o.put(json!({"k": "family", "family": "counter", "names": COUNTERS, "docs": docs, "back": COUNTERS}));
    refused::<Box<dyn DayCounters>>(&mut o, "counter", &[r#"{"type":"Atlantis"}"#, r#"{"market":"USA"}"#, r#"{"type":"Thirty360","market":"Atlantis"}"#,
        r#"{"type":"Thirty360","market":{"ISDA":"2024-02-31"}}"#, r#"{"type":"ActualActual","market":"Atlantis"}"#, r#"{"type":"Target"}"#, "17", "null"]);

    // the words
    family(&mut o, "direction", vec![Direction::Buy, Direction::Sell]);
    family(&mut o, "style", vec![Style::FXForward, Style::FXCall, Style::FXPut, Style::IRSwap]);
    family(&mut o, "option type", vec![OptionType::Call, OptionType::Put]);
    family(&mut o, "cap kind", vec![CapFloorKind::Cap, CapFloorKind::Floor]);
    family(&mut o, "cap style", vec![CapStyle::ForwardLooking, CapStyle::BackwardCompounded]);
    family(&mut o, "shift", vec![RateShiftMode::Zeros, RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps]);
    family(&mut o, "quote", vec![InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures, InterestRateQuoteEnum::Swap]);
    family(&mut o, "frequency", Frequency::iter().collect());
    family(&mut o, "convention", CONVENTIONS.iter().map(|c| c.1).collect::<Vec<Bdc>>());
    family(&mut o, "pair", PAIRS.iter().map(|p| pair(p)).collect());
    family(&mut o, "index", vec![InterestRateIndexEnum::AONIA, InterestRateIndexEnum::CDOR(Period::Months(3)), InterestRateIndexEnum::CDOR(Period::Months(1)),
        InterestRateIndexEnum::EONIA, InterestRateIndexEnum::ESTR, InterestRateIndexEnum::EUIBOR(Period::Months(3)), InterestRateIndexEnum::EUIBOR(Period::Weeks(3)),
        InterestRateIndexEnum::SONIA, InterestRateIndexEnum::SOFR]);
    let mut periods = vec![Period::ON, Period::TN, Period::SPOT, Period::SN];
    for k in [0, 1, 2, 3, 12, 1000, i64::MAX] {
        periods.extend([Period::Days(k), Period::Weeks(k)]);
        if k > 0 { periods.extend([Period::Days(-k), Period::Weeks(-k)]) }
        if k < 2000 { periods.extend([Period::Months(k as u32), Period::Years(k as u32)]) }
    }
    family(&mut o, "period", periods);

    // and what is made of them
    for _ in 0..40 * n {
        let s = some_date(rng);
        let u = |rng: &mut Rng| -> FXUnderlying { pair(rng.pick(PAIRS)) };
        let v = info(rng, s);
        o.put(walk(rng, "trade", json!(s), v, seen));
        let v = FXForward { basic_info: info(rng, s), asset: u(rng), notional_currency: currency(rng), notional_amounts: round(rng.real(-1e7, 1e7), 2), strike: round(rng.real(0.5, 200.0), 6) };
        o.put(walk(rng, "forward", json!(s), v, seen));
        let v = FXVanillaOption { basic_info: info(rng, s), asset: u(rng), option_type: if rng.below(2) == 0 { OptionType::Call } else { OptionType::Put },
            notional_currency: currency(rng), notional_amounts: round(rng.real(-1e7, 1e7), 2), strike: round(rng.real(0.5, 200.0), 6), volatility: round(rng.unit(), 5) };
        o.put(walk(rng, "option", json!(s), v, seen));
        let v = CurrencyValue { currency: currency(rng), value: round(rng.real(-1e9, 1e9), 3) };
        o.put(walk(rng, "amount", json!(s), v, seen));
        let v = FXForwardQuote { tenor: some_period(rng), value: round(rng.real(-900.0, 900.0), 4) };
        o.put(walk(rng, "points", json!(s), v, seen));
        let v = CapFloor { basic_info: info(rng, s), kind: if rng.below(2) == 0 { CapFloorKind::Cap } else { CapFloorKind::Floor },
            style: if rng.below(2) == 0 { CapStyle::ForwardLooking } else { CapStyle::BackwardCompounded }, currency: currency(rng), notional: round(rng.real(1.0, 1e8), 2),
            strike: round(rng.real(-0.01, 0.1), 6), valuation_date: date(s), schedule: some_schedule(rng, s), accrual_day_counter: some_counter(rng, s) };
        o.put(walk(rng, "cap", json!(s), v, |c| json!([seen(c), counted(&*c.accrual_day_counter, &[(s, s + 400), (s + 90, s + 150)])])));
        let v = some_index(rng, s);
        o.put(walk(rng, "rate index", json!(s), v, |i| json!([seen(i), closed(&*i.calendar, date(s).year())])));
        let mut futures = InterestRateFutures::new(some_period(rng));
        if rng.below(3) > 0 {
            futures.calendar = some_native(rng, 1).0;
            futures.convention = CONVENTIONS[rng.below(7) as usize].1;
            futures.day_counter = some_counter(rng, s);
            futures.end_of_month = rng.below(2) == 0;
        }
        o.put(walk(rng, "futures", json!(s), futures, |f| json!([seen(f), closed(&*f.calendar, date(s).year())])));
        let v = OISRate { value: round(rng.real(-0.01, 0.08), 5), interest_rate_index: some_index(rng, s) };
        o.put(walk(rng, "cash quote", json!(s), v, |q| json!([seen(q), seen(&guard(|| (q.settle_date(date(s)).ok(), q.maturity_date(date(s)).ok())))])));
        let v = FuturesRate { value: round(rng.real(90.0, 101.0), 3), imm_code: finquant::time::imm::IMM.code(finquant::time::imm::IMM.next_date(date(s), true)).unwrap_or("H4".into()),
            convexity_adjustment: round(rng.real(0.0, 0.1), 4), futures_spec: InterestRateFutures::new(Period::Months(3)), interest_rate_index: some_index(rng, s) };
        o.put(walk(rng, "futures quote", json!(s), v, |q| json!([seen(q), num(Some(q.implied_quote()))])));
        let v = some_swap(rng, s);
        o.put(walk(rng, "swap", json!(s), v, |w| json!([seen(w), w.legs.iter().map(|l| closed(&*l.schedule_detail.calendar, date(s).year())).collect::<Vec<_>>()])));
        let maybe = |rng: &mut Rng| (rng.below(3) > 0).then(|| round(rng.real(-1e6, 1e6), 4));
        let v = InterestRateCashflow { day_counts: (rng.below(3) > 0).then(|| rng.range(-5, 400)), notional: maybe(rng), principal: maybe(rng), reset_rate: maybe(rng),
            payment: maybe(rng), discount: maybe(rng), present_value: maybe(rng) };
        o.put(walk(rng, "cash flow", json!(s), v, seen));
        let k = rng.range(1, 6) as usize;
        let mut p = crate::fx::some_pillars(rng, s, k, true).v;
        for x in &mut p {
            (x.market_rate, x.zero_rate, x.discount) = (round(rng.real(-0.01, 0.08), 6), round(x.zero_rate, 6), round(x.discount, 6));
        }
        let ask: Vec<i32> = (0..6).map(|_| s + rng.below(3000) as i32).collect();
        let curve = YieldTermStructure::new(some_native(rng, 1).0, some_counter(rng, s), date(s), p);
        o.put(walk(rng, "curve", json!(s), curve, |c| json!([seen(c), closed(&*c.calendar, date(s).year()), counted(&*c.day_counter, &[(s, s + 500)]),
            ask.iter().flat_map(|d| [InterpolationMethodEnum::StepFunctionForward, InterpolationMethodEnum::PiecewiseLinearContinuous].map(|m|
                num(guard(|| c.discount(date(*d), &m).ok()).flatten()))).collect::<Vec<_>>()])));
    }
    println!("COUNT documents {}", o.n);
}
