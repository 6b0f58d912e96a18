//! Day counters, periods, IMM dates, joint calendars and FX pair conventions.
use crate::calendars::{CALENDARS, calendar};
use crate::common::*;
use crate::pattern::*;
use crate::time::some_period;
use chrono::{Datelike, NaiveTime, Weekday};
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::time::calendars::{Calendar, JointCalendar};
use finquant::time::daycounters::DayCounters;
use finquant::time::frequency::Frequency;
use finquant::time::imm::IMM;
use finquant::time::period::Period;
use serde_json::{Value, json};
use std::str::FromStr;
use strum::IntoEnumIterator;

pub const PAIRS: &[&str] = &[
    "EURGBP", "EURUSD", "EURCAD", "EURJPY", "EURCHF", "EURNOK", "EURSEK", "EURAUD", "EURNZD",
    "EURDKK", "EURPLN", "EURHUF", "EURCZK", "EURRON", "GBPUSD", "GBPCAD", "GBPJPY", "GBPAUD",
    "GBPNZD", "GBPCHF", "GBPNOK", "GBPSEK", "AUDUSD", "NZDUSD", "USDCHF", "USDNOK", "USDSEK",
    "USDJPY", "USDSGD", "USDHKD", "USDCNY", "USDPLN", "USDHUF", "USDCZK", "USDZAR", "USDKRW",
    "USDINR", "USDBRL", "USDDKK", "USDIDR", "USDTWD", "USDTHB", "USDILS", "USDRON", "USDCAD",
    "USDMXN", "USDTRY", "USDRUB", "AUDNZD", "AUDCAD", "AUDCHF", "AUDJPY", "AUDSGD", "NZDCAD",
    "NZDCHF", "NZDJPY", "NZDSGD", "CADJPY", "CHFJPY", "CADCHF",
];

pub fn pair(name: &str) -> FXUnderlying {
    FXUnderlying::from_str(name).expect("pair")
}

fn year_days(y: i32) -> std::ops::RangeInclusive<i32> {
    ser(ymd(y, 1, 1))..=ser(ymd(y, 12, 31))
}

fn closed_doys(cal: &dyn Calendar, y: i32) -> Vec<i32> {
    let first = *year_days(y).start();
    year_days(y).filter(|s| !cal.is_business_day(date(*s))).map(|s| s - first + 1).collect()
}

pub fn joint(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x101);
    for i in 0..if deep { 3000 } else { 400 } {
        let y = rng.range(1950, 2060) as i32;
        let n = if i == 0 { 0 } else { rng.range(1, 4) };
        let mut members = vec![];
        let mut closed = vec![];
        for _ in 0..n {
            let (name, js) = rng.pick(CALENDARS);
            members.push((name.to_string(), js.to_string()));
            closed.push(closed_doys(&*calendar(js), y));
        }
        let boxes = |m: &[(String, String)]| m.iter().map(|(_, js)| calendar(js)).collect::<Vec<_>>();
        let flat = JointCalendar::new(boxes(&members));
        // the same members, nested two levels deep
        let (a, b) = members.split_at(members.len() / 2);
        let nested = JointCalendar::new(vec![
            Box::new(JointCalendar::new(boxes(a))),
            Box::new(JointCalendar::new(vec![Box::new(JointCalendar::new(boxes(b)))])),
        ]);
        // ... and through its serialised form
        let js = serde_json::to_string(&flat as &dyn Calendar).expect("serialise");
        let back: Box<dyn Calendar> = serde_json::from_str(&js).expect("deserialise");
        let names: Vec<_> = members.iter().map(|m| m.0.clone()).collect();
        for (how, cal) in [("flat", &flat as &dyn Calendar), ("nested", &nested), ("serde", &*back)] {
            let j = guard(|| closed_doys(cal, y)).unwrap_or(vec![-1]);
            o.put(json!({"k": "joint", "how": how, "y": y, "names": names, "m": closed, "j": j}));
        }
    }
    let years: Vec<i32> = if deep { (1970..=2075).collect() } else { (2000..=2030).step_by(2).collect() };
    for name in PAIRS {
        let p = pair(name);
        for y in &years {
            let cal = p.calendar();
            let first = *year_days(*y).start();
            let (mut h, mut open) = (vec![], vec![]);
            for s in year_days(*y) {
                let d = date(s);
                let w = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
                let b = guard(|| cal.is_business_day(d)).unwrap_or(w);
                if !b && !w { h.push(s - first + 1) }
                if b && w { open.push(s - first + 1) }
            }
            o.put(json!({"k": "pair", "pair": name, "y": y, "h": h, "open": open}));
        }
    }
    for name in PAIRS {
        let p = pair(name);
        let (d1, d2) = (date(738000), date(738360));
        o.put(json!({"k": "conv", "pair": name, "name": p.to_string(),
            "dom": p.dom_currency().code(), "frn": p.frn_currency().code(),
            "settles": p.settles(), "points": format!("{:?}", p.forward_points_converter()),
            "yf": num(guard(|| p.day_count().year_fraction(d1, d2).unwrap())),
            "cutoff": p.cutoff_utc().format("%H:%M:%S").to_string()}));
    }
}

/// (name in the specification, serialised form)
pub fn counters(termination: i32) -> Vec<(String, String)> {
    let mut v = vec![];
    for n in ["Actual360", "Actual364", "Actual366", "Thirty365"] {
        v.push((n.to_string(), format!(r#"{{"type":"{n}"}}"#)));
    }
    for m in ["Standard", "NoLeap"] {
        v.push((format!("Actual365Fixed.{m}"), format!(r#"{{"type":"Actual365Fixed","market":"{m}"}}"#)));
    }
    v.push(("Actual365Fixed".into(), r#"{"type":"Actual365Fixed","market":null}"#.into()));
    for m in ["Isda", "Euro"] {
        v.push((format!("ActualActual.{m}"), format!(r#"{{"type":"ActualActual","market":"{m}"}}"#)));
    }
    v.push(("ActualActual".into(), r#"{"type":"ActualActual","market":null}"#.into()));
    for m in ["USA", "European", "Italian", "ISMA", "NASD"] {
        v.push((format!("Thirty360.{m}"), format!(r#"{{"type":"Thirty360","market":"{m}"}}"#)));
    }
    let t = date(termination);
    for m in ["ISDA", "German"] {
        v.push((format!("Thirty360.{m}"), format!(r#"{{"type":"Thirty360","market":{{"{m}":"{t}"}}}}"#)));
    }
    v
}

pub fn counter(js: &str) -> Box<dyn DayCounters> {
    serde_json::from_str(js).expect("day counter")
}

fn dc_row(dc: &dyn DayCounters, a: i32, b: i32) -> Value {
    let (d1, d2) = (date(a), date(b));
    let c = guard(|| dc.day_count(d1, d2).ok()).flatten().unwrap_or(-1_000_000);
    let y = guard(|| dc.year_fraction(d1, d2).ok()).flatten();
    json!([a, b, c, num(y)])
}

pub fn daycount(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xDC);
    // Every pair of the dates on which some convention changes its mind
    let mut special = vec![];
    for y in [2019, 2020, 2021, 2024] {
        for (m, d) in [(1, 1), (1, 30), (1, 31), (2, 1), (2, 27), (2, 28), (2, 29), (3, 1), (3, 30),
            (3, 31), (4, 15), (4, 30), (8, 31), (11, 30), (12, 1), (12, 30), (12, 31)]
        {
            if let Some(d) = chrono::NaiveDate::from_ymd_opt(y, m, d) { special.push(ser(d)) }
        }
    }
    let mut pairs: Vec<(i32, i32)> = vec![];
    for a in &special {
        for b in &special {
            pairs.push((*a, *b));
        }
    }
    // ... and around the century years, leap or not
    let ends = |y: i32| [(1, 1), (1, 31), (2, 27), (2, 28), (2, 29), (3, 1), (3, 30), (3, 31), (12, 31)].into_iter()
        .filter_map(move |(m, d)| chrono::NaiveDate::from_ymd_opt(y, m, d)).map(ser);
    for a in [1999, 2000, 2099, 2100, 2101].into_iter().flat_map(ends) {
        for b in [1996, 2000, 2001, 2096, 2100, 2101, 2104].into_iter().flat_map(ends) {
            pairs.push((a, b));
            pairs.push((b, a));
        }
    }
    for _ in 0..if deep { 20000 } else { 1500 } {
        let a = ser(ymd(1905, 1, 1)) + rng.below(95_000) as i32;
        let span = [40, 400, 4000, 30000][rng.below(4) as usize];
        let b = (a + rng.range(-span, span) as i32).clamp(ser(ymd(1902, 1, 1)), ser(ymd(2190, 1, 1)));
        pairs.push((a, b));
        // whole years on the day, where Actual/Actual must be exact
        if let Some(d) = chrono::NaiveDate::from_ymd_opt(date(a).year() + rng.range(-12, 12) as i32, date(a).month(), date(a).day()) {
            pairs.push((a, ser(d)));
        }
    }
    for chunk in pairs.chunks(200) {
        // a termination date that is one of the second dates, the last one in February if any
        let t = chunk.iter().map(|p| p.1).filter(|s| date(*s).month() == 2 && date(*s).day() > 27)
            .next_back().unwrap_or(chunk[chunk.len() / 2].1);
        for (name, js) in counters(t) {
            let dc = counter(&js);
            let q: Vec<_> = chunk.iter().map(|(a, b)| dc_row(&*dc, *a, *b)).collect();
            o.put(json!({"k": "dc", "dc": name, "t": t, "q": q}));
        }
    }
    // Business/252 over patterned and real calendars
    for i in 0..if deep { 1500 } else { 200 } {
        let s = ser(ymd(rng.range(1960, 2080) as i32, rng.range(1, 12) as u32, rng.range(1, 28) as u32));
        let (x, cal): (Vec<i32>, Value) = if i % 2 == 0 {
            let (_, js) = rng.pick(CALENDARS);
            (pattern_of(&*calendar(js), s - 5, s + 900), serde_json::from_str(js).unwrap())
        } else {
            let mut x: Vec<i32> = (0..120).map(|_| s + rng.below(900) as i32).collect();
            x.sort();
            x.dedup();
            (x.clone(), json!({"type": "Pattern", "we": true, "x": x}))
        };
        let dc: Box<dyn DayCounters> =
            serde_json::from_value(json!({"type": "Business252", "calendar": cal})).expect("b252");
        let mut q = vec![];
        for _ in 0..6 {
            let a = s + rng.below(430) as i32;
            let b = a + [0, rng.range(0, 35), rng.range(0, 450)][rng.below(3) as usize] as i32;
            q.push(dc_row(&*dc, a, b));
            q.push(dc_row(&*dc, b, a));
        }
        o.put(json!({"k": "b252", "we": true, "x": x, "q": q}));
    }
    // From a year fraction back to a date
    for _ in 0..if deep { 3000 } else { 300 } {
        let a = ser(ymd(1990, 1, 1)) + rng.below(20000) as i32;
        let b = a + rng.below(40 * 365) as i32;
        for (name, js) in [("Actual365Fixed", r#"{"type":"Actual365Fixed","market":null}"#),
            ("ActualActual", r#"{"type":"ActualActual","market":null}"#),
            ("Actual364", r#"{"type":"Actual364"}"#), ("Actual366", r#"{"type":"Actual366"}"#)]
        {
            let dc = counter(js);
            let t = dc.year_fraction(date(a), date(b)).unwrap_or(0.0);
            let back = res(guard(|| dc.year_fraction_to_date(date(a), t).ok()));
            o.put(json!({"k": "inv", "dc": name, "a": a, "b": b, "back": back}));
        }
    }
}

pub fn periods(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x9E);
    let put = |s: i32, p: Period, o: &mut Out| {
        let a = resr(guard(|| (date(s) + p).map(Some)));
        let b = resr(guard(|| (date(s) - p).map(Some)));
        o.put(json!({"k": "plus", "s": s, "p": period_json(p), "add": a, "sub": b}));
    };
    // every day of two years, a leap one and not, by every number of months to two years
    for s in ser(ymd(2023, 1, 1))..=ser(ymd(2024, 12, 31)) {
        for m in if deep { (0..=26).collect::<Vec<u32>>() } else { vec![1, 2, 3, 6, 11, 12, 13, 23] } {
            put(s, Period::Months(m), &mut o);
        }
        put(s, Period::Years(1), &mut o);
        put(s, Period::Years(4), &mut o);
    }
    for _ in 0..if deep { 60000 } else { 8000 } {
        let s = ser(ymd(1905, 1, 1)) + rng.below(90_000) as i32;
        put(s, some_period(&mut rng), &mut o);
        put(s, Period::Months(rng.below(600) as u32), &mut o);
        put(s, Period::Days(rng.range(-4000, 4000)), &mut o);
    }
    for n in [0u32, 1, 2, 3, 7, 12, 40] {
        for p in [Period::ON, Period::TN, Period::SPOT, Period::SN, Period::Days(-3), Period::Days(5),
            Period::Weeks(2), Period::Weeks(-1), Period::Months(4), Period::Years(3)]
        {
            let r = guard(|| n * p).map(period_json).unwrap_or(json!(["panic", 0]));
            o.put(json!({"k": "times", "n": n, "p": period_json(p), "r": r}));
        }
    }
    for f in Frequency::iter() {
        let js = serde_json::to_string(&f).unwrap();
        o.put(json!({"k": "freq", "f": f.to_string(), "code": f.name(), "v": f_value(&js),
            "p": f.period().map(period_json).unwrap_or(json!(["none", 0])),
            "from": Frequency::from_code(f.name()).map(|g| g.to_string()).unwrap_or("none".into()),
            "from2": Frequency::from_code(&f.to_string()).map(|g| g.to_string()).unwrap_or("none".into())}));
    }
    for (n, c) in CONVENTIONS {
        use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
        let back = Bdc::from_code(c.name()).map(|b| b == *c).unwrap_or(false);
        let back2 = Bdc::from_code(&c.name().replace(' ', "").replace("Half-Month", "HalfMonth"))
            .map(|b| b == *c).unwrap_or(false);
        o.put(json!({"k": "bdc", "c": n, "back": back, "back2": back2}));
    }
}

fn f_value(js: &str) -> String {
    js.trim_matches('"').to_string()
}

pub fn imm(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0x133);
    let (lo, hi) = if deep { (1910, 2150) } else { (2016, 2032) };
    for s in ser(ymd(lo, 1, 1))..=ser(ymd(hi, 12, 31)) {
        let d = date(s);
        o.put(json!({"k": "day", "s": s,
            "is": guard(|| IMM.is_imm_date(d, false)), "main": guard(|| IMM.is_imm_date(d, true)),
            "next": res(guard(|| Some(IMM.next_date(d, false)))),
            "nextm": res(guard(|| Some(IMM.next_date(d, true)))),
            "code": guard(|| IMM.code(d).unwrap_or("none".into())).unwrap_or("panic".into())}));
    }
    let letters = "FGHJKMNQUVXZfghjkmnquvxz";
    let mut codes: Vec<String> = vec![];
    for c in letters.chars() {
        for n in 0..10 {
            codes.push(format!("{c}{n}"));
        }
    }
    for i in 0..if deep { 200 } else { 30 } {
        let refd = if i == 0 { ser(ymd(2029, 12, 31)) } else { ser(ymd(1910, 1, 1)) + rng.below(70_000) as i32 };
        let q: Vec<_> = codes.iter()
            .map(|c| json!([c, res(guard(|| IMM.date(c.clone(), Some(date(refd)))))]))
            .collect();
        o.put(json!({"k": "date", "ref": refd, "q": q}));
        // around the very date
        let c = rng.pick(&codes).clone();
        if let Some(Some(d)) = guard(|| IMM.date(c.clone(), Some(date(refd)))) {
            for s in ser(d) - 1..=ser(d) + 1 {
                let r = res(guard(|| IMM.date(c.clone(), Some(date(s)))));
                o.put(json!({"k": "date", "ref": s, "q": [[c, r]]}));
            }
        }
    }
    let mut strings: Vec<String> = codes.clone();
    for a in 0x20u8..0x7f {
        for b in ['0', '5', '9', 'A', ' '] {
            strings.push(format!("{}{}", a as char, b));
        }
    }
    for s in ["", "H", "H12", "é", "5H", "é5", "H\u{663}", "Hé", "HH", "55", "H-1", "日本"] {
        strings.push(s.into());
    }
    for s in strings {
        let cs: Vec<String> = s.chars().map(String::from).collect();
        o.put(json!({"k": "valid", "s": s, "c": cs, "any": guard(|| IMM.is_imm_code(s.clone(), false)),
            "main": guard(|| IMM.is_imm_code(s.clone(), true))}));
    }
}

pub fn fxdates(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xF8);
    let tenors = [Period::ON, Period::TN, Period::SPOT, Period::SN, Period::Days(1), Period::Days(3),
        Period::Weeks(1), Period::Weeks(2), Period::Weeks(3), Period::Months(1), Period::Months(2),
        Period::Months(3), Period::Months(6), Period::Months(9), Period::Years(1), Period::Years(2)];
    let opt = |r: Option<finquant::error::Result<Option<chrono::NaiveDate>>>| resr(r);
    for (pi, name) in PAIRS.iter().enumerate() {
        let p = pair(name);
        for j in 0..if deep { 250 } else { 24 } {
            let s = match (pi + j) % 3 {
                0 => { // near a month end
                    let (y, m) = (rng.range(2004, 2049) as i32, rng.range(1, 12) as u32);
                    ser(ymd(y, m, days_in_month(y, m))) - rng.below(6) as i32
                }
                _ => ser(ymd(2004, 1, 1)) + rng.below(45 * 365) as i32,
            };
            let x = pattern_of(&p.calendar(), s - 40, s + 830);
            let mut q = vec![];
            for t in tenors {
                q.push(json!([period_json(t),
                    resr(guard(|| p.settlement_date(t, date(s)).map(Some))),
                    opt(guard(|| p.near_date(t, date(s)))),
                    resr(guard(|| t.settlement_date(date(s), &p.calendar()).map(Some))),
                    opt(guard(|| t.near_date(date(s), &p.calendar())))]));
            }
            let mut c = vec![];
            for secs in [0, 8 * 3600 + 3599, 9 * 3600, 9 * 3600 + 1799, 9 * 3600 + 1800, 17 * 3600 - 1,
                17 * 3600, 22 * 3600 - 1, 22 * 3600, 86399, rng.below(86400) as u32]
            {
                let time = NaiveTime::from_num_seconds_from_midnight_opt(secs, 0).unwrap();
                c.push(json!([secs, res(guard(|| Some(p.effective_valuation_date(date(s), time))))]));
            }
            o.put(json!({"k": "pair", "pair": name, "s": s, "we": true, "x": x, "q": q, "c": c}));
        }
    }
    // Any calendar at all, under the standard T+2
    for _ in 0..if deep { 6000 } else { 1000 } {
        let (y, m) = (rng.range(2004, 2049) as i32, rng.range(1, 12) as u32);
        let s = ser(ymd(y, m, days_in_month(y, m))) - rng.below(12) as i32;
        let mut x: Vec<i32> = (-6..45).filter(|_| rng.below(5) == 0).map(|k| s + k).collect();
        x.sort();
        let cal = Pattern { we: rng.below(3) > 0, x: x.clone() };
        let mut q = vec![];
        for t in &tenors[..10] {
            q.push(json!([period_json(*t), -9, -9,
                resr(guard(|| t.settlement_date(date(s), &cal).map(Some))),
                opt(guard(|| t.near_date(date(s), &cal)))]));
        }
        o.put(json!({"k": "any", "pair": "none", "s": s, "we": cal.we, "x": x, "q": q, "c": []}));
    }
}
