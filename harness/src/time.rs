//! Date arithmetic: adjustment, advancing, counting business days.
use crate::calendars::{CALENDARS, calendar};
use crate::common::*;
use crate::pattern::*;
use chrono::Datelike;
use finquant::time::calendars::Calendar;
use finquant::time::period::Period;
use serde_json::json;

/// Month ends and half-months: where a pattern of closed days can matter.
const PIVOTS: &[(i32, u32, u32)] =
    &[(2024, 2, 29), (2023, 12, 31), (2023, 6, 15), (2023, 2, 28), (2022, 4, 30), (2021, 1, 15)];

/// Every pattern of `w` days placed around each pivot, as closed days.
fn patterns(w: i32, pivots: usize, mut f: impl FnMut(i32, i32, Pattern)) {
    for (y, m, d) in &PIVOTS[..pivots] {
        let lo = ser(ymd(*y, *m, *d)) - w / 2 + 1;
        for bits in 0..(1u32 << w) {
            let x = (0..w).filter(|i| bits >> i & 1 == 1).map(|i| lo + i).collect();
            f(lo, lo + w - 1, Pattern { we: false, x });
        }
    }
}

/// Calendars with long closures: from `from`, `n` days.
fn closures(mut f: impl FnMut(i32, i32, Pattern)) {
    for (y, m, d) in PIVOTS {
        for n in [12, 20, 33, 45] {
            for back in [0, 5, 16, 31] {
                let lo = ser(ymd(*y, *m, *d)) - back;
                f(lo, lo + n - 1, Pattern { we: true, x: (lo..lo + n)
                    .filter(|s| !matches!((s - 1) % 7, 5 | 6)).collect() });
            }
        }
    }
}

pub fn adjust(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed);
    let ask = |cal: &dyn Calendar, p: &Pattern, days: &mut dyn Iterator<Item = i32>, o: &mut Out| {
        let mut q = vec![];
        for s in days {
            for (n, c) in CONVENTIONS {
                q.push(json!([s, n, res(guard(|| cal.adjust(date(s), *c)))]));
            }
        }
        o.put(json!({"we": p.we, "x": p.x, "q": q}));
    };
    patterns(if deep { 12 } else { 9 }, if deep { 6 } else { 4 }, |lo, hi, p| {
        ask(&p, &p, &mut (lo..=hi), &mut o)
    });
    closures(|lo, hi, p| ask(&p, &p, &mut (lo - 1..=hi + 1), &mut o));
    for (_, js) in CALENDARS {
        let cal = calendar(js);
        for _ in 0..if deep { 40 } else { 6 } {
            let s = ser(ymd(rng.range(1950, 2098) as i32, rng.range(1, 12) as u32, rng.range(1, 28) as u32));
            let p = Pattern { we: true, x: pattern_of(&*cal, s - 40, s + 60) };
            ask(&*cal, &p, &mut (s..s + 20), &mut o);
        }
    }
}

fn some_date(rng: &mut Rng) -> i32 {
    let y = rng.range(1960, 2080) as i32;
    let m = rng.range(1, 12) as u32;
    let first = ser(ymd(y, m, 1));
    let last = first + days_in_month(y, m) as i32 - 1;
    match rng.below(10) {
        0..=3 => last - rng.below(4) as i32,
        4 => first + rng.below(3) as i32,
        5 => first + 12 + rng.below(6) as i32,
        _ => first + rng.below((last - first + 1) as u64) as i32,
    }
}

pub fn some_period(rng: &mut Rng) -> Period {
    match rng.below(12) {
        0 => Period::ON,
        1 => Period::TN,
        2 => Period::SPOT,
        3 => Period::SN,
        4 => Period::Days(rng.range(-3, 3)),
        5 => Period::Days(rng.range(-40, 40)),
        6 => Period::Weeks(rng.range(-9, 9)),
        7 => Period::Years(rng.range(0, 5) as u32),
        _ => Period::Months(rng.range(0, 40) as u32),
    }
}

/// A weekend calendar with random closures near `s` and, `m` months on, near the target.
fn random_pattern(rng: &mut Rng, spots: &[i32]) -> Pattern {
    let mut x = vec![];
    for s in spots {
        let dense = [3, 6, 12][rng.below(3) as usize];
        for k in -20..=20 {
            if rng.below(dense) == 0 {
                x.push(s + k);
            }
        }
    }
    x.sort();
    x.dedup();
    Pattern { we: rng.below(4) != 0, x }
}

fn target(s: i32, p: Period) -> i32 {
    match p {
        Period::Days(n) => s + n as i32,
        Period::Weeks(n) => s + 7 * n as i32,
        Period::Months(n) => ser(date(s) + chrono::Months::new(n)),
        Period::Years(n) => ser(date(s) + chrono::Months::new(12 * n)),
        _ => s,
    }
}

fn month_end(s: i32) -> i32 {
    let d = date(s);
    ser(ymd(d.year(), d.month(), days_in_month(d.year(), d.month())))
}

pub fn advance(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xAD);
    let cals: Vec<_> = CALENDARS.iter().map(|(_, js)| calendar(js)).collect();
    for i in 0..if deep { 60000 } else { 9000 } {
        let s = some_date(&mut rng);
        let mut p = some_period(&mut rng);
        let real = i % 3 == 0;
        if real && rng.below(3) == 0 {
            p = Period::Months(rng.range(1, 12) as u32);
        }
        let t = target(s, p);
        let pat = if real {
            let cal = rng.pick(&cals);
            let (lo, hi) = (s.min(t) - 100, s.max(t) + 100);
            Pattern { we: true, x: pattern_of(&**cal, lo, hi) }
        } else {
            random_pattern(&mut rng, &[s, t, month_end(s), month_end(t)])
        };
        let mut q = vec![];
        let starts = if rng.below(2) == 0 { vec![s] } else { vec![s, month_end(s)] };
        for s in starts {
            for (n, c) in CONVENTIONS {
                for (e, eom) in [("none", None), ("no", Some(false)), ("yes", Some(true))] {
                    let r = resr(guard(|| pat.advance(date(s), p, *c, eom)));
                    q.push(json!([s, n, e, r]));
                }
            }
        }
        o.put(json!({"we": pat.we, "x": pat.x, "p": period_json(p), "q": q}));
    }
}

const FLAGS: &[(&str, Option<bool>)] = &[("none", None), ("no", Some(false)), ("yes", Some(true))];

pub fn between(out: &str, args: &[String]) {
    let (seed, deep) = seed_deep(args);
    let mut o = Out::new(out);
    let mut rng = Rng(seed ^ 0xBE);
    let count = |cal: &dyn Calendar, pairs: &[(i32, i32)]| {
        let mut q = vec![];
        for (a, b) in pairs {
            for (fn_, f) in FLAGS {
                for (ln, l) in FLAGS {
                    let r = guard(|| cal.business_days_between(date(*a), date(*b), *f, *l));
                    q.push(json!([a, b, fn_, ln, r.unwrap_or(-1_000_000)]));
                }
            }
        }
        q
    };
    let ends = |cal: &dyn Calendar, days: &[i32]| {
        days.iter()
            .map(|s| {
                json!([
                    s,
                    res(guard(|| Some(cal.end_of_month(date(*s))))),
                    res(guard(|| Some(cal.last_day_of_month(date(*s)))))
                ])
            })
            .collect::<Vec<_>>()
    };
    patterns(if deep { 8 } else { 6 }, 2, |lo, hi, p| {
        let mut pairs = vec![];
        for a in lo - 1..=hi + 1 {
            for b in lo - 1..=hi + 1 {
                pairs.push((a, b));
            }
        }
        let days: Vec<_> = (lo..=hi).collect();
        o.put(json!({"we": p.we, "x": p.x, "q": count(&p, &pairs), "e": ends(&p, &days)}));
    });
    for (_, js) in CALENDARS {
        let cal = calendar(js);
        for _ in 0..if deep { 30 } else { 5 } {
            let s = some_date(&mut rng);
            let x = pattern_of(&*cal, s - 45, s + 460);
            let pairs: Vec<_> = (0..6)
                .map(|_| {
                    let a = s + rng.below(30) as i32;
                    let b = s + rng.below(400) as i32;
                    if rng.below(3) == 0 { (b, a) } else { (a, b) }
                })
                .collect();
            let days: Vec<_> = (0..12).map(|_| s + rng.below(400) as i32).collect();
            o.put(json!({"we": true, "x": x, "q": count(&*cal, &pairs), "e": ends(&*cal, &days)}));
        }
    }
    for y in [1904, 1996, 2000, 2023, 2024, 2100, 2196] {
        let p = Pattern { we: true, x: vec![] };
        let days: Vec<_> = (1..=12).flat_map(|m| [ser(ymd(y, m, 1)), ser(ymd(y, m, 28))]).collect();
        o.put(json!({"we": true, "x": [], "q": [], "e": ends(&p, &days)}));
    }
}
