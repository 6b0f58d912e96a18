"""Planted bugs: edits of original lines of finquant, each with a demonstration."""
SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

DATE = "fn d(y: i32, m: u32, day: u32) -> chrono::NaiveDate { chrono::NaiveDate::from_ymd_opt(y, m, day).unwrap() }\n"

seed("poland-epiphany-first-year", "P01",
 [("src/time/calendars/poland.rs", "(d == 6  && m == 1 && y >= 2011)", "(d == 6  && m == 1 && y > 2011)")],
 "The one date 6 January 2011, the first year Epiphany was a Polish holiday.",
 "Poland's calendar reports a business day on Epiphany 2011.", DATE + r'''
use finquant::time::calendars::{Calendar, Poland};
fn main() {
    let c = Poland::default();
    for y in [2011, 2012, 2015] { assert!(!c.is_business_day(d(y, 1, 6)), "Epiphany {y}"); }
    assert!(c.is_business_day(d(2010, 1, 6)));
}''')

seed("halfmonth-roll-from-15th", "P02",
 [("src/time/calendars.rs", "&& date.day() <= 15\n", "&& date.day() < 15\n")],
 "HalfMonthModifiedFollowing on a holiday that falls exactly on the 15th.",
 "A date on the 15th rolls forward over mid-month instead of back.", DATE + r'''
use finquant::time::businessdayconvention::BusinessDayConvention::*;
use finquant::time::calendars::{Calendar, Target};
fn main() {
    let c = Target;
    // Saturday 15 June 2024
    assert_eq!(c.adjust(d(2024, 6, 15), HalfMonthModifiedFollowing), Some(d(2024, 6, 14)));
    assert_eq!(c.adjust(d(2024, 6, 16), HalfMonthModifiedFollowing), Some(d(2024, 6, 17)));
}''')

seed("advance-weeks-like-months", "P03",
 [("src/time/calendars.rs", "Period::Months(_) | Period::Years(_) => {\n                let advance_date = (date + period)?;",
   "Period::Weeks(_) | Period::Months(_) | Period::Years(_) => {\n                let advance_date = (date + period)?;")],
 "Advancing by weeks from the last business day of a month with the end-of-month rule on.",
 "Weeks fall under the end-of-month rule, which is for months and years only.", DATE + r'''
use finquant::time::businessdayconvention::BusinessDayConvention::*;
use finquant::time::calendars::{Calendar, Target};
use finquant::time::period::Period;
fn main() {
    let c = Target;
    assert_eq!(c.advance(d(2024, 1, 31), Period::Weeks(1), Following, Some(true)).unwrap(), Some(d(2024, 2, 7)));
    assert_eq!(c.advance(d(2024, 1, 31), Period::Months(1), Following, Some(true)).unwrap(), Some(d(2024, 2, 29)));
    assert_eq!(c.advance(d(2024, 1, 30), Period::Weeks(1), Following, Some(true)).unwrap(), Some(d(2024, 2, 6)));
}''')

seed("thirty360-century-february", "P06",
 [("src/time/daycounters/thirty360.rs", "date.day() == (28 + if date.leap_year() { 1 } else { 0 })",
   "date.day() == (28 + if date.year() % 4 == 0 { 1 } else { 0 })")],
 "30/360 USA from 28 February of a century year that is not a leap year (2100).",
 "28 February 2100 is no longer taken as the end of February.", DATE + r'''
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
fn main() {
    let c = Thirty360::new(Thirty360Market::USA);
    assert_eq!(c.day_count(d(2100, 2, 28), d(2100, 3, 31)).unwrap(), 30);
    assert_eq!(c.day_count(d(2101, 2, 28), d(2101, 3, 31)).unwrap(), 30);
    assert_eq!(c.day_count(d(2096, 2, 29), d(2096, 3, 31)).unwrap(), 30);
}''')

seed("period-minus-years-from-leap-day", "P07",
 [("src/time/period.rs", "Period::Years(num) => self - Months::new(num * 12),",
   "Period::Years(num) => chrono::Datelike::with_year(&self, chrono::Datelike::year(&self) - num as i32)\n                .unwrap_or(self - ONE_DAY * (num as i32 * 365)),")],
 "Subtracting years from 29 February so as to land in a common year, more than three years back.",
 "29 February minus five years is not 28 February.", DATE + r'''
use finquant::time::period::Period;
fn main() {
    assert_eq!((d(2024, 2, 29) - Period::Years(5)).unwrap(), d(2019, 2, 28));
    assert_eq!((d(2024, 2, 29) - Period::Years(1)).unwrap(), d(2023, 2, 28));
    assert_eq!((d(2024, 3, 31) - Period::Years(1)).unwrap(), d(2023, 3, 31));
}''')

seed("imm-next-date-after-the-19th", "P08",
 [("src/time/imm.rs", "if skip_months != offset || date.day() > 21 {", "if skip_months != offset || date.day() > 19 {")],
 "A date on the 20th of an IMM month whose third Wednesday is the 21st.",
 "next_date skips the IMM date that is one day away.", DATE + r'''
use finquant::time::imm::IMM;
fn main() {
    // third Wednesday of June 2023 is the 21st
    assert_eq!(IMM.next_date(d(2023, 6, 20), true), d(2023, 6, 21));
    assert_eq!(IMM.next_date(d(2023, 6, 21), true), d(2023, 9, 20));
    assert_eq!(IMM.next_date(d(2023, 6, 19), false), d(2023, 6, 21));
}''')

seed("fx-after-cutoff-skips-weekends-only", "P09",
 [("src/derivatives/forex/basic.rs", "            while !cal.is_business_day(next) {\n                next += Duration::days(1);", "            while cal.is_weekend(next) {\n                next += Duration::days(1);")],
 "Market data after the pair's cut-off on the eve of a holiday that is not a weekend.",
 "The effective valuation date lands on a holiday.", DATE + r'''
use finquant::derivatives::forex::basic::FXUnderlying;
fn main() {
    let late = chrono::NaiveTime::from_hms_opt(23, 59, 0).unwrap();
    assert_eq!(FXUnderlying::EURUSD.effective_valuation_date(d(2024, 7, 3), late), d(2024, 7, 5));
    assert_eq!(FXUnderlying::EURUSD.effective_valuation_date(d(2024, 7, 5), late), d(2024, 7, 8));
}''')

seed("forward-points-sort-when-ends-swapped", "P10",
 [("src/markets/forex/quotes/forwardpoints.rs", "        dated.sort_unstable_by_key(|(d, _)| *d);",
   "        if dated.first() > dated.last() {\n            dated.sort_unstable_by_key(|(d, _)| *d);\n        }")],
 "Quotes given out of order in the middle while the first and last are in order.",
 "The search runs over unsorted dates and reads a wrong bracket, or none.", DATE + r'''
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::time::calendars::Target;
use finquant::time::period::Period::*;
fn main() {
    let q = |tenor, value| FXForwardQuote { tenor, value };
    let a = vec![q(Months(1), 10.0), q(Months(2), 20.0), q(Months(3), 35.0), q(Months(6), 70.0), q(Years(1), 150.0)];
    let b = vec![a[0], a[3], a[2], a[1], a[4]];
    let v = d(2024, 1, 10);
    let (a, b) = (FXForwardHelper::new(v, 1.1, a), FXForwardHelper::new(v, 1.1, b));
    for k in 20..380 {
        let t = v + chrono::Duration::days(k);
        assert_eq!(a.get_forward(t, &Target).unwrap(), b.get_forward(t, &Target).unwrap(), "{t}");
    }
}''')

seed("curve-shift-in-the-curves-own-day-count", "P12",
 [("src/markets/termstructures/yieldcurve.rs", "        let yf = Actual365Fixed::default().year_fraction(self.valuation_date, date)?;\n        Ok(base * ",
   "        let yf = self.day_counter.year_fraction(self.valuation_date, date)?;\n        Ok(base * ")],
 "A shifted discount factor on a curve whose own day counter is not Actual/365.",
 "The shifted discount is not the discount of the shifted curve.", DATE + r'''
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
fn main() {
    let v = d(2024, 1, 10);
    let mk = |bump: f64| {
        let p = |k, z: f64| StrippedCurve { first_settle_date: v, date: v + chrono::Duration::days(k), market_rate: z,
            zero_rate: z + bump, discount: 1.0, source: InterestRateQuoteEnum::OIS, hidden_pillar: false };
        YieldTermStructure::new(Box::new(Target), Box::new(Actual360), v, vec![p(30, 0.02), p(400, 0.03)])
    };
    let m = InterpolationMethodEnum::StepFunctionForward;
    let (a, b) = (mk(0.0), mk(5e-3));
    for k in [10, 100, 300, 900] {
        let t = v + chrono::Duration::days(k);
        assert!((a.shifted_discount(t, &m, 50.0).unwrap() - b.discount(t, &m).unwrap()).abs() < 1e-12);
    }
}''')

seed("observers-after-a-failed-one", "P14",
 [("src/markets/termstructures/yieldcurve.rs",
   "        for observer_rc in observers {\n            observer_rc.borrow_mut().update(self)?;\n        }\n        Ok(())\n    }\n\n    fn as_any(&self) -> &dyn Any {\n        self\n    }\n}\n\n/// Yield term structure",
   "        let mut outcome = Ok(());\n        for observer_rc in observers {\n            outcome = observer_rc.borrow_mut().update(self);\n        }\n        outcome\n    }\n\n    fn as_any(&self) -> &dyn Any {\n        self\n    }\n}\n\n/// Yield term structure")],
 "An observer that fails, followed by one that succeeds.",
 "The error of an observer is lost when a later observer succeeds.", r'''
use finquant::error::{Error, Result};
use finquant::markets::termstructures::yieldcurve::YieldTermMarketData;
use finquant::patterns::observer::{Observable, Observer};
use std::{any::Any, cell::RefCell, rc::Rc};
#[derive(Debug)]
struct O { fail: bool, told: usize }
impl Observer for O {
    fn update(&mut self, _: &dyn Observable) -> Result<()> {
        self.told += 1;
        if self.fail { Err(Error::InvalidData("no".into())) } else { Ok(()) }
    }
    fn as_any(&self) -> &dyn Any { self }
}
fn main() {
    let v = chrono::NaiveDate::from_ymd_opt(2024, 1, 10).unwrap();
    let mut m = YieldTermMarketData::new(v, vec![], vec![], vec![]);
    let o: Vec<Rc<RefCell<O>>> = [false, true, false].iter().map(|f| Rc::new(RefCell::new(O { fail: *f, told: 0 }))).collect();
    for x in &o { m.attach(x.clone()); }
    assert!(m.notify_observers().is_err());
}''')

seed("swap-periods-chained-from-rolled-dates", "P15",
 [("src/derivatives/interestrate/swap.rs",
   "                    .advance(\n                        effective_date,\n                        (n) * self.schedule_detail.frequency.period().unwrap(),",
   "                    .advance(\n                        if n % 12 == 0 { start_date } else { effective_date },\n                        (if n % 12 == 0 { 1 } else { n }) * self.schedule_detail.frequency.period().unwrap(),")],
 "A leg of at least twelve periods whose eleventh period ends on a day that had to be rolled.",
 "Every twelfth period is counted from the rolled end before it, not from the effective date.", DATE + r'''
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::interestrateindex::*;
use finquant::time::businessdayconvention::BusinessDayConvention::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
fn main() {
    for k in 0..60 {
        let v = d(2024, 1, 2) + chrono::Duration::days(k);
        let leg = InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed { coupon: 0.03 }, Direction::Buy,
            InterestRateIndex::from_enum(InterestRateIndexEnum::ESTR).unwrap(), 1e6,
            ScheduleDetail::new(Frequency::Monthly, Period::Months(1), Period::Years(2), Box::new(Actual360),
                Box::new(Target), Following, 2, 0, 0), vec![]);
        let s = leg.generate_schedule(v).unwrap();
        assert_eq!(s.len(), 24);
        use finquant::time::calendars::Calendar;
        let e = s[0].accrual_start_date;
        if e >= Target.end_of_month(e) { continue; }
        for (i, p) in s.iter().enumerate() {
            let want = Target.advance(e, Period::Months(i as u32 + 1), Following, Some(false)).unwrap().unwrap();
            assert_eq!(p.accrual_end_date, want, "period {i} of a leg from {e}");
        }
    }
}''')

seed("cap-gamma-down-shift-is-the-default", "P17",
 [("src/derivatives/interestrate/cap.rs", "self.pv_under_shift(yts, vs, -rate_shift_bp, 0.0)?;",
   "self.pv_under_shift(\n            yts,\n            vs,\n            -rate_shift_bp.min(crate::derivatives::interestrate::basic::DEFAULT_RATE_SHIFT_BP),\n            0.0,\n        )?;")],
 "A gamma asked for with a shift larger than the default of ten basis points.",
 "The down shift of gamma is not the mirror of the up shift.", DATE + r'''
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::*;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
fn main() {
    let v = d(2024, 1, 10);
    let go = |bump: f64| {
        let p = |k, z: f64| { let z = z + bump; StrippedCurve { first_settle_date: v, date: v + chrono::Duration::days(k), market_rate: z, zero_rate: z,
            discount: (-z * k as f64 / 365.0).exp(), source: InterestRateQuoteEnum::OIS, hidden_pillar: false } };
        let y = YieldTermStructure::new(Box::new(Target), Box::new(Actual365Fixed::default()), v, vec![p(30, 0.03), p(2000, 0.035)]);
        let mut vs = IRNormalVolSurface::new(v);
        vs.pillars = vec![CapletVolPillar { expiry: d(2026, 1, 1), nodes: vec![(0.03, 0.008)] }];
        let per = |a, b| InterestRateSchedulePeriod::new(a, b, b + chrono::Duration::days(30), a, 0.0, 0.0);
        let cap = CapFloor { basic_info: BasicInfo { trade_date: v, style: Style::FXCall, direction: Direction::Buy, expiry_date: v, delivery_date: v },
            kind: CapFloorKind::Cap, style: CapStyle::ForwardLooking, currency: iso_currency::Currency::EUR, notional: 1e6, strike: 0.03, valuation_date: v,
            schedule: vec![per(d(2024, 7, 10), d(2024, 10, 10)), per(d(2024, 10, 10), d(2025, 1, 10))], accrual_day_counter: Box::new(Actual360) };
        let c = IrMarketContext::new(v, iso_currency::Currency::EUR, y, Some(vs));
        (cap.mtm(&c).unwrap().value, cap.gamma(&c, 30.0, RateShiftMode::Zeros).unwrap())
    };
    let ((base, gamma), (up, _), (down, _)) = (go(0.0), go(30e-4), go(-30e-4));
    let want = up + down - 2.0 * base;
    assert!((gamma - want).abs() < 1e-6, "{gamma} {want}");
}''')

seed("option-zero-variance-undiscounted", "P18",
 [("src/derivatives/forex/option.rs", "        return discount * intrinsic;", "        return intrinsic;")],
 "An option with zero volatility before expiry, so with a discount factor below one.",
 "The value of a riskless payoff is not discounted.", r'''
use finquant::derivatives::forex::option::{OptionType, black_scholes};
fn main() {
    for df in [1.0, 0.97, 0.6] {
        let (c, p) = (black_scholes(1.2, 1.1, 0.0, df, OptionType::Call), black_scholes(1.2, 1.1, 0.0, df, OptionType::Put));
        assert!((c - p - df * 0.1).abs() < 1e-12, "{df}: {c} {p}");
    }
}''')

seed("smile-neighbouring-deltas-merged", "P19",
 [("src/markets/forex/quotes/volsurface.rs", ".position(|(d, _)| (d - delta).abs() < 1e-9)", ".position(|(d, _)| (d - delta).abs() < 1e-2)")],
 "A smile that quotes two deltas closer than one percent (e.g. 0.10 and 0.105).",
 "Two quoted deltas are merged; the surface misses one of its quotes.", DATE + r'''
use finquant::markets::forex::quotes::volsurface::*;
fn main() {
    let v = d(2024, 1, 10);
    let q = |x: &[(f64, f64, f64)]| { let mut o = vec![FXVolQuote::Atm(0.08)];
        for (delta, c, p) in x { o.push(FXVolQuote::Call { delta: *delta, vol: *c }); o.push(FXVolQuote::Put { delta: *delta, vol: *p }); } o };
    let mk = |quotes| FXVolSurface::new(v, vec![FXDeltaVolPillar { expiry: d(2025, 1, 10), forward: 1.1, quotes }]).unwrap();
    let a = mk(q(&[(0.25, 0.083, 0.085), (0.10, 0.09, 0.095), (0.105, 0.0889, 0.0939)]));
    let b = mk(q(&[(0.25, 0.083, 0.085), (0.105, 0.0889, 0.0939), (0.10, 0.09, 0.095)]));
    for i in 0..400 {
        let k = 0.8 + i as f64 * 0.002;
        let (x, y) = (a.volatility(d(2025, 1, 10), k).unwrap(), b.volatility(d(2025, 1, 10), k).unwrap());
        assert!((x - y).abs() < 1e-9, "strike {k}: {x} {y} in the other order");
    }
}''')

seed("cap-quotes-ordered-by-caplet-count", "P20",
 [("src/markets/interestrate/volsurface.rs", "quotes.sort_by_key(|q| q.last_accrual_start().unwrap_or(valuation_date));", "quotes.sort_by_key(|q| (q.schedule.len(), q.last_accrual_start().unwrap_or(valuation_date)));")],
 "Two caps of one strike on different frequencies, the longer one having fewer caplets.",
 "The shorter cap is stripped after the longer one, and so skipped: its price is not reproduced.", DATE + r'''
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::volsurface::*;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
fn main() {
    let v = d(2024, 1, 10);
    let p = |k, z: f64| StrippedCurve { first_settle_date: v, date: v + chrono::Duration::days(k), market_rate: z, zero_rate: z,
        discount: 1.0, source: InterestRateQuoteEnum::OIS, hidden_pillar: false };
    let y = YieldTermStructure::new(Box::new(Target), Box::new(Actual365Fixed::default()), v, vec![p(30, 0.03), p(2000, 0.035)]);
    let quote = |months: u32, n: u32, market_npv| CapQuote { strike: 0.031, notional: 1e6, direction: Direction::Buy, kind: CapFloorKind::Cap,
        style: CapStyle::ForwardLooking, currency: iso_currency::Currency::EUR, accrual_day_counter: Box::new(Actual360), market_npv,
        schedule: (1..=n).map(|i| { let (a, b) = (v + chrono::Months::new(i * months), v + chrono::Months::new((i + 1) * months));
            InterestRateSchedulePeriod::new(a, b, b, a, 0.0, 0.0) }).collect() };
    let mut s = IRNormalVolSurface::new(v);
    s.rebuild(&y, &IRCapMarketData::new(v, vec![quote(12, 2, 11000.0), quote(3, 3, 4000.0)])).unwrap();
    assert_eq!(s.pillars.len(), 2, "{:?}", s.pillars);
}''')

seed("optimiser-reports-the-last-ordering", "P21",
 [("src/math/optimize.rs", "    let mut converged = false;\n    while", "    let mut converged = false;\n    let mut leader = 0_usize;\n    while"),
  ("src/math/optimize.rs", "        let best = order[0];\n", "        let best = order[0];\n        leader = best;\n"),
  ("src/math/optimize.rs", "    let best_idx = (0..=n)\n        .min_by(|a, b| values[*a].partial_cmp(&values[*b]).unwrap())\n        .unwrap();\n", "    let best_idx = leader;\n")],
 "A search that runs out of iterations on one that found a new best point.",
 "The search reports the best point as of the start of its last iteration, worse than one it tried.", r'''
use finquant::math::optimize::*;
fn main() {
    for cap in 1..40 {
        let mut best = f64::INFINITY;
        let m = nelder_mead(|x| { let v = (1.0 - x[0]).powi(2) + 100.0 * (x[1] - x[0] * x[0]).powi(2); best = best.min(v); v },
            &[-1.2, 1.0], NelderMeadOptions { max_iter: cap, ..Default::default() });
        assert!(m.f <= best, "cap {cap}: reported {} but tried {}", m.f, best);
    }
}''')

seed("runner-takes-one-observation-a-day", "P22",
 [("src/models/common/simulation.rs", "while next_obs < obs_indices.len() && obs_indices[next_obs] == i {", "if next_obs < obs_indices.len() && obs_indices[next_obs] == i {")],
 "The same observation date given twice, with another after it.",
 "Observations after the repeated date are never captured.", DATE + r'''
use finquant::models::common::simulation::*;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
fn main() {
    let v = d(2024, 1, 10);
    let run = |dates: &[chrono::NaiveDate]| simulate_at_dates(&mut BrownianMotion::new(3), v, dates, 4, 5, &Actual365Fixed::default());
    let once = run(&[d(2024, 2, 1), d(2024, 3, 1)]);
    let twice = run(&[d(2024, 2, 1), d(2024, 2, 1), d(2024, 3, 1)]);
    for (a, b) in once.paths.iter().zip(&twice.paths) {
        assert_eq!(vec![a[0], a[0], a[1]], *b);
    }
}''')

seed("effective-correlation-takes-the-last-segments", "P27",
 [("src/models/forex/sabr_effective.rs", "let rs: Vec<f64> = rho.values[..deltas.len()].to_vec();", "let rs: Vec<f64> = rho.values[rho.values.len() - deltas.len()..].to_vec();")],
 "An effective correlation asked for at a knot before the last of the schedules.",
 "The correlations of the last segments are used, not those up to the expiry.", r'''
use finquant::models::forex::sabr_effective::*;
fn main() {
    let k = vec![0.0, 1.0, 2.0, 3.0];
    let s = |a: [f64; 3]| PiecewiseConstant::new(k.clone(), a.to_vec());
    let (g, o, r) = (s([0.3, 0.4, 0.5]), s([0.1, 0.12, 0.14]), s([-0.3, -0.1, 0.4]));
    for n in 1..=3usize {
        let cut = |p: &PiecewiseConstant| PiecewiseConstant::new(p.knots[..=n].to_vec(), p.values[..n].to_vec());
        let (a, b) = (effective_correlation(&g, &o, &r, n as f64), effective_correlation(&cut(&g), &cut(&o), &cut(&r), n as f64));
        assert!((a - b).abs() < 1e-12, "expiry {n}: {a} {b}");
    }
}''')

seed("slv-last-bin-of-few", "P29",
 [("src/models/forex/sabr_slv.rs", "means.push(sum / (end - i) as f64);", "means.push(sum / bin_size as f64);")],
 "A population that does not divide into the bins evenly.",
 "The mean of the last, smaller bin is taken over more paths than it has, so that the highest forwards move too much.", r'''
use finquant::models::forex::{dupire_local_vol, sabr_effective::PiecewiseConstant, sabr_slv::*, sabr_time_dependent::*};
fn main() {
    // No vol of vol and beta 1: whatever the bins, the forward moves by the local volatility alone.
    let s = |v: f64| PiecewiseConstant::new(vec![0.0, 3.0], vec![v]);
    let run = |bins| {
        let lv = dupire_local_vol::build(&[0.25, 0.5, 1.0, 2.0], &[0.8, 0.9, 1.0, 1.1, 1.2], &vec![vec![0.15; 5]; 4], 1.0, 0.0, 0.0);
        TimeDependentSabrSlvSimulator::new(TimeDependentSabrParams::new(s(0.2), s(0.0), s(0.0), 1.0, 1.0), lv, 9)
            .with_bins(bins).simulate(1.0, 4, 101)
    };
    for (a, b) in run(2).iter().zip(&run(10)) {
        assert!((a.forward - b.forward).abs() < 1e-9, "{} {}", a.forward, b.forward);
    }
}''')

seed("dupire-last-strike-borrows-the-first", "P30",
 [("src/models/forex/dupire_local_vol.rs", "        return fd_kk(row, strikes, n - 2);", "        return fd_kk(row, strikes, 1);")],
 "The local variance at the highest strike of a grid of more than three.",
 "The butterfly at the last strike is the one at the second.", r'''
use finquant::models::forex::dupire_local_vol::build;
fn main() {
    // Mirrored in log-strike, a flat surface's last strike must borrow its neighbour's butterfly.
    let (e, k) = ([0.25, 0.5, 1.0], [0.8, 0.9, 1.0, 1.1, 1.25]);
    let a = build(&e, &k, &vec![vec![0.2; 5]; 3], 1.0, 0.0, 0.0);
    let b = build(&e, &k[2..], &vec![vec![0.2; 3]; 3], 1.0, 0.0, 0.0);
    for t in e { assert!((a.local_variance(t, 1.25) - b.local_variance(t, 1.25)).abs() < 1e-12); }
}''')

seed("hhw-partial-horizon-measured-from-tau", "P31",
 [("src/models/forex/fx_hhw1_chf.rs", "    let t = big_t - s;\n    let phi = params.heston.sqrt_mean(t);", "    let t = big_t - s;\n    let phi = params.heston.sqrt_mean(s);")],
 "The components at a time to expiry short of the expiry (components(u, tau) with tau < expiry).",
 "The mean square root of the variance is taken at the time to expiry, not at calendar time.", r'''
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::{fx_hhw::*, fx_hhw1_chf::*};
use finquant::models::interestrate::hull_white::HullWhite1F;
use num_complex::Complex64;
fn main() {
    let p = FxHhwParams { fx_0: 1.35, heston: CirProcess { kappa: 0.5, theta: 0.1, gamma: 0.3, sigma_0: 0.02 },
        domestic: HullWhite1F { mean_reversion: 0.01, sigma: 0.007 }, foreign: HullWhite1F { mean_reversion: 0.05, sigma: 0.012 },
        rd_0: 0.02, rf_0: 0.05, theta_d: 0.02, theta_f: 0.05, correlations: Correlation4x4 { rho_xi_sigma: -0.4,
        rho_xi_d: -0.15, rho_xi_f: -0.15, rho_sigma_d: 0.3, rho_sigma_f: 0.3, rho_d_f: 0.25 } };
    let c = FxHhw1ForwardChf::new(&p, 5.0);
    let u = Complex64::new(0.7, 0.0);
    // the whole expiry, and all but a millionth of a millionth of it
    let (whole, almost) = (c.components(u, 5.0).a, c.components(u, 5.0 - 5e-12).a);
    assert!((whole - almost).norm() < 1e-9, "{whole} {almost}");
}''')

seed("front-stub-start-variance-dropped", "P32",
 [("src/models/interestrate/fmm.rs", "        + 0.5 * y_at_start * (g_big_t_tk * g_km1_big_t - g_t_tk * g_km1_t);", "        + 0.5 * y_k * (g_big_t_tk * g_km1_big_t - g_t_tk * g_km1_t);")],
 "A bond priced inside a later period, whose rate had gathered variance before its period began.",
 "The front stub's convexity uses the variance since the period's start instead of up to it.", r'''
use finquant::models::interestrate::fmm::*;
fn main() {
    let tenor = FmmTenor::new(vec![0.0, 0.5, 1.0], vec![0.03, 0.04]);
    let corr = vec![vec![1.0, 0.5], vec![0.5, 1.0]];
    let model = Fmm::new(tenor, vec![0.01, 0.01], corr, LinearDecay);
    let path = FmmPath { rates: vec![0.03, 0.05], y_diag: vec![0.1, 0.5], rates_at_start: vec![0.03, 0.045],
        y_at_start: vec![0.0, 0.4], x_active: 0.0, t: 0.5 + 1e-9 };
    // Just inside the period the front stub is the back stub it continues.
    let edge = FmmPath { rates: vec![0.03, 0.045], y_diag: vec![0.1, 0.4], t: 0.5, ..path.clone() };
    let path = FmmPath { y_diag: vec![0.1, 0.4], ..path };
    let c = FlatCurve { rate: 0.03 };
    for t in [0.6, 0.75, 0.9, 1.0] {
        let (a, b) = (bond_price(&model, &path, t, &c), bond_price(&model, &edge, t, &c));
        assert!((a - b).abs() < 1e-6, "{t}: {a} {b}");
    }
}''')

seed("hlmm-cross-term-transposed", "P33",
 [("src/models/forex/fx_hlmm.rs", "params.correlations.libor_cross_corr[j - 1][k - 1];", "params.correlations.libor_cross_corr[k - 1][j - 1];")],
 "A cross-currency correlation block that is not symmetric.",
 "Domestic and foreign rates are paired with the correlation of the mirrored pair.", r'''
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::fx_hlmm::*;
fn main() {
    let side = |s: [f64; 2]| DdSvLmm { sigmas: s.to_vec(), betas: vec![1.0; 2], lambda: 1.0, eta: 0.1, v_0: 1.0,
        libor_corr: vec![vec![1.0, 0.9], vec![0.9, 1.0]] };
    // Only the second domestic rate and the first foreign one move, and they are uncorrelated.
    let p = FxHlmmParams { fx_0: 1.0, heston: CirProcess { kappa: 0.5, theta: 0.02, gamma: 0.2, sigma_0: 0.02 },
        tenor: LiborTenor::new(vec![0.5, 1.0, 1.5], vec![0.03, 0.03]), domestic: side([0.0, 0.2]), foreign: side([0.2, 0.0]),
        correlations: FxHlmmCorrelations { rho_xi_sigma: 0.0, rho_xi_d: vec![0.0; 2], rho_xi_f: vec![0.0; 2],
            libor_cross_corr: vec![vec![0.0, 0.5], vec![0.0, 0.0]] } };
    assert!(compute_f_linearised(&p, 0.2, 1).abs() < 1e-15);
}''')

seed("fx-fmm-only-the-last-period-started", "P34",
 [("src/models/forex/fx_fmm_simulator.rs", "            for k in (eta_old + 1)..=eta_new.min(m) {\n", "            for k in eta_new.min(m)..=eta_new.min(m) {\n")],
 "A step of the FX simulator longer than a period, so that two of its periods start within it.",
 "The rate of the period passed over is never recorded as it starts.", r'''
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::{fx_fmm::*, fx_fmm_simulator::*};
use finquant::models::interestrate::fmm::*;
fn main() {
    let m = 3;
    let eye: Vec<Vec<f64>> = (0..m).map(|i| (0..m).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
    let side = FmmSide { sigmas: vec![0.01; m], lambda: 1.0, eta: 0.1, v_0: 1.0, rate_corr: eye, decay: LinearDecay };
    let p = FxFmmParams { fx_0: 1.0, heston: CirProcess { kappa: 0.5, theta: 0.02, gamma: 0.2, sigma_0: 0.02 },
        tenor: FmmTenor::new(vec![0.0, 0.25, 0.5, 0.75], vec![0.03; m]), domestic: side.clone(), foreign: side,
        correlations: FxFmmCorrelations { rho_xi_sigma: 0.0, rho_xi_d: vec![0.0; m], rho_xi_f: vec![0.0; m],
            rho_sigma_d: vec![0.0; m], rho_sigma_f: vec![0.0; m], cross_rate_corr: vec![vec![0.0; m]; m] } };
    let mut s = FxFmmState::initial(&p);
    FxFmmSimulator::new(p, 5).unwrap().step(&mut s, 0.6);
    for k in 1..m { assert_eq!((s.rates_at_start_d[k], s.rates_at_start_f[k]), (s.rates_d[k], s.rates_f[k]), "rate {}", k + 1); }
}''')

seed("implied-vol-of-at-most-300-percent", "P25",
 [("src/models/common/black_scholes.rs", "    let mut hi = 5.0_f64;\n    let p_lo", "    let mut hi = 3.0_f64;\n    let p_lo")],
 "The price of an option whose volatility is above 300%.",
 "A volatility that reprices the option exists within the documented search range and is not reported.", r'''
use finquant::models::common::black_scholes::*;
fn main() {
    for v in [0.05, 0.5, 2.0, 2.9, 3.3, 4.5] {
        let p = bs_call_forward(1.2, 1.2, v, 0.25, 0.98);
        let w = bs_implied_vol(p, 1.2, 1.2, 0.25, 0.98, true).expect("there is one");
        assert!((v - w).abs() < 1e-5, "{v} {w}");
    }
}''')

seed("pair-calendar-of-offshore-yuan", "P05",
 [("src/derivatives/forex/basic.rs", "Currency::CNY => Box::new(China),", "Currency::CNY => Box::new(HongKong),")],
 "A yuan pair on a day closed in China and open in Hong Kong.",
 "The yuan's home calendar is Hong Kong's.", DATE + r'''
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::time::calendars::{Calendar, China};
fn main() {
    let c = FXUnderlying::USDCNY.calendar();
    let mut day = d(2019, 1, 1);
    while day < d(2021, 1, 1) {
        assert!(China.is_business_day(day) || !c.is_business_day(day), "{day}");
        day = day.succ_opt().unwrap();
    }
}''')

seed("two-week-cash-hidden-too", "P13",
 [("src/markets/termstructures/yieldcurve.rs", "hidden_pillar: cash.interest_rate_index.period == Period::Weeks(1),", "hidden_pillar: matches!(cash.interest_rate_index.period, Period::Weeks(_)),")],
 "A cash quote of two or three weeks.",
 "Its pillar is hidden, so that the curve skips a quote it was built from.", DATE + r'''
use finquant::markets::interestrate::interestrateindex::*;
use finquant::markets::termstructures::yieldcurve::{*, oisratehelper::OISRate};
use finquant::time::period::Period;
fn main() {
    let v = d(2024, 1, 10);
    let q = |p, value| OISRate { value, interest_rate_index: InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(p)).unwrap() };
    let c = YieldTermMarketData::new(v, vec![q(Period::Weeks(1), 0.03), q(Period::Weeks(2), 0.031), q(Period::Months(1), 0.032)], vec![], vec![])
        .get_stripped_curve().unwrap();
    assert_eq!(c.iter().map(|p| p.hidden_pillar).collect::<Vec<_>>(), [true, false, false]);
}''')

seed("swap-coupons-discounted-from-the-accrual-end", "P16",
 [("src/derivatives/interestrate/swap.rs", "let df_pay = yts.shifted_discount(period.pay_date, method, rate_shift_bp)?;", "let df_pay = yts.shifted_discount(period.accrual_end_date, method, rate_shift_bp)?;")],
 "A swap whose coupons are paid some days after their period ends.",
 "Coupons are discounted from the end of their period, not from their payment date.", DATE + r'''
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::basic::IRDerivatives;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::{interestrateindex::*, market_context::IrMarketContext};
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::businessdayconvention::BusinessDayConvention;
use finquant::time::calendars::WeekendsOnly;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
fn main() {
    let v = d(2024, 1, 10);
    let curve = || YieldTermStructure::new(Box::new(WeekendsOnly), Box::new(Actual365Fixed::default()), v,
        vec![StrippedCurve { first_settle_date: v, date: d(2034, 1, 10), market_rate: 0.05, zero_rate: 0.05, discount: 1.0, source: InterestRateQuoteEnum::OIS, hidden_pillar: false }]);
    let s = InterestRateSwap::new(vec![InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed { coupon: 0.04 }, Direction::Buy,
        InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(6))).unwrap(), 1e6,
        ScheduleDetail::new(Frequency::Annual, Period::Years(1), Period::Years(3), Box::new(Actual365Fixed::default()), Box::new(WeekendsOnly),
            BusinessDayConvention::ModifiedFollowing, 2, 20, 0), vec![])]);
    let m = IrMarketContext::new(v, iso_currency::Currency::EUR, curve(), None);
    let (a, b) = (s.mtm(&m).unwrap().value, s.npv(v, &mut curve()).unwrap());
    assert!((a - b).abs() < 1e-6, "{a} {b}");
}''')

seed("calendar-document-without-its-market", "P23",
 [("src/time/calendars/russia.rs", "    pub market: Option<RussiaMarket>,", "    #[serde(skip_serializing)]\n    pub market: Option<RussiaMarket>,")],
 "A Russian calendar of the market that is not the default one, written out and read back.",
 "The document loses the market, and reads back as the default market's calendar.", DATE + r'''
use finquant::time::calendars::{Calendar, Russia, russia::RussiaMarket};
fn main() {
    let c: Box<dyn Calendar> = Box::new(Russia { market: Some(RussiaMarket::Exchange) });
    let back: Box<dyn Calendar> = serde_json::from_str(&serde_json::to_string(&c).unwrap()).unwrap();
    let mut day = d(2012, 1, 1);
    while day < d(2018, 1, 1) { assert_eq!(c.is_business_day(day), back.is_business_day(day), "{day}"); day = day.succ_opt().unwrap(); }
}''')

seed("euribor-in-days-rolls-modified", "P24",
 [("src/markets/interestrate/interestrateindex.rs", "                Period::Days(_) | Period::Weeks(_) => Some", "                Period::Weeks(_) => Some")],
 "A Euribor index with its tenor in days, over a month end.",
 "Euribor tenors below a month roll by Following; in days they roll back at month end.", r'''
use finquant::markets::interestrate::interestrateindex::*;
use finquant::time::businessdayconvention::BusinessDayConvention;
use finquant::time::period::Period;
fn main() {
    for p in [Period::Weeks(1), Period::Days(1), Period::Days(7)] {
        assert!(InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(p)).unwrap().convention == BusinessDayConvention::Following);
    }
}''')

seed("hhw-fit-overlooks-a-target", "P28",
 [("src/models/forex/fx_hhw_calibrator.rs", "            // simplex steers away.\n            let model_vol = match bs_implied_vol(price, fwd, t.strike, expiry, discount, true) {\n                Some(v) => v,\n                None => return 1.0e6,", "            // simplex steers away.\n            let model_vol = match bs_implied_vol(price, fwd, t.strike, expiry, discount, true) {\n                Some(v) => v,\n                None => continue,")],
 "A trial point whose model price at some strike has no volatility.",
 "The target is left out of the sum instead of the point being penalised.", r'''
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::{fx_hhw::*, fx_hhw_calibrator::*};
use finquant::models::interestrate::hull_white::HullWhite1F;
fn main() {
    let p = FxHhwParams { fx_0: 13500.0, heston: CirProcess { kappa: 0.5, theta: 0.1, gamma: 0.3, sigma_0: 0.1 },
        domestic: HullWhite1F { mean_reversion: 0.01, sigma: 0.007 }, foreign: HullWhite1F { mean_reversion: 0.05, sigma: 0.012 },
        rd_0: 0.02, rf_0: 0.05, theta_d: 0.02, theta_f: 0.05, correlations: Correlation4x4 { rho_xi_sigma: -0.4,
        rho_xi_d: -0.15, rho_xi_f: -0.15, rho_sigma_d: 0.3, rho_sigma_f: 0.3, rho_d_f: 0.25 } };
    let k = [1e-5, 12000.0, 13000.0];
    println!("{:?}", model_implied_vols(&p, 1.0, &k));
    assert!(model_implied_vols(&p, 1.0, &k)[0].is_none());
    let fit = calibrate(p, &targets_from_grid(&k, &[0.3, 0.3, 0.3]), 1.0, 1e-3, NelderMeadOptions { max_iter: 1, step_frac: 1e-9, ..Default::default() });
    assert!(fit.rmse > 1.0, "{}", fit.rmse);
}''')

seed("hull-white-slow-reversion-taken-as-none", "P26",
 [("src/models/interestrate/hull_white.rs", "let convexity = if lambda.abs() < 1.0e-12 {", "let convexity = if lambda.abs() < 1.0e-3 {")],
 "A mean reversion below a thousandth, over a long horizon.",
 "The convexity of the fitted bond price is the one without mean reversion.", r'''
use finquant::models::interestrate::hull_white::HullWhite1F;
fn main() {
    for l in [1e-4, 5e-4, 9e-4, 2e-3_f64] {
        let hw = HullWhite1F { mean_reversion: l, sigma: 0.02 };
        let (t, u): (f64, f64) = (15.0, 30.0);
        let b = ((-l * (u - t)).exp() - 1.0) / l;
        let want = (0.4 / 0.6) * (-b * 0.03 - 0.02_f64.powi(2) / (4.0 * l) * (1.0 - (-2.0 * l * t).exp()) * b * b + b * 0.04).exp();
        let got = hw.discount_affine(t, u, 0.04, 0.6, 0.4, 0.03);
        assert!((got - want).abs() < 1e-6 * want, "{l}: {got} {want}");
    }
}''')

seed("fx-forward-discounted-from-delivery", "P11",
 [("src/derivatives/forex/forward.rs", "        let discount_factor = market.domestic_curve.discount(\n            self.basic_info.expiry_date,", "        let discount_factor = market.domestic_curve.discount(\n            self.basic_info.delivery_date,")],
 "A forward delivered some time after it expires.",
 "The payoff is discounted from the delivery date, not from the date it is worked out for.", DATE + r'''
use finquant::derivatives::basic::*;
use finquant::derivatives::forex::{basic::*, forward::FXForward};
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::forwardpoints::*;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period;
use iso_currency::Currency;
fn main() {
    let v = d(2024, 1, 10);
    let curve = || YieldTermStructure::new(Box::new(Target), Box::new(Actual365Fixed::default()), v,
        vec![StrippedCurve { first_settle_date: v, date: d(2034, 1, 10), market_rate: 0.05, zero_rate: 0.05, discount: 1.0, source: InterestRateQuoteEnum::OIS, hidden_pillar: false }]);
    let m = FxMarketContext::for_linear(v, 1.10, (Currency::USD, Currency::EUR), curve(), curve(),
        FXForwardHelper::new(v, 1.10, vec![FXForwardQuote { tenor: Period::SPOT, value: 0.0 }, FXForwardQuote { tenor: Period::Years(1), value: 100.0 }])).unwrap();
    let f = |delivery| FXForward { basic_info: BasicInfo { trade_date: v, style: Style::FXForward, direction: Direction::Buy, expiry_date: d(2024, 6, 10), delivery_date: delivery },
        asset: FXUnderlying::EURUSD, notional_currency: Currency::EUR, notional_amounts: 1e6, strike: 1.0 };
    let (a, b) = (f(d(2024, 6, 10)).mtm(&m).unwrap().value, f(d(2024, 9, 12)).mtm(&m).unwrap().value);
    assert!((a - b).abs() < 1e-6, "{a} {b}");
}''')

seed("days-between-swaps-the-ends-too", "P04",
 [("src/time/calendars.rs", "return -self.business_days_between(to, from, include_first, include_last);", "return -self.business_days_between(to, from, include_last, include_first);")],
 "A later date before an earlier one, with one end asked for explicitly and both ends business days.",
 "Swapping the dates changes which end is counted, not only the sign.", DATE + r'''
use finquant::time::calendars::{Calendar, Target};
fn main() {
    let (a, b) = (d(2024, 6, 12), d(2024, 6, 21));
    for f in [None, Some(true), Some(false)] {
        for l in [None, Some(true), Some(false)] {
            assert_eq!(Target.business_days_between(a, b, f, l), -Target.business_days_between(b, a, f, l), "{f:?} {l:?}");
        }
    }
}''')

seed("discount-of-past-dates-is-one", "P12",
 [("src/markets/termstructures/yieldcurve.rs", "Ok((-zero_rate * duration).exp())", "Ok((-zero_rate * duration.max(0.0)).exp())")],
 "A date before the curve's valuation date (a coupon that started accruing, a payment made).",
 "The discount factor of a past date is 1, not the continuously compounded one.", DATE + r'''
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
fn main() {
    let v = d(2024, 1, 10);
    let p = |k, z: f64| StrippedCurve { first_settle_date: v, date: v + chrono::Duration::days(k), market_rate: z,
        zero_rate: z, discount: 1.0, source: InterestRateQuoteEnum::OIS, hidden_pillar: false };
    let y = YieldTermStructure::new(Box::new(Target), Box::new(Actual365Fixed::default()), v, vec![p(30, 0.02), p(400, 0.03)]);
    let m = InterpolationMethodEnum::StepFunctionForward;
    for k in [1, 30, 90] {
        let got = y.discount(v - chrono::Duration::days(k), &m).unwrap();
        assert!((got - (0.02 * k as f64 / 365.0).exp()).abs() < 1e-12, "{k} days ago: {got}");
    }
    let next = y.discount(v + chrono::Duration::days(10), &m).unwrap();
    assert!((next - (-0.02 * 10.0 / 365.0_f64).exp()).abs() < 1e-12);
}''')

seed("given-schedule-of-one-period-replaced", "P15",
 [("src/derivatives/interestrate/swap.rs", "if self.schedule.is_empty() {\n            let effective", "if self.schedule.len() < 2 {\n            let effective")],
 "A leg given a schedule of exactly one period (its last coupon).",
 "The leg's own single period is replaced by a generated schedule.", DATE + r'''
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::interestrateindex::*;
use finquant::time::businessdayconvention::BusinessDayConvention::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
fn main() {
    let row = |k: u32| InterestRateSchedulePeriod::new(d(2023, k, 15), d(2023, k + 3, 15), d(2023, k + 3, 17), d(2023, k, 13), 0.0, 1e6);
    for given in [vec![row(7)], vec![row(4), row(7)]] {
        let leg = InterestRateSwapLeg::new(InterestRateSwapLegType::Fixed { coupon: 0.03 }, Direction::Buy,
            InterestRateIndex::from_enum(InterestRateIndexEnum::ESTR).unwrap(), 1e6,
            ScheduleDetail::new(Frequency::Quarterly, Period::Months(3), Period::Years(2), Box::new(Actual360),
                Box::new(Target), Following, 2, 0, 0), given.clone());
        assert_eq!(leg.generate_schedule(d(2023, 9, 1)).unwrap(), given);
    }
}''')

seed("cap-covered-twice-solved-again", "P20",
 [("src/markets/interestrate/volsurface.rs", "&& last_start <= last.expiry", "&& last_start < last.expiry")],
 "Two quotes of one strike whose last caplets start on the same day.",
 "The second quote, which has no caplet of its own left, is solved for all the same, and the strip fails.", DATE + r'''
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::volsurface::*;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
fn main() {
    let v = d(2024, 1, 10);
    let p = |k, z: f64| StrippedCurve { first_settle_date: v, date: v + chrono::Duration::days(k), market_rate: z, zero_rate: z,
        discount: 1.0, source: InterestRateQuoteEnum::OIS, hidden_pillar: false };
    let y = YieldTermStructure::new(Box::new(Target), Box::new(Actual365Fixed::default()), v, vec![p(30, 0.03), p(2000, 0.035)]);
    let quote = |notional: f64| CapQuote { strike: 0.031, notional, direction: Direction::Buy, kind: CapFloorKind::Cap,
        style: CapStyle::ForwardLooking, currency: iso_currency::Currency::EUR, accrual_day_counter: Box::new(Actual360),
        market_npv: 4000.0 * notional / 1e6,
        schedule: (1..=3).map(|i| { let (a, b) = (v + chrono::Months::new(i * 3), v + chrono::Months::new((i + 1) * 3));
            InterestRateSchedulePeriod::new(a, b, b, a, 0.0, 0.0) }).collect() };
    let mut s = IRNormalVolSurface::new(v);
    s.rebuild(&y, &IRCapMarketData::new(v, vec![quote(1e6), quote(2e7)])).unwrap();
    assert_eq!(s.pillars.len(), 1, "{:?}", s.pillars);
}''')

seed("search-small-start-taken-as-zero", "P21",
 [("src/math/optimize.rs", "if x0[i].abs() > 1e-12", "if x0[i].abs() > 1e-6")],
 "A starting coordinate between 1e-12 and 1e-6.",
 "The first simplex steps by the absolute step of a zero coordinate, far beyond the documented fraction of it.", r'''
use finquant::math::optimize::*;
fn main() {
    for x in [3e-4, 2e-7, -5e-9] {
        let mut tried = vec![];
        nelder_mead(|p| { tried.push(p[0]); p[0] * p[0] }, &[x], NelderMeadOptions { max_iter: 0, ..Default::default() });
        let step = (tried[1] - tried[0]).abs();
        assert!((step / x.abs() - 0.05).abs() < 1e-6, "start {x}: stepped {step}");
    }
}''')
