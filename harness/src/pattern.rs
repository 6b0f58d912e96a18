//! A calendar given by its exceptions: weekends closed or not, then toggled days.
use crate::common::*;
use chrono::{Datelike, NaiveDate, Weekday};
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::Calendar;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

#[derive(Deserialize, Serialize, Debug, Clone)]
pub struct Pattern {
    pub we: bool,
    pub x: Vec<i32>,
}

#[typetag::serde]
impl Calendar for Pattern {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        let base = !(self.we && matches!(d.weekday(), Weekday::Sat | Weekday::Sun));
        base != self.x.binary_search(&ser(d)).is_ok()
    }
}

/// The pattern of a calendar over [lo, hi]: its exceptions to the weekend.
pub fn pattern_of(cal: &dyn Calendar, lo: i32, hi: i32) -> Vec<i32> {
    (lo..=hi)
        .filter(|s| {
            let d = date(*s);
            let w = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
            cal.is_business_day(d) == w
        })
        .collect()
}

pub const CONVENTIONS: &[(&str, Bdc)] = &[
    ("F", Bdc::Following),
    ("MF", Bdc::ModifiedFollowing),
    ("HMF", Bdc::HalfMonthModifiedFollowing),
    ("P", Bdc::Preceding),
    ("MP", Bdc::ModifiedPreceding),
    ("U", Bdc::Unadjusted),
    ("N", Bdc::Nearest),
];

pub fn period_json(p: Period) -> Value {
    match p {
        Period::ON => json!(["ON", 0]),
        Period::TN => json!(["TN", 0]),
        Period::SPOT => json!(["SPOT", 0]),
        Period::SN => json!(["SN", 0]),
        Period::Days(n) => json!(["D", n]),
        Period::Weeks(n) => json!(["W", n]),
        Period::Months(n) => json!(["M", n]),
        Period::Years(n) => json!(["Y", n]),
    }
}

/// A result date as a number: the serial, -1 for none, -2 panic, -3 error.
pub fn res(r: Option<Option<NaiveDate>>) -> i32 {
    match r {
        None => -2,
        Some(None) => -1,
        Some(Some(d)) => ser(d),
    }
}

pub fn resr<E>(r: Option<Result<Option<NaiveDate>, E>>) -> i32 {
    match r {
        None => -2,
        Some(Err(_)) => -3,
        Some(Ok(x)) => res(Some(x)),
    }
}
