//! Records, for every supported calendar and market and every year, the days
//! on which the real code disagrees with a Saturday/Sunday weekend.
use crate::common::*;
use chrono::{Datelike, Weekday};
use finquant::time::calendars::Calendar;
use serde_json::json;

/// (name in the specification, serialised form of the calendar)
pub const CALENDARS: &[(&str, &str)] = &[
    ("Argentina", r#"{"type":"Argentina"}"#),
    ("Australia", r#"{"type":"Australia","market":null}"#),
    ("Australia.Settlement", r#"{"type":"Australia","market":"Settlement"}"#),
    ("Australia.ASX", r#"{"type":"Australia","market":"ASX"}"#),
    ("Austria", r#"{"type":"Austria","market":null}"#),
    ("Austria.Settlement", r#"{"type":"Austria","market":"Settlement"}"#),
    ("Austria.Exchange", r#"{"type":"Austria","market":"Exchange"}"#),
    ("Botswana", r#"{"type":"Botswana"}"#),
    ("Brazil", r#"{"type":"Brazil","market":null}"#),
    ("Brazil.Settlement", r#"{"type":"Brazil","market":"Settlement"}"#),
    ("Brazil.Exchange", r#"{"type":"Brazil","market":"Exchange"}"#),
    ("Canada", r#"{"type":"Canada","market":null}"#),
    ("Canada.Settlement", r#"{"type":"Canada","market":"Settlement"}"#),
    ("Canada.TSX", r#"{"type":"Canada","market":"TSX"}"#),
    ("Chile", r#"{"type":"Chile"}"#),
    ("China", r#"{"type":"China"}"#),
    ("CzechRepublic", r#"{"type":"CzechRepublic"}"#),
    ("Denmark", r#"{"type":"Denmark"}"#),
    ("Finland", r#"{"type":"Finland"}"#),
    ("France", r#"{"type":"France","market":null}"#),
    ("France.Settlement", r#"{"type":"France","market":"Settlement"}"#),
    ("France.Exchange", r#"{"type":"France","market":"Exchange"}"#),
    ("Germany", r#"{"type":"Germany","market":null}"#),
    ("Germany.Settlement", r#"{"type":"Germany","market":"Settlement"}"#),
    ("Germany.FrankfurtStockExchange", r#"{"type":"Germany","market":"FrankfurtStockExchange"}"#),
    ("Germany.Xetra", r#"{"type":"Germany","market":"Xetra"}"#),
    ("Germany.Eurex", r#"{"type":"Germany","market":"Eurex"}"#),
    ("Germany.Euwax", r#"{"type":"Germany","market":"Euwax"}"#),
    ("HongKong", r#"{"type":"HongKong"}"#),
    ("Hungary", r#"{"type":"Hungary"}"#),
    ("Iceland", r#"{"type":"Iceland"}"#),
    ("India", r#"{"type":"India"}"#),
    ("Indonesia", r#"{"type":"Indonesia"}"#),
    ("Israel", r#"{"type":"Israel","market":null}"#),
    ("Israel.TelAviv", r#"{"type":"Israel","market":"TelAviv"}"#),
    ("Israel.Shir", r#"{"type":"Israel","market":"Shir"}"#),
    ("Italy", r#"{"type":"Italy","market":null}"#),
    ("Italy.Settlement", r#"{"type":"Italy","market":"Settlement"}"#),
    ("Italy.Exchange", r#"{"type":"Italy","market":"Exchange"}"#),
    ("Japan", r#"{"type":"Japan"}"#),
    ("Mexico", r#"{"type":"Mexico"}"#),
    ("NewZealand", r#"{"type":"NewZealand","market":null}"#),
    ("NewZealand.Wellington", r#"{"type":"NewZealand","market":"Wellington"}"#),
    ("NewZealand.Auckland", r#"{"type":"NewZealand","market":"Auckland"}"#),
    ("Norway", r#"{"type":"Norway"}"#),
    ("Poland", r#"{"type":"Poland","market":null}"#),
    ("Poland.Settlement", r#"{"type":"Poland","market":"Settlement"}"#),
    ("Poland.WSE", r#"{"type":"Poland","market":"WSE"}"#),
    ("Romania", r#"{"type":"Romania"}"#),
    ("Russia", r#"{"type":"Russia","market":null}"#),
    ("Russia.Settlement", r#"{"type":"Russia","market":"Settlement"}"#),
    ("Russia.Exchange", r#"{"type":"Russia","market":"Exchange"}"#),
    ("Singapore", r#"{"type":"Singapore"}"#),
    ("Slovakia", r#"{"type":"Slovakia"}"#),
    ("SouthAfrica", r#"{"type":"SouthAfrica"}"#),
    ("SouthKorea", r#"{"type":"SouthKorea"}"#),
    ("Sweden", r#"{"type":"Sweden"}"#),
    ("Switzerland", r#"{"type":"Switzerland"}"#),
    ("Taiwan", r#"{"type":"Taiwan"}"#),
    ("Target", r#"{"type":"Target"}"#),
    ("Thailand", r#"{"type":"Thailand"}"#),
    ("Turkey", r#"{"type":"Turkey"}"#),
    ("Ukraine", r#"{"type":"Ukraine"}"#),
    ("UnitedKingdom", r#"{"type":"UnitedKingdom","market":null}"#),
    ("UnitedKingdom.Settlement", r#"{"type":"UnitedKingdom","market":"Settlement"}"#),
    ("UnitedKingdom.Exchange", r#"{"type":"UnitedKingdom","market":"Exchange"}"#),
    ("UnitedKingdom.Metals", r#"{"type":"UnitedKingdom","market":"Metals"}"#),
    ("UnitedStates", r#"{"type":"UnitedStates","market":null}"#),
    ("UnitedStates.Settlement", r#"{"type":"UnitedStates","market":"Settlement"}"#),
    ("UnitedStates.Libor", r#"{"type":"UnitedStates","market":"Libor"}"#),
    ("UnitedStates.NYSE", r#"{"type":"UnitedStates","market":"NYSE"}"#),
    ("UnitedStates.GovernmentBond", r#"{"type":"UnitedStates","market":"GovernmentBond"}"#),
    ("UnitedStates.SOFR", r#"{"type":"UnitedStates","market":"SOFR"}"#),
    ("UnitedStates.NERC", r#"{"type":"UnitedStates","market":"NERC"}"#),
    ("UnitedStates.FederalReserve", r#"{"type":"UnitedStates","market":"FederalReserve"}"#),
    ("WeekendsOnly", r#"{"type":"WeekendsOnly"}"#),
];

pub fn calendar(json: &str) -> Box<dyn Calendar> {
    serde_json::from_str(json).expect("calendar")
}

pub fn record(out: &str, _args: &[String]) {
    let mut o = Out::new(out);
    let any = calendar(r#"{"type":"WeekendsOnly"}"#);
    for y in 1901..=2199 {
        o.put(json!({"k": "easter", "y": y,
            "western": guard(|| any.easter_monday(y)).unwrap_or(0),
            "orthodox": guard(|| any.orthodox_easter_monday(y)).unwrap_or(0)}));
    }
    for (name, js) in CALENDARS {
        let cal = calendar(js);
        for y in 1901..=2199 {
            let len = ymd(y, 12, 31).ordinal() as i32;
            let first = ser(ymd(y, 1, 1));
            let mut hol = vec![];
            let mut open = vec![];
            let mut bad = vec![];
            for k in 1..=len {
                let d = date(first + k - 1);
                let weekend = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
                match guard(|| (cal.is_business_day(d), cal.is_holiday(d), cal.is_weekend(d))) {
                    None => bad.push(k),
                    Some((b, h, w)) => {
                        if b == h || w != weekend {
                            bad.push(k);
                        }
                        if !b && !weekend {
                            hol.push(k);
                        }
                        if b && weekend {
                            open.push(k);
                        }
                    }
                }
            }
            o.put(json!({"k": "year", "cal": name, "y": y, "h": hol, "open": open, "bad": bad}));
        }
    }
}
