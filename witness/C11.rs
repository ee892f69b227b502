// C11: the real JSON encode filter.  Oracle: the document built here from the same line.
extern crate cernan;
extern crate chrono;
extern crate serde_json;
#[path = "wit.rs"]
mod wit;
#[path = "pts.rs"]
mod pts;
use cernan::filter::{Filter, JSONEncodeFilter, JSONEncodeFilterConfig};
use cernan::metric::{Encoding, Event, TagMap};
use pts::*;
use serde_json::map::Map;
use serde_json::Value;
use wit::*;

fn json(r: &mut Rng, deep: usize) -> String {
    let sp = |r: &mut Rng| r.string(" \n\t", 0, 1);
    match r.below(if deep > 3 { 6 } else { 9 }) {
        0 => r.pick(&["true", "false", "null"]).to_string(),
        1 => r.pick(&["0", "-1", "3.5", "1e300", "18446744073709551615", "-9223372036854775808", "9007199254740993", "18446744073709551616", "0.1", "1e-7", "-0.0", "123456789.125"]).to_string(),
        2 | 3 | 4 | 5 => format!("\"{}\"", (0..r.below(4)).map(|_| *r.pick(&["a", "é", "\\n", "\\\"", "\\u0041", "\\\\", " ", "\\ud83d\\ude00", "/", "\\u0000", "\u{7f}"])).collect::<String>()),
        6 => { let n = r.below(3); format!("[{}]", (0..n).map(|_| sp(r) + &json(r, deep + 1)).collect::<Vec<_>>().join(",")) }
        _ => object(r, deep),
    }
}
fn object(r: &mut Rng, deep: usize) -> String {
    let n = r.size(3, 40);
    let sp = r.string(" \n", 0, 1);
    format!("{{{}{}}}", sp, (0..n).map(|_| {
        let k = if r.chance(1, 8) { r.text("ab._@", 0, 3, |w| w.chars().all(|c| c != '"' && c != '\\' && c >= ' ')) } else { r.pick(&["a", "b", "f", "path", "time", "tags", "message", "", "\\u0066"]).to_string() };
        format!("\"{}\":{}{}", k, r.string(" ", 0, 1), json(r, deep + 1))
    }).collect::<Vec<_>>().join(","))
}
fn text(r: &mut Rng) -> String {
    match r.below(9) {
        0 => r.string("ab{}\"[]:, 1\\\u{0}é", 0, 8),
        1 => json(r, 0),
        2 => { let mut s = object(r, 0); s.push_str(*r.pick(&["x", " ", "{}", "\n", "\u{0}"])); s }
        3 => { let mut s = object(r, 0); let n = r.below(s.len() + 1); if s.is_char_boundary(n) { s.truncate(n); } s }
        4 => { let n = *r.pick(&[1, 60, 126, 127, 128, 129, 400]); format!("{{\"a\":{}1{}}}", "[".repeat(n), "]".repeat(n)) }
        _ => object(r, 0),
    }
}
fn obj(m: &TagMap) -> Map<String, Value> {
    let mut o = Map::new();
    for (k, v) in m.iter() { o.insert(k.clone(), Value::String(v.clone())); }
    o
}
fn stamp(t: i64) -> String {
    use chrono::naive::{NaiveDateTime, MAX_DATE, MIN_DATE};
    let n = NaiveDateTime::from_timestamp_opt(t, 0).unwrap_or_else(|| if t < 0 { MIN_DATE.and_hms(0, 0, 0) } else { MAX_DATE.and_hms(0, 0, 0) });
    chrono::DateTime::<chrono::offset::Utc>::from_utc(n, chrono::offset::Utc).to_rfc3339()
}
fn encode(r: &mut Rng) -> Res {
    let parse = r.chance(2, 3);
    let over = tags(r);
    let mut f = JSONEncodeFilter::new(JSONEncodeFilterConfig { config_path: None, forwards: vec![], parse_line: parse, tags: over.clone() });
    let mut log = format!("parse_line={} tags={:?}", parse, over);
    let mut out: Vec<Event> = Vec::new();
    let times = [0i64, 1, -1, 946_684_800, i64::max_value(), i64::min_value(), 8_210_298_412_799, 8_210_298_412_800, 253_402_300_800, -62_135_596_801];
    let mut hit = false;
    for _ in 0..1 + r.size(3, 40) {
        if r.chance(1, 5) {
            let e = match r.below(4) {
                0 => Event::TimerFlush(r.u64()),
                1 => Event::Telemetry(point(r, &times)),
                2 => Event::Shutdown,
                _ => Event::Raw { order_by: r.u64(), encoding: Encoding::Avro, bytes: r.bytes(4), metadata: None, connection_id: None },
            };
            log.push_str(&format!(" | {:?}", e));
            note(&log);
            let n = out.len();
            if f.process(e.clone(), &mut out).is_err() { return fail("json-error", log, "process returned an error".into()); }
            if out.len() != n + 1 || format!("{:?}", out[n]) != format!("{:?}", e) { return fail("json-other", log, "an event that is not a line did not pass unchanged".into()); }
            continue;
        }
        let mut l = line(r, &times);
        l.value = text(r);
        log.push_str(&format!(" | {:?}", l));
        note(&log);
        let n = out.len();
        if f.process(Event::Log(l.clone()), &mut out).is_err() { return fail("json-error", log, "process returned an error".into()); }
        if out.len() != n + 1 { return fail("json-count", log, format!("{} events for one line", out.len() - n)); }
        let mut want = Map::new();
        let mut t = obj(&over);
        if let Some(ref own) = l.tags { for (k, v) in obj(own) { t.insert(k, v); } }
        want.insert("tags".to_string(), Value::Object(t));
        want.insert("path".to_string(), Value::String(l.path.clone()));
        want.insert("time".to_string(), Value::String(stamp(l.time)));
        for (k, v) in obj(&l.fields) { want.insert(k, v); }
        match if parse { serde_json::from_str::<Value>(&l.value).ok() } else { None } {
            Some(Value::Object(o)) => { hit = true; for (k, v) in o { want.insert(k, v); } }
            _ => { want.insert("message".to_string(), Value::String(l.value.clone())); }
        }
        let want = Value::Object(want);
        match out[n] {
            Event::Raw { encoding: Encoding::JSON, ref bytes, metadata: None, connection_id: None, .. } => {
                if *bytes != serde_json::to_vec(&want).unwrap() && serde_json::from_slice::<Value>(bytes).ok() != Some(want.clone()) {
                    return fail("json-document", log, format!("got {} where {} was stated", String::from_utf8_lossy(bytes), want));
                }
            }
            ref e => return fail("json-event", log, format!("the line came out as {:?}", e)),
        }
    }
    ok(log, hit)
}
fn main() { wit::main(&[Case { name: "encode", every: 1, run: encode }]); }
