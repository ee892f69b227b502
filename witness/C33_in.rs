pub mod verif {
    use super::*;
    use crate::wit::*;
    use ::elastic::{Answer, Said, SERVER};
    use std::cell::RefCell;
    use std::rc::Rc;

    fn sink(r: &mut Rng) -> Elasticsearch {
        Elasticsearch::init(ElasticsearchConfig {
            index_prefix: if r.chance(1, 2) { Some("pre".to_string()) } else { None }, delivery_attempt_limit: *r.pick(&[0, 1, 2, 3, 255]),
            flush_interval: 3, tags: crate::tags(r), ..Default::default()
        })
    }
    fn day(t: i64) -> Option<String> { chrono::NaiveDateTime::from_timestamp_opt(t, 0).map(|d| d.format("%Y-%m-%d").to_string()) }
    /// the request states the lines, each once, in order
    fn check(body: &str, held: &[(uuid::Uuid, u8, LogLine)], prefix: &Option<String>, over: &TagMap) -> std::result::Result<(), String> {
        let rows: Vec<serde_json::Value> = serde_json::Deserializer::from_str(body).into_iter().collect::<std::result::Result<_, _>>().map_err(|e| format!("not JSON: {}", e))?;
        if rows.len() != 2 * held.len() || body.lines().count() != rows.len() { return Err(format!("{} documents for {} lines", rows.len(), held.len())); }
        for (i, (u, _, l)) in held.iter().enumerate() {
            let id = u.hyphenated().to_string();
            let h = &rows[2 * i]["index"];
            if h["_id"] != id.as_str() || h["_type"] != "payload" { return Err(format!("header {} for {}", h, id)); }
            if let Some(d) = day(l.time) {
                let w = match prefix { Some(p) => format!("{}-{}", p, d), None => d };
                if h["_index"] != w.as_str() { return Err(format!("index {} instead of {}", h["_index"], w)); }
            }
            let mut want = serde_json::Map::new();
            let got = rows[2 * i + 1].as_object().ok_or("no object")?;
            want.insert("uuid".to_string(), id.clone().into());
            want.insert("path".to_string(), l.path.clone().into());
            want.insert("payload".to_string(), l.value.clone().into());
            want.insert("timestamp".to_string(), match chrono::NaiveDateTime::from_timestamp_opt(l.time, 0) {
                Some(n) => chrono::DateTime::<chrono::Utc>::from_utc(n, chrono::Utc).format("%+").to_string().into(),
                None => got.get("timestamp").cloned().unwrap_or(serde_json::Value::Null),
            });
            for (k, v) in l.tags(over) { want.insert(k.clone(), v.clone().into()); }
            for (k, v) in &l.fields { want.insert(k.clone(), v.clone().into()); }
            if got != &want { return Err(format!("document {:?} instead of {:?}", got, want)); }
        }
        Ok(())
    }
    pub fn run(r: &mut Rng) -> Res {
        let big_run = r.chance(1, 50);
        let mut s = sink(r);
        let mut held: Vec<(uuid::Uuid, u8, LogLine)> = Vec::new();
        let mut d = format!("limit {} prefix {:?} tags {:?}:", s.delivery_attempt_limit, s.index_prefix, s.tags);
        let long = r.chance(1, 200);
        let mut left = false;
        for step in 0..if long { 260 } else { 1 + r.below(8) } {
            for _ in 0..if long { if step == 0 { 2 } else { 0 } } else { { r.below(if big_run { 70 } else { 5 }) } } {
                let l = crate::line(r, &[0, 1, 1_542_000_000, -1, 4_000_000_000, i64::max_value() / 1000, i64::min_value(), i64::max_value()]);
                d += &format!(" line {:?};", l);
                note(&d);
                s.deliver_line(l.clone());
                match s.buffer.last() {
                    Some(x) if x.line == l && x.attempts == 0 && s.buffer.len() == held.len() + 1 && held.iter().all(|h| h.0 != x.uuid) => held.push((x.uuid, 0, l)),
                    _ => return fail("held", d, "the line is not the last one held".to_string()),
                }
            }
            // the server's part
            let mut answers: Vec<Answer> = Vec::new();
            let mode = if long { 2 } else { r.below(6) };
            let what = match mode { 0 => "unreachable", 1 => "refused", _ => "answered" };
            if mode > 1 {
                for h in &held {
                    if !long && r.chance(1, 6) { continue; }
                    answers.push(Answer { id: h.0.hyphenated().to_string(), ok: !long && r.chance(1, 2), action: *r.pick(&[bulk::Action::Index, bulk::Action::Create, bulk::Action::Update, bulk::Action::Delete]),
                        source: if r.chance(1, 2) { Some("x".to_string()) } else { None } });
                }
                r.shuffle(&mut answers);
            }
            d += &format!(" flush {} {:?};", what, answers.iter().map(|a| (held.iter().position(|h| h.0.hyphenated().to_string() == a.id).unwrap(), a.ok)).collect::<Vec<_>>());
            note(&d);
            let bodies = Rc::new(RefCell::new(Vec::new()));
            let (b, a, err) = (bodies.clone(), answers.clone(), r.below(8));
            SERVER.with(|x| *x.borrow_mut() = Some(Box::new(move |t: &str| {
                b.borrow_mut().push(t.to_string());
                use ::elastic::error::{ApiError::*, ClientError, Error::*};
                let s = || "why".to_string();
                match mode {
                    0 => Said::Down,
                    1 => Said::Refused(match err {
                        0 => Api(IndexNotFound { index: s() }), 1 => Api(Parsing { line: 1, col: 1, reason: s() }), 2 => Api(MapperParsing { reason: s() }),
                        3 => Api(ActionRequestValidation { reason: s(), line: 1 }), 4 => Api(DocumentMissing { index: s(), ty: s() }), 5 => Api(IndexAlreadyExists { index: s() }),
                        6 => Api(Other(s())), _ => Client(ClientError),
                    }),
                    _ => Said::Answers(a.clone()),
                }
            })));
            s.flush();
            let bodies = bodies.borrow();
            if bodies.len() != if held.is_empty() { 0 } else { 1 } { return fail("requests", d, format!("{} requests for {} lines", bodies.len(), held.len())); }
            if let Some(b) = bodies.first() { if let Err(e) = check(b, &held, &s.index_prefix, &s.tags) { return fail("body", d, e); } }
            for a in &answers {
                let i = held.iter().position(|h| h.0.hyphenated().to_string() == a.id).unwrap();
                held[i].1 = held[i].1.saturating_add(1);
                if a.ok || held[i].1 > s.delivery_attempt_limit { held.remove(i); left = true; }
            }
            let is: Vec<_> = s.buffer.iter().map(|x| (x.uuid, x.attempts, x.line.clone())).collect();
            if is != held {
                return fail("kept", d, format!("holds {:?} where it should hold {:?}", is.iter().map(|x| (x.1, &x.2.value)).collect::<Vec<_>>(), held.iter().map(|x| (x.1, &x.2.value)).collect::<Vec<_>>()));
            }
            if let Valve::Closed = s.valve_state() { return fail("valve", d, "the valve is closed".to_string()); }
        }
        ok(d, left)
    }
    pub fn valve(r: &mut Rng) -> Res {
        let mut s = sink(r);
        for n in 0..10_003 {
            let closed = match s.valve_state() { Valve::Closed => true, Valve::Open => false };
            if closed != (n > 10_000) { return fail("valve", format!("{} lines held", n), format!("valve closed: {}", closed)); }
            s.deliver_line(LogLine::new("p", "v"));
        }
        ok("valve".to_string(), true)
    }
}
