// C30: the real programmable filter with Lua scripts generated here.  Oracle: the same operations done on
// a copy of the events; what a script reads it reports in a line of its own, the last one it leaves.
extern crate cernan;
#[path = "wit.rs"]
mod wit;
#[path = "pts.rs"]
mod pts;
#[path = "ev.rs"]
mod ev;
use cernan::filter::{Filter, FilterError, ProgrammableFilter, ProgrammableFilterConfig};
use cernan::metric::{AggregationMethod, Event, LogLine, TagMap, Telemetry};
use wit::*;

/// a text as Lua would have it written
fn lua(s: &str) -> String {
    let mut o = String::from("\"");
    for b in s.bytes() { if b.is_ascii_alphanumeric() || b == b' ' || b == b'_' { o.push(b as char); } else { o += &format!("\\{:03}", b); } }
    o + "\""
}
fn pairs(t: &TagMap) -> Vec<(String, String)> { let mut v: Vec<_> = t.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); v.sort(); v }
fn tel(t: &Telemetry) -> String {
    let none = TagMap::default();
    let mut tags: Vec<(String, String)> = t.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
    tags.sort();
    format!("{:?} {} {} {:?} {} n={} {:?}", t.name, t.timestamp, t.persist, t.kind(), pts::value(t), t.count(), tags)
}
fn show(e: &Event) -> String {
    match *e {
        Event::Telemetry(ref t) => tel(t),
        Event::Log(ref l) => format!("line {:?} {} {:?} {:?} {:?}", l.path, l.time, l.value, pairs(&l.fields), l.tags.as_ref().map(pairs)),
        Event::Raw { ref order_by, ref encoding, ref bytes, ref metadata, ref connection_id } => format!("raw {} {:?} {:?} {:?} {:?}", order_by, encoding, bytes, metadata, connection_id),
        Event::TimerFlush(n) => format!("flush {}", n),
        Event::Shutdown => "shutdown".to_string(),
    }
}

#[derive(Clone, Debug)]
enum Op {
    Name(i64), SetName(i64, String), Tag(i64, String), SetTag(i64, String, String), RemoveTag(i64, String), Query(i64, f64),
    Value(i64), Path(i64), LTag(i64, String), Field(i64, String), LSetTag(i64, String, String), SetField(i64, String, String), SetValue(i64, String), LRemoveTag(i64, String),
    Push(String, f64), PushLog(String), Clear, ClearLogs,
}
impl Op {
    fn script(&self) -> String {
        use Op::*;
        match *self {
            Name(i) => format!("payload.metric_name(pyld, {})", i),
            SetName(i, ref n) => format!("payload.set_metric_name(pyld, {}, {})", i, lua(n)),
            Tag(i, ref k) => format!("payload.metric_tag_value(pyld, {}, {})", i, lua(k)),
            SetTag(i, ref k, ref v) => format!("payload.metric_set_tag(pyld, {}, {}, {})", i, lua(k), lua(v)),
            RemoveTag(i, ref k) => format!("payload.metric_remove_tag(pyld, {}, {})", i, lua(k)),
            Query(i, p) => format!("payload.metric_query(pyld, {}, {:?})", i, p),
            Value(i) => format!("payload.log_value(pyld, {})", i),
            Path(i) => format!("payload.log_path(pyld, {})", i),
            LTag(i, ref k) => format!("payload.log_tag_value(pyld, {}, {})", i, lua(k)),
            Field(i, ref k) => format!("payload.log_field_value(pyld, {}, {})", i, lua(k)),
            LSetTag(i, ref k, ref v) => format!("payload.log_set_tag(pyld, {}, {}, {})", i, lua(k), lua(v)),
            SetField(i, ref k, ref v) => format!("payload.log_set_field(pyld, {}, {}, {})", i, lua(k), lua(v)),
            SetValue(i, ref v) => format!("payload.log_set_value(pyld, {}, {})", i, lua(v)),
            LRemoveTag(i, ref k) => format!("payload.log_remove_tag(pyld, {}, {})", i, lua(k)),
            Push(ref n, v) => format!("payload.push_metric(pyld, {}, {:?})", lua(n), v),
            PushLog(ref l) => format!("payload.push_log(pyld, {})", lua(l)),
            Clear => "payload.clear_metrics(pyld)".to_string(),
            ClearLogs => "payload.clear_logs(pyld)".to_string(),
        }
    }
}
/// what a script works on
struct Model<'a> { metrics: Vec<Telemetry>, logs: Vec<LogLine>, tags: &'a TagMap, path: &'a str, read: String }
fn at(i: i64, n: usize) -> usize { if i > 0 { i as usize - 1 } else { (n as i64 + i) as usize } }
impl<'a> Model<'a> {
    fn saw<T: ToString>(&mut self, s: Option<T>) { self.read += &s.map(|x| x.to_string()).unwrap_or_else(|| "nil".to_string()); self.read.push('|'); }
    fn apply(&mut self, op: &Op) {
        use Op::*;
        let (m, l) = (self.metrics.len(), self.logs.len());
        match *op {
            Name(i) => { let s = self.metrics[at(i, m)].name.clone(); self.saw(Some(s)) }
            SetName(i, ref n) => { self.metrics[at(i, m)].name = n.clone(); self.saw::<String>(None) }
            Tag(i, ref k) => { let none = TagMap::default(); let s = self.metrics[at(i, m)].tags(&none).find(|x| x.0 == k).map(|x| x.1.clone()); let s = s.or_else(|| self.tags.get(k).cloned()); self.saw(s) }
            SetTag(i, ref k, ref v) => { let s = self.metrics[at(i, m)].insert_tag(k.clone(), v.clone()); self.saw(s) }
            RemoveTag(i, ref k) => { let s = self.metrics[at(i, m)].remove_tag(k); self.saw(s) }
            Query(i, p) => { let s = self.metrics[at(i, m)].query(p).map(|x| format!("{:?}", x)); self.saw(s) }
            Value(i) => { let s = self.logs[at(i, l)].value.clone(); self.saw(Some(s)) }
            Path(i) => { let s = self.logs[at(i, l)].path.clone(); self.saw(Some(s)) }
            LTag(i, ref k) => { let s = self.logs[at(i, l)].tags.as_ref().and_then(|t| t.get(k).cloned()).or_else(|| self.tags.get(k).cloned()); self.saw(s) }
            Field(i, ref k) => { let s = self.logs[at(i, l)].fields.get(k).cloned(); self.saw(s) }
            LSetTag(i, ref k, ref v) => { let s = self.logs[at(i, l)].tags.get_or_insert_with(TagMap::default).insert(k.clone(), v.clone()); self.saw(s) }
            SetField(i, ref k, ref v) => { let s = self.logs[at(i, l)].fields.insert(k.clone(), v.clone()); self.saw(s) }
            SetValue(i, ref v) => { self.logs[at(i, l)].value = v.clone(); self.saw::<String>(None) }
            LRemoveTag(i, ref k) => { let s = self.logs[at(i, l)].tags.as_mut().and_then(|t| t.remove(k)); self.saw(s) }
            Push(ref n, v) => {
                let mut t = Telemetry::new().name(n.clone()).value(v).harden().unwrap();
                for (k, v) in self.tags.iter() { t = t.overlay_tag(k.clone(), v.clone()); }
                self.metrics.push(t);
                self.saw::<String>(None)
            }
            PushLog(ref s) => {
                let mut t = LogLine::new(self.path, s);
                for (k, v) in self.tags.iter() { t = t.overlay_tag(k.clone(), v.clone()); }
                self.logs.push(t);
                self.saw::<String>(None)
            }
            Clear => { self.metrics.clear(); self.saw::<String>(None) }
            ClearLogs => { self.logs.clear(); self.saw::<String>(None) }
        }
    }
}
/// what a function of the script does: its operations, then perhaps an error
#[derive(Clone, Debug)]
struct Body { ops: Vec<Op>, error: Option<String>, quiet: bool }
fn ops(r: &mut Rng, mut m: i64, mut l: i64) -> Vec<Op> {
    use Op::*;
    let mut v = Vec::new();
    let n = r.size(5, 60);
    let key = |r: &mut Rng| if r.chance(1, 8) { r.text("klmé\u{0} ", 0, 3, |_| true) } else { r.pick(&["k", "l", "m", "f", "path"]).to_string() };
    for _ in 0..n {
        let on_m = r.chance(1, 2);
        let c = if on_m { m } else { l };
        let k = r.below(10);
        if c == 0 || k < 2 {
            if on_m { v.push(Push(r.text("ab.", 0, 3, |_| true), *r.pick(&[0.0, 1.0, -2.5, 100.0]))); m += 1; } else { v.push(PushLog(r.text("vw é", 0, 4, |_| true))); l += 1; }
            continue;
        }
        if k == 2 && r.chance(1, 3) { if on_m { v.push(Clear); m = 0; } else { v.push(ClearLogs); l = 0; } continue; }
        let i = 1 + r.below(c as usize) as i64;
        let i = if r.chance(1, 3) { -i } else { i };
        v.push(if on_m {
            match k { 3 => Name(i), 4 => SetName(i, r.text("xy. /é", 0, 3, |_| true)), 5 => Tag(i, key(r)), 6 | 7 => SetTag(i, key(r), r.text("pq\u{0}é \n", 0, 3, |_| true)), 8 => RemoveTag(i, key(r)), _ => Query(i, *r.pick(&[0.0, 0.5, 0.99, 1.0, 0.25, 0.001, 0.999, 0.9999])) }
        } else {
            match k { 3 => if r.chance(1, 2) { Value(i) } else { Path(i) }, 4 => SetValue(i, r.text("xy. \né", 0, 3, |_| true)), 5 => if r.chance(1, 2) { LTag(i, key(r)) } else { Field(i, key(r)) }, 6 => LSetTag(i, key(r), r.text("pqé \t", 0, 3, |_| true)), 7 => SetField(i, key(r), r.text("pqé \t", 0, 3, |_| true)), _ => LRemoveTag(i, key(r)) }
        });
    }
    v
}
const ERRORS: [&str; 13] = ["payload.metric_name(pyld, 99)", "payload.log_value(pyld, 0)", "payload.log_set_tag(pyld, -99, \"a\", \"b\")", "payload.metric_set_tag(pyld, math.mininteger, \"a\", \"b\")", "payload.set_metric_name(pyld, 1, \"\\255\")",
    "error(\"boom\")", "error({code = 1})", "local x = nil; x.y = 1", "error()", "payload.no_such_function(pyld)", "payload.set_metric_name(pyld, 1, {})",
    "error(setmetatable({}, {__tostring = function() error(\"again\") end}))", "local function f() return 1 + f() end; f()"];
fn body(r: &mut Rng, m: i64, l: i64) -> Option<Body> {
    if r.chance(1, 10) { return None; }
    let error = if r.chance(1, 6) { let k = r.below(ERRORS.len()); if ERRORS[k].contains("set_metric_name") && m == 0 { Some(ERRORS[0].to_string()) } else { Some(ERRORS[k].to_string()) } } else { None };
    let mut o = ops(r, m, l);
    if let Some(ref e) = error { if e.contains("set_metric_name") { o.retain(|x| match *x { Op::Clear => false, _ => true }); if o.iter().any(|x| match *x { Op::Push(..) => true, _ => false }) { o.clear(); } } }
    Some(Body { ops: o, error, quiet: r.chance(1, 4) })
}
fn text(name: &str, b: &Option<Body>) -> String {
    match *b {
        None => String::new(),
        Some(ref b) => {
            let mut s = format!("function {}(pyld)\n local o = {{}}\n", name);
            for op in &b.ops { s += &format!(" o[#o + 1] = tostring(({}))\n", op.script()); }
            if let Some(ref e) = b.error { s += &format!(" {}\n", e); }
            if !b.quiet { s += " payload.push_log(pyld, table.concat(o, \"|\") .. \"|\")\n"; }
            s + "end\n"
        }
    }
}
fn filter(script: &str, path: &str, over: &TagMap) -> ProgrammableFilter {
    let dir = ev::Dir::new();
    let file = dir.0.join("s.lua");
    std::fs::write(&file, script).unwrap();
    ProgrammableFilter::new(ProgrammableFilterConfig { scripts_directory: Some(dir.0.clone()), script: Some(file), forwards: vec![], config_path: Some(path.to_string()), tags: over.clone() })
}
fn failure(path: &str, func: &str) -> String {
    tel(&Telemetry::new().name(format!("cernan.filter.{}.{}.failure", path, func)).value(1.0).kind(AggregationMethod::Sum).harden().unwrap())
}
fn point(r: &mut Rng) -> Telemetry {
    if r.chance(1, 2) { let t = pts::point(r, &[0, 7, 1_500_000_000]); if t.kind() != AggregationMethod::Summarize { return t; } }
    let mut t = Telemetry::new().name("s").timestamp(3).kind(AggregationMethod::Summarize).error(0.01).value(1.0).harden().unwrap();
    for _ in 0..r.below(9) { t = t.insert(r.range(-80, 80) as f64 / 8.0); }
    t
}
fn runs(r: &mut Rng) -> Res {
    let over = pts::tags(r);
    let path = r.pick(&["filters.p", "f", ""]).to_string();
    let (bm, bl, bt) = (body(r, 1, 0), body(r, 0, 1), body(r, 0, 0));
    let script = format!("{}{}{}", text("process_metric", &bm), text("process_log", &bl), text("tick", &bt));
    let mut f = filter(&script, &path, &over);
    let mut log = format!("tags={:?} path={:?}\n{}", pairs(&over), path, script);
    let mut last = 0;
    let n = 1 + r.size(4, 200);
    let mut hot = false;
    for _ in 0..n {
        // now and then many of the same kind
        let e = match r.below(10) {
            0 | 1 | 2 | 3 => Event::new_telemetry(point(r)),
            4 | 5 | 6 => Event::new_log(pts::line(r, &[0, 5, -9])),
            7 | 8 => Event::TimerFlush(if r.chance(2, 3) { last + r.below(3) as u64 } else { r.below(5) as u64 }),
            _ => if r.chance(1, 4) { Event::Shutdown } else { ev::raw(r) },
        };
        let mut out = vec![Event::TimerFlush(99)];
        let (func, b, m, l) = match e {
            Event::Telemetry(ref t) => ("process_metric", Some(&bm), vec![t.clone()], vec![]),
            Event::Log(ref x) => ("process_log", Some(&bl), vec![], vec![x.clone()]),
            Event::TimerFlush(k) if k > last => ("tick", Some(&bt), vec![], vec![]),
            _ => ("", None, vec![], vec![]),
        };
        let mut model = Model { metrics: m, logs: l, tags: &over, path: &path, read: String::new() };
        if !hot || r.chance(1, 8) { log += &format!("event {}\n", show(&e)); }
        note(&log);
        let mut want = vec!["flush 99".to_string()];
        let mut failed = None;
        match b {
            None => match e { Event::TimerFlush(_) => (), ref e => want.push(show(e)) },
            Some(&None) => failed = Some("missing"),
            Some(&Some(ref b)) if b.error.is_some() => failed = Some("error"),
            Some(&Some(ref b)) => {
                for op in &b.ops { model.apply(op); }
                if !b.quiet { let s = model.read.clone(); model.apply(&Op::PushLog(if s.is_empty() { "|".to_string() } else { s })); }
                want.extend(model.logs.drain(..).map(|x| show(&Event::new_log(x))));
                want.extend(model.metrics.drain(..).map(|x| show(&Event::new_telemetry(x))));
            }
        }
        if func == "tick" { want.push(show(&e)); if failed.is_none() { if let Event::TimerFlush(k) = e { last = k; } } }
        let res = f.process(e, &mut out);
        match (failed, res) {
            (None, Ok(())) => (),
            (Some("missing"), Err(FilterError::NoSuchFunction(n, t))) => if n != func || show(&t) != failure(&path, func) { return fail("failure", log, format!("reported {:?} with {}", n, show(&t))); },
            (Some("error"), Err(FilterError::LuaError(_, t))) => if show(&t) != failure(&path, func) { return fail("failure", log, format!("reported with {}", show(&t))); },
            (f, r) => return fail("result", log, format!("{:?} gave {:?}", f, r)),
        }
        hot = n > 20;
        let got: Vec<String> = out.iter().map(show).collect();
        if got != want { return fail("events", log, format!("left {:#?}\n where the script leaves {:#?}", got, want)); }
    }
    ok(log, bm.is_some() || bl.is_some())
}
/// what goes wrong in one call takes nothing from the ones after it, however often
fn often(r: &mut Rng) -> Res {
    let n = *r.pick(&[60, 500, 5000]);
    let kind = r.below(3);
    calls(n, kind)
}
/// more calls than Lua's stack could ever hold values
fn endless(r: &mut Rng) -> Res {
    let kind = r.below(2);
    calls(1_050_000, kind)
}
fn calls(n: usize, kind: usize) -> Res {
    let script = ["", "function process_metric(pyld) error(\"boom\") end\n", "function process_metric(pyld) payload.metric_set_tag(pyld, 1, \"k\", \"v\") end\n"][kind].to_string()
        + "function process_log(pyld) payload.log_set_value(pyld, 1, \"seen\") end\n";
    let over = TagMap::default();
    let d = format!("{} points, then a line, through\n{}", n, script);
    note(&d);
    let mut f = filter(&script, "f", &over);
    for i in 0..n {
        let mut out = Vec::new();
        let t = Telemetry::new().name("a").value(1.0).timestamp(0).harden().unwrap();
        let good = match (kind, f.process(Event::new_telemetry(t), &mut out)) {
            (0, Err(FilterError::NoSuchFunction("process_metric", _))) => out.is_empty(),
            (1, Err(FilterError::LuaError(ref m, _))) => out.is_empty() && m.ends_with("boom"),
            (2, Ok(())) => out.len() == 1,
            (_, r) => return fail("often", d, format!("point {}: {:?}", i, r)),
        };
        if !good { return fail("often", d, format!("point {} left {:?}", i, out)); }
    }
    let mut out = Vec::new();
    let res = f.process(Event::new_log(LogLine::new("p", "v")), &mut out);
    match out.get(0) { Some(Event::Log(ref l)) if res.is_ok() && out.len() == 1 && l.value == "seen" => (), _ => return fail("often", d, format!("the line: {:?}, {:?}", res, out)) }
    ok(d, true)
}
fn main() {
    wit::main(&[Case { name: "runs", every: 1, run: runs }, Case { name: "endless", every: 120, run: endless }, Case { name: "often", every: 40, run: often }]);
}
