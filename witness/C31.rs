// C31: random configuration files, through the real parser.
extern crate cernan;
use cernan::config::{parse_config, Args};
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wit::*;

#[derive(Clone, Debug)]
enum V { S(String), I(i64), F(f64), B(bool), L(Vec<V>), T(Vec<(String, V)>) }
use V::*;
type Tab = Vec<(String, V)>;
fn s(x: &str) -> V { S(x.to_string()) }
fn at<'a>(t: &'a Tab, k: &str) -> Option<&'a V> { t.iter().find(|e| e.0 == k).map(|e| &e.1) }
fn tab<'a>(t: &'a Tab, k: &str) -> Option<&'a Tab> { match at(t, k) { Some(T(x)) => Some(x), _ => None } }

// ---- how a file is written
fn quoted(x: &str) -> String {
    let mut o = "\"".to_string();
    for c in x.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04X}", c as u32), c => o.push(c) }
    }
    o + "\""
}
fn name(x: &str) -> String { if !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { x.to_string() } else { quoted(x) } }
fn float(f: f64) -> String { let t = format!("{:?}", f); if t.contains('.') || t.contains('e') { t } else { t + ".0" } }
fn inline(v: &V, r: &mut Rng) -> String {
    match v {
        S(x) => if r.chance(1, 4) && x.chars().all(|c| c >= ' ' && c != '\'' && c as u32 != 127) { format!("'{}'", x) } else { quoted(x) },
        I(i) => i.to_string(), F(f) => float(*f), B(b) => b.to_string(),
        L(l) => format!("[{}]", l.iter().map(|x| inline(x, r)).collect::<Vec<_>>().join(if r.chance(1, 3) { ",\n  " } else { ", " })),
        T(t) => format!("{{ {} }}", t.iter().map(|(k, x)| format!("{} = {}", name(k), inline(x, r))).collect::<Vec<_>>().join(", ")),
    }
}
fn write(t: &Tab, path: &str, out: &mut String, r: &mut Rng) {
    let mut later = Vec::new();
    for (k, v) in t {
        match v {
            T(x) if path.is_empty() || !r.chance(1, 5) => later.push((k, x)),
            v => { let l = inline(v, r).replace("\n", " "); *out += &format!("{} = {}\n", name(k), l); }
        }
    }
    for (k, x) in later {
        let p = if path.is_empty() { name(k) } else { format!("{}.{}", path, name(k)) };
        if !x.iter().all(|e| if let T(_) = e.1 { true } else { false }) || x.is_empty() || r.chance(1, 2) {
            *out += &format!("[{}]\n", p);
            write(x, &p, out, r);
        } else {
            for (k2, v2) in x {
                if let T(y) = v2 { let q = format!("{}.{}", p, name(k2)); *out += &format!("[{}]\n", q); write(y, &q, out, r); }
            }
        }
    }
}

// ---- random files
fn a_name(r: &mut Rng) -> String { match r.below(8) { 0 => r.string("a.b \u{e9}\"", 1, 4), 1 => (*r.pick(&["sources", "sinks", "tags", "x", "native"])).to_string(), _ => r.string("abcXYZ09_-", 1, 5) } }
fn a_text(r: &mut Rng) -> String { if r.chance(1, 4) { r.text("ab \u{e9}\"\\\n.:/'", 0, 6, |_| true) } else { r.string("abc.-/", 1, 8) } }
fn count(r: &mut Rng) -> i64 { match r.below(5) { 0 => 0, 1 => { let n = r.num(); if n < 0 { n.wrapping_neg().max(0) } else { n } }, _ => r.range(0, 5000) } }
fn port(r: &mut Rng) -> i64 { match r.below(5) { 0 => *r.pick(&[0, 1, 255, 256, 32767, 32768, 65534, 65535]), _ => r.range(0, 65535) } }
fn real(r: &mut Rng) -> f64 { match r.below(4) { 0 => *r.pick(&[0.0, 1.0, 0.5, 0.999, 1e-3, 2.5, 0.01]), _ => r.range(0, 1_000_000) as f64 / *r.pick(&[1.0, 7.0, 100.0, 1e6]) } }
fn seconds(r: &mut Rng) -> V { if r.chance(1, 2) { I(match r.below(4) { 0 => r.range(0, 3), 1 => r.range(0, 1 << 40), _ => r.range(0, 600) }) } else { F(real(r)) } }
fn list(r: &mut Rng, lo: usize) -> V { let n = lo + r.size(3, 40); L((0..n).map(|_| S(a_text(r))).collect()) }
fn put(t: &mut Tab, r: &mut Rng, k: &str, f: &dyn Fn(&mut Rng) -> V) { if r.chance(3, 5) { let v = f(r); t.push((k.to_string(), v)); } }
fn named(r: &mut Rng, one: &dyn Fn(&mut Rng) -> Tab) -> V {
    let mut o: Tab = Vec::new();
    for _ in 0..r.size(3, 12) {
        let n = a_name(r);
        if at(&o, &n).is_none() { let t = one(r); o.push((n, T(t))); }
    }
    T(o)
}
fn config(r: &mut Rng) -> Tab {
    let mut c: Tab = Vec::new();
    for k in &["max-hopper-queue-bytes", "max-hopper-queue-files", "max-hopper-in-memory-bytes"] { put(&mut c, r, k, &|r| I(count(r))); }
    for k in &["data-directory", "scripts-directory"] { put(&mut c, r, k, &|r| S(a_text(r))); }
    put(&mut c, r, "flush-interval", &seconds);
    put(&mut c, r, "tags", &|r| {
        let mut o: Tab = Vec::new();
        for i in 0..r.size(4, 20) {
            let n = a_name(r);
            if at(&o, &n).is_some() { continue; }
            let v = if r.chance(1, 4) { T(vec![("environment".to_string(), B(true)), ("value".to_string(), S(format!("WIT_{}", i % 4)))]) } else { S(a_text(r)) };
            o.push((n, v));
        }
        T(o)
    });
    if r.chance(4, 5) {
        let mut f: Tab = Vec::new();
        put(&mut f, r, "delay", &|r| named(r, &|r| { let mut t = Vec::new(); put(&mut t, r, "tolerance", &|r| I(r.num())); put(&mut t, r, "forwards", &|r| list(r, 0)); t }));
        put(&mut f, r, "json_encode", &|r| named(r, &|r| { let mut t = Vec::new(); put(&mut t, r, "parse_line", &|r| B(r.chance(1, 2))); put(&mut t, r, "forwards", &|r| list(r, 0)); t }));
        put(&mut f, r, "flush_boundary", &|r| named(r, &|r| { let mut t = Vec::new(); put(&mut t, r, "tolerance", &|r| I(count(r))); put(&mut t, r, "forwards", &|r| list(r, 0)); t }));
        put(&mut f, r, "programmable", &|r| named(r, &|r| { let mut t = Vec::new(); put(&mut t, r, "script", &|r| S(a_text(r))); put(&mut t, r, "forwards", &|r| list(r, 0)); t }));
        c.push(("filters".to_string(), T(f)));
    }
    if r.chance(4, 5) {
        let mut f: Tab = Vec::new();
        let fl = |t: &mut Tab, r: &mut Rng| put(t, r, "flush_interval", &seconds);
        put(&mut f, r, "null", &|_| T(vec![]));
        put(&mut f, r, "console", &|r| { let mut t = Vec::new(); put(&mut t, r, "bin_width", &|r| I(r.num())); fl(&mut t, r); T(t) });
        put(&mut f, r, "wavefront", &|r| {
            let mut t = Vec::new();
            put(&mut t, r, "port", &|r| I(port(r))); put(&mut t, r, "host", &|r| S(a_text(r))); put(&mut t, r, "bin_width", &|r| I(r.num())); put(&mut t, r, "age_threshold", &|r| I(count(r))); fl(&mut t, r);
            put(&mut t, r, "percentiles", &|r| if r.chance(1, 10) { I(1) } else { let mut o: Tab = Vec::new(); for _ in 0..r.size(3, 20) { let n = a_name(r); if at(&o, &n).is_none() { o.push((n, F(real(r)))); } } T(o) });
            put(&mut t, r, "padding", &|r| if r.chance(1, 10) { B(true) } else { let mut o = Vec::new(); for k in &["set", "sum", "summarize", "histogram"] { put(&mut o, r, k, &|r| B(r.chance(2, 3))); } T(o) });
            T(t)
        });
        put(&mut f, r, "influxdb", &|r| { let mut t = Vec::new(); put(&mut t, r, "port", &|r| I(port(r))); put(&mut t, r, "secure", &|r| B(r.chance(1, 2))); put(&mut t, r, "host", &|r| S(a_text(r))); put(&mut t, r, "db", &|r| S(a_text(r))); fl(&mut t, r); T(t) });
        put(&mut f, r, "prometheus", &|r| { let mut t = Vec::new(); put(&mut t, r, "port", &|r| I(port(r))); put(&mut t, r, "host", &|r| S(a_text(r))); put(&mut t, r, "capacity_in_seconds", &|r| I(count(r))); put(&mut t, r, "age_threshold", &|r| I(count(r))); T(t) });
        put(&mut f, r, "elasticsearch", &|r| {
            let mut t = Vec::new();
            put(&mut t, r, "port", &|r| I(count(r))); put(&mut t, r, "host", &|r| S(a_text(r))); put(&mut t, r, "delivery_attempt_limit", &|r| I(r.range(0, 255)));
            put(&mut t, r, "index-prefix", &|r| S(a_text(r))); put(&mut t, r, "index_type", &|r| S(a_text(r))); put(&mut t, r, "secure", &|r| B(r.chance(1, 2))); fl(&mut t, r);
            T(t)
        });
        put(&mut f, r, "native", &|r| { let mut t = Vec::new(); put(&mut t, r, "port", &|r| I(port(r))); put(&mut t, r, "host", &|r| S(a_text(r))); fl(&mut t, r); T(t) });
        put(&mut f, r, "kafka", &|r| named(r, &|r| {
            let mut t = Vec::new();
            if r.chance(1, 3) { t.push(("enabled".to_string(), B(r.chance(1, 2)))); }
            if r.chance(7, 8) { t.push(("topic".to_string(), S(a_text(r)))); }
            if r.chance(7, 8) { t.push(("brokers".to_string(), S(a_text(r)))); }
            put(&mut t, r, "max_message_bytes", &|r| I(count(r))); fl(&mut t, r);
            put(&mut t, r, "librdkafka", &|r| { let mut o: Tab = Vec::new(); for _ in 0..r.size(4, 20) { let n = a_name(r); if at(&o, &n).is_none() { let v = match r.below(6) { 0 => I(r.num()), 1 => F(real(r)), 2 => B(r.chance(1, 2)), 3 => L(vec![I(1)]), _ => S(a_text(r)) }; o.push((n, v)); } } T(o) });
            t
        }));
        c.push(("sinks".to_string(), T(f)));
    }
    if r.chance(4, 5) {
        let mut f: Tab = Vec::new();
        put(&mut f, r, "internal", &|r| { let mut t = Vec::new(); put(&mut t, r, "forwards", &|r| list(r, 0)); T(t) });
        put(&mut f, r, "files", &|r| named(r, &|r| { let mut t = Vec::new(); put(&mut t, r, "path", &|r| S(a_text(r))); put(&mut t, r, "max_read_bytes", &|r| I(count(r))); put(&mut t, r, "forwards", &|r| list(r, 0)); t }));
        let tcp = |r: &mut Rng, lo: usize, host: &str| {
            let mut t = Vec::new();
            if r.chance(1, 3) { t.push(("enabled".to_string(), B(r.chance(1, 2)))); }
            put(&mut t, r, "port", &|r| I(port(r))); put(&mut t, r, host, &|r| S(a_text(r)));
            if lo > 0 { let l = list(r, lo); t.push(("forwards".to_string(), l)); } else { put(&mut t, r, "forwards", &|r| list(r, 0)); }
            t
        };
        put(&mut f, r, "graphite", &|r| named(r, &|r| tcp(r, 1, "host")));
        put(&mut f, r, "avro", &|r| named(r, &|r| tcp(r, 1, "host")));
        put(&mut f, r, "native", &|r| named(r, &|r| tcp(r, 0, "ip")));
        put(&mut f, r, "statsd", &|r| named(r, &|r| {
            let mut t = tcp(r, 1, "host");
            put(&mut t, r, "summarize_error_bound", &|r| F(real(r)));
            put(&mut t, r, "mapping", &|r| named(r, &|r| vec![("mask".to_string(), S((*r.pick(&["", "^", ".*", "a+", "[0-9]", "\\.", "(x|y)"])).to_string() + &r.string("abc.", 1, 4))), ("bounds".to_string(), { let n = r.below(4); L((0..n).map(|_| F(real(r))).collect()) })]));
            t
        }));
        c.push(("sources".to_string(), T(f)));
    }
    mix(&mut c, r);
    c
}
fn mix(t: &mut Tab, r: &mut Rng) { for e in t.iter_mut() { if let T(ref mut x) = e.1 { mix(x, r); } } r.shuffle(t); }

// ---- what it states
fn txt(t: &Tab, k: &str, d: &str) -> String { match at(t, k) { Some(S(x)) => x.clone(), _ => d.to_string() } }
fn int(t: &Tab, k: &str, d: i64) -> i64 { match at(t, k) { Some(I(x)) => *x, _ => d } }
fn yes(t: &Tab, k: &str, d: bool) -> bool { match at(t, k) { Some(B(x)) => *x, _ => d } }
fn opt(t: &Tab, k: &str) -> Option<i64> { match at(t, k) { Some(I(x)) => Some(*x), _ => None } }
fn fwd(t: &Tab) -> Vec<String> { match at(t, "forwards") { Some(L(l)) => l.iter().map(|x| if let S(y) = x { y.clone() } else { "?".to_string() }).collect(), _ => vec![] } }
fn ticks(t: &Tab, k: &str, d: u64) -> u64 { match at(t, k) { Some(I(x)) => *x as u64 * 100, Some(F(f)) => (f * 100.0) as u64, _ => d } }
fn value(v: &V) -> V { match v { T(t) => S(std::env::var(&txt(t, "value", "")).unwrap()), v => v.clone() } }
fn stated(c: &Tab) -> Vec<String> {
    let none: Tab = Vec::new();
    let mut o = Vec::new();
    o.push(format!("hopper {} {} {}", int(c, "max-hopper-queue-bytes", 104857600), int(c, "max-hopper-queue-files", 100), int(c, "max-hopper-in-memory-bytes", 1048576)));
    let dir = txt(c, "scripts-directory", "/tmp/cernan-scripts");
    o.push(format!("dirs {:?} {:?}", txt(c, "data-directory", "/tmp/cernan-data"), dir));
    let g = ticks(c, "flush-interval", 6000);
    o.push(format!("flush {}", g));
    let tags: BTreeMap<String, String> = tab(c, "tags").unwrap_or(&none).iter().map(|(k, v)| (k.clone(), match value(v) { S(x) => x, _ => "?".to_string() })).collect();
    let tags = format!("{:?}", tags);
    let each = |o: &mut Vec<String>, top: &str, kind: &str, f: &dyn Fn(&str, &Tab) -> Option<String>| {
        if let Some(t) = tab(tab(c, top).unwrap_or(&none), kind) {
            o.push(format!("{} {}", top, kind));
            let mut v: Vec<&(String, V)> = t.iter().collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            for (n, x) in v { if let T(x) = x { if let Some(l) = f(n, x) { o.push(format!("{}.{} {}", top, kind, l)); } } }
        }
    };
    each(&mut o, "filters", "delay", &|n, t| opt(t, "tolerance").map(|x| format!("{} {} {:?}", n, x, fwd(t))));
    each(&mut o, "filters", "json_encode", &|n, t| Some(format!("{} {} {:?} {}", n, yes(t, "parse_line", false), fwd(t), tags)));
    each(&mut o, "filters", "flush_boundary", &|n, t| opt(t, "tolerance").map(|x| format!("{} {} {:?}", n, x, fwd(t))));
    each(&mut o, "filters", "programmable", &|n, t| at(t, "script").map(|_| format!("{} {:?} {:?} {:?} {} filters.programmable.{}", n, dir, std::path::Path::new(&dir).join(txt(t, "script", "")).to_str().unwrap(), fwd(t), tags, n)));
    let fl = |t: &Tab| ticks(t, "flush_interval", g);
    if let Some(f) = tab(c, "sinks") {
        if let Some(_) = tab(f, "null") { o.push("sinks.null".to_string()); }
        if let Some(t) = tab(f, "console") { o.push(format!("sinks.console {} {} {}", int(t, "bin_width", 1), fl(t), tags)); }
        if let Some(t) = tab(f, "wavefront") {
            let pad = tab(t, "padding").unwrap_or(&none);
            let mut ps: Vec<(String, f64)> = [("min", 0.0), ("max", 1.0), ("2", 0.02), ("9", 0.09), ("25", 0.25), ("50", 0.5), ("75", 0.75), ("90", 0.90), ("91", 0.91), ("95", 0.95), ("98", 0.98), ("99", 0.99), ("999", 0.999)].iter().map(|x| (x.0.to_string(), x.1)).collect();
            if let Some(p) = tab(t, "percentiles") { ps = p.iter().map(|(k, v)| (k.clone(), if let F(f) = v { *f } else { -1.0 })).collect(); ps.sort_by(|a, b| a.0.cmp(&b.0)); }
            o.push(format!("sinks.wavefront {} {:?} {} {:?} {} {} {} {} {:?} {} {}", int(t, "bin_width", 1), txt(t, "host", "localhost"), int(t, "port", 2878), opt(t, "age_threshold"), yes(pad, "set", false), yes(pad, "sum", false), yes(pad, "summarize", false), yes(pad, "histogram", false), ps, fl(t), tags));
        }
        if let Some(t) = tab(f, "influxdb") { o.push(format!("sinks.influxdb {} {} {:?} {:?} {} {}", int(t, "port", 8086), yes(t, "secure", true), txt(t, "host", "localhost"), txt(t, "db", "cernan"), fl(t), tags)); }
        if let Some(t) = tab(f, "prometheus") { o.push(format!("sinks.prometheus {} {:?} {} {:?} {}", int(t, "port", 8086), txt(t, "host", "localhost"), int(t, "capacity_in_seconds", 600), opt(t, "age_threshold"), tags)); }
        if let Some(t) = tab(f, "elasticsearch") { o.push(format!("sinks.elasticsearch {} {:?} {} {:?} {:?} {} {} {}", int(t, "port", 9200), txt(t, "host", "127.0.0.1"), int(t, "delivery_attempt_limit", 10), at(t, "index-prefix").map(|_| txt(t, "index-prefix", "")), txt(t, "index_type", "payload"), yes(t, "secure", false), fl(t), tags)); }
        if let Some(t) = tab(f, "native") { o.push(format!("sinks.native {} {:?} {} {}", int(t, "port", 1972), txt(t, "host", "localhost"), fl(t), tags)); }
    }
    each(&mut o, "sinks", "kafka", &|n, t| {
        if !yes(t, "enabled", true) || at(t, "topic").is_none() || at(t, "brokers").is_none() { return None; }
        let opts: Option<BTreeMap<String, String>> = tab(t, "librdkafka").map(|x| x.iter().filter_map(|(k, v)| match v { S(y) => Some((k.clone(), y.clone())), I(y) => Some((k.clone(), y.to_string())), F(y) => Some((k.clone(), y.to_string())), B(y) => Some((k.clone(), y.to_string())), _ => None }).collect());
        Some(format!("{:?} {:?} {:?} {:?} {} {}", n, txt(t, "topic", ""), txt(t, "brokers", ""), opts, int(t, "max_message_bytes", 10485760), fl(t)))
    });
    each(&mut o, "sources", "files", &|n, t| at(t, "path").map(|_| format!("{:?} {:?} {} {:?}", n, txt(t, "path", ""), int(t, "max_read_bytes", 2048), fwd(t))));
    let tcp = |n: &str, t: &Tab, p: i64, hk: &str, h: &str| if yes(t, "enabled", true) { Some(format!("{} {} {:?} {:?}", n, int(t, "port", p), txt(t, hk, h), fwd(t))) } else { None };
    each(&mut o, "sources", "statsd", &|n, t| tcp(n, t, 8125, "host", "localhost").map(|l| {
        let mut m: Vec<(String, String)> = tab(t, "mapping").unwrap_or(&none).iter().map(|(k, v)| (k.clone(), if let T(x) = v { format!("{:?} {:?}", txt(x, "mask", ""), match at(x, "bounds") { Some(L(l)) => l.iter().map(|f| if let F(f) = f { *f } else { -1.0 }).collect::<Vec<f64>>(), _ => vec![] }) } else { String::new() })).collect();
        m.sort();
        m.reverse();
        format!("{} {:?} {:?}", l, m.into_iter().map(|x| x.1).collect::<Vec<_>>(), match at(t, "summarize_error_bound") { Some(F(f)) => *f, _ => 0.01 })
    }));
    each(&mut o, "sources", "graphite", &|n, t| tcp(n, t, 2003, "host", "localhost"));
    each(&mut o, "sources", "avro", &|n, t| tcp(n, t, 2002, "host", "localhost"));
    each(&mut o, "sources", "native", &|n, t| tcp(n, t, 1972, "ip", "0.0.0.0"));
    o.push(format!("sources.internal {:?}", tab(tab(c, "sources").unwrap_or(&none), "internal").map_or(vec![], fwd)));
    o
}
// ---- what was read
fn tags_of(t: &cernan::metric::TagMap) -> String { let m: BTreeMap<String, String> = t.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); format!("{:?}", m) }
fn by_name<C>(o: &mut Vec<String>, m: &Option<HashMap<String, C>>, top: &str, kind: &str, f: &dyn Fn(&str, &str, &C) -> String) {
    if let Some(m) = m {
        o.push(format!("{} {}", top, kind));
        let pre = format!("{}.{}.", top, kind);
        let mut v: Vec<(&String, &C)> = m.iter().collect();
        v.sort_by(|a, b| a.0.cmp(b.0));
        for (k, c) in v { let n = if k.starts_with(&pre) { &k[pre.len()..] } else { "?" }; o.push(format!("{}{}", &pre[..pre.len() - 1], f(&format!(" {}", n), k, c))); }
    }
}
fn read(a: &Args) -> Vec<String> {
    let mut o = Vec::new();
    o.push(format!("hopper {} {} {}", a.max_hopper_queue_bytes, a.max_hopper_queue_files, a.max_hopper_in_memory_bytes));
    o.push(format!("dirs {:?} {:?}", a.data_directory.to_str().unwrap(), a.scripts_directory.to_str().unwrap()));
    o.push(format!("flush {}", a.flush_interval));
    by_name(&mut o, &a.delay_filters, "filters", "delay", &|n, _, c| format!("{} {} {:?}", n, c.tolerance, c.forwards));
    by_name(&mut o, &a.json_encode_filters, "filters", "json_encode", &|n, _, c| format!("{} {} {:?} {}", n, c.parse_line, c.forwards, tags_of(&c.tags)));
    by_name(&mut o, &a.flush_boundary_filters, "filters", "flush_boundary", &|n, _, c| format!("{} {} {:?}", n, c.tolerance, c.forwards));
    by_name(&mut o, &a.programmable_filters, "filters", "programmable", &|n, _, c| format!("{} {:?} {:?} {:?} {} {}", n, c.scripts_directory.as_ref().unwrap().to_str().unwrap(), c.script.as_ref().unwrap().to_str().unwrap(), c.forwards, tags_of(&c.tags), c.config_path.as_ref().unwrap()));
    if let Some(ref c) = a.null { o.push(c.config_path.clone()); }
    if let Some(ref c) = a.console { o.push(format!("{} {} {} {}", c.config_path.as_ref().unwrap(), c.bin_width, c.flush_interval, tags_of(&c.tags))); }
    if let Some(ref c) = a.wavefront { o.push(format!("{} {} {:?} {} {:?} {} {} {} {} {:?} {} {}", c.config_path.as_ref().unwrap(), c.bin_width, c.host, c.port, c.age_threshold, c.pad_control.set, c.pad_control.sum, c.pad_control.summarize, c.pad_control.histogram, c.percentiles, c.flush_interval, tags_of(&c.tags))); }
    if let Some(ref c) = a.influxdb { o.push(format!("{} {} {} {:?} {:?} {} {}", c.config_path.as_ref().unwrap(), c.port, c.secure, c.host, c.db, c.flush_interval, tags_of(&c.tags))); }
    if let Some(ref c) = a.prometheus { o.push(format!("{} {} {:?} {} {:?} {}", c.config_path.as_ref().unwrap(), c.port, c.host, c.capacity_in_seconds, c.age_threshold, tags_of(&c.tags))); }
    if let Some(ref c) = a.elasticsearch { o.push(format!("{} {} {:?} {} {:?} {:?} {} {} {}", c.config_path.as_ref().unwrap(), c.port, c.host, c.delivery_attempt_limit, c.index_prefix, c.index_type, c.secure, c.flush_interval, tags_of(&c.tags))); }
    if let Some(ref c) = a.native_sink_config { o.push(format!("{} {} {:?} {} {}", c.config_path.as_ref().unwrap(), c.port, c.host, c.flush_interval, tags_of(&c.tags))); }
    if let Some(ref v) = a.kafkas {
        o.push("sinks kafka".to_string());
        for c in v {
            let m: Option<BTreeMap<String, String>> = c.rdkafka_config.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
            let p = c.config_path.as_ref().unwrap();
            o.push(format!("sinks.kafka {:?} {:?} {:?} {:?} {} {}", if p.starts_with("sinks.kafka.") { &p[12..] } else { "?" }, c.topic_name.as_ref().unwrap(), c.brokers.as_ref().unwrap(), m, c.max_message_bytes, c.flush_interval));
        }
    }
    if let Some(ref v) = a.files {
        o.push("sources files".to_string());
        for c in v { let p = c.config_path.as_ref().unwrap(); o.push(format!("sources.files {:?} {:?} {} {:?}", if p.starts_with("sources.files.") { &p[14..] } else { "?" }, c.path.as_ref().unwrap().to_str().unwrap(), c.max_read_bytes, c.forwards)); }
    }
    by_name(&mut o, &a.statsds, "sources", "statsd", &|n, _, c| format!("{} {} {:?} {:?} {:?} {:?}", n, c.port, c.host, c.forwards, c.parse_config.histogram_masks.iter().map(|m| format!("{:?} {:?}", m.0.as_str(), m.1)).collect::<Vec<_>>(), c.parse_config.summarize_error_bound));
    by_name(&mut o, &a.graphites, "sources", "graphite", &|n, _, c| format!("{} {} {:?} {:?}", n, c.port, c.host, c.forwards));
    by_name(&mut o, &a.avros, "sources", "avro", &|n, _, c| format!("{} {} {:?} {:?}", n, c.port, c.host, c.forwards));
    by_name(&mut o, &a.native_server_config, "sources", "native", &|n, _, c| format!("{} {} {:?} {:?}", n, c.port, c.ip, c.forwards));
    o.push(format!("sources.internal {:?}", a.internal.forwards));
    o
}
fn parse(text: &str) -> Result<Args, ()> {
    let dir = ev::Dir::new();
    let p = format!("{}/cernan.toml", dir.0.display());
    std::fs::write(&p, text).unwrap();
    catch_unwind(AssertUnwindSafe(|| parse_config(&p))).map_err(|_| ())
}
/// a file's settings and sections, whatever their order
fn files(r: &mut Rng) -> Res {
    for i in 0..4 { std::env::set_var(format!("WIT_{}", i), ["", "prod", "a b", "\u{e9}=1"][i]); }
    let c = config(r);
    let mut text = String::new();
    write(&c, "", &mut text, r);
    note(&text);
    let want = stated(&c);
    match parse(&text) {
        Err(()) => fail("refused", text, format!("the file is refused: {}", last_panic())),
        Ok(a) => {
            let got = read(&a);
            if got != want {
                let n = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
                return fail("settings", text, format!("read as {:?}\n where the file states {:?}", got.get(n), want.get(n)));
            }
            ok(text, want.len() > 8)
        }
    }
}
/// a setting of the wrong type is refused, not read as something else
fn wrong(r: &mut Rng) -> Res {
    let cases: &[(&str, &[&str])] = &[
        ("max-hopper-queue-bytes = {}", &["\"1\"", "1.5", "true"]), ("max-hopper-queue-files = {}", &["\"1\""]), ("max-hopper-in-memory-bytes = {}", &["[1]"]),
        ("data-directory = {}", &["1", "true"]), ("scripts-directory = {}", &["1"]), ("flush-interval = {}", &["\"1\"", "true"]),
        ("tags = {}", &["1", "\"a\""]), ("[tags]\na = {}", &["1", "true", "[\"a\"]"]), ("[tags]\na = { environment = true, value = {} }", &["1", "\"WIT_NOT_SET\""]), ("[tags]\na = { environment = true }{}", &[""]),
        ("[filters.delay.a]\ntolerance = {}", &["\"1\"", "1.5"]), ("[filters.delay.a]\ntolerance = 1\nforwards = {}", &["\"a\"", "[1]"]),
        ("[filters.flush_boundary.a]\ntolerance = {}", &["\"1\""]), ("[filters.json_encode.a]\nparse_line = {}", &["1", "\"true\""]), ("[filters.programmable.a]\nscript = {}", &["1"]),
        ("sinks = {}", &["1"]), ("sources = {}", &["1"]),
        ("[sinks.console]\nbin_width = {}", &["1.5", "\"1\""]), ("[sinks.console]\nflush_interval = {}", &["\"1\"", "true", "[1]"]),
        ("[sinks.wavefront]\nport = {}", &["\"1\""]), ("[sinks.wavefront]\nhost = {}", &["1"]), ("[sinks.wavefront]\nage_threshold = {}", &["\"1\""]), ("[sinks.wavefront.percentiles]\na = {}", &["1", "\"0.5\""]), ("[sinks.wavefront.padding]\nsum = {}", &["1"]),
        ("[sinks.influxdb]\nsecure = {}", &["1"]), ("[sinks.influxdb]\ndb = {}", &["1"]), ("[sinks.prometheus]\ncapacity_in_seconds = {}", &["\"1\"", "1.0"]),
        ("[sinks.elasticsearch]\nindex-prefix = {}", &["1"]), ("[sinks.elasticsearch]\ndelivery_attempt_limit = {}", &["\"1\""]), ("[sinks.native]\nport = {}", &["1.0"]),
        ("[sinks.kafka.a]\ntopic = {}\nbrokers = \"b\"", &["1"]), ("[sinks.kafka.a]\ntopic = \"t\"\nbrokers = {}", &["1", "[\"b\"]"]), ("[sinks.kafka.a]\nenabled = {}", &["1"]), ("[sinks.kafka.a]\ntopic = \"t\"\nbrokers = \"b\"\nlibrdkafka = {}", &["1"]),
        ("[sources.files.a]\npath = {}", &["1"]), ("[sources.files.a]\npath = \"p\"\nmax_read_bytes = {}", &["\"1\""]),
        ("[sources.statsd.a]\nforwards = {}", &["[]", "1", "[1]"]), ("[sources.graphite.a]\nforwards = {}", &["[]"]), ("[sources.avro.a]\nforwards = {}", &["[]"]), ("[sources.avro.a]\nport = 1{}", &[""]), ("[sources.graphite.a]\nenabled = {}\nforwards = [\"a\"]", &["\"true\"", "1"]),
        ("[sources.statsd.a]\nforwards = [\"a\"]\nsummarize_error_bound = {}", &["1", "\"0.1\""]), ("[sources.statsd.a]\nforwards = [\"a\"]\n[sources.statsd.a.mapping.m]\nbounds = [1.0]\nmask = {}", &["1", "\"(\""]), ("[sources.statsd.a]\nforwards = [\"a\"]\n[sources.statsd.a.mapping.m]\nmask = \"a\"\nbounds = {}", &["1", "[1]"]),
        ("[sources.statsd.a]\nforwards = [\"a\"]\n[sources.statsd.a.mapping.m]\nmask = \"a\"{}", &[""]), ("[sources.statsd.a]\nforwards = [\"a\"]\n[sources.statsd.a.mapping.m]\nbounds = [1.0]{}", &[""]),
        ("[sources.native.a]\nip = {}", &["1"]), ("[sources.internal]\nforwards = {}", &["\"a\""]), ("this is no configuration{}", &[""]),
    ];
    let (t, vs) = *r.pick(cases);
    let text = t.replace("{}", *r.pick(vs)) + "\n";
    note(&text);
    match parse(&text) { Err(()) => ok(text, true), Ok(a) => fail("accepted", text, format!("the file is accepted, as {:?}", read(&a))) }
}
fn main() {
    wit::main(&[Case { name: "files", every: 1, run: files }, Case { name: "wrong", every: 3, run: wrong }]);
}
