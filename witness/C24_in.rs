pub mod verif {
    use super::*;
    use crate::wit::*;
    use cernan::thread::Stoppable;
    use std::collections::BTreeMap;
    use std::sync::atomic::AtomicUsize;
    use std::time::{Duration, Instant};
    type Known = (&'static str, bool, &'static AtomicUsize);
    static KNOWN: [Known; 59] = [
        ("cernan.util.hopper.error.full", false, &crate::util::UTIL_SEND_HOPPER_ERROR_FULL),
        ("cernan.graphite.new_peer", false, &crate::source::graphite::GRAPHITE_NEW_PEER),
        ("cernan.graphite.packet", false, &crate::source::graphite::GRAPHITE_GOOD_PACKET),
        ("cernan.graphite.telemetry.received", false, &crate::source::graphite::GRAPHITE_TELEM),
        ("cernan.graphite.bad_packet", false, &crate::source::graphite::GRAPHITE_BAD_PACKET),
        ("cernan.statsd.packet", false, &crate::source::statsd::STATSD_GOOD_PACKET),
        ("cernan.statsd.bad_packet", false, &crate::source::statsd::STATSD_BAD_PACKET),
        ("cernan.native.payload.success", false, &crate::source::native::NATIVE_PAYLOAD_SUCCESS_SUM),
        ("cernan.native.payload.parse.failure", false, &crate::source::native::NATIVE_PAYLOAD_PARSE_FAILURE_SUM),
        ("cernan.avro.payload.success", false, &crate::source::avro::AVRO_PAYLOAD_SUCCESS_SUM),
        ("cernan.avro.payload.parse.failure", false, &crate::source::avro::AVRO_PAYLOAD_PARSE_FAILURE_SUM),
        ("cernan.avro.payload.io.failure", false, &crate::source::avro::AVRO_PAYLOAD_IO_FAILURE_SUM),
        ("cernan.sinks.elasticsearch.records.delivery", false, &crate::sink::elasticsearch::ELASTIC_RECORDS_DELIVERY),
        ("cernan.sinks.elasticsearch.internal.buffer_len", false, &crate::sink::elasticsearch::ELASTIC_INTERNAL_BUFFER_LEN),
        ("cernan.sinks.elasticsearch.records.total_delivered", false, &crate::sink::elasticsearch::ELASTIC_RECORDS_TOTAL_DELIVERED),
        ("cernan.sinks.elasticsearch.records.total_failed", false, &crate::sink::elasticsearch::ELASTIC_RECORDS_TOTAL_FAILED),
        ("cernan.sinks.elasticsearch.error.unknown", false, &crate::sink::elasticsearch::ELASTIC_ERROR_UNKNOWN),
        ("cernan.sinks.elasticsearch.error.bulk_action.index", false, &crate::sink::elasticsearch::ELASTIC_BULK_ACTION_INDEX_ERR),
        ("cernan.sinks.elasticsearch.error.bulk_action.create", false, &crate::sink::elasticsearch::ELASTIC_BULK_ACTION_CREATE_ERR),
        ("cernan.sinks.elasticsearch.error.bulk_action.update", false, &crate::sink::elasticsearch::ELASTIC_BULK_ACTION_UPDATE_ERR),
        ("cernan.sinks.elasticsearch.error.bulk_action.delete", false, &crate::sink::elasticsearch::ELASTIC_BULK_ACTION_DELETE_ERR),
        ("cernan.sinks.elasticsearch.error.api.index_not_found", false, &crate::sink::elasticsearch::ELASTIC_ERROR_API_INDEX_NOT_FOUND),
        ("cernan.sinks.elasticsearch.error.api.parsing", false, &crate::sink::elasticsearch::ELASTIC_ERROR_API_PARSING),
        ("cernan.sinks.elasticsearch.error.api.mapper_parsing", false, &crate::sink::elasticsearch::ELASTIC_ERROR_API_MAPPER_PARSING),
        ("cernan.sinks.elasticsearch.error.api.action_request_validation", false, &crate::sink::elasticsearch::ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION),
        ("cernan.sinks.elasticsearch.error.api.action_document_missing", false, &crate::sink::elasticsearch::ELASTIC_ERROR_API_DOCUMENT_MISSING),
        ("cernan.sinks.elasticsearch.error.api.index_already_exists", false, &crate::sink::elasticsearch::ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS),
        ("cernan.sinks.elasticsearch.error.api.unknown", false, &crate::sink::elasticsearch::ELASTIC_ERROR_API_UNKNOWN),
        ("cernan.sinks.elasticsearch.error.client", false, &crate::sink::elasticsearch::ELASTIC_ERROR_CLIENT),
        ("cernan.sinks.wavefront.proxy.connection_attempts", false, &crate::sink::wavefront::WAVEFRONT_CONNECT_ATTEMPTS),
        ("cernan.sinks.wavefront.aggregations.total_stored", true, &crate::sink::wavefront::WAVEFRONT_AGGR_STORED_VALUES),
        ("cernan.sinks.wavefront.aggregation.histogram", false, &crate::sink::wavefront::WAVEFRONT_AGGR_HISTO),
        ("cernan.sinks.wavefront.aggregation.sum", false, &crate::sink::wavefront::WAVEFRONT_AGGR_SUM),
        ("cernan.sinks.wavefront.aggregation.set", false, &crate::sink::wavefront::WAVEFRONT_AGGR_SET),
        ("cernan.sinks.wavefront.aggregation.summarize", false, &crate::sink::wavefront::WAVEFRONT_AGGR_SUMMARIZE),
        ("cernan.sinks.wavefront.aggregation.summarize.total_percentiles", false, &crate::sink::wavefront::WAVEFRONT_AGGR_TOT_PERCENT),
        ("cernan.sinks.wavefront.delivery.success", false, &crate::sink::wavefront::WAVEFRONT_DELIVERY_SUCCESS),
        ("cernan.sinks.wavefront.delivery.failure", false, &crate::sink::wavefront::WAVEFRONT_DELIVERY_FAILURE),
        ("cernan.sinks.wavefront.valve.closed", false, &crate::sink::wavefront::WAVEFRONT_VALVE_CLOSED),
        ("cernan.sinks.wavefront.valve.open", false, &crate::sink::wavefront::WAVEFRONT_VALVE_OPEN),
        ("cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged", false, &crate::sink::prometheus::PROMETHEUS_AGGR_WINDOWED_PURGED),
        ("cernan.sinks.prometheus.exposition.inside_baseball.delay.sum", false, &crate::sink::prometheus::PROMETHEUS_RESPONSE_DELAY_SUM),
        ("cernan.sinks.prometheus.aggregation.reportable", true, &crate::sink::prometheus::PROMETHEUS_AGGR_REPORTABLE),
        ("cernan.sinks.prometheus.report.success", false, &crate::sink::prometheus::PROMETHEUS_REPORT_SUCCESS),
        ("cernan.sinks.prometheus.report.error", false, &crate::sink::prometheus::PROMETHEUS_REPORT_ERROR),
        ("cernan.sinks.influxdb.delivery_attempts", false, &crate::sink::influxdb::INFLUX_DELIVERY_ATTEMPTS),
        ("cernan.sinks.influxdb.success", false, &crate::sink::influxdb::INFLUX_SUCCESS),
        ("cernan.sinks.influxdb.failure.client_error", false, &crate::sink::influxdb::INFLUX_FAILURE_CLIENT),
        ("cernan.sinks.influxdb.failure.server_error", false, &crate::sink::influxdb::INFLUX_FAILURE_SERVER),
        ("cernan.sinks.kafka.publish.success", false, &crate::sink::kafka::KAFKA_PUBLISH_SUCCESS_SUM),
        ("cernan.sinks.kafka.publish.retry", false, &crate::sink::kafka::KAFKA_PUBLISH_RETRY_SUM),
        ("cernan.sinks.kafka.publish.failure", false, &crate::sink::kafka::KAFKA_PUBLISH_FAILURE_SUM),
        ("cernan.sinks.kafka.publish.retry.failure", false, &crate::sink::kafka::KAFKA_PUBLISH_RETRY_FAILURE_SUM),
        ("cernan.filters.delay.telemetry.accept", false, &crate::filter::delay_filter::DELAY_TELEM_ACCEPT),
        ("cernan.filters.delay.telemetry.reject", false, &crate::filter::delay_filter::DELAY_TELEM_REJECT),
        ("cernan.filters.delay.log.reject", false, &crate::filter::delay_filter::DELAY_LOG_REJECT),
        ("cernan.filters.delay.log.accept", false, &crate::filter::delay_filter::DELAY_LOG_ACCEPT),
        ("cernan.filters.json_encode.log.processed", false, &crate::filter::json_encode_filter::JSON_ENCODE_LOG_PROCESSED),
        ("cernan.filters.json_encode.log.parsed", false, &crate::filter::json_encode_filter::JSON_ENCODE_LOG_PARSED),
    ];
    fn show(t: &Telemetry) -> String {
        let mut g: Vec<(String, String)> = t.tags(&Default::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
        g.sort();
        format!("{} {:?} {} persist={} {:?}", t.name, t.kind(), crate::pts::value(t), t.persist, g)
    }
    /// counts gathered over some seconds, and points reported, then the call to end
    pub fn rounds(r: &mut Rng) -> Res {
        let forwards = if r.chance(1, 5) { 0 } else { 1 + r.below(2) };
        let (mut snds, mut rcvs, mut dirs) = (Vec::new(), Vec::new(), Vec::new());
        for _ in 0..forwards {
            let dir = crate::ev::Dir::new();
            let (s, v) = hopper::channel_with_explicit_capacity::<metric::Event>("a", &dir.0, 1 << 24, 1 << 24, 100).unwrap();
            snds.push(s);
            rcvs.push(v);
            dirs.push(dir);
        }
        for k in KNOWN.iter() { k.2.store(0, Ordering::Relaxed); }
        while let Some(_) = Q.pop() {}
        let h = cernan::thread::spawn(move |p| source::Source::run(Internal {}, snds, p));
        let mut d = format!("{} forwards:", forwards);
        let mut due: Vec<String> = Vec::new();
        let before = time::now();
        let mut fresh = Instant::now();
        let mut stalled = false;
        for _ in 0..1 + r.below(2) {
            let all = r.chance(1, 3);
            for (i, k) in KNOWN.iter().enumerate() {
                if !all && r.chance(1, 2) { continue; }
                let n = match r.below(6) { 0 => 1, 1 => usize::max_value() - r.below(3), 2 => 1 << r.below(64), 3 => r.num() as usize, _ => 1 + i + r.below(1000) };
                if n == 0 { continue; }
                // counted in two goes
                let a = r.below(1 + n.min(1000));
                let got = k.2.fetch_add(a, Ordering::Relaxed);
                k.2.fetch_add(n - a, Ordering::Relaxed);
                if got != 0 { return fail("left", d, format!("{} holds {} already", k.0, got)); }
                d += &format!(" {}={}", k.0, n);
                // what is counted while the source looks may be reported in two parts
                let f = n as f64;
                due.push(format!("{} {:?} Some({:?}) persist=false []", k.0, if k.1 { AggregationMethod::Set } else { AggregationMethod::Sum }, f));
            }
            for _ in 0..if forwards == 0 { r.size(40, 60) } else { r.size(4, 9) } {
                let name = r.text("ab.", 0, 4, |_| true);
                let v = r.range(-50, 50) as f64 / 2.0;
                let tags: Vec<(String, String)> = (0..r.below(4)).map(|_| (r.text("kl", 0, 1, |_| true), r.text("xy ", 0, 2, |_| true))).collect();
                let pairs: Vec<(&str, &str)> = tags.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                report_full_telemetry(&name, v, if pairs.is_empty() && r.chance(1, 2) { None } else { Some(pairs) });
                let m: BTreeMap<String, String> = tags.into_iter().collect();
                let s = format!("{} Sum Some({:?}) persist=false {:?}", name, v, m.into_iter().collect::<Vec<_>>());
                d += &format!(" reported {};", s);
                due.push(s);
            }
            note(&d);
            // a round, which ends with the queue
            report_full_telemetry("last", 1.0, None);
            due.push("last Sum Some(1.0) persist=false []".to_string());
            // the source may have looked while the counters were being set
            stalled = stalled || fresh.elapsed() > Duration::from_millis(600);
            let start = Instant::now();
            let last = std::cell::Cell::new(start);
            let wait = |done: &dyn Fn() -> bool| {
                while !done() && start.elapsed().as_secs() < 12 { last.set(Instant::now()); std::thread::sleep(Duration::from_millis(2)); }
                done()
            };
            if forwards == 0 {
                std::thread::sleep(Duration::from_millis(1_100));
                if !wait(&|| Q.is_empty()) { return fail("kept", d, "without a forward, reported points are kept".to_string()); }
                for k in KNOWN.iter() { k.2.store(0, Ordering::Relaxed); }
            } else if !wait(&|| KNOWN.iter().all(|k| k.2.load(Ordering::Relaxed) == 0)) {
                let k = KNOWN.iter().find(|k| k.2.load(Ordering::Relaxed) != 0);
                return fail("unread", d, format!("{} is not looked at", k.map_or("", |k| k.0)));
            } else if !Q.is_empty() && {
                // by its next look, it has taken all that was reported before this one
                KNOWN[0].2.fetch_add(1, Ordering::Relaxed);
                due.push(format!("{} Sum Some(1.0) persist=false []", KNOWN[0].0));
                !wait(&|| KNOWN[0].2.load(Ordering::Relaxed) == 0) || !Q.is_empty()
            } {
                return fail("unread", d, "reported points are not looked at".to_string());
            }
            fresh = last.get();
            d += " a second;";
        }
        // the round is over, wherever it was
        std::thread::sleep(Duration::from_millis(5));
        h.shutdown();
        let after = time::now();
        due.sort();
        for v in &mut rcvs {
            let mut got: Vec<String> = Vec::new();
            let mut it = v.iter();
            loop {
                match it.next() {
                    Some(metric::Event::Telemetry(t)) => {
                        if t.timestamp < before || t.timestamp > after { return fail("time", d, format!("{} is of {}, reported between {} and {}", t.name, t.timestamp, before, after)); }
                        got.push(show(&t));
                    }
                    Some(metric::Event::Shutdown) => break,
                    Some(_) => return fail("other", d, "something else than a point is sent".to_string()),
                    None => return fail("no-end", d, "the end is not announced".to_string()),
                }
            }
            got.sort();
            if got != due && !stalled {
                let x = due.iter().find(|x| got.iter().filter(|y| y == x).count() < due.iter().filter(|y| y == x).count());
                let y = got.iter().find(|x| got.iter().filter(|y| y == x).count() > due.iter().filter(|y| y == x).count());
                return fail("points", d, format!("{:?} was due and {:?} was sent", x, y));
            }
        }
        ok(d, forwards > 0)
    }
    /// what is counted while the source takes stock is reported too, and just once
    pub fn race(r: &mut Rng) -> Res {
        let dir = crate::ev::Dir::new();
        let (s, mut v) = hopper::channel_with_explicit_capacity::<metric::Event>("a", &dir.0, 1 << 24, 1 << 24, 100).unwrap();
        for k in KNOWN.iter() { k.2.store(0, Ordering::Relaxed); }
        while let Some(_) = Q.pop() {}
        let h = cernan::thread::spawn(move |p| source::Source::run(Internal {}, vec![s], p));
        let mut of: Vec<Known> = KNOWN.iter().filter(|k| !k.1).cloned().collect();
        r.shuffle(&mut of);
        of.truncate(6);
        let end = Instant::now() + Duration::from_millis(3_300);
        let workers: Vec<_> = of.iter().map(|k| { let c = k.2; std::thread::spawn(move || {
            let mut n = 0usize;
            while Instant::now() < end { for _ in 0..5000 { c.fetch_add(1, Ordering::Relaxed); n += 1; } }
            n
        })}).collect();
        let made: Vec<usize> = workers.into_iter().map(|w| w.join().unwrap()).collect();
        let d = format!("{:?} counted over 3.3 seconds without pause", of.iter().map(|k| k.0).zip(&made).collect::<Vec<_>>());
        note(&d);
        let start = Instant::now();
        while KNOWN.iter().any(|k| k.2.load(Ordering::Relaxed) != 0) && start.elapsed().as_secs() < 12 { std::thread::sleep(Duration::from_millis(2)); }
        std::thread::sleep(Duration::from_millis(20));
        h.shutdown();
        let mut got: BTreeMap<String, f64> = BTreeMap::new();
        for e in v.iter() {
            match e {
                metric::Event::Shutdown => break,
                metric::Event::Telemetry(t) => *got.entry(t.name.clone()).or_insert(0.0) += t.sum().unwrap_or(0.0),
                _ => {}
            }
        }
        for (k, n) in of.iter().zip(&made) {
            let g = got.get(k.0).cloned().unwrap_or(0.0);
            if g != *n as f64 { return fail("race", d, format!("{}: {} counted, {} reported", k.0, n, g)); }
        }
        ok(d, true)
    }
}
